// C12: what solving a nonlinear system returns.
#include "solve.h"
using namespace sv;
namespace {
const std::vector<std::string> &one() {
    static const std::vector<std::string> e = {
        "x", "x-2", "2*x+3", "5", "0", "x^2-2", "x^2", "x^2+1", "x^3-x", "x^3-2*x+2", "x^4-16", "(x-1)*(x-2)*(x-5)", "sin(x)", "cos(x)-x", "tan(x)-1", "exp(x)-3", "exp(x)", "log(x)", "log(x)+5",
        "log2(x)-3", "log10(x)+1", "sqrt(x)-3", "sqrt(x)+1", "1/x", "1/x-2", "x/(x-1)", "arctan(x)", "arcsin(x)-0.5", "arccos(x)-1", "x^x-4", "x^0.5-2", "2^x-8", "x^(1/3)-2", "exp(-x)-x", "x*exp(x)-1",
        "x-x", "(x-1)^5", "1000000*x-3", "x/1000000-1", "x^2-1e-12", "sin(1/x)", "x%3", "x&1", "x|x", "abc-1", "log(log(x))", "sqrt(sin(x))", "x^20-1", "exp(exp(x))-20", "-x-7"};
    return e;
}
const std::vector<std::string> &two() {
    static const std::vector<std::string> e = {"x-y", "x+y-3", "2*x-3*y+1", "x^2+y^2-5", "x*y-2", "x^2-y", "sin(x)-y", "exp(x)-y", "log(x)+y", "x/y-2", "sqrt(x*y)-1", "x-1", "y^2-4", "x^y-8", "x^2+y^2", "1", "y/x", "cos(x*y)", "x^3-y^3-7", "(x-y)^2", "x%y", "arctan(x+y)-1", "1/(x-y)", "x-y-1"};
    return e;
}
const std::vector<double> &starts() {
    static const std::vector<double> s = {1, 0, -1, 0.5, 2, 3.7, -4, 10, 1e-8, -100, 1e6, -1e-3, 1e12};
    return s;
}
} // namespace
void mc::harness() {
    bool th = opt.thorough;
    // one unknown: every equation x start x method x entry x invalid-number switch x epsilon x iteration limit
    {
        uint64_t n = one().size() * starts().size() * 2 * 3 * 2 * 3 * 4;
        auto dec = [](uint64_t i) { mc::Dec d(i); struct C { uint64_t m, entry, sw, eps, lim, s, e; } c; c.m = d.take(2); c.entry = d.take(3); c.sw = d.take(2); c.eps = d.take(3); c.lim = d.take(4); c.s = d.take(starts().size()); c.e = d.take(one().size()); return c; };
        mc::add("one-unknown", "50 equations x 13 starts x 2 methods x 3 ways to call x invalid-number switch x epsilon {1e-9,1e-3,1e-12} x iteration limit {100,8,0,-1}", n, [=](uint64_t i) {
            auto c = dec(i);
            ConfigGuard cg;
            Config &k = Config::Get();
            k.throwOnInvalidValue = !c.sw; k.epsilon = c.eps == 0 ? 1e-9 : c.eps == 1 ? 1e-3 : 1e-12; k.maxIterations = c.lim == 0 ? (c.sw && c.m ? 12 : 100) : c.lim == 1 ? 8 : c.lim == 2 ? 0 : -1;
            if (c.sw && c.m && c.lim == 0 && c.entry) return;
            k.initialValue = starts()[c.s];
            Sys s{one()[c.e]};
            std::string v = s.names().empty() ? "x" : *s.names().begin();
            call(s, {{v, starts()[c.s]}}, method(c.m), (int)c.entry);
        }, [=](uint64_t i) { auto c = dec(i); std::ostringstream o; o << one()[c.e] << " from " << starts()[c.s] << " by " << mname(c.m) << ", way " << c.entry << ", check of invalid numbers " << (c.sw ? "off" : "on") << ", epsilon #" << c.eps << ", limit #" << c.lim; return o.str(); }, 8);
    }
    // two unknowns: every ordered pair of equations
    {
        static int ns = th ? 13 : 8, ns2 = th ? 7 : 5;
        uint64_t E = two().size(), n = E * E * ns * ns2 * 2;
        auto dec = [E](uint64_t i) { mc::Dec d(i); struct C { uint64_t m, a, b, e, f; } c; c.m = d.take(2); c.e = d.take(E); c.f = d.take(E); c.a = d.take(ns); c.b = d.take(ns2); return c; };
        mc::add("two-unknowns", "every ordered pair of 24 equations in x and y x starts x 2 methods", n, [=](uint64_t i) {
            auto c = dec(i);
            ConfigGuard cg;
            Config::Get().maxIterations = c.m ? 30 : 100;
            call(Sys{two()[c.e], two()[c.f]}, {{"x", starts()[c.a]}, {"y", starts()[c.b] + 0.25}}, method(c.m), 0);
        }, [=](uint64_t i) { auto c = dec(i); std::ostringstream o; o << two()[c.e] << ", " << two()[c.f] << " from x=" << starts()[c.a] << " y=" << starts()[c.b] + 0.25 << " by " << mname(c.m); return o.str(); }, 16);
        // the check of invalid numbers off: NaN and infinity run through the iterations
        mc::add("two-unknowns/unchecked", "every ordered pair x 4 starts x 2 methods, check of invalid numbers off, limit 4", E * E * 4 * 2, [=](uint64_t i) {
            mc::Dec d(i);
            uint64_t m = d.take(2), a = d.take(4), e = d.take(E), f = d.take(E);
            ConfigGuard cg;
            Config::Get().maxIterations = m ? 2 : 20;
            Config::Get().throwOnInvalidValue = false;
            call(Sys{two()[e], two()[f]}, {{"x", starts()[a]}, {"y", a == 3 ? 0 : starts()[a]}}, method(m), 0);
        }, nullptr, 4);
    }
    // more or fewer equations than unknowns, tables with missing or more variables
    {
        static const std::vector<std::vector<std::string>> tb = {{"x"}, {"y"}, {"x", "y"}, {"y", "x"}, {"z", "x", "y"}, {"x", "y", "z", "w"}};
        static std::vector<std::vector<int>> sets;
        sets.clear();
        int E = (int)two().size();
        for (int a = 0; a < E; ++a) { sets.push_back({a}); for (int b = 0; b < E; b += 5) for (int c = 0; c < E; c += 3) sets.push_back({a, b, c}); for (int b = a; b < E; b += 4) sets.push_back({a, b}); }
        mc::add("other-shapes", "1 to 3 equations x tables with 1 to 4 variables (missing, more, other order) x 3 starts x 2 methods x indeterminate allowed or not", sets.size() * tb.size() * 3 * 2 * 2, [](uint64_t i) {
            mc::Dec d(i);
            uint64_t m = d.take(2), al = d.take(2), st = d.take(3), t = d.take(tb.size()), q = d.take(sets.size());
            ConfigGuard cg;
            Config::Get().allowIndeterminateEquation = al;
            Config::Get().maxIterations = m ? 10 : 40;
            Sys s;
            for (int k : sets[q]) s.eq.push_back(two()[k]);
            Start x;
            for (size_t k = 0; k < tb[t].size(); ++k) x.push_back({tb[t][k], st == 0 ? 1.0 : st == 1 ? 0.0 : k + 1.5});
            Out o = call(s, x, method(m), 0);
            auto nm = s.names();
            std::set<std::string> has;
            for (auto &p : x) has.insert(p.first);
            for (auto &p : nm) if (!has.count(p) && o.k == Out::OK) mc::failf("solved although ", p, " has no value");
        }, [](uint64_t i) { mc::Dec d(i); uint64_t m = d.take(2), al = d.take(2), st = d.take(3), t = d.take(tb.size()), q = d.take(sets.size()); std::string s; for (int k : sets[q]) s += two()[k] + "; "; for (auto &v : tb[t]) s += " " + v; return s + " start #" + std::to_string(st) + " " + mname(m) + (al ? ", indeterminate allowed" : ""); }, 16);
    }
    // settings and starts at the ends of their ranges
    {
        static const std::vector<Sys> es = {{"x-2"}, {"x^2-2"}, {"x^2+1"}, {"exp(x)-3"}, {"sin(x)"}, {"1/x"}, {"log(x)"}, {"x^3-x"}, {"1000000*x-3"}, {"x/1000000-1"}, {"5"}, {"x+y-3", "x-y-1"}, {"x^2+y^2-5", "x*y-2"}, {"x*y", "x"}, {"x+y", "x-y", "x*y"}};
        static const std::vector<double> eps = {0, 5e-324, 1e-300, 1e-17, 1e-15, 1e-6, 0.01, 0.1, 0.5, 1, 10, 1000, 1e300, INFINITY, -1, -INFINITY};
        static const std::vector<double> st = {1, 0, -0.0, -3, 1.4142135623730951, 1e-300, 1e150, 1.7976931348623157e308, -1e308, INFINITY, -INFINITY, NAN};
        static const int lims[] = {20, 1, 0, -1, -2147483647 - 1};
        mc::add("configurations", "15 systems x 16 values of epsilon from 0 to infinity and below 0 x 12 starts up to infinite and NaN x 5 limits down to INT_MIN x 2 methods x check of invalid numbers x 2 ways to call", es.size() * eps.size() * st.size() * 5 * 2 * 2 * 2, [](uint64_t i) {
            mc::Dec d(i);
            uint64_t en = d.take(2), m = d.take(2), sw = d.take(2), l = d.take(5), k = d.take(st.size()), e = d.take(eps.size());
            const Sys &s = es[d.take(es.size())];
            if (en && std::isnan(st[k])) return;
            ConfigGuard cg;
            Config &c = Config::Get();
            c.epsilon = eps[e]; c.maxIterations = l || !m ? lims[l] : 5; c.throwOnInvalidValue = !sw; c.initialValue = en ? st[k] : 1;
            Start x;
            for (auto &v : s.names()) x.push_back({v, st[k]});
            if (x.empty()) x.push_back({"x", st[k]});
            Out o = call(s, x, method(m), en ? 2 : 0);
            if (o.k == Out::OK && eps[e] < 0) mc::failf(s.text(), " was solved although no value is within a negative epsilon of 0");
            if (s.eq[0] == "x^2+1" && eps[e] < 1 && o.k == Out::OK) mc::failf(s.text(), " has no solution, but ", o.text(), "was returned");
        }, [](uint64_t i) { mc::Dec d(i); uint64_t en = d.take(2), m = d.take(2), sw = d.take(2), l = d.take(5), k = d.take(st.size()), e = d.take(eps.size()); std::ostringstream o; o << es[d.take(es.size())].text() << " from " << st[k] << (en ? " as configured" : "") << " by " << mname(m) << ", epsilon " << eps[e] << ", limit " << lims[l] << ", check of invalid numbers " << (sw ? "off" : "on"); return o.str(); }, 16);
        mc::spaces.back().hang = 15;
        mc::add("configurations/method", "9 values that name no method x both ways to call x with and without a solution: an exception", 9 * 2 * 2, [](uint64_t i) {
            static const int v[] = {-1, 2, 3, 4, 8, 255, 256, 12345, 2147483647};
            mc::Dec d(i);
            int k = (int)d.take(9);
            bool tab = d.take(2), ok = d.take(2);
            ConfigGuard cg;
            Config::Get().nonlinearMethod = (NonlinearMethod)v[k];
            SymVec f{Parse(ok ? "x-1" : "x^2+1")};
            mc::step();
            bool thrown = false;
            try { tab ? Solve(f, VarsTable({"x"}, 1)) : Solve(f); } catch (const std::exception &) { thrown = true; }
            if (!thrown) mc::failf("method ", v[k], " is accepted");
        });
    }
    // no unknowns at all: the empty table is the solution when all equations hold
    {
        static const std::vector<std::string> k = {"0", "1-1", "1", "1e-10", "1e-8", "sin(0)", "-3", "2^0.5-sqrt(2)", "1/0", "log(-1)", "0*(1/0)"};
        static const uint64_t K = k.size();
        auto eqs = [](uint64_t i) { Sys s; int n = 1; uint64_t c = K; while (i >= c) { i -= c; c *= K; ++n; } for (int j = 0; j < n; ++j) { s.eq.push_back(k[i % K]); i /= K; } return s; };
        mc::add("no-unknowns", "every system of 1 or 2 (thorough: 3) of 11 constants x 3 entries x 2 methods x indeterminate allowed or not x check of invalid numbers x 3 limits x table without variables", (K + K * K + (th ? K * K * K : 0)) * 3 * 2 * 2 * 2 * 3, [=](uint64_t i) {
            mc::Dec d(i);
            uint64_t m = d.take(2), al = d.take(2), sw = d.take(2), entry = d.take(3), lim = d.take(3);
            ConfigGuard cg;
            Config::Get().allowIndeterminateEquation = al;
            Config::Get().throwOnInvalidValue = !sw;
            Config::Get().maxIterations = lim == 0 ? 20 : lim == 1 ? 0 : -1;
            Sys s = eqs(d.v);
            bool holds = true;
            for (auto &e : s.eq) if (e == "1/0" || e == "log(-1)" || e == "0*(1/0)" || e == "1" || e == "-3" || e == "1e-8") holds = false;
            Out o = call(s, {}, method(m), (int)entry);
            if (holds != (o.k == Out::OK)) mc::failf(s.text(), holds ? " holds, but the call ended with " : " does not hold, but the call returned ", o.text());
        }, [=](uint64_t i) { mc::Dec d(i); uint64_t m = d.take(2); d.take(2); d.take(2); d.take(3); d.take(3); return eqs(d.v).text() + " by " + mname(m); }, 16);
        mc::spaces.back().hang = 15;
    }
    // systems that must be solvable: a regular root nearby; both methods must return it
    {
        struct P { Sys s; Start root; };
        static const std::vector<P> ps = {
            {{"x^2-2"}, {{"x", std::sqrt(2.0)}}}, {{"x^3-x"}, {{"x", 1}}}, {{"x^3-x"}, {{"x", 0}}}, {{"cos(x)-x"}, {{"x", 0.73908513321516064}}}, {{"exp(x)-3"}, {{"x", std::log(3.0)}}}, {{"log(x)+1"}, {{"x", std::exp(-1.0)}}},
            {{"x^2+y^2-5", "x*y-2"}, {{"x", 2}, {"y", 1}}}, {{"x^2+y^2-5", "x*y-2"}, {{"x", -2}, {"y", -1}}}, {{"x^2+y^2-5", "x*y-2"}, {{"x", 1}, {"y", 2}}}, {{"sin(x)-y", "x-1"}, {{"x", 1}, {"y", std::sin(1.0)}}},
            {{"x+y+z-6", "x*y*z-6", "x^2+y^2+z^2-14"}, {{"x", 1}, {"y", 2}, {"z", 3}}}, {{"x+y+z-6", "x*y*z-6", "x^2+y^2+z^2-14"}, {{"x", 3}, {"y", 1}, {"z", 2}}},
            {{"x+y-3", "x-y-1", "z*x-4", "w-z-y"}, {{"x", 2}, {"y", 1}, {"z", 2}, {"w", 3}}}, {{"exp(x)*y-2", "x+y-2"}, {{"x", 0}, {"y", 2}}}, {{"x/y-2", "x+y-6"}, {{"x", 4}, {"y", 2}}}, {{"x^y-8", "y-3"}, {{"x", 2}, {"y", 3}}}};
        static const double off[] = {0, 1e-3, -1e-3, 1e-2, -1e-2};
        mc::add("near-a-root", "16 systems with a regular root x starts at and near it x 2 methods x 3 entries", ps.size() * 25 * 2 * 2, [](uint64_t i) {
            mc::Dec d(i);
            uint64_t m = d.take(2), en = d.take(2), a = d.take(5), b = d.take(5);
            auto &p = ps[d.take(ps.size())];
            ConfigGuard cg;
            Start s = p.root;
            for (size_t k = 0; k < s.size(); ++k) s[k].second += off[k % 2 ? b : a];
            Out o = call(p.s, s, method(m), (int)en);
            if (o.k != Out::OK) mc::failf(p.s.text(), " from ", text(s), "by ", mname(m), " is not solved: ", o.text());
            for (auto &q : p.root) if (!(std::fabs(o.at(q.first) - q.second) < 1e-5)) mc::failf(p.s.text(), " from ", text(s), "by ", mname(m), ": other root ", o.text());
        }, nullptr, 8);
    }
    // many unknowns: residuals that cancel, signs, one equation that is not satisfied
    {
        static const int N = th ? 24 : 14, K = 8, S = 5;
        auto dec = [](uint64_t i) { mc::Dec d(i); struct C { uint64_t m, rot, extra, s, kind; int n; } c; c.m = d.take(2); c.rot = d.take(2); c.extra = d.take(3); c.s = d.take(S); c.kind = d.take(K); c.n = (int)d.v + 1; return c; };
        auto make = [](int n, uint64_t kind, uint64_t rot, uint64_t extra, uint64_t st, Start &x) {
            Sys s;
            auto name = [](int k) { return "v" + std::to_string(k); };
            auto sign = [](int k) { return k % 2 ? "+" : "-"; };
            std::vector<double> root(n);
            for (int k = 0; k < n; ++k) {
                std::string v = name(k), w = name((k + 1) % n), c = std::to_string(k / 2 + 1);
                root[k] = (k % 2 ? -1 : 1) * (k / 2 + 1.0);
                switch (kind) {
                case 0: s.eq.push_back(v + sign(k) + c); break;
                case 1: s.eq.push_back("2*" + v + sign(k) + std::to_string(2 * (k / 2 + 1))); break;
                case 2: s.eq.push_back(v + "^2-" + std::to_string((k / 2 + 1) * (k / 2 + 1))); break;
                case 3: s.eq.push_back(k ? v + "-" + name(k - 1) + "-1" : v + "-1"); root[k] = k + 1; break;
                case 4: s.eq.push_back(k + 1 < n ? v + "*" + v + "-" + w : v + "-1"); root[k] = 1; break;
                case 5: s.eq.push_back(k + 1 < n ? v : v + "-3"); root[k] = k + 1 < n ? 0 : 3; break;
                case 6: s.eq.push_back(k == 0 ? v + "^2+1" : v + "-1"); root[k] = 1; break;   // no solution
                case 7: s.eq.push_back(k % 2 ? v + "+" + name(k - 1) : v + "-1"); root[k] = k % 2 ? -1 : 1; break;
                }
            }
            if (extra == 1) s.eq.push_back(name(0) + "-" + name(n - 1) + (n == 1 ? "" : "+") + (n == 1 ? "" : std::to_string((long long)(root[n - 1] - root[0]))));
            if (extra == 2 && n > 1) s.eq.pop_back();
            for (size_t k = 0; k < s.eq.size(); ++k) { auto p = s.eq[k].find("+-"); if (p != std::string::npos) s.eq[k].replace(p, 2, "-"); }
            if (rot) std::rotate(s.eq.begin(), s.eq.begin() + s.eq.size() / 2, s.eq.end());
            for (int k = 0; k < n; ++k) x.push_back({name(k), st == 0 ? 0 : st == 1 ? 1 : st == 2 ? root[k] : st == 3 ? (k == n / 2 ? root[k] + 0.5 : root[k]) : (k % 2 ? -0.75 : 0.75)});
            return s;
        };
        mc::add("many-unknowns", "1 to " + std::to_string(N) + " unknowns x 8 kinds of systems x as many, one more and one less equation x 5 starts x order of the equations x 2 methods", (uint64_t)N * K * S * 3 * 2 * 2, [=](uint64_t i) {
            auto c = dec(i);
            ConfigGuard cg;
            Config::Get().maxIterations = c.m ? 6 : 30;
            Config::Get().allowIndeterminateEquation = c.extra == 2;
            Start x;
            Sys s = make(c.n, c.kind, c.rot, c.extra, c.s, x);
            Out o = call(s, x, method(c.m), 0);
            if (c.kind == 6 && !(c.extra == 2 && c.n > 1 && false) && o.k == Out::OK) mc::failf(s.text(), " has no solution, but ", o.text(), "was returned");
            bool affine = c.kind == 0 || c.kind == 1 || c.kind == 3 || c.kind == 5 || c.kind == 7;
            if (c.m == 0 && c.extra == 0 && affine && o.k != Out::OK) mc::failf(s.text(), " from ", text(x), "by ", mname(c.m), " is not solved: ", o.text());
            if (c.s == 2 && c.kind != 6 && o.k != Out::OK) mc::failf(s.text(), " from its solution ", text(x), "by ", mname(c.m), " is not solved: ", o.text());
        }, [=](uint64_t i) { auto c = dec(i); Start x; Sys s = make(c.n, c.kind, c.rot, c.extra, c.s, x); return s.text() + " from " + text(x) + "by " + mname(c.m); }, 2);
    }
    // never-ending iterations must stop at the limit
    {
        static const std::vector<std::pair<std::string, double>> cyc = {{"x^3-2*x+2", 0}, {"x^2+1", 1}, {"x^2+1", 0.57735026918962573}, {"x^2+3", 1}, {"exp(x)+1", 0}, {"exp(-x)", 0}, {"arctan(x)", 1.5}, {"arctan(x)", 1.3917452002707349}, {"sin(x)+2", 1}, {"x^4+x^2+1", 2}, {"sqrt(x^2+1)", 3}, {"x^2+1e-6", 1}, {"cos(x)+1.5", 0.5}, {"(x^2+1)*x^2+1", 0.3}};
        for (int mm = 0; mm < 2; ++mm) {
            mc::add(std::string("no-solution/") + (mm ? "LM" : "NR"), "iterations that never converge end with an exception for every iteration limit", cyc.size() * 12 * 2, [mm](uint64_t i) {
                static const int lim[] = {0, 1, 2, 3, 5, 10, 30, 100, 300, 1000, 2000, 4000};
                mc::Dec d(i);
                ConfigGuard cg;
                bool sw = d.take(2);
                int L = lim[d.take(12)];
                if ((sw || mm) && L > 30) return;
                Config::Get().maxIterations = L;
                Config::Get().throwOnInvalidValue = !sw;
                auto &p = cyc[d.take(cyc.size())];
                Out o = call(Sys{p.first}, {{"x", p.second}}, method(mm), 0);
                if (o.k == Out::OK && p.first != "exp(-x)" && p.first != "arctan(x)") mc::failf(p.first, " has no real root, but ", o.text(), "was returned");
            }, [mm](uint64_t i) { mc::Dec d(i); d.take(2); d.take(12); return cyc[d.v].first; }, 1);
            mc::spaces.back().hang = 15;
        }
    }
}
