// C13: starting values, iteration limit, log level and variable order in nonlinear solving.
#include "solve.h"
using namespace sv;
namespace {
// an independent Newton iteration (Taylor arithmetic for the Jacobian, Gauss with complete pivoting); -1: not regular
int newton(const Sys &s, const std::vector<std::string> &v, std::vector<double> &x, double eps, int maxSteps, double &minPivot, double big = 1e6) {
    s.read();
    int n = (int)v.size();
    minPivot = 1e300;
    for (int it = 0; it <= maxSteps; ++it) {
        Env env;
        for (int i = 0; i < n; ++i) env[v[i]] = x[i];
        std::vector<double> f(n);
        double mx = 0;
        for (int i = 0; i < n; ++i) { ref::Val q = s.A->eval(s.t[i], env); if (!q.valid || q.skip) return -1; f[i] = q.v; mx = std::max(mx, std::fabs(q.v)); if (std::fabs(std::fabs(q.v) - eps) < 0.5 * eps + 10 * q.err) return -1; }
        if (mx < eps) return it;
        std::vector<std::vector<double>> J(n, std::vector<double>(n + 1));
        for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { ref::Jet q = s.A->jet(s.t[i], env, v[j]); if (q.undef || !(q.mag < big)) return -1; J[i][j] = q.c[1]; } J[i][n] = -f[i]; }
        std::vector<int> col(n);
        for (int i = 0; i < n; ++i) col[i] = i;
        for (int k = 0; k < n; ++k) {
            int pi = k, pj = k;
            for (int i = k; i < n; ++i) for (int j = k; j < n; ++j) if (std::fabs(J[i][j]) > std::fabs(J[pi][pj])) pi = i, pj = j;
            std::swap(J[k], J[pi]);
            for (auto &r : J) std::swap(r[k], r[pj]);
            std::swap(col[k], col[pj]);
            minPivot = std::min(minPivot, std::fabs(J[k][k]));
            if (std::fabs(J[k][k]) < 1e-4) return -1;
            for (int i = 0; i < n; ++i) if (i != k) { double q = J[i][k] / J[k][k]; for (int j = k; j <= n; ++j) J[i][j] -= q * J[k][j]; }
        }
        for (int k = 0; k < n; ++k) x[col[k]] += J[k][n] / J[k][k];
        for (double q : x) if (!(std::fabs(q) < big)) return -1;
    }
    return -1;
}
const std::vector<std::string> &one() {
    static const std::vector<std::string> e = {
        "x-2", "2*x+3", "x^2-2", "x^2", "x^3-x", "x^3-2*x+2", "x^4-16", "(x-1)*(x-2)*(x-5)", "sin(x)", "cos(x)-x", "tan(x)-1", "exp(x)-3", "log(x)", "log(x)+5", "log2(x)-3", "sqrt(x)-3", "1/x-2",
        "x/(x-1)", "arctan(x)", "arcsin(x)-0.5", "x^0.5-2", "2^x-8", "exp(-x)-x", "x*exp(x)-1", "(x-1)^5", "1000*x-3", "x^2-0.0001", "x^20-1", "exp(exp(x))-20", "sin(x)-x/2", "x^5-5*x+3", "log(x)*x-1", "sqrt(x+4)-x+2", "-x-7"};
    return e;
}
const std::vector<double> &starts() {
    static const std::vector<double> s = {1, 0, -1, 0.5, 2, 3.7, -4, 10, 1e-8, -100, 1.9, 5.2, -0.25, 7, 1.0 / 3, 0.1, -2.5, 20, 2.5, 4.5};
    return s;
}
const std::vector<Sys> &multi() {
    static const std::vector<Sys> e = {
        {"x^2+y^2-5", "x*y-2"}, {"x^2-y", "y^2-x"}, {"sin(x)-y", "x^2+y^2-4"}, {"exp(x)-y", "x+y-3"}, {"x*y-1", "x-y"}, {"x^2-4", "y^2-9"}, {"x/y-2", "x+y-6"}, {"x^3-y", "x+y-2"}, {"log(x)+y", "x-y-1"}, {"x^y-8", "x+y-5"},
        {"y-1", "x*x-y*4"}, {"cos(x)-y", "y-x"}, {"x+y+z-6", "x*y*z-6", "x^2+y^2+z^2-14"}, {"x-1", "y-x^2", "z-y*x"}, {"x^2+y^2-2", "y+z-2", "z*x-1"}, {"z^2-x", "x-4*y", "y*z-2"}, {"exp(x)-b", "b-a^2", "a+x-1"},
        {"w+x-3", "x*y-2", "y+z-3", "z*w-2"}, {"a-1", "b-2*a", "c-3*b", "d-a*b*c"}, {"x1-x2", "x2^2-x10", "x10-x1-2"}};
    return e;
}
// The LM iteration as the library carries it out, including its line search, which multiplies by the transposed Jacobian of
// a square system (known finding lm-line-search; the answer then depends on the order of the variables).
Out lmTransposed(const Sys &s, const Start &st) {
    Quiet q_;
    SymVec f = s.lib();
    VarsTable t = table(st);
    std::vector<std::string> names = t.Vars();
    return outcome([&] {
        SymMat ja = Jacobian(f, names);
        int n = (int)names.size(), it = 0, max = Config::Get().maxIterations;
        Vec q = t.Values();
        auto F = [&](const Vec &x) { t.SetValues(x); return f.Clone().Subs(t).Calc().ToMat().ToVec(); };
        auto J = [&](const Vec &x) { t.SetValues(x); return ja.Clone().Subs(t).Calc().ToMat(); };
        while (true) {
            double mu = 1e-5;
            Vec a = F(q);
            if (a == 0) break;
            Vec dq(n);
            while (true) {
                // The Jacobian is taken where the table was left: at the trial point of the previous round
                Mat j = ja.Clone().Subs(t).Calc().ToMat();
                Vec d = SolveLinear(j.Transpose() * j + mu * Mat(n, n).Ones(), -(j.Transpose() * a).ToVec());
                double alpha = 1;
                for (; alpha != 0; alpha *= 0.5) if (F(q + alpha * d).Norm2() <= (F(q).AsMat() + 0.4 * alpha * J(q).Transpose() * d).Norm2()) break;
                dq = alpha * d;
                Vec b = F(q + dq);
                if (b.Norm2() < a.Norm2()) break;
                mu *= 10;
                if (it++ == max) throw std::runtime_error("limit");
            }
            q = q + dq;
            t.SetValues(q);
            if (it++ == max) throw std::runtime_error("limit");
        }
        t.SetValues(q);
        return t;
    });
}
bool close(double a, double b, double tol = 1e-6) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
} // namespace
void mc::harness() {
    bool th = opt.thorough;
    static const std::vector<double> comp = {1, -1, 0.5, 2.5, -3, 4};
    // Newton iteration from the supplied start reaches what the independent iteration reaches
    static auto newtonCheck = [](const Sys &s, const Start &st, int entry, int steps = 12, double big = 1e6) {
        std::vector<std::string> v;
        std::vector<double> x;
        for (auto &p : st) { v.push_back(p.first); x.push_back(p.second); }
        ConfigGuard cg;
        if (entry == 2) Config::Get().initialValue = x[0];
        double piv;
        if (steps > 12) { // long ways are judged where a start nearby takes just as many steps
            std::vector<double> y = x, z = x;
            int k0 = newton(s, v, x, Config::Get().epsilon, steps, piv, big);
            if (k0 < 0) return;
            for (double &q : y) q *= 1 + 1e-7;
            for (double &q : z) q *= 1 - 1e-7;
            if (newton(s, v, y, Config::Get().epsilon, steps, piv, big) != k0 || newton(s, v, z, Config::Get().epsilon, steps, piv, big) != k0) return;
            for (size_t i = 0; i < x.size(); ++i) if (!close(y[i], x[i], 1e-6) || !close(z[i], x[i], 1e-6)) return;
            mc::state(s.text() + std::to_string(k0));
            x.clear();
            for (auto &p : st) x.push_back(p.second);
        }
        int k = newton(s, v, x, Config::Get().epsilon, steps, piv, big);
        if (k < 0) return;
        Out o = call(s, st, NonlinearMethod::NEWTON_RAPHSON, entry);
        if (o.k != Out::OK) mc::failf(s.text(), " from ", text(st), ": Newton's iteration converges in ", k, " steps, but ", o.text());
        for (size_t i = 0; i < v.size(); ++i) if (!close(o.at(v[i]), x[i], 1e-5)) mc::failf(s.text(), " from ", text(st), ": Newton's iteration gives ", v[i], "=", x[i], ", but returned ", o.text());
        // the number of steps it takes, within one
        for (int L : {k - 2, k, k + 1}) {
            if (L < 0) continue;
            Config::Get().maxIterations = L;
            Out q = call(s, st, NonlinearMethod::NEWTON_RAPHSON, entry);
            if (L >= k && !q.same(o)) mc::failf(s.text(), " from ", text(st), ": ", k, " steps suffice, but with iteration limit ", L, ": ", q.text(), " instead of ", o.text());
            if (L < k && q.k == Out::OK && k - 2 >= 0 && L == k - 2 && k > 2) mc::failf(s.text(), " from ", text(st), ": takes ", k, " steps, but succeeds with iteration limit ", L);
        }
        Config::Get().maxIterations = 100;
        Out l = call(s, st, NonlinearMethod::NEWTON_RAPHSON, entry == 2 ? 2 : 1);
        if (!l.same(o)) mc::failf(s.text(), " from ", text(st), ": the direct call gives ", l.text(), " instead of ", o.text());
    };
    mc::add("newton/one", "34 equations x 20 starts, start supplied or configured: the root that Newton's iteration from that start reaches", one().size() * starts().size() * 3, [](uint64_t i) {
        mc::Dec d(i);
        int en = (int)d.take(3);
        double x = starts()[d.take(starts().size())];
        newtonCheck(Sys{one()[d.v]}, {{"x", x}}, en);
    }, [](uint64_t i) { mc::Dec d(i); d.take(3); double x = starts()[d.take(starts().size())]; std::ostringstream o; o << one()[d.v] << " from " << x; return o.str(); }, 8);
    static const std::vector<double> far = {50, 1e3, 1e4, 123456, 1e6, 1e7, 1e9, 3e11, 25, 33, -1e3, -1e6, -3e9, -40, 1e-3, 1e-5};
    static const std::vector<Sys> longs = {{"x^2+y^2-5", "x*y-2"}, {"x^2-y", "y^2-x"}, {"x^2-4", "y^2-9"}, {"x^2-2", "y-x"}, {"x^3-y", "y^2-64"}, {"x^4-16", "y^3-x"}, {"exp(x)-20", "y-x^2"}, {"x^2-2", "y^2-x", "z^2-y"}, {"x^3-8", "y^2-x*y", "z-y-x"}};
    mc::add("newton/long", "34 equations and 9 systems x far and close starts that take up to 70 steps", (one().size() + longs.size()) * far.size() * 3 * 4, [](uint64_t i) {
        mc::Dec d(i);
        int en = (int)d.take(3), shape = (int)d.take(4);
        double x = far[d.take(far.size())];
        bool single = d.v < one().size();
        if (single && shape) return;
        Sys s = single ? Sys{one()[d.v]} : longs[d.v - one().size()];
        if (!single && en == 2) return;
        Start st;
        int k = 0;
        for (auto &n : s.names()) st.push_back({n, shape == 0 ? x : shape == 1 ? (k++ ? 1.5 : x) : shape == 2 ? (k++ ? x : 1.5) : x * (1 + k++ * 0.25)});
        newtonCheck(s, st, en, 70, 1e40);
    }, nullptr, 8);
    auto startOf = [](const Sys &s, uint64_t code, bool reverse) {
        Start st;
        mc::Dec d(code);
        for (auto &n : s.names()) st.push_back({n, comp[d.take(comp.size())]});
        if (reverse) std::reverse(st.begin(), st.end());
        return st;
    };
    static auto startOf_ = startOf;
    mc::add("newton/several", "20 systems of 2 to 4 unknowns x 6 values for each unknown, table in two orders", multi().size() * 2 * 1296, [](uint64_t i) {
        mc::Dec d(i);
        bool rev = d.take(2);
        auto &s = multi()[d.take(multi().size())];
        uint64_t lim = 1;
        for (size_t k = 0; k < s.names().size(); ++k) lim *= comp.size();
        if (d.v >= lim) return;
        newtonCheck(s, startOf_(s, d.v, rev), 0);
    }, [](uint64_t i) { mc::Dec d(i); bool rev = d.take(2); auto &s = multi()[d.take(multi().size())]; return s.text() + " from " + text(startOf_(s, d.v, rev)); }, 16);
    // starts that satisfy the equations are returned bit by bit
    {
        struct P { Sys s; Start at; };
        static std::vector<P> ps = {
            {{"x^2-4"}, {{"x", 2}}}, {{"x^2-4"}, {{"x", -2}}}, {{"x^3-x"}, {{"x", 0}}}, {{"x^3-x"}, {{"x", -1}}}, {{"(x-1)*(x-2)*(x-5)"}, {{"x", 5}}}, {{"sin(x)"}, {{"x", 3.1415926535897931}}}, {{"x^2"}, {{"x", 1e-6}}}, {{"x^2"}, {{"x", 0}}}, {{"x-x"}, {{"x", 17.25}}}, {{"x-2"}, {{"x", 2.0000000001}}},
            {{"x^2+y^2-5", "x*y-2"}, {{"x", 1}, {"y", 2}}}, {{"x^2+y^2-5", "x*y-2"}, {{"y", -1}, {"x", -2}}}, {{"x-y", "y-x"}, {{"x", 7}, {"y", 7}}}, {{"x*y", "x"}, {{"x", 0}, {"y", 123.456}}}, {{"x+y-3"}, {{"x", 1}, {"y", 2}}}, {{"x+y-3", "x-y-1", "x*y-2"}, {{"x", 2}, {"y", 1}}}, {{"x+y-3", "x-y-1", "2*x-4", "y^2-1"}, {{"x", 2}, {"y", 1}}},
            {{"0*x"}, {{"x", 3}}}, {{"x-1"}, {{"x", 1}, {"unused", -5.5}}}, {{"x+y+z-6", "x*y*z-6", "x^2+y^2+z^2-14"}, {{"z", 1}, {"x", 3}, {"y", 2}}}, {{"log(x)"}, {{"x", 1}}}, {{"sqrt(x)"}, {{"x", 0}}}, {{"abs1-abs10"}, {{"abs10", 4}, {"abs1", 4}}}, {{"x^2-1e-12"}, {{"x", 0}}}};
        mc::add("start-is-solution", "24 systems of every shape started at a solution x 2 methods x 2 entries x iteration limits {0,1,100} x indeterminate allowed or not", ps.size() * 2 * 2 * 3 * 2, [](uint64_t i) {
            mc::Dec d(i);
            uint64_t m = d.take(2), en = d.take(2), L = d.take(3), al = d.take(2);
            auto &p = ps[d.v];
            ConfigGuard cg;
            Config::Get().maxIterations = L == 0 ? 0 : L == 1 ? 1 : 100;
            Config::Get().allowIndeterminateEquation = al;
            Out o = call(p.s, p.at, method(m), (int)en);
            if (o.k != Out::OK) mc::failf(p.s.text(), " started at the solution ", text(p.at), "by ", mname(m), ": ", o.text());
            for (auto &q : p.at) if (o.at(q.first) != q.second) mc::failf(p.s.text(), " started at the solution ", text(p.at), "by ", mname(m), " returned ", o.text());
        }, [](uint64_t i) { mc::Dec d(i); d.take(24); return ps[d.v].s.text() + " at " + text(ps[d.v].at); }, 4);
    }
    // affine systems in one step
    {
        static const std::vector<std::string> form = {"%a*x+%b*y-(%c)", "%b*y-(%c)+x*%a", "-(%c)-(-%a*x)+y*%b", "%a*(x+1)+%b*(y-1)-(%c)"};
        static const std::vector<int> cv = {-3, -1, 0, 1, 2};
        auto mk = [](int a, int b, int c, const std::string &f) { std::string r; for (size_t k = 0; k < f.size(); ++k) if (f[k] == '%') { ++k; int v = f[k] == 'a' ? a : f[k] == 'b' ? b : c; r += v < 0 ? "(" + std::to_string(v) + ")" : std::to_string(v); } else r += f[k]; return r; };
        static const std::vector<std::pair<double, double>> st = {{1, 1}, {0, 0}, {-7.5, 1000}, {1e6, -3}, {0.1, 0.3}};
        mc::add("affine/2", "a x + b y = c, d x + e y = f for all coefficients {-3,-1,0,1,2} with non-zero determinant x starts x ways of writing: solved with iteration limit 1", 625ull * 2 * 4 * st.size(), [mk](uint64_t i) {
            mc::Dec d(i);
            int a = cv[d.take(5)], b = cv[d.take(5)], e = cv[d.take(5)], f = cv[d.take(5)], w = (int)d.take(2), fo = (int)d.take(4);
            auto q = st[d.take(st.size())];
            if (a * f - b * e == 0) return;
            int c1 = w ? 3 : -1, c2 = w ? -2 : 4;
            Sys s{mk(a, b, c1, form[fo]), mk(e, f, c2, form[(fo + 1) % 4])};
            if (s.names().size() != 2) return;
            double k1 = c1 - (fo == 3 ? a - b : 0), k2 = c2 - (fo == 2 ? e - f : 0), det = a * f - b * e;
            double X = (k1 * f - b * k2) / det, Y = (a * k2 - k1 * e) / det;
            ConfigGuard cg;
            Config::Get().maxIterations = 1;
            Config::Get().epsilon = 1e-8;
            Out o = call(s, w ? Start{{"x", q.first}, {"y", q.second}} : Start{{"y", q.second}, {"x", q.first}}, NonlinearMethod::NEWTON_RAPHSON, (int)(i % 2));
            if (o.k != Out::OK) mc::failf("affine system ", s.text(), " from ", q.first, ",", q.second, ": ", o.text());
            if (!close(o.at("x"), X) || !close(o.at("y"), Y)) mc::failf("affine system ", s.text(), ": expected ", X, ",", Y, " got ", o.text());
        }, nullptr, 64);
        mc::add("affine/3", "3 equations with coefficient matrix over {-1,0,2}, non-zero determinant, 2 starts, iteration limit 1", 19683 * 2, [](uint64_t i) {
            mc::Dec d(i);
            int c[9];
            for (int &k : c) { k = (int)d.take(3) - 1; if (k == 1) k = 2; }
            bool far = d.v;
            int det = c[0] * (c[4] * c[8] - c[5] * c[7]) - c[1] * (c[3] * c[8] - c[5] * c[6]) + c[2] * (c[3] * c[7] - c[4] * c[6]);
            if (!det) return;
            Sys s;
            for (int r = 0; r < 3; ++r) { std::string t; for (int k = 0; k < 3; ++k) t += std::string(k ? "+" : "") + "(" + std::to_string(c[r * 3 + k]) + ")*" + "xyz"[k]; s.eq.push_back(t + "-" + std::to_string(r + 1)); }
            ConfigGuard cg;
            Config::Get().maxIterations = 1;
            Out o = call(s, far ? Start{{"z", 100}, {"x", -50}, {"y", 3}} : Start{{"x", 1}, {"y", 1}, {"z", 1}}, NonlinearMethod::NEWTON_RAPHSON, 0);
            if (o.k != Out::OK) mc::failf("affine system ", s.text(), ": ", o.text());
        }, nullptr, 64);
        mc::add("affine/n", "a_k x_k + x_(k+1) = k for n = 1..12 unknowns in every rotation of the table", 12 * 12 * 2, [](uint64_t i) {
            mc::Dec d(i);
            int n = (int)d.take(12) + 1, rot = (int)d.take(12), w = (int)d.take(2);
            if (rot >= n) return;
            Sys s; Start st;
            for (int k = 0; k < n; ++k) { s.eq.push_back(std::to_string(k % 3 + 2) + "*v" + std::to_string(k) + (k + 1 < n ? "+v" + std::to_string(k + 1) : "") + "-" + std::to_string(k)); st.push_back({"v" + std::to_string(k), w ? k * 1.5 - 4 : 1}); }
            std::rotate(st.begin(), st.begin() + rot, st.end());
            ConfigGuard cg;
            Config::Get().maxIterations = 1;
            Out o = call(s, st, NonlinearMethod::NEWTON_RAPHSON, 0);
            if (o.k != Out::OK) mc::failf("affine system ", s.text(), ": ", o.text());
        }, nullptr, 4);
    }
    // iteration limit, log level, way to call: every limit
    static std::vector<int> limits = th ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 25, 30, 40, 60, 100, 101, 200, 500} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20, 30, 60, 100, 150};
    static auto limitCheck = [](const Sys &s, const Start &st, uint64_t m, int entry) {
        ConfigGuard cg;
        Config &c = Config::Get();
        if (entry == 2) c.initialValue = st[0].second;
        Out ok;
        bool have = false;
        int first = 0;
        for (int L : limits) {
            if (m && L > 30 && !have && L < 100) continue;
            c.maxIterations = L;
            Out o = call(s, st, method(m), entry);
            if (have && !o.same(ok)) mc::failf(s.text(), " from ", text(st), "by ", mname(m), ": iteration limit ", first, " gives ", ok.text(), ", limit ", L, " gives ", o.text());
            if (!have && o.k == Out::OK) { have = true; ok = o; first = L; }
            if (L == 3 || L == 20) { // log level
                for (auto lv : {LogLevel::OFF, LogLevel::FATAL, LogLevel::ERROR, LogLevel::INFO, LogLevel::DEBUG, LogLevel::TRACE, LogLevel::ALL}) {
                    if (L == 20 && lv != LogLevel::ALL && lv != LogLevel::INFO) continue;
                    LogLevel was = c.logLevel;
                    c.logLevel = lv;
                    Out q = call(s, st, method(m), entry);
                    c.logLevel = was;
                    if (!q.same(o)) mc::failf(s.text(), " from ", text(st), "by ", mname(m), ": log level ", (int)lv, " gives ", q.text(), " instead of ", o.text());
                }
            }
        }
    };
    mc::add("limits/one", "34 equations x 20 starts x 2 methods x way to call x every iteration limit of a list (success, once reached, stays and gives the same solution) x log levels", one().size() * starts().size() * 2 * 2, [](uint64_t i) {
        mc::Dec d(i);
        uint64_t m = d.take(2), en = d.take(2) * 2;
        double x = starts()[d.take(starts().size())];
        limitCheck(Sys{one()[d.v]}, {{"x", x}}, m, (int)en);
    }, [](uint64_t i) { mc::Dec d(i); uint64_t m = d.take(2); d.take(2); double x = starts()[d.take(starts().size())]; std::ostringstream o; o << one()[d.v] << " from " << x << " by " << mname(m); return o.str(); }, 4);
    mc::add("limits/several", "20 systems x starts x 2 methods x every iteration limit of the list x log levels", multi().size() * 2 * 36, [](uint64_t i) {
        mc::Dec d(i);
        uint64_t m = d.take(2);
        auto &s = multi()[d.take(multi().size())];
        limitCheck(s, startOf_(s, d.v * 7, false), m, 0);
    }, [](uint64_t i) { mc::Dec d(i); uint64_t m = d.take(2); auto &s = multi()[d.take(multi().size())]; return s.text() + " from " + text(startOf_(s, d.v * 7, false)) + mname(m); }, 2);
    // order of the variables: every permutation of the table
    static auto orderCheck = [](const Sys &s, Start st, uint64_t m) {
        std::vector<int> p;
        for (size_t k = 0; k < st.size(); ++k) p.push_back((int)k);
        ConfigGuard cg;
        Out base;
        bool have = false;
        std::string bad;
        for (int limit : {8, 12}) { // all orders succeed if one does, with room for a step more
            if (limit == 12 && !have) return;
            Config::Get().maxIterations = limit;
            std::sort(p.begin(), p.end());
            do {
                Start q;
                for (int k : p) q.push_back(st[k]);
                Out o = call(s, q, method(m), 0);
                if (o.k != Out::OK) {
                    if (limit == 12 && bad.empty()) bad = s.text() + " from " + text(q) + "by " + mname(m) + ": solved in another order of the variables, but here " + o.text();
                    continue;
                }
                if (have && bad.empty()) for (auto &v : st) if (!close(o.at(v.first), base.at(v.first), 1e-4)) bad = s.text() + " from " + text(q) + "by " + mname(m) + ": order of the variables changes the answer " + base.text() + " to " + o.text();
                if (!have) base = o;
                have = true;
            } while (std::next_permutation(p.begin(), p.end()));
        }
        if (bad.empty()) return;
        if (m) { // is it the known finding? exactly if every order gives what the line search with the transposed Jacobian gives
            std::sort(p.begin(), p.end());
            Config::Get().maxIterations = 12;
            bool explained = true;
            do {
                Start q;
                for (int k : p) q.push_back(st[k]);
                Out o = call(s, q, method(m), 0), r = lmTransposed(s, q);
                if (o.k != r.k) explained = false;
                else if (o.k == Out::OK) for (auto &v : st) explained = explained && close(o.at(v.first), r.at(v.first), 1e-6);
                if (!explained) { bad += "\n  (and not explained by the line search with the transposed Jacobian, which gives " + r.text() + ", the library gives " + o.text() + " from " + text(q) + ")"; break; }
            } while (std::next_permutation(p.begin(), p.end()));
            if (explained && mc::known("lm-line-search")) return;
        }
        mc::fail(bad);
    };
    for (uint64_t m = 0; m < 2; ++m)
    mc::add(std::string("variable-order/") + (m ? "LM" : "NR"), "20 systems x starts x every order of the table", multi().size() * 216, [m](uint64_t i) {
        mc::Dec d(i);
        auto &s = multi()[d.take(multi().size())];
        uint64_t lim = 1;
        for (size_t k = 0; k < s.names().size(); ++k) lim *= comp.size();
        if (d.v >= lim) return;
        orderCheck(s, startOf_(s, d.v, false), m);
    }, [](uint64_t i) { mc::Dec d(i); auto &s = multi()[d.take(multi().size())]; return s.text() + " from " + text(startOf_(s, d.v, false)); }, 4);
    // a start that is a solution is returned to the last bit, configured or given
    {
        static const std::vector<double> iv = {1 / 3., 0.1 + 0.2, 3.141592653589793, 1.2345678901234567e-10, -1e-300, 5e-324, -5e-324, 1e22, 123456789.12345679, -9007199254740993.0, 1.7976931348623157e308, -1.7976931348623157e308, 0, -0.0, 2.2250738585072014e-308, 0.99999999999999989, 1e-12, 1e-17};
        mc::add("start/exact", "x_k - v for 1 to 3 unknowns, 18 values v with all digits in use, started at v by the configuration or by a table, 2 methods, epsilon from 1e-12 to 1e300: v comes back", iv.size() * 3 * 2 * 3 * 4 * 2, [](uint64_t i) {
            mc::Dec d(i);
            double v = iv[d.take(iv.size())];
            int n = (int)d.take(3) + 1; uint64_t m = d.take(2); int entry = (int)d.take(3), e = (int)d.take(4); bool off = d.take(2);
            static const double es[] = {1e-9, 1e-12, 1, 1e300};
            if (off && e < 2) return;
            std::vector<std::string> nm = {"b", "a", "xx"};
            nm.resize(n);
            SymVec f(n);
            // off: a residual of 0.25 that a large epsilon lets pass
            double t = off ? 0.25 : v;
            if (off && std::fabs(v) > 0.5) t = v + 0.25;
            for (int k = 0; k < n; ++k) f[k] = Var(nm[k]) - Num(t);
            ConfigGuard cg;
            Config::Get().epsilon = es[e];
            Config::Get().nonlinearMethod = method(m);
            Config::Get().initialValue = entry == 0 ? v : 77;
            mc::step();
            VarsTable r = entry == 0 ? Solve(f) : entry == 1 ? Solve(f, VarsTable(nm, v)) : m ? SolveByLM(f, VarsTable(nm, v)) : SolveByNewtonRaphson(f, VarsTable(nm, v));
            if (r.VarNums() != n) mc::failf("the result has ", r.VarNums(), " variables");
            for (auto &x : nm) { double g = r[x]; if (!(g == v)) mc::failf("started at the solution ", v, ", the result is ", g, " (", x, ", method ", mname(m), ", entry ", entry, ", epsilon ", es[e], ")"); }
            mc::state(mc::hash(&v, 8, entry));
        }, nullptr, 16);
    }
    // configured initial value: same as a table holding it
    {
        static const std::vector<double> iv = {1, 0, -1, 2, 0.3, -3, 10, 1e-3, 1 / 3., 1.2345678901234567e-10};
        mc::add("configured-start", "every system without a table x 10 configured initial values x 2 methods: same as a table of these values; a configured value does not matter when a table is given", (multi().size() + one().size()) * iv.size() * 2, [](uint64_t i) {
            mc::Dec d(i);
            uint64_t m = d.take(2);
            double v = iv[d.take(iv.size())];
            Sys s = d.v < multi().size() ? multi()[d.v] : Sys{one()[d.v - multi().size()]};
            ConfigGuard cg;
            Config::Get().maxIterations = m ? 15 : 40;
            Config::Get().initialValue = v;
            Out o = call(s, {}, method(m), 2);
            Start st;
            for (auto &n : s.names()) st.push_back({n, v});
            for (double w : {v, 77.0, -0.5}) { Config::Get().initialValue = w; Out q = call(s, st, method(m), 0); if (!q.same(o)) mc::failf(s.text(), " by ", mname(m), ": without a table ", o.text(), ", with all values ", v, " and configured value ", w, ": ", q.text()); }
        }, nullptr, 4);
    }
}
