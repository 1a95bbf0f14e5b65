// C14: histories of operations on variables tables against plain maps.
#include "lib.h"
#include <memory>
using namespace br;
namespace {
struct Model { std::vector<std::string> order; std::map<std::string, double> m; };
const std::vector<std::vector<std::string>> &nameSets() {
    static const std::vector<std::vector<std::string>> s = {{"a"}, {"b", "a"}, {"x", "aa", "b"}, {"a", "b"}, {"z10", "z2", "z1", "Z"}, {}};
    return s;
}
const std::vector<double> &vals() { static const std::vector<double> v = {0, 1.5, -2, 1.5 + 5e-10, 1e20, 1.5 + 1e-6, 1e-20, -0.1}; return v; }
enum K { CTOR_V, CTOR_L, CTOR_M, COPY, CASSIGN, MOVE_CTOR, MASSIGN, SETV, SETFROM, SWAP, LOOKUP, SELF, SHIFT };
struct O { K k; int t, i, p; };
std::string show(const O &o) {
    static const char *n[] = {"t = VarsTable(names, value)", "t = VarsTable{list}", "t = VarsTable(map)", "copy-construct t from i", "t = i", "move-construct t from i", "t = move(i)", "t.SetValues", "t.SetValues(i.Values())", "swap(t, i)", "lookups of unknown names in t", "t = t; t.SetValues(t.Values())", "one value of t"};
    return std::string(n[o.k]) + " [t=" + std::to_string(o.t) + " i=" + std::to_string(o.i) + " p=" + std::to_string(o.p) + "]";
}
struct World {
    int n;
    std::unique_ptr<VarsTable> s[3];
    Model m[3];
    bool live[3] = {false, false, false};
    explicit World(int n) : n(n) { for (int i = 0; i < n; ++i) make(i, CTOR_V, i); }
    void make(int t, K k, int p) {
        const auto &nm = nameSets()[p % nameSets().size()];
        double v = vals()[p % vals().size()];
        Model q;
        mc::step();
        if (k == CTOR_V) { s[t].reset(new VarsTable(nm, v)); q.order = nm; for (auto &x : nm) q.m[x] = v; }
        else {
            std::map<std::string, double> mm;
            for (size_t j = 0; j < nm.size(); ++j) mm[nm[j]] = v + 0.25 * (double)j;
            q.m = mm;
            if (k == CTOR_M) s[t].reset(new VarsTable(mm));
            else switch (nm.size()) { // the list form takes a literal list
                case 0: { std::initializer_list<std::pair<std::string, double>> none; s[t].reset(new VarsTable(none)); break; }
                case 1: s[t].reset(new VarsTable{{nm[0], v}}); break;
                case 2: s[t].reset(new VarsTable{{nm[0], v}, {nm[1], v + 0.25}}); break;
                case 3: s[t].reset(new VarsTable{{nm[0], v}, {nm[1], v + 0.25}, {nm[2], v + 0.5}}); break;
                default: s[t].reset(new VarsTable{{nm[0], v}, {nm[1], v + 0.25}, {nm[2], v + 0.5}, {nm[3], v + 0.75}});
            }
            q.order = s[t]->Vars(); // any order of the names; checked to be one
        }
        m[t] = q; live[t] = true;
    }
    bool apply(const O &o) {
        int t = o.t, i = o.i;
        if (o.k == CTOR_V || o.k == CTOR_L || o.k == CTOR_M) { make(t, o.k, o.p); return true; }
        bool needI = o.k == COPY || o.k == CASSIGN || o.k == MOVE_CTOR || o.k == MASSIGN || o.k == SETFROM || o.k == SWAP;
        if (needI && !live[i]) return false;
        mc::step();
        switch (o.k) {
        case COPY: { std::unique_ptr<VarsTable> q(new VarsTable(*s[i])); s[t] = std::move(q); Model c = m[i]; m[t] = c; live[t] = true; return true; }
        case CASSIGN: { VarsTable &r = (*s[t] = *s[i]); if (&r != s[t].get()) mc::fail("assignment returns another object"); Model c = m[i]; m[t] = c; live[t] = true; return true; }
        case MOVE_CTOR: { std::unique_ptr<VarsTable> q(new VarsTable(std::move(*s[i]))); Model c = m[i]; live[i] = false; s[t] = std::move(q); m[t] = c; live[t] = true; if (i != t && !s[i]) return false; return true; }
        case MASSIGN: { if (i == t) return false; *s[t] = std::move(*s[i]); m[t] = m[i]; live[i] = false; live[t] = true; return true; }
        case SWAP: if (!live[t] || i == t) return false; std::swap(*s[t], *s[i]); std::swap(m[t], m[i]); return true;
        default: break;
        }
        if (!live[t]) return false;
        int n = (int)m[t].order.size();
        switch (o.k) {
        case SETV: { Vec v(n); for (int k = 0; k < n; ++k) { v[k] = vals()[(o.p + k * 3) % vals().size()] + k; m[t].m[m[t].order[k]] = v[k]; } s[t]->SetValues(v); for (int k = 0; k < n; ++k) v[k] = 99; return true; }
        case SHIFT: { Vec v = s[t]->Values(); if (o.p >= n) return false; v[o.p] += 7; m[t].m[m[t].order[o.p]] += 7; s[t]->SetValues(v); return true; }
        case SETFROM: { if ((int)m[i].order.size() != n) return false; std::vector<double> w; for (auto &x : m[i].order) w.push_back(m[i].m[x]); s[t]->SetValues(s[i]->Values()); for (int k = 0; k < n; ++k) m[t].m[m[t].order[k]] = w[k]; return true; }
        case SELF: { VarsTable &r = *s[t]; *s[t] = r; s[t]->SetValues(s[t]->Values()); return true; }
        case LOOKUP:
            for (auto q : {"nope", "", "A", "aaa", "z", "a "}) {
                bool thrown = false;
                try { (void)(*s[t])[q]; } catch (const std::out_of_range &) { thrown = true; }
                if (!thrown) mc::failf("lookup of \"", q, "\" does not throw out_of_range");
                if (s[t]->Has(q)) mc::failf("Has(\"", q, "\") is true");
            }
            return true;
        default: return true;
        }
    }
    void check() {
        uint64_t h = 3;
        for (int t = 0; t < n; ++t) {
            if (!live[t]) continue;
            const VarsTable &v = *s[t];
            const Model &q = m[t];
            int k = (int)q.m.size();
            mc::step();
            if (v.VarNums() != k) mc::failf("table ", t, ": VarNums is ", v.VarNums(), ", expected ", k);
            if (v.Vars() != q.order) mc::failf("table ", t, ": the list of names changed");
            if (std::set<std::string>(q.order.begin(), q.order.end()).size() != (size_t)k || q.order.size() != (size_t)k) mc::failf("table ", t, ": the list of names is not a list of the names");
            if (v.Values().Rows() != k || v.Values().Cols() != 1) mc::failf("table ", t, ": size of the value vector");
            for (int j = 0; j < k; ++j) {
                if (!q.m.count(q.order[j])) mc::failf("table ", t, ": name list");
                double want = q.m.at(q.order[j]);
                if (v.Values()[j] != want) mc::failf("table ", t, ": value vector holds ", v.Values()[j], " for ", q.order[j], ", expected ", want);
                if (!v.Has(q.order[j]) || v[q.order[j]] != want) mc::failf("table ", t, ": lookup of ", q.order[j], " gives ", v[q.order[j]], ", expected ", want);
            }
            std::vector<std::pair<std::string, double>> a(v.begin(), v.end()), b(v.cbegin(), v.cend()), want(q.m.begin(), q.m.end());
            if (a != want || b != want) mc::failf("table ", t, ": iteration");
            std::string text;
            for (auto &p : want) { text += p.first + " = " + tomsolver::ToString(p.second) + "\n"; h = mc::hash(p.first, h) + mc::hash(&p.second, 8, h); }
            std::ostringstream os;
            os << v;
            if (v.ToString() != text || os.str() != text) mc::failf("table ", t, ": text is ", v.ToString(), ", expected ", text);
            if (v.Has("nope")) mc::fail("Has of an unknown name");
        }
        for (double eps : {1e-9, 1e-3, 1e-12}) {
            ConfigGuard cg;
            Config::Get().epsilon = eps;
            for (int t = 0; t < n; ++t) for (int u = 0; u < n; ++u) {
                if (!live[t] || !live[u]) continue;
                bool same = m[t].m.size() == m[u].m.size();
                if (same) for (auto p = m[t].m.begin(), q = m[u].m.begin(); p != m[t].m.end(); ++p, ++q) same = same && p->first == q->first && std::fabs(p->second - q->second) <= eps;
                if ((*s[t] == *s[u]) != same) mc::failf("== of tables ", t, " and ", u, " is ", !same, " with epsilon ", eps);
            }
        }
        mc::state(h);
    }
};
std::vector<O> ops(int n, bool full) {
    std::vector<O> r;
    for (int t = 0; t < n; ++t) {
        for (int p = 0; p < (full ? 6 : 3); ++p) for (K k : {CTOR_V, CTOR_L, CTOR_M}) if (full || (k == CTOR_V) || p == 1) r.push_back({k, t, 0, p + (k == CTOR_M ? 6 : 0)});
        for (int p = 0; p < (full ? 4 : 2); ++p) r.push_back({SETV, t, 0, p});
        for (int p = 0; p < 2; ++p) r.push_back({SHIFT, t, 0, p});
        r.push_back({LOOKUP, t, 0, 0}); r.push_back({SELF, t, 0, 0});
        for (int i = 0; i < n; ++i) for (K k : {COPY, CASSIGN, MOVE_CTOR, MASSIGN, SETFROM, SWAP}) if ((i != t || k == COPY || k == CASSIGN) && !(k == SWAP && i < t)) r.push_back({k, t, i, 0});
    }
    return r;
}
void hist(const std::string &name, std::vector<O> o, int n, int depth) {
    uint64_t N = 0, k = 1;
    for (int d = 0; d < depth; ++d) { k *= o.size(); N += k; }
    auto seq = [o](uint64_t i) { uint64_t k = o.size(); int d = 1; while (i >= k) { i -= k; k *= o.size(); ++d; } std::vector<O> r; for (int j = 0; j < d; ++j) { r.push_back(o[i % o.size()]); i /= o.size(); } return r; };
    mc::add("histories/" + name, "every sequence of at most " + std::to_string(depth) + " of " + std::to_string(o.size()) + " operations on " + std::to_string(n) + " tables", N, [=](uint64_t i) {
        World w(n);
        bool last = true;
        for (auto &x : seq(i)) { last = w.apply(x); if (!last) return; }
        w.check();
    }, [=](uint64_t i) { std::string s; for (auto &x : seq(i)) s += (s.empty() ? "" : "; ") + show(x); return s; }, 1024);
}
void transitions() {
    static const double inf = std::numeric_limits<double>::infinity();
    static const std::vector<double> V = {0.0, -0.0, 1, std::nextafter(1.0, 2), 1 + 1e-10, 1 + 1e-6, -1, 1e308, -1e308, inf, -inf, std::nan(""), 5e-324, -5e-324, 1e-300, 0.1, 4503599627370497.5, 1e20};
    uint64_t nv = V.size();
    mc::add("values/changes", "every value replaced by every other one (signed zeros, neighbours, NaN, infinities, subnormal numbers ...) at every place of tables of 1 to 4 names, by SetValues, by copy and by move: every view shows the very same bits", nv * nv * nv * 10 * 3, [nv](uint64_t i) {
        mc::Dec d(i);
        double a = V[d.take(nv)], b = V[d.take(nv)], rest = V[d.take(nv)];
        int how = (int)d.take(3), place = (int)d.take(10), n = 1;
        while (place >= n) place -= n++;
        std::vector<std::string> names;
        for (int k = 0; k < n; ++k) names.push_back(std::string(1, (char)("qbza"[k])) + std::to_string(k));
        std::vector<double> w(n, rest);
        Vec v(n), u(n);
        for (int k = 0; k < n; ++k) v[k] = u[k] = rest;
        v[place] = a; u[place] = b; w[place] = b;
        VarsTable t(names, a);
        t.SetValues(v);
        if (how == 0) t.SetValues(u);
        else { VarsTable o(names, b); o.SetValues(u); if (how == 1) t = o; else t = std::move(o); }
        auto same = [](double x, double y) { return std::isnan(x) ? std::isnan(y) : std::memcmp(&x, &y, sizeof x) == 0; };
        auto bad = [&](const char *what, int k, double got) { mc::failf(n, " names, place ", place, " changed from ", a, " to ", b, " (", how == 0 ? "SetValues" : how == 1 ? "copy" : "move", "), the rest ", rest, ": ", what, " of ", names[k], " is ", std::signbit(got) ? "-" : "+", std::fabs(got), ", expected ", std::signbit(w[k]) ? "-" : "+", std::fabs(w[k])); };
        mc::step(3);
        for (int k = 0; k < n; ++k) {
            if (!same(t[names[k]], w[k])) bad("lookup", k, t[names[k]]);
            if (!same(t.Values()[k], w[k])) bad("value vector", k, t.Values()[k]);
            for (auto &p : t) if (p.first == names[k] && !same(p.second, w[k])) bad("iteration", k, p.second);
        }
    }, nullptr, 1024);
}
} // namespace
void mc::harness() {
    transitions();
    bool th = opt.thorough;
    hist("1-full", ops(1, true), 1, th ? 4 : 3);
    hist("2-full", ops(2, true), 2, 3);
    hist("2", ops(2, false), 2, th ? 4 : 3);
    hist("3", ops(3, false), 3, 3);
    // comparison: every pair of tables over name subsets and values
    static const std::vector<std::string> nm = {"a", "ab", "b", "B"};
    static const std::vector<double> dv = {1, 1 + 5e-10, 1 + 2e-9, -1};
    auto mk = [](uint64_t c) { std::map<std::string, double> m; for (auto &n : nm) { int k = (int)(c % 5); c /= 5; if (k) m[n] = dv[k - 1]; } return m; };
    mc::add("compare", "== on all pairs of tables over subsets of 4 names and values 1, 1+eps/2, 1+2eps, -1", 625ull * 625, [mk](uint64_t i) {
        auto a = mk(i % 625), b = mk(i / 625);
        VarsTable t(a), u(b);
        bool same = a.size() == b.size();
        if (same) for (auto p = a.begin(), q = b.begin(); p != a.end(); ++p, ++q) same = same && p->first == q->first && std::fabs(p->second - q->second) <= 1e-9;
        mc::step();
        if ((t == u) != same) mc::failf("== is ", !same, " for\n", t.ToString(), "and\n", u.ToString());
    }, [mk](uint64_t i) { std::string s; for (auto &m : {mk(i % 625), mk(i / 625)}) { for (auto &p : m) s += p.first + "=" + tomsolver::ToString(p.second) + " "; s += "| "; } return s; }, 1024);
    // the configured epsilon decides, whatever it is
    mc::add("compare/epsilon", "tables of 1 to 4 variables differing at every set of places by 8 multiples of 7 values of epsilon from 1e-15 to 1000", 7 * 8 * 4 * 16, [](uint64_t i) {
        mc::Dec d(i);
        static const double epsilons[] = {1e-15, 1e-12, 1e-9, 1e-3, 0.1, 1, 1000}, f[] = {0.5, -0.5, 2, -2, 0.99, -1.01, 1000, -1000};
        double eps = epsilons[d.take(7)], k = f[d.take(8)];
        int n = (int)d.take(4) + 1; unsigned mask = (unsigned)d.take(16);
        if (mask >> n) return;
        ConfigGuard cg;
        Config::Get().epsilon = eps;
        std::map<std::string, double> a, b;
        for (int j = 0; j < n; ++j) { a[nm[j]] = 0; b[nm[j]] = mask >> j & 1 ? k * eps : 0; }
        VarsTable t(a), u(b);
        bool same = !mask || std::fabs(k) < 1;
        mc::step(2);
        if ((t == u) != same || (u == t) != same) mc::failf("== is ", !same, " for a difference of ", k, " times the epsilon ", eps, " at places ", mask, " of ", n);
    }, nullptr, 64);
    // a value that is not a number, or infinite, differs from every number and from the other infinity
    mc::add("compare/invalid", "== on all pairs of tables over subsets of 3 names with values 1, NaN, inf, -inf (two infinities of one sign, or NaN twice, for one name are left open)", 125ull * 125, [](uint64_t i) {
        static const double iv[] = {1, NAN, INFINITY, -INFINITY};
        auto mk = [](uint64_t c) { std::map<std::string, double> m; for (int n = 0; n < 3; ++n) { int k = (int)(c % 5); c /= 5; if (k) m[nm[n]] = iv[k - 1]; } return m; };
        auto a = mk(i % 125), b = mk(i / 125);
        VarsTable t(a), u(b);
        bool same = a.size() == b.size(), open = false;
        if (same) for (auto p = a.begin(), q = b.begin(); p != a.end(); ++p, ++q) {
            double x = p->second, y = q->second;
            if (p->first != q->first || (std::isfinite(x) != std::isfinite(y)) || (std::isnan(x) != std::isnan(y)) || (!std::isnan(x) && x != y)) same = false;
            else if (!std::isfinite(x)) open = true;
        }
        mc::step();
        if (same && open) return;
        if ((t == u) != same) mc::failf("== is ", !same, " for\n", t.ToString(), "and\n", u.ToString());
    }, nullptr, 256);
    // values far apart and close together, set one after the other: nothing of an earlier one may stay
    static const std::vector<double> upd = {0, 5e-324, 1e-310, 1e-300, 1e-16, 9e-16, 1e-12, 1e-9, 1 - 1.1102230246251565e-16, 1, 1 + 2.220446049250313e-16, 1 + 5e-16, 1 + 1e-9, 1 + 1e-7, -1, 2, 1e15, 1e15 + 1, 4503599627370496.5, 1e300, -1e300, 1.7976931348623157e308, INFINITY, -INFINITY};
    static const uint64_t nu = upd.size();
    mc::add("updates", "all triples of 24 values (denormal, neighbours, huge, infinite): a table of the first, set to the second and the third, and a table of three variables with them rotated", nu * nu * nu, [](uint64_t i) {
        mc::Dec d(i);
        double a[3]; for (double &v : a) v = upd[d.take(nu)];
        VarsTable t{{"p", a[0]}};
        VarsTable r({"q", "b", "p"}, a[0]);
        auto look = [](const VarsTable &t, const std::string &n, int row, double want, const char *when) {
            mc::step();
            if (t[n] != want || t.Values()[row] != want) mc::failf(when, ": lookup of ", n, " gives ", t[n], ", the value vector ", t.Values()[row], ", expected ", want);
            for (auto &p : t) if (p.first == n && p.second != want) mc::failf(when, ": iteration gives ", p.second, " for ", n, ", expected ", want);
            if (t.ToString().find(n + " = " + tomsolver::ToString(want) + "\n") == std::string::npos) mc::failf(when, ": text is ", t.ToString());
        };
        look(t, "p", 0, a[0], "after construction");
        for (int k = 1; k < 3; ++k) {
            t.SetValues(Vec(1, a[k]));
            look(t, "p", 0, a[k], k == 1 ? "after the first update" : "after the second update");
            Vec v(3); for (int j = 0; j < 3; ++j) v[j] = a[(k + j) % 3];
            r.SetValues(v);
            const char *n[] = {"q", "b", "p"};
            for (int j = 0; j < 3; ++j) look(r, n[j], j, v[j], k == 1 ? "three variables, after the first update" : "three variables, after the second update");
        }
        VarsTable c = t; c.SetValues(Vec(1, a[0])); look(t, "p", 0, a[2], "after an update of a copy"); look(c, "p", 0, a[0], "an updated copy");
    }, [](uint64_t i) { mc::Dec d(i); std::string s; for (int k = 0; k < 3; ++k) { std::ostringstream o; o.precision(17); o << upd[d.take(nu)] << " "; s += o.str(); } return s; }, 256);
    // many variables in every rotation; values set again and again
    mc::add("larger", "tables of 1 to 40 variables, names in 4 orders, values set up to 5 times", 40 * 4 * 5, [](uint64_t i) {
        mc::Dec d(i);
        int n = (int)d.take(40) + 1, ord = (int)d.take(4), rep = (int)d.take(5);
        std::vector<std::string> v;
        for (int k = 0; k < n; ++k) v.push_back("v" + std::to_string(ord == 0 ? k : ord == 1 ? n - 1 - k : ord == 2 ? (k * 7 + 3) % n * 1000 + k : (k ^ 5)));
        VarsTable t(v, 2), c(t);
        std::vector<double> w(n, 2);
        for (int r = 0; r < rep; ++r) { Vec x(n); for (int k = 0; k < n; ++k) { w[k] = k * 1.25 + r; x[k] = w[k]; } t.SetValues(x); }
        mc::step(rep + 1);
        for (int k = 0; k < n; ++k) if (t[v[k]] != w[k] || t.Values()[k] != w[k] || t.Vars()[k] != v[k] || c[v[k]] != 2 || c.Values()[k] != 2) mc::failf("n ", n, " order ", ord, ": variable ", v[k]);
        size_t cnt = 0; std::string prev;
        for (auto &p : t) { if (cnt++ && !(prev < p.first)) mc::fail("iteration is not in name order"); prev = p.first; if (t[p.first] != p.second) mc::fail("iteration value"); }
        if ((int)cnt != n || t.VarNums() != n) mc::fail("count");
    }, nullptr, 8);
}
