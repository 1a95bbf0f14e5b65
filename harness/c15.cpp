// C15: symbolic matrices against element-wise reference evaluation.
#include "lib.h"
using namespace br;
namespace {
const std::vector<std::string> &elems() {
    static const std::vector<std::string> e = {"x", "y-2", "3", "x*y", "sin(x)", "x^2-y/z", "-1.5", "z", "exp(y)-x", "0", "2*x-3*z", "(x+y)^2", "sqrt(x*x)+1", "w-1", "log(z)", "-x"};
    return e;
}
struct RM { // reference matrix of terms
    int r, c;
    Arena A;
    std::vector<int> t;
    RM(int r, int c) : r(r), c(c), t(r * c) {}
    int &at(int i, int j) { return t[i * c + j]; }
    int at(int i, int j) const { return t[i * c + j]; }
};
RM pattern(int r, int c, int p) {
    RM m(r, c);
    for (int k = 0; k < r * c; ++k) { bool u; m.t[k] = ref::Reader::parse(elems()[(k * (p % 3 + 1) + p * 5 + k / c) % elems().size()], m.A, u); }
    return m;
}
SymMat lib(const RM &m) {
    SymMat s(m.r, m.c);
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) s.Value(i, j) = build(m.A, m.at(i, j));
    return s;
}
const std::vector<Env> &points() { static const std::vector<Env> e = {{{"x", 1.5}, {"y", -0.75}, {"z", 2.25}, {"w", 4}}, {{"x", -2}, {"y", 3}, {"z", 5}, {"w", 0.5}}, {{"x", 0.25}, {"y", 1}, {"z", 0.5}, {"w", -3}}}; return e; }
// every element of s evaluates to that of m
void eq(const SymMat &s, const RM &m, const char *what) {
    if (s.Rows() != m.r || s.Cols() != m.c) mc::failf(what, ": shape ", s.Rows(), "x", s.Cols(), ", expected ", m.r, "x", m.c);
    if (s.Empty()) mc::failf(what, ": is empty");
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) {
        for (auto &env : points()) {
            ref::Val v = m.A.eval(m.at(i, j), env);
            if (v.skip || !v.valid) continue;
            std::ostringstream o; o << what << ": element (" << i << "," << j << ") of a " << m.r << "x" << m.c << " matrix";
            same(value(s.Value(i, j), env), v, o.str());
        }
        mc::state(mc::hash(m.A.text(m.at(i, j)), i * 7 + j));
    }
}
void exact(const SymMat &s, const RM &m, const char *what) { // structurally
    if (s.Rows() != m.r || s.Cols() != m.c) mc::failf(what, ": shape");
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { mc::step(); if (!s.Value(i, j)->Equal(build(m.A, m.at(i, j)))) mc::failf(what, ": element (", i, ",", j, ") is ", s.Value(i, j)->ToString(), ", expected ", m.A.text(m.at(i, j))); s.Value(i, j)->CheckParent(); }
}
RM sub(const RM &a, const RM &b) { RM r(a.r, a.c); for (size_t k = 0; k < r.t.size(); ++k) { int p = r.A.copy(a.A, a.t[k]), q = r.A.copy(b.A, b.t[k]); r.t[k] = r.A.bin(ref::SUB, p, q); } return r; }
RM mul(const RM &a, const RM &b) {
    RM r(a.r, b.c);
    for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) { int s = -1; for (int k = 0; k < a.c; ++k) { int p = r.A.copy(a.A, a.at(i, k)), q = r.A.copy(b.A, b.at(k, j)); int t = r.A.bin(ref::MUL, p, q); s = s < 0 ? t : r.A.bin(ref::ADD, s, t); } r.at(i, j) = s; }
    return r;
}
void subst(RM &m, const Env &e) { std::map<std::string, int> d; for (auto &p : e) d[p.first] = m.A.num(p.second); for (int &k : m.t) k = m.A.subst(k, d); }
std::set<std::string> names(const RM &m) { std::set<std::string> r; for (int k : m.t) m.A.names(k, r); return r; }
bool numeric(const RM &m) { for (int k : m.t) if (m.A.n[k].op != ref::NUM) return false; return true; }
// operations on one matrix
void unary(const RM &m) {
    SymMat s = lib(m);
    exact(s, m, "construction");
    SymMat c = s.Clone();
    exact(c, m, "clone");
    layout(s.ToString(), m.r, m.c, [&](int i, int j) { return build(m.A, m.at(i, j))->ToString(); }, "ToString");
    { std::ostringstream o; o << s; if (o.str() != s.ToString()) mc::fail("operator<< and ToString differ"); }
    mc::step(3);
    if (!(s == c) || !(c == s)) mc::fail("a clone is not equal");
    if (s.GetAllVarNames() != names(m)) mc::fail("GetAllVarNames");
    // partial and complete substitution in both forms, on the clone
    for (int mask = 0; mask < 16; ++mask) {
        Env e;
        std::vector<std::string> nm;
        static const char *n[] = {"x", "y", "z", "w"};
        for (int k = 0; k < 4; ++k) if (mask >> k & 1) { e[n[k]] = points()[0].at(n[k]); nm.push_back(n[k]); }
        RM q = m;
        subst(q, e);
        SymMat a = s.Clone(), b = s.Clone();
        SymMat &ra = a.Subs(e);
        if (&ra != &a) mc::fail("Subs returns another object");
        exact(a, q, "Subs(map)");
        if (mask) { VarsTable vt(e); SymMat &rb = b.Subs(vt); if (&rb != &b) mc::fail("Subs returns another object"); exact(b, q, "Subs(table)"); }
        if (a.GetAllVarNames() != names(q)) mc::fail("GetAllVarNames after substitution");
        bool can = names(q).empty(), calc = can;
        bool invalid = false, skip = false;
        for (int k : q.t) { ref::Val v = q.A.eval(k, Env()); if (names(q).empty()) { invalid |= !v.valid; skip |= v.skip; } }
        if (skip) continue;
        mc::step();
        bool thrown = false;
        try { SymMat &rc = a.Calc(); if (&rc != &a) mc::fail("Calc returns another object"); } catch (const std::runtime_error &) { thrown = true; }
        if (thrown != (!can || invalid)) mc::failf("Calc ", thrown ? "throws" : "does not throw", " (variables left: ", !can, ", invalid: ", invalid, ")");
        if (!thrown) {
            Mat r = a.ToMat();
            if (r.Rows() != m.r || r.Cols() != m.c) mc::fail("ToMat: shape");
            for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) { LV l; l.v = r.Value(i, j); same(l, q.A.eval(q.at(i, j), Env()), "ToMat"); }
            SymMat back(r);
            if (!(back == a)) mc::fail("a matrix of numbers converted to numbers and back differs");
            exact(back, [&] { RM z(m.r, m.c); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) z.at(i, j) = z.A.num(r.Value(i, j)); return z; }(), "from a numeric matrix");
        }
        (void)calc;
    }
    exact(s, m, "the original after operations on clones");
    mc::step(4);
    try { Mat r = s.ToMat(); if (!numeric(m)) mc::fail("ToMat of non-numbers does not throw"); for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) if (r.Value(i, j) != m.A.n[m.at(i, j)].v) mc::fail("ToMat: value"); } catch (const std::runtime_error &) { if (numeric(m)) mc::fail("ToMat of numbers throws"); }
    RM col(m.r * m.c, 1);
    for (size_t k = 0; k < m.t.size(); ++k) col.t[k] = col.A.copy(m.A, m.t[k]);
    SymVec v = s.ToSymVecOneByOne();
    exact(v, col, "ToSymVecOneByOne");
    for (size_t k = 0; k < col.t.size(); ++k) if (v[k].get() != v.Value((int)k, 0).get()) mc::fail("vector element");
    try { SymVec w = s.ToSymVec(); if (m.c != 1) mc::fail("ToSymVec of several columns does not throw"); exact(w, col, "ToSymVec"); } catch (const std::runtime_error &) { if (m.c == 1) mc::fail("ToSymVec of a column throws"); }
    exact(s, m, "the original after conversions");
}
void binary(const RM &a, const RM &b) {
    SymMat s = lib(a), t = lib(b);
    mc::step();
    if (a.r == b.r && a.c == b.c) {
        RM z = sub(a, b);
        SymMat d = s - t;
        eq(d, z, "difference");
        if (a.c == 1) { SymVec u = s.ToSymVec(), v = t.ToSymVec(); SymVec w = u - v; eq(w, z, "vector difference"); exact(u, a, "left vector"); exact(v, b, "right vector"); }
        bool same = true;
        for (size_t k = 0; k < a.t.size(); ++k) same = same && a.A.equal(a.t[k], b.A, b.t[k]);
        if ((s == t) != same || (t == s) != same) mc::failf("== is ", !same);
    } else if (s == t || t == s) mc::fail("matrices of different shapes are equal");
    bool thrown = false, right = false;
    try { SymMat p = s * t; if (a.c == b.r) eq(p, mul(a, b), "product"); }
    catch (const MathError &e) { thrown = true; right = e.GetErrorType() == ErrorType::SIZE_NOT_MATCH; }
    if (thrown != (a.c != b.r)) mc::failf("product of ", a.r, "x", a.c, " and ", b.r, "x", b.c, thrown ? " throws" : " does not throw");
    if (thrown && !right) mc::fail("wrong error type for a size mismatch");
    exact(s, a, "left operand"); exact(t, b, "right operand");
}
} // namespace
void mc::harness() {
    bool th = opt.thorough;
    int S = th ? 5 : 4;
    mc::add("one", "every shape up to " + std::to_string(S) + " x 30 patterns of elements: construction, clone, names, all partial substitutions, calculation, conversions", (uint64_t)S * S * 30, [S](uint64_t i) { mc::Dec d(i); int r = (int)d.take(S) + 1, c = (int)d.take(S) + 1; unary(pattern(r, c, (int)d.v)); }, nullptr, 4);
    mc::add("two", "every pair of shapes up to " + std::to_string(S) + " x patterns: difference, product or size error, comparison", (uint64_t)S * S * S * S * 12, [S](uint64_t i) { mc::Dec d(i); int r = (int)d.take(S) + 1, c = (int)d.take(S) + 1, q = (int)d.take(S) + 1, p = (int)d.take(S) + 1; int k = (int)d.v; binary(pattern(r, c, k), pattern(q, p, k == 11 ? k : k + 3)); }, [S](uint64_t i) { mc::Dec d(i); int r = (int)d.take(S) + 1, c = (int)d.take(S) + 1, q = (int)d.take(S) + 1, p = (int)d.take(S) + 1; return std::to_string(r) + "x" + std::to_string(c) + " and " + std::to_string(q) + "x" + std::to_string(p); }, 16);
    // one special element at every place: conversion and calculation must notice it
    mc::add("one-place", "matrices of numbers up to 4x4 with one element of 7 kinds at every place: ToMat, Calc, names, comparison", 16ull * 16 * 7, [](uint64_t i) {
        mc::Dec d(i);
        int r = (int)d.take(4) + 1, c = (int)d.take(4) + 1, at = (int)d.take(16), k = (int)d.take(7);
        if (at >= r * c) return;
        static const char *sp[] = {"x", "2+3", "1/0", "-1", "sin(1)", "y-y", "log(0-1)"};
        RM m(r, c), n(r, c);
        for (int q = 0; q < r * c; ++q) { bool u; m.t[q] = q == at ? ref::Reader::parse(sp[k], m.A, u) : m.A.num(q + 0.5); n.t[q] = n.A.num(q + 0.5); }
        SymMat a = lib(m), b = lib(n);
        mc::step(4);
        bool t1 = false, t2 = false;
        try { a.ToMat(); } catch (const std::runtime_error &) { t1 = true; }
        if (!t1) mc::failf("ToMat with ", sp[k], " at place ", at, " does not throw");
        if (a == b || b == a) mc::fail("different matrices are equal");
        if (a.GetAllVarNames() != names(m)) mc::fail("names");
        SymMat e = a.Clone();
        ErrorType et{};
        try { e.Calc(); } catch (const MathError &x) { t2 = true; et = x.GetErrorType(); } catch (const std::runtime_error &) { t2 = true; }
        bool want = k == 0 || k == 2 || k == 5 || k == 6;
        if (t2 != want) mc::failf("Calc with ", sp[k], t2 ? " throws" : " does not throw");
        if ((k == 2 || k == 6) && et != ErrorType::ERROR_INVALID_NUMBER) mc::fail("Calc: wrong error type");
        if (!t2) { Mat v = e.ToMat(); for (int q = 0; q < r * c; ++q) { double w = q == at ? (k == 1 ? 5 : k == 3 ? -1 : std::sin(1.0)) : q + 0.5; if (std::fabs(v.Value(q / c, q % c) - w) > 1e-15) mc::failf("Calc: place ", q, " is ", v.Value(q / c, q % c)); } }
        exact(a, m, "the original");
    }, nullptr, 32);
    mc::add("init-list", "construction from lists", 4, [](uint64_t i) {
        auto T = [](const char *s, RM &m) { bool u; return ref::Reader::parse(s, m.A, u); };
        if (i == 0) { RM m(1, 1); m.t = {T("x", m)}; exact(SymMat{{Var("x")}}, m, "1x1"); exact(SymVec{Var("x")}, m, "vector 1"); }
        if (i == 1) { RM m(2, 3); m.t = {T("x", m), T("y", m), T("1", m), T("x*y", m), T("2", m), T("z", m)}; exact(SymMat{{Var("x"), Var("y"), Num(1)}, {Var("x") * Var("y"), Num(2), Var("z")}}, m, "2x3"); }
        if (i == 2) { RM m(3, 1); m.t = {T("x", m), T("y", m), T("1", m)}; exact(SymMat{{Var("x")}, {Var("y")}, {Num(1)}}, m, "3x1"); exact(SymVec{Var("x"), Var("y"), Num(1)}, m, "vector 3"); }
        if (i == 3) { RM m(1, 3); m.t = {T("x", m), T("y", m), T("1", m)}; exact(SymMat{{Var("x"), Var("y"), Num(1)}}, m, "1x3"); }
    });
    // rows of unequal lengths: the elements that are not given are 0
    mc::add("init-list/unequal", "construction from 1 to 3 rows, each of 0 to 3 elements", 4 + 16 + 64, [](uint64_t i) {
        using L = std::initializer_list<Node>;
        int rows = 1; uint64_t n = 4;
        while (i >= n) { i -= n; n *= 4; ++rows; }
        int len[3] = {0, 0, 0}, cols = 0;
        for (int k = 0; k < rows; ++k) { len[k] = (int)(i % 4); i /= 4; cols = std::max(cols, len[k]); }
        if (!cols) return;
        RM m(rows, cols);
        static const char *const e[3] = {"x", "y*2", "z"};
        for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) { bool u; m.at(y, x) = ref::Reader::parse(x < len[y] ? e[(x + y) % 3] : "0", m.A, u); }
        auto E = [](int k) { return Parse(e[k % 3]); };
        L a0 = {}, a1 = {E(0)}, a2 = {E(0), E(1)}, a3 = {E(0), E(1), E(2)}, b0 = {}, b1 = {E(1)}, b2 = {E(1), E(2)}, b3 = {E(1), E(2), E(0)}, c0 = {}, c1 = {E(2)}, c2 = {E(2), E(0)}, c3 = {E(2), E(0), E(1)};
        const L &p = len[0] == 0 ? a0 : len[0] == 1 ? a1 : len[0] == 2 ? a2 : a3, &q = len[1] == 0 ? b0 : len[1] == 1 ? b1 : len[1] == 2 ? b2 : b3, &r = len[2] == 0 ? c0 : len[2] == 1 ? c1 : len[2] == 2 ? c2 : c3;
        mc::step();
        SymMat s = rows == 1 ? SymMat({p}) : rows == 2 ? SymMat({p, q}) : SymMat({p, q, r});
        exact(s, m, "a matrix of rows of unequal lengths");
        exact(s.Clone(), m, "its clone");
        if (s.GetAllVarNames() != names(m)) mc::fail("names in a matrix of rows of unequal lengths");
        mc::state(mc::hash(s.ToString()));
    }, [](uint64_t i) { int rows = 1; uint64_t n = 4; while (i >= n) { i -= n; n *= 4; ++rows; } std::string t = "rows of lengths"; for (int k = 0; k < rows; ++k) { t += " " + std::to_string(i % 4); i /= 4; } return t; }, 8);
    // all 2x2 (and 1x3, 3x1) matrices over a set of elements
    static const std::vector<std::string> small = {"x", "y", "2", "x-y", "0", "x^2"};
    auto all = [](int r, int c, uint64_t i) { RM m(r, c); for (int &k : m.t) { bool u; k = ref::Reader::parse(small[i % small.size()], m.A, u); i /= small.size(); } return m; };
    mc::add("all/2x2", "all 2x2 matrices over {x, y, 2, x-y, 0, x^2}: every operation, and with a fixed one, itself and its permutations", 1296, [all](uint64_t i) { RM m = all(2, 2, i); unary(m); binary(m, pattern(2, 2, 4)); binary(pattern(2, 2, 2), m); binary(m, m); binary(m, pattern(2, 3, 1)); binary(pattern(1, 2, 1), m); RM n = m; std::swap(n.t[0], n.t[3]); binary(m, n); }, nullptr, 8);
    mc::add("all/pairs", "all pairs of 1x2 and 2x1 matrices over the same set: product both ways, comparison", 1296 * 2, [all](uint64_t i) { bool sw = i % 2; i /= 2; RM a = all(1, 2, i % 36), b = sw ? all(2, 1, i / 36) : all(1, 2, i / 36); binary(a, b); binary(b, a); }, nullptr, 16);
    // all matrices over few elements: equal rows, columns and parts in every combination
    struct PS { int r, k, c; std::vector<std::string> e; };
    static std::vector<PS> ps = {{1, 3, 2, {"x", "y", "2"}}, {2, 3, 1, {"x", "y", "2"}}, {2, 3, 2, {"x", "2"}}, {1, 4, 2, {"x", "y"}}, {3, 2, 3, {"x", "y"}}, {2, 2, 2, {"x", "y", "2"}}, {1, 3, 3, {"x", "y"}}, {3, 3, 1, {"x", "y"}}, {2, 2, 2, {"0", "1", "x"}}, {1, 3, 2, {"0", "1", "x"}}, {2, 1, 2, {"x", "y", "2", "-x", "x*y", "0", "1"}}, {4, 1, 2, {"x", "y", "2"}}, {2, 3, 2, {"x", "y", "2"}}, {1, 3, 2, {"x", "y", "2", "0", "x-y"}}, {2, 4, 2, {"x", "y"}}, {3, 3, 2, {"x", "2"}}, {2, 3, 3, {"x", "2"}}, {1, 5, 2, {"x", "y"}}};
    for (auto &q : ps) {
        uint64_t na = 1, nb = 1;
        for (int k = 0; k < q.r * q.k; ++k) na *= q.e.size();
        for (int k = 0; k < q.k * q.c; ++k) nb *= q.e.size();
        if (!th && na * nb > 25000) continue;
        auto mk = [&q](int r, int c, uint64_t i) { RM m(r, c); for (int &k : m.t) { bool u; k = ref::Reader::parse(q.e[i % q.e.size()], m.A, u); i /= q.e.size(); } return m; };
        std::string names; for (auto &e : q.e) names += (names.empty() ? "" : ", ") + e;
        std::string sh = std::to_string(q.r) + "x" + std::to_string(q.k) + " and " + std::to_string(q.k) + "x" + std::to_string(q.c);
        mc::add("products/" + sh + "/" + names, "all pairs of a " + sh + " matrix over {" + names + "}: product", na * nb, [&q, mk, na](uint64_t i) {
            RM a = mk(q.r, q.k, i % na), b = mk(q.k, q.c, i / na);
            SymMat s = lib(a), t = lib(b);
            mc::step();
            SymMat p = s * t;
            eq(p, mul(a, b), "product");
        }, [&q, mk, na](uint64_t i) { RM a = mk(q.r, q.k, i % na), b = mk(q.k, q.c, i / na); std::string s; for (int k : a.t) s += a.A.text(k) + " "; s += "| "; for (int k : b.t) s += b.A.text(k) + " "; return s; }, 64);
    }
    // Jacobians: systems x variable lists
    static const std::vector<std::string> eqs = {"x^2-y", "sin(x)*y", "3", "y/z-x", "exp(x*y)-z", "z", "log(x+5)-w", "x*y*z*w"};
    static std::vector<std::vector<std::string>> vl;
    vl.clear();
    { std::vector<std::string> base = {"x", "y", "z", "w"}; for (int mask = 1; mask < 16; ++mask) { std::vector<std::string> p; for (int k = 0; k < 4; ++k) if (mask >> k & 1) p.push_back(base[k]); std::sort(p.begin(), p.end()); do vl.push_back(p); while (std::next_permutation(p.begin(), p.end())); } vl.push_back({"absent"}); vl.push_back({"x", "absent", "y"}); }
    for (int n = 1; n <= (th ? 5 : 4); ++n) {
        uint64_t N = vl.size() * 64;
        for (int k = 2; k < n; ++k) N *= k == 2 ? 8 : 2;
        if (n == 1) N = vl.size() * 8;
        auto mk = [n](uint64_t i, std::vector<std::string> &v) { mc::Dec d(i); v = vl[d.take(vl.size())]; std::vector<int> e; for (int k = 0; k < n; ++k) e.push_back(k < 3 ? (int)d.take(8) : (int)(e[k - 1] * 3 + e[k - 2] + d.take(2)) % 8); return e; };
        mc::add("jacobian/" + std::to_string(n), "systems of " + std::to_string(n) + " equations x every list of 1 to 4 variables in every order (and absent ones)", N, [=](uint64_t i) {
            std::vector<std::string> v;
            auto e = mk(i, v);
            Arena A;
            std::vector<int> t;
            SymVec f(n);
            for (int k = 0; k < n; ++k) { bool u; t.push_back(ref::Reader::parse(eqs[e[k]], A, u)); f[k] = build(A, t[k]); }
            SymMat j = Jacobian(f, v);
            mc::step();
            if (j.Rows() != n || j.Cols() != (int)v.size()) mc::failf("Jacobian: shape ", j.Rows(), "x", j.Cols());
            for (int r = 0; r < n; ++r) {
                if (!f[r]->Equal(build(A, t[r]))) mc::fail("Jacobian changed the equations");
                for (size_t c = 0; c < v.size(); ++c) {
                    if (!j.Value(r, (int)c)->Equal(Diff(f[r], v[c]))) mc::failf("Jacobian (", r, ",", c, ") is ", j.Value(r, (int)c)->ToString(), ", not the derivative of ", eqs[e[r]], " by ", v[c]);
                    Env env = points()[0];
                    env["absent"] = 3;
                    ref::Jet q = A.jet(t[r], env, v[c]);
                    if (q.undef) continue;
                    LV l = value(j.Value(r, (int)c), env);
                    if (l.k != LV::VALUE || !(std::fabs(l.v - q.c[1]) <= 1e-10 * (1 + std::fabs(q.c[1])))) mc::failf("Jacobian (", r, ",", c, ") is ", l.v, ", expected ", q.c[1], " for ", eqs[e[r]], " by ", v[c]);
                }
            }
        }, nullptr, 32);
    }
    // elements that differ in nothing but the last digits of a number, or in the grouping
    {
        static const std::vector<std::pair<double, double>> near = {{1.26e-15, 1.28e-15}, {1e-16, 2e-16}, {1, 1 + 1e-15}, {0.1, 0.10000000000000002}, {1e-300, 2e-300}, {3e-20, -3e-20}, {1e300, 1.0000000000000002e300}, {123456789.25, 123456789.2500001}, {2, 2.0000001}, {1e15, 1e15 + 1}, {0, 1e-17}};
        const int F = 12;
        mc::add("alike", "two to three elements of 12 forms whose constants are nearly the same, 11 pairs of constants, in columns, rows and squares: every operation, and the Jacobian", near.size() * F * 4 * 2, [F](uint64_t i) {
            mc::Dec d(i);
            auto pr = near[d.take(near.size())];
            int f = (int)d.take(F), shape = (int)d.take(4);
            if (d.take(2)) std::swap(pr.first, pr.second);
            RM m(shape == 0 ? 2 : shape == 1 ? 1 : shape == 2 ? 2 : 3, shape == 0 || shape == 3 ? 1 : 2);
            auto form = [&](double c) {
                Arena &A = m.A;
                int x = A.var("x"), n = A.num(c);
                switch (f) {
                case 0: return n;
                case 1: return A.bin(ref::MUL, n, x);
                case 2: return A.bin(ref::MUL, x, n);
                case 3: return A.bin(ref::ADD, x, n);
                case 4: return A.bin(ref::SUB, A.bin(ref::MUL, A.var("y"), A.num(2)), A.bin(ref::MUL, n, x));
                case 5: return A.un(ref::SIN, A.bin(ref::MUL, n, x));
                case 6: return A.bin(ref::DIV, x, A.bin(ref::ADD, A.num(1), n));
                case 7: return A.bin(ref::MUL, A.bin(ref::MUL, n, x), A.var("y"));
                case 8: return A.bin(ref::MUL, n, A.bin(ref::POW, x, A.num(2)));
                case 9: return A.un(ref::NEG, A.bin(ref::MUL, n, x));
                case 10: return A.bin(ref::MUL, n, A.bin(ref::MUL, x, A.var("y")));
                default: return A.bin(ref::SUB, n, A.var("z"));
                }
            };
            for (size_t k = 0; k < m.t.size(); ++k) m.t[k] = form(k % 2 ? pr.second : pr.first);
            unary(m);
            if (m.c == 2 && m.r == 1) { RM q(2, 1); for (int k = 0; k < 2; ++k) q.t[k] = q.A.copy(m.A, m.t[1 - k]); binary(m, q); }
            RM o = m;
            std::swap(o.t[0], o.t[1]);
            binary(m, o); binary(m, m);
            if (m.c != 1) return;
            SymVec v = lib(m).ToSymVec();
            std::vector<std::string> vars = {"x", "y", "x"};
            SymMat j = Jacobian(v, vars);
            for (int r = 0; r < m.r; ++r) for (int c = 0; c < 3; ++c) {
                mc::step();
                if (!j.Value(r, c)->Equal(Diff(v[r], vars[c]))) mc::failf("Jacobian (", r, ",", c, ") of ", v.ToString(), " is ", j.Value(r, c)->ToString(), ", not the derivative of the element");
                ref::Jet q = m.A.jet(m.t[r], points()[0], vars[c]);
                if (q.undef || (f == 6 && pr.first > 1e100)) continue; // the square of the divisor is out of range
                LV l = value(j.Value(r, c), points()[0]);
                if (l.k != LV::VALUE || !(l.v == q.c[1] || std::fabs(l.v - q.c[1]) <= 1e-12 * std::fabs(q.c[1]) + 2e-300)) mc::failf("Jacobian (", r, ",", c, ") of ", m.A.text(m.t[r]), " is ", l.v, ", expected ", q.c[1]);
            }
        }, nullptr, 16);
    }
    // large shapes
    static std::vector<std::pair<int, int>> ls;
    ls.clear();
    for (int n = 5; n <= (th ? 48 : 26); ++n) { ls.push_back({n, 1}); ls.push_back({1, n}); ls.push_back({n, 2}); ls.push_back({2, n}); ls.push_back({3, n}); }
    for (int n = 5; n <= (th ? 12 : 8); ++n) for (int m : {n - 1, n, n + 2}) ls.push_back({n, m});
    mc::add("large/one", "vectors and matrices of up to 26 rows or columns: construction, clone, names, all partial substitutions, calculation, conversions; difference and comparison with another and with itself changed at one place", ls.size() * 3, [](uint64_t i) {
        mc::Dec d(i);
        int k = (int)d.take(3) * 4 + 1, r = ls[d.v].first, c = ls[d.v].second;
        RM m = pattern(r, c, k), o = pattern(r, c, k + 1);
        unary(m);
        binary(m, o);
        for (int at : {0, r * c / 2, r * c - 1}) { RM z = m; z.t[at] = z.A.num(77); SymMat u = lib(m), v = lib(z); mc::step(2); if (u == v || v == u) mc::failf("equal although element ", at, " differs"); }
    }, [](uint64_t i) { return std::to_string(ls[i / 3].first) + "x" + std::to_string(ls[i / 3].second); }, 2);
    mc::add("large/products", "products with inner sizes 5 to 24 and outer sizes 1 to 4", 20 * 4 * 4 * 3, [](uint64_t i) {
        mc::Dec d(i);
        int v = (int)d.take(3), r = (int)d.take(4) + 1, c = (int)d.take(4) + 1, k = (int)d.v + 5;
        RM a = pattern(r, k, v * 2), b = pattern(k, c, v * 2 + 1);
        SymMat s = lib(a), t = lib(b);
        mc::step();
        SymMat p = s * t;
        eq(p, mul(a, b), "product");
        exact(s, a, "left operand"); exact(t, b, "right operand");
    }, [](uint64_t i) { mc::Dec d(i); d.take(3); int r = (int)d.take(4) + 1, c = (int)d.take(4) + 1, k = (int)d.v + 5; return std::to_string(r) + "x" + std::to_string(k) + " by " + std::to_string(k) + "x" + std::to_string(c); }, 8);
    mc::add("large/jacobian", "systems of 1 to 16 equations in 1 to 16 variables, in the order of the names, reversed, rotated, with a name repeated", 16 * 16 * 4 * 3, [](uint64_t i) {
        mc::Dec d(i);
        int order = (int)d.take(4), kind = (int)d.take(3), n = (int)d.take(16) + 1, m = (int)d.take(16) + 1;
        auto name = [](int k) { return "v" + std::to_string(k); };
        Arena A;
        std::vector<int> t;
        SymVec f(n);
        Env env;
        for (int k = 0; k < 40; ++k) env[name(k)] = 0.5 + k * 0.25;
        for (int k = 0; k < n; ++k) {
            std::string x = name(k % m), y = name((k * 3 + 1) % m), z = name((k + m / 2) % m);
            std::string e = kind == 0 ? std::to_string(k + 2) + "*" + x + "-" + y + "^2+" + z : kind == 1 ? "sin(" + x + ")*" + y + "-" + z + "/" + std::to_string(k + 1) : x + "^" + std::to_string(k % 4 + 1) + "*" + y;
            bool u; t.push_back(ref::Reader::parse(e, A, u)); f[k] = build(A, t[k]);
        }
        std::vector<std::string> v;
        for (int k = 0; k < m; ++k) v.push_back(name(order == 1 ? m - 1 - k : order == 2 ? (k + m / 2) % m : k));
        if (order == 3) v.push_back(v[m / 2]);
        SymMat j = Jacobian(f, v);
        mc::step();
        if (j.Rows() != n || j.Cols() != (int)v.size()) mc::failf("Jacobian: shape ", j.Rows(), "x", j.Cols(), " for ", n, " equations and ", v.size(), " variables");
        for (int r = 0; r < n; ++r) {
            if (!f[r]->Equal(build(A, t[r]))) mc::fail("Jacobian changed the equations");
            for (size_t c = 0; c < v.size(); ++c) {
                ref::Jet q = A.jet(t[r], env, v[c]);
                if (q.undef) continue;
                LV l = value(j.Value(r, (int)c), env);
                if (l.k != LV::VALUE || !(std::fabs(l.v - q.c[1]) <= 1e-10 * (1 + std::fabs(q.c[1])))) mc::failf("Jacobian (", r, ",", c, ") is ", l.v, ", expected ", q.c[1], " for ", A.text(t[r]), " by ", v[c], " (", n, " equations)");
            }
        }
        mc::state(mc::hash(j.ToString()));
    }, [](uint64_t i) { mc::Dec d(i); int o = (int)d.take(4), k = (int)d.take(3), n = (int)d.take(16) + 1, m = (int)d.take(16) + 1; return std::to_string(n) + " equations of kind " + std::to_string(k) + " in " + std::to_string(m) + " variables, order " + std::to_string(o); }, 8);
    mc::add("jacobian/throws", "an equation that cannot be differentiated at every place of a system", 3 * 4 * 4 * 3, [](uint64_t i) {
        mc::Dec d(i);
        static const char *op[] = {"x&y", "x|2", "sin(x%3)"};
        int o = (int)d.take(3), n = (int)d.take(4) + 1, at = (int)d.take(4), vs = (int)d.take(3);
        if (at >= n) return;
        SymVec f(n);
        for (int k = 0; k < n; ++k) f[k] = Parse(k == at ? op[o] : "x-y");
        std::vector<std::string> v = vs == 0 ? std::vector<std::string>{"x"} : vs == 1 ? std::vector<std::string>{"y", "x"} : std::vector<std::string>{"x", "y", "z"};
        bool thrown = false;
        mc::step();
        try { Jacobian(f, v); } catch (const std::runtime_error &) { thrown = true; }
        if (!thrown) mc::failf("Jacobian of ", op[o], " does not throw");
    });
    // histories on two 2x2 matrices
    static const int NOP = 17;
    int depth = th ? 4 : 3;
    static const char *on[] = {"A=A-B", "A=A*B", "B=B*A", "A=A*A", "A=A-A", "B=A.Clone()", "A=B (move), B=A's clone", "A.Subs(x=2)", "B.Subs(table y=3,x=-1)", "A.Subs(all).Calc()", "A(0,1)=B(1,0)", "A(1,1)=y", "swap", "A=SymMat(A.ToMat())", "A=Jacobian", "B.Subs(all)", "A=A*B^t-like row/col"};
    uint64_t N = 4;
    for (int k = 0; k < depth; ++k) N *= NOP;
    mc::add("histories", "every sequence of " + std::to_string(depth) + " operations on two 2x2 matrices", N, [depth](uint64_t i) {
        mc::Dec d(i);
        int p = (int)d.take(4);
        RM a = pattern(2, 2, p), b = pattern(2, 2, p + 7);
        SymMat A = lib(a), B = lib(b);
        const Env full = points()[0];
        for (int k = 0; k < depth; ++k) {
            mc::step();
            switch (d.take(NOP)) {
            case 0: A = A - B; a = sub(a, b); break;
            case 1: A = A * B; a = mul(a, b); break;
            case 2: B = B * A; b = mul(b, a); break;
            case 3: A = A * A; a = mul(a, a); break;
            case 4: A = A - A; a = sub(a, a); break;
            case 5: B = A.Clone(); b = a; break;
            case 6: A = std::move(B); B = A.Clone(); a = b; break;
            case 7: A.Subs(Env{{"x", 2}}); subst(a, {{"x", 2}}); break;
            case 8: B.Subs(VarsTable{{"y", 3.0}, {"x", -1.0}}); subst(b, {{"y", 3}, {"x", -1}}); break;
            case 9: {
                A.Subs(full); subst(a, full);
                bool bad = false;
                for (int q : a.t) { ref::Val v = a.A.eval(q, Env()); if (v.skip || !v.valid || v.err > 1e-6 * std::fabs(v.v)) bad = true; }
                if (bad) return;
                A.Calc();
                for (int &q : a.t) { double v = a.A.eval(q, Env()).v; q = a.A.num(v); }
                break;
            }
            case 10: A.Value(0, 1) = Clone(B.Value(1, 0)); a.at(0, 1) = a.A.copy(b.A, b.at(1, 0)); break;
            case 11: A.Value(1, 1) = Var("y"); a.at(1, 1) = a.A.var("y"); break;
            case 12: std::swap(A, B); std::swap(a, b); break;
            case 13: if (!numeric(a)) { bool t = false; try { A.ToMat(); } catch (const std::runtime_error &) { t = true; } if (!t) mc::fail("ToMat"); } else A = SymMat(A.ToMat()); break;
            case 14: { SymVec f = A.ToSymVecOneByOne(); if (f.Rows() != 4) mc::fail("rows"); SymVec g(2); g[0] = Clone(f[1]); g[1] = Clone(f[2]); (void)Jacobian(g, {"x", "y"}); break; }
            case 15: B.Subs(full); subst(b, full); break;
            default: { SymMat r(1, 2); r.Value(0, 0) = Clone(A.Value(0, 0)); r.Value(0, 1) = Clone(A.Value(0, 1)); SymMat q = r * B; RM rr(1, 2); rr.t[0] = rr.A.copy(a.A, a.t[0]); rr.t[1] = rr.A.copy(a.A, a.t[1]); RM z = mul(rr, b); eq(q, z, "row times matrix"); }
            }
        }
        eq(A, a, "A"); eq(B, b, "B");
        if (A.GetAllVarNames() != names(a)) mc::fail("names of A");
    }, [depth](uint64_t i) { mc::Dec d(i); std::string s = "pattern " + std::to_string(d.take(4)); for (int k = 0; k < depth; ++k) s += std::string("; ") + on[d.take(NOP)]; return s; }, 64);
}
