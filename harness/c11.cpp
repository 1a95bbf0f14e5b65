// C11: matrices and vectors against plain loops.
#include "lib.h"
using namespace br;
namespace {
struct M {
    int r = 1, c = 1;
    std::vector<double> v;
    M() : v(1) {}
    M(int r, int c, double x = 0) : r(r), c(c), v(r * c, x) {}
    double &at(int i, int j) { return v[i * c + j]; }
    double at(int i, int j) const { return v[i * c + j]; }
    std::string text() const { std::ostringstream o; o.precision(17); o << r << "x" << c << "["; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) o << at(i, j) << (j + 1 < c ? "," : i + 1 < r ? ";" : ""); o << "]"; return o.str(); }
};
Mat lib(const M &m, int how = 0) {
    Mat a(m.r, m.c);
    if (how == 1) { std::valarray<double> d(m.v.data(), m.v.size()); return Mat(m.r, m.c, d); }
    if (how == 2) { for (int i = 0; i < m.r; ++i) { std::valarray<double> d(m.v.data() + i * m.c, m.c); a.Row(i) = d; } return a; }
    if (how == 3) { for (int j = 0; j < m.c; ++j) { std::valarray<double> d(m.r); for (int i = 0; i < m.r; ++i) d[i] = m.at(i, j); a.Col(j) = d; } return a; }
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) a.Value(i, j) = m.at(i, j);
    return a;
}
Vec libV(const M &m) { Vec v(m.r); for (int i = 0; i < m.r; ++i) v[i] = m.v[i]; return v; }
void eq(const Mat &a, const M &m, const char *what, double rel = 0) {
    mc::step();
    if (a.Rows() != m.r || a.Cols() != m.c) mc::failf(what, ": shape ", a.Rows(), "x", a.Cols(), ", expected ", m.r, "x", m.c);
    for (int i = 0; i < m.r; ++i) for (int j = 0; j < m.c; ++j) {
        double x = a.Value(i, j), y = m.at(i, j);
        if (!(x == y || std::fabs(x - y) <= rel * std::fabs(y))) mc::failf(what, ": element (", i, ",", j, ") is ", x, ", expected ", y, " in ", m.text());
    }
    // the row and column views agree with the elements
    for (int i = 0; i < m.r; ++i) { std::valarray<double> d = a.Row(i); if ((int)d.size() != m.c) mc::failf(what, ": row length"); for (int j = 0; j < m.c; ++j) if (!(d[j] == a.Value(i, j))) mc::failf(what, ": row view"); }
    for (int j = 0; j < m.c; ++j) { std::valarray<double> d = a.Col(j); if ((int)d.size() != m.r) mc::failf(what, ": column length"); for (int i = 0; i < m.r; ++i) if (!(d[i] == a.Value(i, j))) mc::failf(what, ": column view"); }
    mc::state(mc::hash(m.v.data(), m.v.size() * 8, m.r * 31 + m.c));
}
void eqD(double a, double b, const char *what, const M &m, double rel = 1e-13) {
    mc::step();
    if (!(std::fabs(a - b) <= rel * std::fabs(b) + 1e-300)) mc::failf(what, " is ", a, ", expected ", b, " for ", m.text());
}
M generic(int r, int c, int k) {
    M m(r, c);
    for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
        int q = i * 7 + j * 3 + k * 11 + i * j;
        double b = (q * q % 41) - 17;
        m.at(i, j) = k == 0 ? i * 10 + j + 1 : k == 1 ? b : k == 2 ? b / 8 + 0.0625 * (i + 1) : k == 3 ? -b * 1024.5 - j : (i == j ? 2 : 0.5 + (i + 2 * j) % 3);
        if (m.at(i, j) == 0) m.at(i, j) = 19 + i;
    }
    return m;
}
M mulM(const M &a, const M &b) { M r(a.r, b.c); for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) for (int k = 0; k < a.c; ++k) r.at(i, j) += a.at(i, k) * b.at(k, j); return r; }
long double detM(const M &m, std::vector<int> rows, std::vector<int> cols) {
    // expansion along the last row: independent of the library's choice
    int n = (int)rows.size();
    if (n == 1) return m.at(rows[0], cols[0]);
    long double d = 0;
    std::vector<int> rr(rows.begin(), rows.end() - 1);
    for (int k = 0; k < n; ++k) {
        double v = m.at(rows[n - 1], cols[k]);
        if (v == 0) continue;
        std::vector<int> cc = cols;
        cc.erase(cc.begin() + k);
        d += ((n - 1 + k) % 2 ? -1.0L : 1.0L) * v * detM(m, rr, cc);
    }
    return d;
}
double detN(const M &m, int n) { std::vector<int> q(n); for (int i = 0; i < n; ++i) q[i] = i; return (double)detM(m, q, q); }
// determinants, minors, cofactors, adjoint, inverse of a square matrix of small integers
void square(const M &m) {
    int n = m.r;
    Mat a = lib(m);
    for (int k = 1; k <= n; ++k) eqD(Det(a, k), detN(m, k), "determinant of the leading block", m);
    bool sym = true, pos = true;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym = sym && m.at(i, j) == m.at(j, i);
    if (sym) { for (int k = 1; k <= n; ++k) pos = pos && detN(m, k) > 0; mc::step(); if (a.PositiveDetermine() != pos) mc::failf("PositiveDetermine is ", !pos, " for ", m.text()); }
    M adj(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        if (n == 1) { adj.at(0, 0) = 1; break; }
        M minor(n - 1, n - 1);
        for (int y = 0; y < n - 1; ++y) for (int x = 0; x < n - 1; ++x) minor.at(y, x) = m.at(y + (y >= i), x + (x >= j));
        Mat t(n - 1, n - 1, 77);
        GetCofactor(a, t, i, j, n);
        eq(t, minor, "cofactor block");
        adj.at(j, i) = ((i + j) % 2 ? -1 : 1) * detN(minor, n - 1);
    }
    Mat ad(n, n, 55);
    Adjoint(a, ad);
    eq(ad, adj, "adjoint", 1e-13);
    double det = detN(m, n);
    mc::step();
    try {
        Mat inv = a.Inverse();
        if (det == 0) mc::failf("a singular matrix was inverted: ", m.text());
        M want(n, n), id(n, n);
        for (int i = 0; i < n * n; ++i) want.v[i] = adj.v[i] / det;
        for (int i = 0; i < n; ++i) id.at(i, i) = 1;
        eq(inv, want, "inverse", 1e-13);
        Mat p = a * inv, q = inv * a;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
            if (!(std::fabs(p.Value(i, j) - (i == j)) < 1e-10) || !(std::fabs(q.Value(i, j) - (i == j)) < 1e-10)) mc::failf("matrix times inverse is not the identity for ", m.text());
    } catch (const MathError &e) {
        if (det != 0) mc::failf("a regular matrix was not inverted (", e.what(), "): ", m.text());
        if (e.GetErrorType() != ErrorType::ERROR_SINGULAR_MATRIX) mc::failf("wrong error type for a singular matrix: ", e.what());
    }
    eq(a, m, "operand after determinant, adjoint, inverse");
}
void squares(int n, std::vector<double> e, uint64_t chunk = 128) {
    uint64_t N = 1;
    for (int i = 0; i < n * n; ++i) N *= e.size();
    auto mk = [=](uint64_t i) { mc::Dec d(i); M m(n, n); for (auto &x : m.v) x = e[d.take(e.size())]; return m; };
    std::ostringstream o;
    for (auto x : e) o << x << " ";
    mc::add("square/" + std::to_string(n) + "/" + std::to_string(e.size()) + "-" + std::to_string((int)e[0]), "determinants, cofactors, adjoint, inverse of all " + std::to_string(n) + "x" + std::to_string(n) + " matrices over { " + o.str() + "}", N, [=](uint64_t i) { square(mk(i)); }, [=](uint64_t i) { return mk(i).text(); }, chunk);
}
// ---- histories of in-place operations ----
struct Op2 { int k, i, j; };
std::string show(const Op2 &o) { static const char *n[] = {"SwapRow", "SwapCol", "Resize", "SetRow", "SetCol", "+= itself", "+= other", "Zero", "Ones", "SetValue", "Value=", "Row-tail=", "Col-tail=", "copy-assign", "transpose-assign", "Row-=", "Col*="}; return std::string(n[o.k]) + "(" + std::to_string(o.i) + "," + std::to_string(o.j) + ")"; }
bool apply(const Op2 &o, Mat &a, M &m) {
    auto row = [&](int n, int s) { std::valarray<double> d(n); for (int k = 0; k < n; ++k) d[k] = s + k * 0.5; return d; };
    mc::step();
    switch (o.k) {
    case 0: if (o.i >= m.r || o.j >= m.r) return false; { Mat &q = a.SwapRow(o.i, o.j); if (&q != &a) mc::fail("SwapRow returns another object"); for (int x = 0; x < m.c; ++x) std::swap(m.at(o.i, x), m.at(o.j, x)); } return true;
    case 1: if (o.i >= m.c || o.j >= m.c) return false; { Mat &q = a.SwapCol(o.i, o.j); if (&q != &a) mc::fail("SwapCol returns another object"); for (int y = 0; y < m.r; ++y) std::swap(m.at(y, o.i), m.at(y, o.j)); } return true;
    case 2: { a.Resize(o.i, o.j); M n(o.i, o.j); for (int y = 0; y < std::min(o.i, m.r); ++y) for (int x = 0; x < std::min(o.j, m.c); ++x) n.at(y, x) = m.at(y, x); m = n; return true; }
    case 3: if (o.i >= m.r) return false; a.Row(o.i) = row(m.c, 40); for (int x = 0; x < m.c; ++x) m.at(o.i, x) = 40 + x * 0.5; return true;
    case 4: if (o.i >= m.c) return false; a.Col(o.i) = row(m.r, 50); for (int y = 0; y < m.r; ++y) m.at(y, o.i) = 50 + y * 0.5; return true;
    case 5: { Mat &q = (a += a); if (&q != &a) mc::fail("+= returns another object"); for (auto &x : m.v) x *= 2; return true; }
    case 6: { M b = generic(m.r, m.c, 1); a += lib(b); for (size_t k = 0; k < m.v.size(); ++k) m.v[k] += b.v[k]; return true; }
    case 7: { Mat &q = a.Zero(); if (&q != &a) mc::fail("Zero returns another object"); m.v.assign(m.v.size(), 0); return true; }
    case 8: if (m.r != m.c) return false; a.Ones(); m.v.assign(m.v.size(), 0); for (int k = 0; k < m.r; ++k) m.at(k, k) = 1; return true;
    case 9: a.SetValue(3.5); m.v.assign(m.v.size(), 3.5); return true;
    case 10: if (o.i >= m.r || o.j >= m.c) return false; a.Value(o.i, o.j) = -7; m.at(o.i, o.j) = -7; return true;
    case 11: if (o.i >= m.r || o.j > m.c) return false; if (m.c > o.j) { a.Row(o.i, o.j) = row(m.c - o.j, 60); for (int x = o.j; x < m.c; ++x) m.at(o.i, x) = 60 + (x - o.j) * 0.5; } return true;
    case 12: if (o.i >= m.c || o.j > m.r) return false; if (m.r > o.j) { a.Col(o.i, o.j) = row(m.r - o.j, 70); for (int y = o.j; y < m.r; ++y) m.at(y, o.i) = 70 + (y - o.j) * 0.5; } return true;
    case 13: { Mat b(a); Mat c(2, 1, 9); c = b; b.SetValue(1); a = std::move(c); return true; }
    case 14: { a = a.Transpose(); M n(m.c, m.r); for (int y = 0; y < m.r; ++y) for (int x = 0; x < m.c; ++x) n.at(x, y) = m.at(y, x); m = n; return true; }
    case 15: if (o.i >= m.r || o.j >= m.r) return false; { std::valarray<double> d = const_cast<const Mat &>(a).Row(o.j); a.Row(o.i) -= d; std::vector<double> k; for (int x = 0; x < m.c; ++x) k.push_back(m.at(o.j, x)); for (int x = 0; x < m.c; ++x) m.at(o.i, x) -= k[x]; } return true;
    default: if (o.i >= m.c || o.j >= m.c) return false; { std::valarray<double> d = const_cast<const Mat &>(a).Col(o.j); a.Col(o.i) *= d; std::vector<double> k; for (int y = 0; y < m.r; ++y) k.push_back(m.at(y, o.j)); for (int y = 0; y < m.r; ++y) m.at(y, o.i) *= k[y]; } return true;
    }
}
std::vector<Op2> ops2(int mx) {
    std::vector<Op2> r;
    for (int i = 0; i < mx; ++i) for (int j = 0; j < mx; ++j) { r.push_back({0, i, j}); r.push_back({1, i, j}); r.push_back({2, i + 1, j + 1}); r.push_back({10, i, j}); r.push_back({11, i, j}); r.push_back({12, i, j}); if (mx < 4 || i != j) { r.push_back({15, i, j}); r.push_back({16, i, j}); } }
    for (int i = 0; i < mx; ++i) { r.push_back({3, i, 0}); r.push_back({4, i, 0}); }
    for (int k : {5, 6, 7, 8, 9, 13, 14}) r.push_back({k, 0, 0});
    return r;
}
// every operation of one or two operands of one shape
void shapeOps(int r, int c, int how, const M &p, const M &q, const std::vector<int> &sizes) {
    Mat a = lib(p, how), b = lib(q, how);
    eq(a, p, "construction");
    if (how == 0 && r * c <= 300) {
        layout(a.ToString(), r, c, [&](int i, int j) { return ToString(p.at(i, j)); }, "ToString");
        std::ostringstream o; o << a; if (o.str() != a.ToString()) mc::fail("operator<< and ToString differ");
        if (c == 1) layout(a.ToVec().ToString(), r, 1, [&](int i, int) { return ToString(p.at(i, 0)); }, "ToString of a vector");
    }
    M z(r, c);
    for (int k = 0; k < r * c; ++k) z.v[k] = p.v[k] + q.v[k];
    eq(a + b, z, "sum"); { Mat t(a); t += b; eq(t, z, "+="); }
    for (int k = 0; k < r * c; ++k) z.v[k] = p.v[k] - q.v[k];
    eq(a - b, z, "difference");
    for (int k = 0; k < r * c; ++k) z.v[k] = -p.v[k];
    eq(-a, z, "negation");
    for (double s : {2.5, -1.0, 0.0}) { for (int k = 0; k < r * c; ++k) z.v[k] = p.v[k] * s; eq(a * s, z, "scaling"); eq(s * a, z, "scaling from the left"); }
    for (int k = 0; k < r * c; ++k) z.v[k] = p.v[k] / q.v[k];
    eq(EachDivide(a, b), z, "EachDivide", 1e-15);
    M t(c, r);
    for (int y = 0; y < r; ++y) for (int x = 0; x < c; ++x) t.at(x, y) = p.at(y, x);
    eq(a.Transpose(), t, "transpose");
    eq(a, p, "left operand"); eq(b, q, "right operand");
    for (int k = 0; k < r; ++k) for (int o = 0; o <= c; ++o) { std::valarray<double> v = const_cast<const Mat &>(a).Row(k, o); if ((int)v.size() != c - o) mc::fail("Row with offset: length"); for (int x = o; x < c; ++x) if (v[x - o] != p.at(k, x)) mc::fail("Row with offset"); }
    for (int k = 0; k < c; ++k) for (int o = 0; o <= r; ++o) { std::valarray<double> v = const_cast<const Mat &>(a).Col(k, o); if ((int)v.size() != r - o) mc::fail("Col with offset: length"); for (int y = o; y < r; ++y) if (v[y - o] != p.at(y, k)) mc::fail("Col with offset"); }
    double n2 = 0, mx = 0, mn = 1e300, lo = 1e300;
    for (double x : p.v) { n2 += x * x; mx = std::max(mx, std::fabs(x)); mn = std::min(mn, std::fabs(x)); lo = std::min(lo, x); }
    eqD(a.Norm2(), n2, "Norm2", p); eqD(a.NormInfinity(), mx, "NormInfinity", p); eqD(a.NormNegInfinity(), mn, "NormNegInfinity", p); eqD(a.Min(), lo, "Min", p);
    // conversion to a vector
    mc::step();
    try { Vec v = a.ToVec(); if (c != 1) mc::failf("ToVec of ", p.text(), " does not throw"); eq(v, p, "ToVec"); }
    catch (const std::runtime_error &) { if (c == 1) mc::fail("ToVec of a column throws"); }
    if (c == 1) {
        Vec u = libV(p), w = libV(q);
        eq(u, p, "vector");
        for (int k = 0; k < r; ++k) if (const_cast<const Vec &>(u)[k] != p.v[k] || u[k] != p.v[k]) mc::fail("vector element");
        for (int k = 0; k < r; ++k) z.v[k] = p.v[k] + q.v[k];
        eq(u + w, z, "vector sum");
        for (int k = 0; k < r; ++k) z.v[k] = p.v[k] - q.v[k];
        eq(u - w, z, "vector difference");
        for (int k = 0; k < r; ++k) z.v[k] = -p.v[k];
        eq(-u, z, "vector negation");
        for (int k = 0; k < r; ++k) z.v[k] = p.v[k] * q.v[k];
        eq(u * w, z, "element-wise product");
        for (int k = 0; k < r; ++k) z.v[k] = p.v[k] / q.v[k];
        eq(u / w, z, "element-wise quotient", 1e-15);
        for (double s : {2.5, -1.0}) { for (int k = 0; k < r; ++k) z.v[k] = p.v[k] * s; eq(u * s, z, "vector scaling"); eq(s * u, z, "vector scaling from the left"); }
        double dot = 0, mag = 0;
        for (int k = 0; k < r; ++k) { dot += p.v[k] * q.v[k]; mag += std::fabs(p.v[k] * q.v[k]); }
        mc::step();
        if (!(std::fabs(Dot(u, w) - dot) <= 1e-14 * mag)) mc::failf("Dot is ", Dot(u, w), ", expected ", dot);
        eq(u, p, "vector operand"); eq(w, q, "vector operand");
        std::valarray<double> va(p.v.data(), p.v.size());
        eq(Vec(va), p, "vector from values"); eq(u.AsMat(), p, "AsMat");
        for (int n : sizes) { Vec x(u); x.Resize(n); M e(n, 1); for (int k = 0; k < std::min(n, r); ++k) e.v[k] = p.v[k]; eq(x, e, "vector resize"); }
        M f(r, 1, 4.5); eq(Vec(r, 4.5), f, "vector with a value");
    }
    M f(r, c, 4.5), g(r, c); eq(Mat(r, c, 4.5), f, "matrix with a value"); eq(Mat(r, c), g, "matrix without a value");
    for (int n : sizes) for (int m : {1, c, c + 3}) { Mat x(a); x.Resize(n, m); M e(n, m); for (int y = 0; y < std::min(n, r); ++y) for (int k = 0; k < std::min(m, c); ++k) e.at(y, k) = p.at(y, k); eq(x, e, "resize"); }
    for (int k : {0, r / 2, r - 1}) { Mat x(a); x.SwapRow(k, r - 1 - k); M e = p; if (k != r - 1 - k) for (int j = 0; j < c; ++j) std::swap(e.at(k, j), e.at(r - 1 - k, j)); eq(x, e, "SwapRow"); }
    for (int k : {0, c / 2, c - 1}) { Mat x(a); x.SwapCol(k, c - 1 - k); M e = p; if (k != c - 1 - k) for (int j = 0; j < r; ++j) std::swap(e.at(j, k), e.at(j, c - 1 - k)); eq(x, e, "SwapCol"); }
    { Mat x(a), y(a); mc::step(4); if (!(x == y)) mc::fail("a copy is not equal"); if (IsZero(a)) mc::fail("IsZero"); for (int k : {0, r * c / 2, r * c - 1}) { y.Value(k / c, k % c) += 1; if (x == y || y == x) mc::failf("equal although element ", k, " differs"); if (AllIsLessThan(x, y) != (r * c == 1)) mc::fail("AllIsLessThan"); y = a; }
      Mat z0(r, c), z1(r, c); for (int k : {0, r * c / 2, r * c - 1}) { z1.Value(k / c, k % c) = 1; if (IsZero(z1) || z1 == 0.0) mc::failf("zero although element ", k, " is 1"); z1.Value(k / c, k % c) = -1; if (IsZero(z1) || z1 == 0.0) mc::failf("zero although element ", k, " is -1"); z1 = z0; }
      for (int k = 0; k < r * c; ++k) z1.Value(k / c, k % c) = (k % 2 ? 1 : -1) * (k / 2 + 1.0); if (IsZero(z1) || z1 == 0.0) mc::fail("values that cancel are taken for zero");
      if (!IsZero(z0) || !(z0 == 0.0)) mc::fail("zeros are not zero"); }
    for (int x = 0; x < c; ++x) { int k = GetMaxAbsRowIndex(a, 0, r - 1, x); mc::step(); for (int y = 0; y < r; ++y) if (k < 0 || k >= r || std::fabs(p.at(y, x)) > std::fabs(p.at(k, x))) mc::failf("GetMaxAbsRowIndex is ", k, " for ", p.text()); }
}
} // namespace
void mc::harness() {
    bool th = opt.thorough;
    int S = th ? 7 : 5;
    // element-wise and structural operations on every shape
    mc::add("shapes", "every operation of one or two equal-shaped operands on every shape up to " + std::to_string(S) + "x" + std::to_string(S) + ", 5x5 value patterns, 4 ways to build", (uint64_t)S * S * 25 * 4, [S](uint64_t i) {
        mc::Dec d(i);
        int r = (int)d.take(S) + 1, c = (int)d.take(S) + 1, how = (int)d.take(4);
        M p = generic(r, c, (int)d.take(5)), q = generic(r, c, (int)d.take(5));
        std::vector<int> sizes;
        for (int n = 1; n <= S + 1; ++n) sizes.push_back(n);
        shapeOps(r, c, how, p, q, sizes);
    }, [S](uint64_t i) { mc::Dec d(i); int r = (int)d.take(S) + 1, c = (int)d.take(S) + 1; return std::to_string(r) + "x" + std::to_string(c) + ", pattern " + std::to_string(d.v); }, 8);
    // long and large shapes
    static std::vector<std::pair<int, int>> longs;
    longs.clear();
    int L = th ? 140 : 70;
    for (int n = 6; n <= L; ++n) { longs.push_back({n, 1}); longs.push_back({1, n}); }
    for (int n = 6; n <= L / 2; ++n) { longs.push_back({n, 2}); longs.push_back({2, n}); longs.push_back({n, 3}); longs.push_back({3, n}); longs.push_back({4, n}); longs.push_back({n, 5}); }
    for (int n = 6; n <= (th ? 24 : 17); ++n) for (int m : {n - 1, n, n + 1, n + 4}) longs.push_back({n, m});
    for (int n : {127, 128, 129, 255, 256, 257, 1000, 1024, 4097}) { longs.push_back({n, 1}); longs.push_back({1, n}); }
    mc::add("shapes/long", "every operation on vectors of 6 to " + std::to_string(L) + " elements (and some up to 4097), on long and on large matrices, 2x2 value patterns", longs.size() * 4, [](uint64_t i) {
        mc::Dec d(i);
        int pp = (int)d.take(2), qq = (int)d.take(2), r = longs[d.v].first, c = longs[d.v].second;
        shapeOps(r, c, (int)(i % 4), generic(r, c, pp), generic(r, c, qq + 2), {1, std::max(1, r - 1), r, r + 1, r + 5, 2 * r});
    }, [](uint64_t i) { return std::to_string(longs[i / 4].first) + "x" + std::to_string(longs[i / 4].second); }, 4);
    mc::add("product/large", "products with inner sizes of 6 to 40 and outer sizes 1 to 12", 35 * 7 * 7 * 2, [](uint64_t i) {
        static const int os[7] = {1, 2, 3, 5, 8, 9, 12};
        mc::Dec d(i);
        int v = (int)d.take(2), r = os[d.take(7)], c = os[d.take(7)], k = (int)d.v + 6;
        M p = generic(r, k, v), q = generic(k, c, v + 2), z = mulM(p, q);
        Mat a = lib(p), b = lib(q), w = a * b;
        mc::step();
        if (w.Rows() != r || w.Cols() != c) mc::failf("product shape ", w.Rows(), "x", w.Cols());
        for (int y = 0; y < r; ++y) for (int x = 0; x < c; ++x) { double mag = 0; for (int j = 0; j < k; ++j) mag += std::fabs(p.at(y, j) * q.at(j, x)); if (!(std::fabs(w.Value(y, x) - z.at(y, x)) <= 1e-14 * mag)) mc::failf("product element (", y, ",", x, ") is ", w.Value(y, x), ", expected ", z.at(y, x), ", inner size ", k); }
        eq(a, p, "left operand of the product"); eq(b, q, "right operand of the product");
    }, [](uint64_t i) { static const int os[7] = {1, 2, 3, 5, 8, 9, 12}; mc::Dec d(i); d.take(2); int r = os[d.take(7)], c = os[d.take(7)], k = (int)d.v + 6; return std::to_string(r) + "x" + std::to_string(k) + " by " + std::to_string(k) + "x" + std::to_string(c); }, 16);
    static std::vector<int> inner;
    inner.clear();
    for (int k = 41; k <= (th ? 1100 : 320); ++k) inner.push_back(k);
    for (int n : {384, 511, 512, 513, 767, 768, 769, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}) inner.push_back(n);
    mc::add("product/long", "products with every inner size of 41 to " + std::to_string(th ? 1100 : 320) + " and some up to 4097, four outer shapes", inner.size() * 4 * 2, [](uint64_t i) {
        mc::Dec d(i);
        int v = (int)d.take(2), o = (int)d.take(4), r = 1 + (o & 1) * 2, c = 1 + (o >> 1), k = inner[d.v];
        M p = generic(r, k, v), q = generic(k, c, v + 2), z = mulM(p, q);
        Mat a = lib(p), b = lib(q), w = a * b;
        mc::step();
        if (w.Rows() != r || w.Cols() != c) mc::failf("product shape ", w.Rows(), "x", w.Cols());
        for (int y = 0; y < r; ++y) for (int x = 0; x < c; ++x) { double mag = 0; for (int j = 0; j < k; ++j) mag += std::fabs(p.at(y, j) * q.at(j, x)); if (!(std::fabs(w.Value(y, x) - z.at(y, x)) <= 2.5e-16 * k * mag)) mc::failf("product element (", y, ",", x, ") is ", w.Value(y, x), ", expected ", z.at(y, x), ", inner size ", k); }
        eq(a, p, "left operand of the product"); eq(b, q, "right operand of the product");
    }, [](uint64_t i) { mc::Dec d(i); d.take(2); int o = (int)d.take(4), r = 1 + (o & 1) * 2, c = 1 + (o >> 1), k = inner[d.v]; return std::to_string(r) + "x" + std::to_string(k) + " by " + std::to_string(k) + "x" + std::to_string(c); }, 8);
    mc::add("moves", "operations that only move elements (swaps, transpose, copies, resizing, rows and columns read and assigned, negation) on every shape up to 4x4 holding elements of all magnitudes, signed zeros, NaN and infinities: the very same bits (negated zeros may have either sign)", 16 * 22 * 9 * 16, [](uint64_t i) {
        static const double inf = std::numeric_limits<double>::infinity();
        static const double vals[22] = {1e20, 1, 1e-300, -0.0, 0.1, std::nan(""), 3, inf, 5e-324, -1e308, 2.5, 1e16, -7, 0.0, -inf, 1e308, -1e-20, 123456789.25, 1.0 / 3, 4e-310, -1, 1e9};
        mc::Dec d(i);
        int r = 1 + (int)d.take(4), c = 1 + (int)d.take(4), from = (int)d.take(22), op = (int)d.take(9), x = (int)d.take(4), y = (int)d.take(4);
        std::vector<double> v(r * c);
        for (int k = 0; k < r * c; ++k) v[k] = vals[(from + k) % 22];
        Mat a(r, c);
        for (int k = 0; k < r * c; ++k) a.Value(k / c, k % c) = v[k];
        auto same = [&](const Mat &m, int r2, int c2, std::function<double(int, int)> want, const char *what) {
            mc::step();
            if (m.Rows() != r2 || m.Cols() != c2) mc::failf(what, ": the result has ", m.Rows(), " rows and ", m.Cols(), " columns, expected ", r2, " and ", c2);
            for (int p = 0; p < r2; ++p) for (int q = 0; q < c2; ++q) {
                double g = m.Value(p, q), w = want(p, q);
                if (std::isnan(w) ? !std::isnan(g) : what[0] == '-' ? g != w : std::memcmp(&g, &w, sizeof g) != 0) mc::failf(what, "(", x, ",", y, ") on ", r, "x", c, " from pattern ", from, ": element ", p, ",", q, " is ", g, ", expected ", w);
            }
        };
        auto at = [&](int p, int q) { return v[p * c + q]; };
        auto sw = [&](int k) { return k == x ? y : k == y ? x : k; };
        switch (op) {
        case 0: if (x >= r || y >= r) return; a.SwapRow(x, y); same(a, r, c, [&](int p, int q) { return at(sw(p), q); }, "SwapRow"); break;
        case 1: if (x >= c || y >= c) return; a.SwapCol(x, y); same(a, r, c, [&](int p, int q) { return at(p, sw(q)); }, "SwapCol"); break;
        case 2: if (x || y) return; same(a.Transpose(), c, r, [&](int p, int q) { return at(q, p); }, "Transpose"); same(a, r, c, at, "the operand of Transpose"); break;
        case 3: a.Resize(1 + x, 1 + y); same(a, 1 + x, 1 + y, [&](int p, int q) { return p < r && q < c ? at(p, q) : p < a.Rows() && q < a.Cols() ? a.Value(p, q) : 0; }, "Resize"); break;
        case 4: if (x >= r || y >= r) return; { std::valarray<double> t = static_cast<const Mat &>(a).Row(x); a.Row(y) = t; same(a, r, c, [&](int p, int q) { return at(p == y ? x : p, q); }, "Row ="); } break;
        case 5: if (x >= c || y >= c) return; { std::valarray<double> t = static_cast<const Mat &>(a).Col(x); a.Col(y) = t; same(a, r, c, [&](int p, int q) { return at(p, q == y ? x : q); }, "Col ="); } break;
        case 6: if (x || y) return; { Mat b(a), e(1, 1); e = b; Mat f(std::move(b)); same(f, r, c, at, "a copy"); same(e, r, c, at, "a copy"); } break;
        case 7: if (x || y) return; same(-a, r, c, [&](int p, int q) { return -at(p, q); }, "-"); same(a, r, c, at, "the operand of -"); break;
        case 8: if (x || y || c != 1) return; { Vec u = a.ToVec(); same(u, r, 1, at, "ToVec"); same(-u, r, 1, [&](int p, int) { return -at(p, 0); }, "- of a vector"); Vec w(r); for (int k = 0; k < r; ++k) w[k] = v[k]; same(w.AsMat(), r, 1, at, "AsMat"); } break;
        }
    }, nullptr, 2048);
    mc::add("product", "products of every pair of fitting shapes up to " + std::to_string(S), (uint64_t)S * S * S * 25, [S](uint64_t i) {
        mc::Dec d(i);
        int r = (int)d.take(S) + 1, k = (int)d.take(S) + 1, c = (int)d.take(S) + 1;
        M p = generic(r, k, (int)d.take(5)), q = generic(k, c, (int)d.take(5)), z = mulM(p, q);
        Mat a = lib(p), b = lib(q), w = a * b;
        mc::step();
        if (w.Rows() != r || w.Cols() != c) mc::failf("product shape ", w.Rows(), "x", w.Cols());
        for (int y = 0; y < r; ++y) for (int x = 0; x < c; ++x) { double mag = 0; for (int j = 0; j < k; ++j) mag += std::fabs(p.at(y, j) * q.at(j, x)); if (!(std::fabs(w.Value(y, x) - z.at(y, x)) <= 1e-14 * mag)) mc::failf("product element (", y, ",", x, ") is ", w.Value(y, x), ", expected ", z.at(y, x), " in ", p.text(), "*", q.text()); }
        eq(a, p, "left operand of the product"); eq(b, q, "right operand of the product");
        Mat tt = (a * b).Transpose(), uu = b.Transpose() * a.Transpose();
        for (int y = 0; y < c; ++y) for (int x = 0; x < r; ++x) if (!(std::fabs(tt.Value(y, x) - uu.Value(y, x)) <= 1e-12 * (1 + std::fabs(tt.Value(y, x))))) mc::fail("(AB)^T differs from B^T A^T");
        if (c == 1) { Mat m2 = a * static_cast<const Mat &>(libV(q)); Vec v = m2.ToVec(); for (int y = 0; y < r; ++y) if (v[y] != w.Value(y, 0)) mc::fail("matrix times vector"); }
    }, nullptr, 32);
    mc::add("init-list", "construction from lists", 6, [](uint64_t i) {
        if (i == 0) { M m(1, 1); m.v = {5}; eq(Mat{{5}}, m, "list 1x1"); }
        if (i == 1) { M m(1, 3); m.v = {5, 6, 7}; eq(Mat{{5, 6, 7}}, m, "list 1x3"); }
        if (i == 2) { M m(3, 1); m.v = {5, 6, 7}; eq(Mat{{5}, {6}, {7}}, m, "list 3x1"); eq(Vec{5, 6, 7}, m, "vector list"); }
        if (i == 3) { M m(2, 3); m.v = {1, 2, 3, 4, 5, 6}; eq(Mat{{1, 2, 3}, {4, 5, 6}}, m, "list 2x3"); }
        if (i == 4) { M m(4, 2); m.v = {1, 2, 3, 4, 5, 6, 7, 8}; eq(Mat{{1, 2}, {3, 4}, {5, 6}, {7, 8}}, m, "list 4x2"); }
        if (i == 5) { M m(1, 1); m.v = {-2}; eq(Vec{-2}, m, "vector list 1"); }
    });
    // rows of unequal lengths: the elements that are not given are 0
    mc::add("init-list/unequal", "construction from 1 to 4 rows, each of 0 to 4 elements", 5 + 25 + 125 + 625, [](uint64_t i) {
        using L = std::initializer_list<double>;
        int rows = 1; uint64_t n = 5;
        while (i >= n) { i -= n; n *= 5; ++rows; }
        int len[4] = {0, 0, 0, 0}, cols = 0;
        for (int k = 0; k < rows; ++k) { len[k] = (int)(i % 5); i /= 5; cols = std::max(cols, len[k]); }
        if (!cols) return;
        static const L a0 = {}, a1 = {1.5}, a2 = {-2, 3}, a3 = {4, 5, -6}, a4 = {7, 8.25, 9, 10};
        static const L *const all[5] = {&a0, &a1, &a2, &a3, &a4};
        const L &p = *all[len[0]], &q = *all[len[1]], &r = *all[len[2]], &s = *all[len[3]];
        M want(rows, cols);
        for (int y = 0; y < rows; ++y) for (int x = 0; x < len[y]; ++x) want.at(y, x) = all[len[y]]->begin()[x];
        mc::step();
        Mat m = rows == 1 ? Mat({p}) : rows == 2 ? Mat({p, q}) : rows == 3 ? Mat({p, q, r}) : Mat({p, q, r, s});
        eq(m, want, "a matrix of rows of unequal lengths");
        mc::state(mc::hash(m.ToString()));
    }, [](uint64_t i) { int rows = 1; uint64_t n = 5; while (i >= n) { i -= n; n *= 5; ++rows; } std::string t = "rows of lengths"; for (int k = 0; k < rows; ++k) { t += " " + std::to_string(i % 5); i /= 5; } return t; }, 32);
    // value-dependent operations: all small matrices
    static std::vector<double> sv = {-3, -0.5, 0, 1, 2};
    for (auto rc : std::vector<std::pair<int, int>>{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}, {5, 1}, {1, 5}, {6, 1}}) {
        int r = rc.first, c = rc.second;
        uint64_t N = 1;
        for (int k = 0; k < r * c; ++k) N *= sv.size();
        mc::add("norms/" + std::to_string(r) + "x" + std::to_string(c), "norms, minimum, zero test, comparison with a number and largest row of all matrices over {-3,-0.5,0,1,2}", N, [=](uint64_t i) {
            mc::Dec d(i);
            M p(r, c);
            for (auto &x : p.v) x = sv[d.take(sv.size())];
            Mat a = lib(p);
            double n2 = 0, mx = 0, mn = 1e300, lo = 1e300; bool zero = true, all1 = true;
            for (double x : p.v) { n2 += x * x; mx = std::max(mx, std::fabs(x)); mn = std::min(mn, std::fabs(x)); lo = std::min(lo, x); zero = zero && x == 0; all1 = all1 && x == 1; }
            eqD(a.Norm2(), n2, "Norm2", p); eqD(a.NormInfinity(), mx, "NormInfinity", p); eqD(a.NormNegInfinity(), mn, "NormNegInfinity", p); eqD(a.Min(), lo, "Min", p);
            if (IsZero(a) != zero) mc::failf("IsZero is ", !zero, " for ", p.text());
            if ((a == 1.0) != all1) mc::failf("== 1 is ", !all1, " for ", p.text());
            for (int x = 0; x < c; ++x) for (int s = 0; s < r; ++s) for (int e = s; e < r; ++e) {
                int k = GetMaxAbsRowIndex(a, s, e, x);
                mc::step();
                if (k < s || k > e) mc::failf("GetMaxAbsRowIndex is ", k, " outside ", s, "..", e);
                for (int y = s; y <= e; ++y) if (std::fabs(p.at(y, x)) > std::fabs(p.at(k, x))) mc::failf("GetMaxAbsRowIndex(", s, ",", e, ",", x, ") is ", k, " for ", p.text());
            }
            eq(a, p, "operand of norms");
        }, nullptr, 256);
    }
    // comparisons: two matrices that differ by delta at places of a mask
    mc::add("compare", "every shape up to 3x3, every set of differing places, sizes of difference around epsilon, epsilon 1e-12, 1e-9, 1e-3, 0.1 and 50: ==, == number, IsZero, AllIsLessThan, <", 9ull * 512 * 8 * 5, [](uint64_t i) {
        mc::Dec d(i);
        int r = (int)d.take(3) + 1, c = (int)d.take(3) + 1;
        int e = (int)d.take(5), w = (int)d.take(8);
        unsigned mask = (unsigned)d.take(512);
        if (mask >> (r * c)) return;
        ConfigGuard cg;
        static const double epsilons[] = {1e-9, 1e-3, 1e-12, 0.1, 50};
        double eps = Config::Get().epsilon = epsilons[e];
        static const double f[] = {0.5, -0.5, 2, -2, 0.99, -1.01, 1000, -1000};
        double delta = f[w] * eps;
        bool same = std::fabs(f[w]) < 1 || !mask;
        Mat a(r, c), b(r, c), zc(r, c, 1.0), z0(r, c);
        for (int k = 0; k < r * c; ++k) { double dd = mask >> k & 1 ? delta : 0; a.Value(k / c, k % c) = k - 4; b.Value(k / c, k % c) = k - 4 + dd; zc.Value(k / c, k % c) += dd; z0.Value(k / c, k % c) = dd; }
        mc::step(6);
        if ((a == b) != same || (b == a) != same) mc::failf("== is ", !same, ", shape ", r, "x", c, ", difference ", delta, ", epsilon ", eps, ", places ", mask);
        if ((zc == 1.0) != same) mc::failf("== number is ", !same, ", difference ", delta, ", epsilon ", eps, ", places ", mask);
        if (IsZero(z0) != same) mc::failf("IsZero is ", !same, " for entries ", delta, ", epsilon ", eps, ", places ", mask);
        // strict comparison of every element: a < b exactly if all places are raised
        bool less = mask == (1u << (r * c)) - 1 && delta > 0;
        if (AllIsLessThan(a, b) != less) mc::failf("AllIsLessThan is ", !less, ", places ", mask, " delta ", delta);
        bool more = mask == (1u << (r * c)) - 1 && delta < 0;
        if (AllIsLessThan(b, a) != more) mc::failf("AllIsLessThan is ", !more, ", places ", mask, " delta ", delta);
        if (c == 1) { Vec u = a.ToVec(), v = b.ToVec(); if ((u < v) != less || (v < u) != more) mc::failf("vector < is wrong, places ", mask, " delta ", delta); if ((u == v) != same) mc::fail("vector =="); }
    }, nullptr, 256);
    // an element that is not a number or infinite is neither close to a number nor less than one it is not less than
    mc::add("compare/invalid", "every shape up to 3x3, every set of places holding NaN, +inf or -inf against finite elements and against an infinity of the other sign: ==, == number, IsZero, AllIsLessThan, <", 9ull * 512 * 5, [](uint64_t i) {
        mc::Dec d(i);
        int r = (int)d.take(3) + 1, c = (int)d.take(3) + 1, w = (int)d.take(5);
        unsigned mask = (unsigned)d.take(512);
        if (mask >> (r * c) || !mask) return;
        static const double bad[] = {NAN, INFINITY, -INFINITY, INFINITY, -INFINITY};
        Mat a(r, c), b(r, c), zc(r, c, 1.0), z0(r, c);
        for (int k = 0; k < r * c; ++k) {
            bool on = mask >> k & 1;
            a.Value(k / c, k % c) = on ? bad[w] : k - 4;
            b.Value(k / c, k % c) = on && w > 2 ? -bad[w] : k - 3;
            if (on) zc.Value(k / c, k % c) = z0.Value(k / c, k % c) = bad[w];
        }
        Mat b1 = b;
        for (int k = 0; k < r * c; ++k) if (!(mask >> k & 1)) b1.Value(k / c, k % c) = k - 4;
        std::ostringstream ws;
        ws << r << "x" << c << ", " << bad[w] << (w > 2 ? " against the other infinity" : "") << " at places " << mask;
        auto where = ws.str();
        mc::step(7);
        if (a == b1 || b1 == a) mc::failf("== is true: ", where);
        if (zc == 1.0) mc::failf("== number is true: ", where);
        if (IsZero(z0)) mc::failf("IsZero is true: ", where);
        bool less = bad[w] < 0, more = bad[w] > 0 && mask == (1u << (r * c)) - 1;
        if (AllIsLessThan(a, b) != less) mc::failf("AllIsLessThan is ", !less, ": ", where);
        if (AllIsLessThan(b, a) != more) mc::failf("AllIsLessThan, operands swapped, is ", !more, ": ", where);
        if (c == 1) { Vec u = a.ToVec(), v = b.ToVec(), v1 = b1.ToVec(); if ((u < v) != less || (v < u) != more) mc::failf("vector < is wrong: ", where); if (u == v1) mc::failf("vector == is true: ", where); }
    }, nullptr, 256);
    // in-place operations and their histories
    for (int mx : {2, 3, 4}) {
        auto o = ops2(mx);
        int depth = mx == 4 ? 2 : 3;
        if (th) depth = mx == 4 ? 2 : mx == 3 ? 3 : 4;
        uint64_t N = mx * mx;
        for (int k = 0; k < depth; ++k) N *= o.size();
        auto decode = [=](uint64_t i, int &r, int &c) { mc::Dec d(i); r = (int)d.take(mx) + 1; c = (int)d.take(mx) + 1; std::vector<Op2> q; for (int k = 0; k < depth; ++k) q.push_back(o[d.take(o.size())]); return q; };
        mc::add("histories/" + std::to_string(mx), "every sequence of " + std::to_string(depth) + " in-place operations from every shape up to " + std::to_string(mx) + "x" + std::to_string(mx), N, [=](uint64_t i) {
            int r, c;
            auto q = decode(i, r, c);
            M m = generic(r, c, 0);
            Mat a = lib(m), copy(a);
            M was = m;
            bool last = true;
            for (auto &x : q) { last = apply(x, a, m); if (!last) return; }
            eq(a, m, "after the operations"); eq(copy, was, "an earlier copy");
        }, [=](uint64_t i) { int r, c; auto q = decode(i, r, c); std::string s = std::to_string(r) + "x" + std::to_string(c) + ":"; for (auto &x : q) s += " " + show(x); return s; }, 512);
    }
    squares(1, {-4, -3, -2, -1, 0, 1, 2, 3, 4, 0.5});
    squares(2, {-3, -2, -1, 0, 1, 2, 5});
    squares(3, {-1, 0, 2});
    squares(3, {0, 1, 3});
    squares(4, {0, 1}, 64);
    if (th) { squares(3, {-2, -1, 0, 1, 3}); squares(4, {-1, 2}, 64); squares(4, {-1, 1}, 64); squares(2, {-9, -7, -4, -3, -2, -1, 0, 1, 2, 5, 6, 8, 0.25}); }
    // 5x5 and 6x6: permutations with one more entry
    for (int n = 5; n <= (th ? 6 : 5); ++n) {
        uint64_t f = 1;
        for (int k = 2; k <= n; ++k) f *= k;
        auto mk = [=](uint64_t i) { mc::Dec d(i); std::vector<int> p; uint64_t q = d.take(f); std::vector<int> s; for (int k = 0; k < n; ++k) s.push_back(k); for (int k = n; k >= 1; --k) { int z = (int)(q % k); q /= k; p.push_back(s[z]); s.erase(s.begin() + z); } M m(n, n); for (int k = 0; k < n; ++k) m.at(k, p[k]) = 1 + k % 3; int at = (int)d.take(n * n + 1); if (at < n * n) m.v[at] += 4 - (double)(at % 5) * 2; return m; };
        mc::add("square/permutations/" + std::to_string(n), "every scaled permutation matrix of size " + std::to_string(n) + " with one more entry at every place", f * (n == 5 || th ? n * n + 1 : 1), [=](uint64_t i) { square(mk(n == 5 || th ? i : i + f * (i % (n * n + 1)))); }, [=](uint64_t i) { return mk(n == 5 || th ? i : i + f * (i % (n * n + 1))).text(); }, 4);
    }
    // a determinant close to epsilon decides whether a matrix is singular
    // rows and columns of very different sizes: no element is negligible by itself
    for (int n = 2; n <= 3; ++n) {
        uint64_t cells = n == 2 ? 256 : 19683;
        int pats = n == 2 ? 81 : 729;
        uint64_t reps = n == 2 || th ? pats : 27;
        mc::add("square/scaled/" + std::to_string(n), "every " + std::to_string(n) + "x" + std::to_string(n) + " matrix over {-1,0,2" + (n == 2 ? ",3" : "") + "}, rows and columns scaled by 2^-34, 1 or 2^34: determinants, cofactors, adjoint, inverse", cells * reps, [=](uint64_t i) {
            mc::Dec d(i);
            uint64_t code = d.take(cells);
            M m(n, n), p(n, n);
            for (auto &x : m.v) { static const double e[] = {-1, 0, 2, 3}; x = e[code % (n == 2 ? 4 : 3)]; code /= n == 2 ? 4 : 3; }
            int pat = (int)d.take(reps);
            if (reps < (uint64_t)pats) pat = (int)((pat * 29 + i * 7) % pats);
            std::vector<int> ex(2 * n);
            for (auto &x : ex) { x = (pat % 3 - 1) * 34; pat /= 3; }
            for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) m.at(y, x) = std::ldexp(m.at(y, x), ex[y] + ex[n + x]), p.at(y, x) = std::fabs(m.at(y, x));
            // permanent of the absolute values: the size of the terms
            std::function<double(std::vector<int>, std::vector<int>)> perm = [&](std::vector<int> rr, std::vector<int> cc) -> double {
                if (rr.empty()) return 1;
                double t = 0;
                std::vector<int> r2(rr.begin() + 1, rr.end());
                for (size_t k = 0; k < cc.size(); ++k) { auto c2 = cc; c2.erase(c2.begin() + k); t += p.at(rr[0], cc[k]) * perm(r2, c2); }
                return t;
            };
            Mat a = lib(m);
            std::vector<int> all;
            for (int k = 1; k <= n; ++k) {
                all.push_back(k - 1);
                double g = Det(a, k), w = detN(m, k), tol = 1e-9 * perm(all, all);
                mc::step();
                if (!(std::fabs(g - w) <= tol)) mc::failf("determinant of the leading ", k, "x", k, " block is ", g, ", expected ", w, " for ", m.text());
            }
            Mat ad(n, n, 55);
            Adjoint(a, ad);
            double det = detN(m, n), dp = perm(all, all);
            M adj(n, n), ap(n, n);
            for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) {
                std::vector<int> rr, cc;
                for (int k = 0; k < n; ++k) { if (k != y) rr.push_back(k); if (k != x) cc.push_back(k); }
                adj.at(x, y) = ((y + x) % 2 ? -1 : 1) * (double)detM(m, rr, cc), ap.at(x, y) = perm(rr, cc);
                mc::step();
                if (!(std::fabs(ad.Value(x, y) - adj.at(x, y)) <= 1e-9 * ap.at(x, y))) mc::failf("adjoint element (", x, ",", y, ") is ", ad.Value(x, y), ", expected ", adj.at(x, y), " for ", m.text());
            }
            mc::state(mc::hash(m.v.data(), m.v.size() * 8));
            double eps = Config::Get().epsilon;
            try {
                Mat inv = a.Inverse();
                if (std::fabs(det) < 0.5 * eps) mc::failf("a matrix with determinant ", det, " was inverted: ", m.text());
                for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) {
                    mc::step();
                    double w = adj.at(y, x) / det;
                    if (!(std::fabs(inv.Value(y, x) - w) <= 1e-8 * (ap.at(y, x) / std::fabs(det) + std::fabs(w) * dp / std::fabs(det)))) mc::failf("inverse element (", y, ",", x, ") is ", inv.Value(y, x), ", expected ", w, " for ", m.text());
                }
            } catch (const MathError &e) {
                if (std::fabs(det) > 2 * eps) mc::failf("a matrix with determinant ", det, " was not inverted (", e.what(), "): ", m.text());
                if (e.GetErrorType() != ErrorType::ERROR_SINGULAR_MATRIX) mc::failf("wrong error type for a singular matrix: ", e.what());
            }
        }, nullptr, 256);
    }
    mc::add("singular/threshold", "diagonal matrices of size 1 to 4 with determinant around epsilon, epsilon 1e-9 and 1e-3", 4 * 4 * 2 * 8, [](uint64_t i) {
        mc::Dec d(i);
        int n = (int)d.take(4) + 1, at = (int)d.take(4), e = (int)d.take(2), f = (int)d.take(8);
        if (at >= n) return;
        static const double fac[] = {0.1, 0.5, 0.9, 1.1, 2, 10, -0.5, -2};
        ConfigGuard cg;
        double eps = Config::Get().epsilon = e ? 1e-3 : 1e-9;
        Mat a(n, n);
        for (int k = 0; k < n; ++k) a.Value(k, k) = k == at ? fac[f] * eps : 1;
        bool sing = false;
        mc::step();
        try { a.Inverse(); } catch (const MathError &x) { sing = x.GetErrorType() == ErrorType::ERROR_SINGULAR_MATRIX; if (!sing) mc::fail("wrong error"); }
        if (std::fabs(fac[f]) >= 1 && sing) mc::failf("determinant ", fac[f], " epsilon treated as singular");
    });
}
