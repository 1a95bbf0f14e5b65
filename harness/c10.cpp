// C10: linear solving. Exact integer rank oracle (fraction-free elimination).
#include "lib.h"
using namespace br;
namespace {
typedef __int128 I;
struct Sys {
    int r, c;
    std::vector<long long> a, b; // integer system; library sees a*sa, b*sb (powers of two or exact)
    double sa = 1;
};
int rankOf(std::vector<I> m, int r, int c) {
    int rk = 0;
    for (int x = 0; x < c && rk < r; ++x) {
        int p = -1;
        for (int y = rk; y < r; ++y) if (m[y * c + x] != 0) { p = y; break; }
        if (p < 0) continue;
        for (int k = 0; k < c; ++k) std::swap(m[p * c + k], m[rk * c + k]);
        for (int y = rk + 1; y < r; ++y) {
            I f = m[y * c + x], q = m[rk * c + x];
            if (f == 0) continue;
            I g = 0;
            for (int k = 0; k < c; ++k) { m[y * c + k] = m[y * c + k] * q - m[rk * c + k] * f; I t = m[y * c + k] < 0 ? -m[y * c + k] : m[y * c + k]; while (t) { I z = g % t; g = t; t = z; } }
            if (g > 1) for (int k = 0; k < c; ++k) m[y * c + k] /= g;
        }
        ++rk;
    }
    return rk;
}
std::string text(const Sys &s) {
    std::ostringstream o;
    o << s.r << "x" << s.c << " A=";
    for (int i = 0; i < s.r; ++i) { o << (i ? ";" : "["); for (int j = 0; j < s.c; ++j) o << (j ? "," : "") << s.a[i * s.c + j] * s.sa; }
    o << "] b=[";
    for (int i = 0; i < s.r; ++i) o << (i ? "," : "") << s.b[i] * s.sa;
    o << "]";
    return o.str();
}
struct Out { bool ok = false; ErrorType e{}; std::vector<double> x; };
Out solve(const Mat &A, const Vec &b) {
    Out o;
    mc::step();
    try {
        Vec v = SolveLinear(A, b);
        o.ok = true;
        for (int i = 0; i < v.Rows(); ++i) o.x.push_back(v[i]);
        if (v.Cols() != 1) mc::fail("the result is not a column");
    } catch (const MathError &e) { o.e = e.GetErrorType(); }
    return o;
}
void toLib(const Sys &s, const std::vector<int> &perm, Mat &A, Vec &b) {
    for (int i = 0; i < s.r; ++i) {
        for (int j = 0; j < s.c; ++j) A.Value(i, j) = s.a[perm[i] * s.c + j] * s.sa;
        b[i] = s.b[perm[i]] * s.sa;
    }
}
std::string outText(const Out &o) {
    std::ostringstream t;
    t.precision(17);
    if (!o.ok) { t << "error " << GetErrorInfo(o.e); return t.str(); }
    t << "vector"; for (double v : o.x) t << " " << v;
    return t.str();
}
// mode: bit 0 allow indeterminate; perms: 0 identity only, 1 cyclic and reversal, 2 all
void check(const Sys &s, bool allow, int perms) {
    ConfigGuard cg;
    Config::Get().allowIndeterminateEquation = allow;
    std::vector<I> a(s.a.begin(), s.a.end()), ab;
    for (int i = 0; i < s.r; ++i) { for (int j = 0; j < s.c; ++j) ab.push_back(s.a[i * s.c + j]); ab.push_back(s.b[i]); }
    int rk = rankOf(a, s.r, s.c), rkb = rankOf(ab, s.r, s.c + 1);
    bool wantX = false;
    ErrorType want{};
    if (s.r > s.c) want = ErrorType::ERROR_OVER_DETERMINED_EQUATIONS;
    else if (rk != rkb) want = ErrorType::ERROR_SINGULAR_MATRIX;
    else if (rk == s.c) wantX = true;
    else if (s.r == s.c) want = ErrorType::ERROR_INFINITY_SOLUTIONS;
    else if (!allow) want = ErrorType::ERROR_INDETERMINATE_EQUATION;
    else wantX = true;
    std::vector<int> p(s.r);
    for (int i = 0; i < s.r; ++i) p[i] = i;
    std::vector<std::vector<int>> ps{p};
    if (perms == 2) while (std::next_permutation(p.begin(), p.end())) ps.push_back(p);
    if (perms == 1 && s.r > 1) { auto q = p; std::rotate(q.begin(), q.begin() + 1, q.end()); ps.push_back(q); std::reverse(q.begin(), q.end()); ps.push_back(q); }
    Out first;
    for (auto &q : ps) {
        Mat A(s.r, s.c);
        Vec b(s.r);
        toLib(s, q, A, b);
        Out o = solve(A, b);
        for (int i = 0; i < s.r; ++i) {
            for (int j = 0; j < s.c; ++j) if (A.Value(i, j) != s.a[q[i] * s.c + j] * s.sa) mc::fail("the caller's matrix was changed");
            if (b[i] != s.b[q[i]] * s.sa) mc::fail("the caller's vector was changed");
        }
        if (A.Rows() != s.r || A.Cols() != s.c || b.Rows() != s.r) mc::fail("the caller's matrix was changed");
        if (o.ok != wantX || (!wantX && o.e != want)) mc::failf("expected ", wantX ? std::string("a solution") : GetErrorInfo(want), ", got ", outText(o), " (rank ", rk, ", extended ", rkb, ", allowIndeterminate ", allow, ")");
        if (o.ok) {
            if ((int)o.x.size() != s.c) mc::failf("the solution has ", o.x.size(), " entries");
            for (int i = 0; i < s.r; ++i) {
                double sum = -s.b[q[i]] * s.sa, mag = std::fabs(sum);
                for (int j = 0; j < s.c; ++j) { double t = s.a[q[i] * s.c + j] * s.sa * o.x[j]; sum += t; mag += std::fabs(t); }
                double xm = 0, am = 0;
                for (double v : o.x) xm = std::max(xm, std::fabs(v));
                for (long long v : s.a) am = std::max(am, std::fabs(v * s.sa));
                if (!(std::fabs(sum) <= 1e-12 * (mag + am * xm) + 1e-300)) mc::failf("equation ", i, " is not satisfied: residual ", sum, ", ", outText(o));
            }
        }
        if (&q == &ps[0]) first = o;
        else if (o.ok) for (int j = 0; j < s.c; ++j) if (!(std::fabs(o.x[j] - first.x[j]) <= 1e-9 * (1 + std::fabs(first.x[j])))) mc::failf("the result depends on the order of the equations: ", outText(first), " and ", outText(o));
        uint64_t h = mc::hash(outText(o));
        mc::state(h);
    }
}
// all systems r x c with entries from ea, right sides from eb
void grid(int r, int c, std::vector<long long> ea, std::vector<long long> eb, int perms, uint64_t mul = 1) {
    uint64_t n = 2;
    for (int i = 0; i < r * c; ++i) n *= ea.size();
    for (int i = 0; i < r; ++i) n *= eb.size();
    auto mk = [=](uint64_t i, bool &allow) {
        mc::Dec d(i);
        allow = d.take(2);
        Sys s; s.r = r; s.c = c;
        for (int k = 0; k < r; ++k) s.b.push_back(eb[d.take(eb.size())]);
        for (int k = 0; k < r * c; ++k) s.a.push_back(ea[d.take(ea.size())]);
        return s;
    };
    std::ostringstream o;
    o << "all " << r << "x" << c << " systems, entries {";
    for (auto v : ea) o << v << " ";
    o << "}, right sides {";
    for (auto v : eb) o << v << " ";
    o << "}, indeterminate allowed or not, " << (perms == 2 ? "all row orders" : perms == 1 ? "3 row orders" : "one row order");
    mc::add("grid/" + std::to_string(r) + "x" + std::to_string(c) + "/" + std::to_string(ea.size()) + "-" + std::to_string(ea[0] + 1000 * ea.back()), o.str(), n,
            [=](uint64_t i) { bool al; Sys s = mk(i, al); if (s.r >= s.c && al && s.r * s.c > 4) return; check(s, al, perms); },
            [=](uint64_t i) { bool al; return text(mk(i, al)); }, 512);
    (void)mul;
}
// a matrix with prescribed pivot columns: echelon form, mixed by a unimodular matrix, rows permuted
Sys echelon(int r, int c, unsigned cols, int fill, int bmode, int mix) {
    Sys s; s.r = r; s.c = c;
    std::vector<long long> e(r * c, 0), b(r, 0);
    int y = 0;
    for (int x = 0; x < c && y < r; ++x) if (cols >> x & 1) {
        for (int k = x; k < c; ++k) e[y * c + k] = k == x ? 1 + (fill * 3 + y) % 3 : (fill == 0 ? 0 : (fill * (k + 2) + y * 5 + k * y) % 7 - 3);
        b[y] = bmode == 0 ? 0 : bmode == 1 ? y + 1 : 5 - 2 * y;
        ++y;
    }
    if (bmode == 2 && y < r) b[r - 1] = 1; // inconsistent
    // mixing: lower unimodular, then a rotation of rows
    s.a.assign(r * c, 0); s.b.assign(r, 0);
    for (int i = 0; i < r; ++i) {
        int to = mix < r ? (i + mix) % r : r - 1 - (i + mix) % r;
        for (int k = 0; k <= i; ++k) {
            long long w = k == i ? 1 : mix == 0 ? 0 : ((i * 3 + k * 5 + mix) % 3) - 1;
            for (int x = 0; x < c; ++x) s.a[to * c + x] += w * e[k * c + x];
            s.b[to] += w * b[k];
        }
    }
    return s;
}
} // namespace
void mc::harness() {
    bool th = opt.thorough;
    grid(1, 1, {-3, -2, -1, 0, 1, 2, 3}, {-3, -2, -1, 0, 1, 2, 3}, 0);
    grid(2, 2, {-3, -2, -1, 0, 1, 2, 3}, {-2, -1, 0, 1, 3}, 2);
    grid(3, 3, {-1, 0, 1}, {-1, 0, 2}, 1);
    grid(3, 3, {0, 1, 3}, {0, 2}, 1);
    grid(1, 2, {-2, -1, 0, 1, 3}, {-1, 0, 2}, 0);
    grid(1, 3, {-2, -1, 0, 1, 3}, {-1, 0, 2}, 0);
    grid(1, 4, {-2, -1, 0, 1, 3}, {-1, 0, 2}, 0);
    grid(2, 3, {-1, 0, 1, 2}, {-1, 0, 2}, 2);
    grid(2, 4, {-1, 0, 1}, {-1, 0, 2}, 2);
    grid(2, 5, {0, 1}, {0, 1}, 2);
    grid(3, 4, {0, 1}, {-1, 0, 2}, 1);
    grid(3, 5, {0, 1}, {0, 1}, 0);
    grid(2, 1, {-1, 0, 2}, {-1, 0, 1}, 2);
    grid(3, 1, {-1, 0, 2}, {-1, 0, 1}, 2);
    grid(3, 2, {-1, 0, 2}, {0, 1}, 1);
    grid(4, 2, {0, 1}, {0, 1}, 1);
    grid(4, 3, {0, 1}, {0, 1}, 0);
    grid(4, 4, {0, 1}, {0, 1}, 0);
    if (th) {
        grid(3, 3, {-2, -1, 0, 1, 2}, {-1, 0, 1}, 1);
        grid(3, 3, {0, 1, 2, 5}, {-1, 0, 3}, 2);
        grid(3, 4, {-1, 0, 1}, {0, 1}, 1);
        grid(2, 4, {-2, -1, 0, 1, 3}, {-1, 0, 2}, 2);
        grid(4, 5, {0, 1}, {0, 1}, 0);
        grid(4, 4, {0, 1}, {-1, 0, 2}, 1);
    }
    // prescribed pivot columns
    for (int c = 2; c <= (th ? 8 : 6); ++c)
        for (int r = 1; r <= c + 1 && r <= 6; ++r) {
            int F = 6, M = 2 * r;
            auto mk = [=](uint64_t i, bool &allow) { mc::Dec d(i); allow = d.take(2); int f = (int)d.take(F), b = (int)d.take(3), m = (int)d.take(M); return echelon(r, c, (unsigned)d.v, f, b, m); };
            mc::add("echelon/" + std::to_string(r) + "x" + std::to_string(c), "every set of pivot columns x 6 fillings x 3 right sides x rows mixed and permuted, indeterminate allowed or not", (uint64_t)2 * F * 3 * M << c,
                    [=](uint64_t i) { bool al; Sys s = mk(i, al); check(s, al, r <= 3 ? 2 : 1); }, [=](uint64_t i) { bool al; return text(mk(i, al)); }, 256);
        }
    // one small pivot candidate among ordinary ones: pivoting matters
    mc::add("small-pivot/2x2", "entries {-3..3}, one entry replaced by 1e-7 (times 1, 3), determinant at least 0.5", 2401 * 4 * 4 * 2, [](uint64_t i) {
        mc::Dec d(i);
        Sys s; s.r = s.c = 2; s.sa = 1e-7;
        for (int k = 0; k < 4; ++k) s.a.push_back(((long long)d.take(7) - 3) * 10000000);
        int at = (int)d.take(4), b = (int)d.take(4);
        s.a[at] = d.take(2) ? 3 : 1;
        s.b = {(b & 1 ? 10000000 : 20000000), (b & 2 ? -30000000 : 10000000)};
        double det = (double)s.a[0] * s.a[3] - (double)s.a[1] * s.a[2];
        if (std::fabs(det) < 0.5e14) return;
        check(s, false, 2);
    }, nullptr, 512);
    mc::add("small-pivot/3x3", "entries {-1,0,1}, one entry replaced by 1e-7, determinant at least 0.5", 19683 * 9, [](uint64_t i) {
        mc::Dec d(i);
        Sys s; s.r = s.c = 3; s.sa = 1e-7;
        for (int k = 0; k < 9; ++k) s.a.push_back(((long long)d.take(3) - 1) * 10000000);
        s.a[d.take(9)] = 1;
        s.b = {10000000, 20000000, -30000000};
        auto A = [&](int y, int x) { return s.a[y * 3 + x] * 1e-7; };
        double det = A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0));
        if (std::fabs(det) < 0.5) return;
        check(s, false, 1);
    }, nullptr, 512);
    // other sizes of entries, epsilon and log level
    mc::add("scales", "3x3 over {0,1,2} scaled by 2^-6..2^10 (every 4th power), epsilon 1e-6, 1e-9, 1e-12, log level off and trace", 19683 * 5 * 3 * 2, [](uint64_t i) {
        mc::Dec d(i);
        Sys s; s.r = s.c = 3;
        int sc = (int)d.take(5), e = (int)d.take(3), lg = (int)d.take(2);
        s.sa = std::ldexp(1.0, sc * 4 - 6);
        if (lg && sc != 1) return;
        for (int k = 0; k < 9; ++k) s.a.push_back((long long)d.take(3));
        s.b = {1, -1, 2};
        ConfigGuard cg;
        Config::Get().epsilon = e == 0 ? 1e-6 : e == 1 ? 1e-9 : 1e-12;
        Config::Get().logLevel = lg ? LogLevel::TRACE : LogLevel::OFF;
        check(s, false, 0);
    }, nullptr, 512);
    // a contradiction counts from epsilon on
    mc::add("contradiction/size", "every 2x2, 2x3, 3x3 and 3x4 (the last over {0,1}) system with entries {-1,0,1,2} (3x3: {-1,0,1}) whose rows are dependent in exactly one way, two right sides that fit, one of them then off by 0.1 to 20 epsilon, epsilon 1e-9, 1e-3 (thorough: 1e-12, 1e-6)", (uint64_t)4 * 19683 * 3 * 2 * (th ? 7 * 4 : 4 * 2), [th](uint64_t i) {
        mc::Dec d(i);
        int shape = (int)d.take(4);
        int r = shape < 2 ? 2 : 3, c = shape == 0 ? 2 : shape == 3 ? 4 : 3;
        uint64_t code = d.take(19683);
        int base = shape < 2 ? 4 : shape == 2 ? 3 : 2;
        std::vector<double> a(r * c);
        for (auto &x : a) { int k = (int)(code % base); code /= base; x = shape == 3 ? k : k - 1; }
        if (code) return;
        int at = (int)d.take(3), xs = (int)d.take(2), f = (int)d.take(th ? 7 : 4), e = (int)d.take(th ? 4 : 2);
        if (at >= r) return;
        auto A = [&](int y, int x) { return a[y * c + x]; };
        std::vector<double> y(r, 0);
        bool have = false;
        for (int p = 0; p < c && !have; ++p) {
            if (r == 2) { if (A(0, p) != 0 || A(1, p) != 0) { y = {A(1, p), -A(0, p)}; have = true; } continue; }
            for (int q = p + 1; q < c && !have; ++q) {
                y = {A(1, p) * A(2, q) - A(2, p) * A(1, q), A(2, p) * A(0, q) - A(0, p) * A(2, q), A(0, p) * A(1, q) - A(1, p) * A(0, q)};
                have = y[0] != 0 || y[1] != 0 || y[2] != 0;
            }
        }
        if (!have) return;
        for (int p = 0; p < c; ++p) { double t = 0; for (int k = 0; k < r; ++k) t += y[k] * A(k, p); if (t != 0) return; } // regular
        double lo = 1e9, hi = 0;
        for (double v : y) { hi = std::max(hi, std::fabs(v)); if (v != 0) lo = std::min(lo, std::fabs(v)); }
        static const double fs[] = {0.1, 0.6, 1.6, 5, 0.3, 2.5, 20};
        static const double es[] = {1e-9, 1e-3, 1e-12, 1e-6};
        ConfigGuard cg;
        Config::Get().epsilon = es[e];
        double off = std::fabs(y[at]) * fs[f];
        bool contra = off / hi >= 1.5, fits = off / lo <= 0.65;
        if (!contra && !fits) return;
        Mat M(r, c);
        Vec b(r);
        for (int k = 0; k < r; ++k) { double t = 0; for (int p = 0; p < c; ++p) { M.Value(k, p) = A(k, p); t += A(k, p) * (xs ? p == 0 ? 1 : p == 1 ? -2 : 3 : 0); } b[k] = t + (k == at ? fs[f] * es[e] : 0); }
        for (int allow = 0; allow < 2; ++allow) {
            Config::Get().allowIndeterminateEquation = allow;
            Out o = solve(M, b);
            bool wantX = !contra && r < c && allow;
            ErrorType want = contra ? ErrorType::ERROR_SINGULAR_MATRIX : r == c ? ErrorType::ERROR_INFINITY_SOLUTIONS : ErrorType::ERROR_INDETERMINATE_EQUATION;
            if (o.ok != wantX || (!wantX && o.e != want)) mc::failf("right side ", at, " of ", M.ToString(), " is off by ", fs[f], " epsilon (", es[e], "): expected ", wantX ? std::string("a solution") : GetErrorInfo(want), ", got ", outText(o), " (allowIndeterminate ", allow, ")");
            mc::state(mc::hash(outText(o)));
        }
    }, nullptr, 2048);
    // larger well-conditioned systems: diagonally dominant, permuted, cyclic, second difference, n to 20
    mc::add("larger", "structured systems of 4 to 30 unknowns, right side from a known solution, rows rotated", 27 * 6 * 30, [](uint64_t i) {
        mc::Dec d(i);
        int n = (int)d.take(27) + 4, kind = (int)d.take(6), rot = (int)d.take(30);
        if (rot >= n) return;
        Sys s; s.r = s.c = n; s.a.assign(n * n, 0); s.b.assign(n, 0);
        for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) {
            long long v = 0;
            switch (kind) {
            case 0: v = x == y ? 2 : std::abs(x - y) == 1 ? -1 : 0; break;
            case 1: v = x == y ? 3 * n : (x * 7 + y * 3) % 5 - 2; break;
            case 2: v = x == (y * 1 + n / 2) % n ? 2 : x == y ? 7 : 0; break;
            case 3: v = x >= y ? 1 : 0; break;
            case 4: v = x == n - 1 - y ? 4 : x > n - 1 - y ? 1 : 0; break;
            default: v = x == y || x == 0 || y == 0 ? (y == 0 && x == 0 ? 2 * n : 1) : 0;
            }
            s.a[((y + rot) % n) * n + x] = v;
        }
        std::vector<long long> sol;
        for (int x = 0; x < n; ++x) sol.push_back((x * 5 + kind) % 7 - 3);
        for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) s.b[y] += s.a[y * n + x] * sol[x];
        Mat A(n, n); Vec b(n); std::vector<int> p; for (int k = 0; k < n; ++k) p.push_back(k);
        toLib(s, p, A, b);
        Out o = solve(A, b);
        if (!o.ok) mc::failf("no solution: ", outText(o), " n=", n, " kind=", kind);
        for (int k = 0; k < n; ++k) if (!(std::fabs(o.x[k] - sol[k]) < 1e-9)) mc::failf("unknown ", k, " is ", o.x[k], ", expected ", sol[k], " n=", n, " kind=", kind, " rot=", rot);
    }, nullptr, 16);
}
