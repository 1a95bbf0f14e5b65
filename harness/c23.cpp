// C23: work and memory grow no faster than stated with the size of what is worked on. The library is compiled with every branch
// counted; bytes moved by the memory functions of the C library and bytes allocated are counted too, so the measurement is
// exact and repeatable: no clock is read. Every operation runs on every shape at sizes n, 2n and 4n.
#include "shapes.h"
#include <cstdint>
#define UNCOUNTED __attribute__((no_sanitize("coverage")))
static uint64_t edges, moved, bytes, live, peak;
extern "C" {
UNCOUNTED void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; ++a) *a = 1; }
UNCOUNTED void __sanitizer_cov_trace_pc_guard(uint32_t *) { ++edges; }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t); void *__real_memchr(const void *, int, size_t); size_t __real_strlen(const char *);
UNCOUNTED void *__wrap_memcpy(void *a, const void *b, size_t n) { moved += n; return __real_memcpy(a, b, n); }
UNCOUNTED void *__wrap_memmove(void *a, const void *b, size_t n) { moved += n; return __real_memmove(a, b, n); }
UNCOUNTED void *__wrap_memset(void *a, int b, size_t n) { moved += n; return __real_memset(a, b, n); }
UNCOUNTED int __wrap_memcmp(const void *a, const void *b, size_t n) { moved += n; return __real_memcmp(a, b, n); }
UNCOUNTED void *__wrap_memchr(const void *a, int b, size_t n) { moved += n; return __real_memchr(a, b, n); }
UNCOUNTED size_t __wrap_strlen(const char *a) { size_t n = __real_strlen(a); moved += n; return n; }
}
UNCOUNTED void *operator new(size_t n) {
    bytes += n;
    size_t *p = (size_t *)malloc(n + 16);
    if (!p) throw std::bad_alloc();
    *p = n; live += n; if (live > peak) peak = live;
    return p + 2;
}
UNCOUNTED void operator delete(void *q) noexcept { if (!q) return; size_t *p = (size_t *)q - 2; live -= *p; free(p); }
UNCOUNTED void operator delete(void *p, size_t) noexcept { operator delete(p); }

namespace {
struct Cost { double work = 0, moved = 0, bytes = 0, peak = 0; };
Cost total; // of all measurements of a case
size_t measured(std::function<void()> f) {
    uint64_t e = edges, m = moved, b = bytes, l = live;
    peak = live;
    f();
    total.work += edges - e; total.moved += moved - m; total.bytes += bytes - b; total.peak = std::max(total.peak, (double)(peak - l));
    return 0;
}
// costs at sizes n, 2n, 4n grow at most with the power p of the size (and a logarithm): the cost added per element
// between 2n and 4n is at most 2^(p-1) times the cost added per element between n and 2n
void judge(const std::function<void(int)> &f, int n, int p, const std::string &what, bool memory = true) {
    Cost c[3];
    for (int k = 0; k < 3; ++k) { total = Cost(); f(n << k); c[k] = total; }
    mc::step(3);
    auto one = [&](double Cost::*q, const char *name, double slack, double floor) {
        if (c[2].*q < floor) return; // too little to speak of growth
        double a = (c[1].*q - c[0].*q) / n, b = (c[2].*q - c[1].*q) / (2 * n);
        if (b > (1 << (p - 1)) * 1.28 * std::max(a, 0.0) + slack)
            mc::failf(what, ": ", name, " grow faster than the size", p > 1 ? p == 2 ? " squared" : " cubed" : "", ": ", c[0].*q, ", ", c[1].*q, " and ", c[2].*q, " at sizes ", n, ", ", 2 * n, " and ", 4 * n);
    };
    one(&Cost::work, "executed branches", 64, 1000);
    if (memory) {
        one(&Cost::moved, "bytes moved or scanned", 128, 20000);
        one(&Cost::bytes, "bytes allocated", 128, 20000);
        one(&Cost::peak, "bytes in use", 128, 20000);
    }
    mc::state(mc::hash(what, (uint64_t)c[2].work));
}
void addShapes(const std::string &name, std::vector<Shape> v, int n, int nd, int chunk) {
    auto p = std::make_shared<std::vector<Shape>>(std::move(v));
    const int K = NOPS + 1; // DIFF instead of NOPS
    mc::add(name, std::to_string(p->size()) + " shapes x every operation, sizes " + std::to_string(n) + " (derivatives " + std::to_string(nd) + "), twice and four times as much", p->size() * K, [=](uint64_t i) {
        int op = (int)(i % K); const Shape &s = (*p)[i / K];
        if (op == NOPS) judge([&](int k) { use(s, k, DIFF, false); }, nd, 2, std::string("Diff for levels ") + sname(s));
        else judge([&](int k) { use(s, k, op, false); }, n, 1, std::string(oname[op]) + " for levels " + sname(s));
    }, [=](uint64_t i) { return std::string(oname[i % K == NOPS ? DIFF : i % K]) + " at levels " + sname((*p)[i / K]); }, chunk);
    mc::spaces.back().hang = 120;
}
struct Prob { std::string name; int n, p; std::function<void(int)> f; };
std::vector<Prob> &probs() {
    static std::vector<Prob> v = [] {
        std::vector<Prob> r;
        auto add = [&](const std::string &nm, int n, int p, std::function<void(int)> f) { r.push_back({nm, n, p, f}); };
        static auto nm = [](int k) { return "v" + std::to_string(k); };
        static auto table = [](int n) { std::map<std::string, double> m; for (int k = 0; k < n; ++k) m[nm(k)] = k + 0.5; return m; };
        static auto sum = [](int n) { Node s = Num(1); for (int k = 0; k < n; ++k) s = Move(s) + Var(nm(k)); return s; };
        // tables
        add("VarsTable of a map", 1000, 1, [](int n) { auto m = table(n); measured([&] { VarsTable t(m); }); });
        add("copy, assignment and comparison of tables", 1000, 1, [](int n) { VarsTable t(table(n)); measured([&] { VarsTable u(t); u = t; if (!(u == t)) mc::fail("differs"); VarsTable w(std::move(u)); }); });
        add("SetValues", 1000, 1, [](int n) { VarsTable t(table(n)); Vec w(n, 2); measured([&] { t.SetValues(w); }); });
        add("lookups in a table", 1000, 1, [](int n) { VarsTable t(table(n)); std::vector<std::string> q; for (int k = 0; k < n; ++k) q.push_back(nm(k)); measured([&] { double s = 0; for (auto &w : q) s += t[w] + t.Has(w); }); });
        add("text of a table", 1000, 1, [](int n) { VarsTable t(table(n)); measured([&] { t.ToString(); }); });
        add("failing lookups", 1000, 1, [](int n) { VarsTable t(table(n)); measured([&] { for (int k = 0; k < n; ++k) try { t["q"]; } catch (const std::out_of_range &) {} }); });
        add("values and iteration of a table", 1000, 1, [](int n) { VarsTable t(table(n)); measured([&] { double s = 0; for (auto &q : t) s += q.second; for (int k = 0; k < n; ++k) s += t.Values()[k] + t.Vars()[k].size() + t.VarNums(); }); });
        // many names
        add("Subs of many names by a map of numbers", 1000, 1, [](int n) { Node s = sum(n); auto m = table(n); measured([&] { Subs(s, m); }); });
        add("Subs of many names by a table", 1000, 1, [](int n) { Node s = sum(n); VarsTable t(table(n)); measured([&] { Subs(s, t); Subs(Clone(s), t); }); });
        add("Subs of many names by a map of expressions", 1000, 1, [](int n) { Node s = sum(n); std::map<std::string, Node> m; for (int k = 0; k < n; ++k) m[nm(k)] = Var("x") * Num(k); measured([&] { Subs(s, m); }); });
        add("Subs of many names by a list", 1000, 1, [](int n) { Node s = sum(n); std::vector<std::string> o; SymVec w(n); for (int k = 0; k < n; ++k) { o.push_back(nm(k)); w[k] = Var("x") + Num(k); } measured([&] { Subs(s, o, w); }); });
        add("Subs of one name that occurs often", 1000, 1, [](int n) { Node s = Num(1); for (int k = 0; k < n; ++k) s = Move(s) + Var("x") * Num(k); measured([&] { Subs(s, "x", Var("y") - Num(1)); Subs(s, "x", Num(3)); }); });
        add("names of a sum of many names", 1000, 1, [](int n) { Node s = sum(n); measured([&] { s->GetAllVarNames(); }); });
        add("names of long names", 1000, 1, [](int n) { Node s = Num(1); for (int k = 0; k < 20; ++k) s = Move(s) + Var(std::string(n, 'a') + std::to_string(k)); measured([&] { s->GetAllVarNames(); s->ToString(); Clone(s); Parse(s->ToString()); Subs(s, std::string(n, 'a') + "3", Num(2)); }); });
        add("compound assignment, again and again", 1000, 1, [](int n) { measured([&] { Node s = Num(1); for (int k = 0; k < n; ++k) { s += Var("x"); s *= Num(2); s -= Num(k); s /= Num(3); s ^= Num(1); } }); });
        add("building by the operators from moved expressions", 1000, 1, [](int n) { measured([&] { Node s = Num(1); for (int k = 0; k < n; ++k) s = Move(s) + sin(Var("x")) * Num(2) - cos(-Var("y")); }); });
        add("derivative of a sum by one of its names", 300, 1, [](int n) { Node s = sum(n); measured([&] { Diff(s, nm(n / 2)); }); });
        add("derivative of a sum of products", 300, 1, [](int n) { Node s = Num(1); for (int k = 0; k < n; ++k) s = Move(s) + Var("x") * sin(Var("y") * Num(k)); measured([&] { Diff(s, "x"); }); });
        add("second derivative of a sum of powers", 300, 1, [](int n) { Node s = Num(1); for (int k = 0; k < n; ++k) s = Move(s) + (Var("x") ^ Num(k)); measured([&] { Diff(s, "x", 2); }); });
        // vectors and matrices
        for (int c : {1, 0}) {
            auto mk = [c](int n) { Mat m(c ? n : n, c ? 1 : n, 0.5); for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) m.Value(i, j) = (i * 7 + j * 3) % 11 - 5; return m; };
            std::string w = c ? " of vectors" : " of square matrices";
            int n = c ? 4000 : 32, p = c ? 1 : 2;
            add("sum and difference" + w, n, p, [mk](int k) { Mat a = mk(k), b = mk(k); measured([&] { a + b; a - b; a += b; }); });
            add("scaling, negation and element-wise quotients" + w, n, p, [mk](int k) { Mat a = mk(k), b = mk(k); measured([&] { a * 2; 2 * a; -a; EachDivide(a, b); }); });
            add("comparison and norms" + w, n, p, [mk](int k) { Mat a = mk(k), b = mk(k); measured([&] { if (!(a == b)) mc::fail("differs"); a == 3; IsZero(a); AllIsLessThan(a, b); a.Norm2(); a.NormInfinity(); a.NormNegInfinity(); a.Min(); }); });
            add("transposition, resizing, filling and copies" + w, n, p, [mk](int k) { Mat a = mk(k); measured([&] { a.Transpose(); Mat b(a); b = a; b.Resize(b.Rows() + 1, b.Cols() + 1); b.Zero(); if (b.Rows() == b.Cols()) b.Ones(); b.SetValue(3); }); });
            add("text" + w, n / 2, p, [mk](int k) { Mat a = mk(k); measured([&] { a.ToString(); std::ostringstream o; o << a; }); });
            add("rows and columns" + w, n, p, [mk](int k) { Mat a = mk(k); measured([&] { for (int i = 0; i < (a.Cols() > 1 ? k : 3); ++i) { std::valarray<double>(a.Row(i)).sum(); a.SwapRow(0, i); } for (int i = 0; i < a.Cols(); ++i) { std::valarray<double>(a.Col(i)).sum(); a.SwapCol(0, i); GetMaxAbsRowIndex(a, 0, k, i); } }); });
            auto sym = [mk](int k) { return SymMat(mk(k)); };
            add("symbolic matrices: clone, compare, names, difference" + w, c ? n / 4 : 16, p, [sym](int k) { SymMat a = sym(k), b = sym(k); measured([&] { SymMat q = a.Clone(); if (!(q == a)) mc::fail("differs"); q.GetAllVarNames(); a - b; }); });
            add("symbolic matrices: evaluation, text, substitution" + w, c ? n / 4 : 16, p, [sym](int k) { SymMat a = sym(k); a.Value(0, 0) = Var("x"); measured([&] { a.ToString(); a.Subs(VarsTable{{"x", 1}}); a.Calc(); a.ToMat(); }); });
        }
        add("dot product and vector arithmetic", 4000, 1, [](int n) { Vec a(n, 2), b(n, 3); measured([&] { Dot(a, b); a + b; a - b; a * b; a / b; -a; a * 2; if (b < a) mc::fail("order"); }); });
        add("product of matrices", 16, 3, [](int n) { Mat a(n, n, 2), b(n, n, 3); measured([&] { a * b; }); });
        add("product of a matrix and a vector", 64, 2, [](int n) { Mat a(n, n, 2); Vec b(n, 3); measured([&] { a * b; }); });
        add("product of symbolic matrices", 8, 3, [](int n) { SymMat a(Mat(n, n, 2)), b(Mat(n, n, 3)); measured([&] { a * b; }); });
        add("Jacobian of many equations by many variables", 10, 3, [](int n) { SymVec e(n); std::vector<std::string> q; for (int k = 0; k < n; ++k) { e[k] = sum(n) + (Var(nm(k)) ^ Num(2)); q.push_back(nm(k)); } measured([&] { Jacobian(e, q); }); });
        static auto lin = [](int n, Vec &b) { Mat a(n, n); b = Vec(n); for (int i = 0; i < n; ++i) { b[i] = i + 1; for (int j = 0; j < n; ++j) a.Value(i, j) = i == j ? 3 * n : (i * j) % 5 - 2; } return a; };
        add("SolveLinear", 24, 3, [](int n) { Vec b(1); Mat a = lin(n, b); measured([&] { SolveLinear(a, b); }); });
        add("SolveLinear of a permuted diagonal matrix", 24, 3, [](int n) { Vec b(n, 1); Mat a(n, n); for (int i = 0; i < n; ++i) a.Value(i, n - 1 - i) = i + 1; measured([&] { SolveLinear(a, b); }); });
        add("SolveLinear, indeterminate", 24, 3, [](int n) { Config::Get().allowIndeterminateEquation = true; Vec b(n, 1); Mat a(n, 2 * n); for (int i = 0; i < n; ++i) { a.Value(i, 2 * i) = 2; a.Value(i, i) += 1; } measured([&] { SolveLinear(a, b); }); Config::Get().Reset(); });
        add("SolveLinear, singular", 24, 3, [](int n) { Vec b(1); Mat a = lin(n, b); for (int j = 0; j < n; ++j) a.Value(n - 1, j) = a.Value(0, j); measured([&] { try { SolveLinear(a, b); } catch (const std::runtime_error &) {} }); });
        for (int lm = 0; lm < 2; ++lm) {
            std::string w = lm ? " by LM" : " by Newton";
            auto with = [lm](std::function<void()> f) { Config::Get().nonlinearMethod = lm ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON; Config::Get().logLevel = LogLevel::OFF; measured(f); Config::Get().Reset(); };
            add("Solve of independent equations" + w, 8, 3, [with](int n) { SymVec e(n); for (int k = 0; k < n; ++k) e[k] = (Var(nm(k)) ^ Num(2)) - Num(4); with([&] { try { Solve(e); } catch (const std::runtime_error &) {} }); });
            add("Solve of linear equations in all unknowns" + w, 8, 3, [with](int n) { SymVec e(n); for (int k = 0; k < n; ++k) e[k] = sum(n) + Var(nm(k)) * Num(n) - Num(k); with([&] { try { Solve(e); } catch (const std::runtime_error &) {} }); });
        }
        add("Solve of one equation with many terms", 200, 1, [](int n) { Node s = Var("x") - Num(1); for (int k = 0; k < n; ++k) s = Move(s) + Var("x") * Num(k); SymVec e(1); e[0] = Move(s); measured([&] { Solve(e); }); });
        return r;
    }();
    return v;
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    addShapes("all levels, period 1", shapes(true, 1, {0, 1, 2, 3, 4}), th ? 2000 : 800, th ? 150 : 60, 8);
    int F = (int)flat().size();
    static const char *o[] = {"Parse", "ToString", "Clone", "Equal", "GetAllVarNames", "Subs", "Simplify", "Vpa and Calc", "destruction"};
    const int N = th ? 20000 : 4000;
    mc::add("flat texts", "texts of 27 kinds x 9 operations; sizes " + std::to_string(N) + ", twice and four times as much", F * 9, [N](uint64_t i) {
        judge([&](int n) { size_t u; flatText((int)(i / 9), (int)(i % 9), n, false, u); }, N, 1, std::string(o[i % 9]) + " of the text " + flat()[i / 9].first);
    }, [](uint64_t i) { return std::string("text ") + flat()[i / 9].first + ", " + o[i % 9]; }, 1);
    mc::add("malformed texts", "17 kinds of malformed text; sizes " + std::to_string(N) + ", twice and four times as much", broken().size(), [N](uint64_t i) {
        // the message for operands without operators quotes the text once for every operand
        bool many = std::string(broken()[i].first) == "x x x x";
        judge([&](int n) { size_t u; flatText((int)i, 0, n, true, u); }, many ? 200 : N, 1, std::string("Parse of the malformed text ") + broken()[i].first, !many);
    }, [](uint64_t i) { return std::string(broken()[i].first); }, 1);
    mc::add("operations by size", "operations on tables, many names, vectors, matrices, symbolic matrices and systems, each at 3 sizes, against the power of the size in its definition", probs().size(), [](uint64_t i) {
        auto &p = probs()[i];
        judge(p.f, p.n, p.p, p.name);
    }, [](uint64_t i) { return probs()[i].name; }, 1);
    addShapes("13 levels, period 2", shapes(false, 2, {0, 1, 2}), th ? 500 : 250, th ? 60 : 30, 16);
    if (th) addShapes("all levels, period 2", shapes(true, 2, {0, 3}), 200, 24, 16);
    if (th) addShapes("13 levels, period 3", shapes(false, 3, {1}), 150, 24, 16);
}
