// C03: printing an expression and parsing it back gives an equivalent expression.
#include "lib.h"
using namespace br;

namespace {
double leafErr(double v) { // what printing may change about a number
    return std::fabs(v) > 1e-16 && std::fabs(v) < 1e16 ? (v == std::trunc(v * 64) / 64 ? 0 : 1e-16 + 1e-15 * std::fabs(v)) : 1e-15 * std::fabs(v);
}
double lowBit(double v) { // value of the lowest set bit
    if (v == 0) return 1e308;
    int e; double m = std::fabs(std::frexp(v, &e));
    uint64_t k = (uint64_t)std::ldexp(m, 53);
    return std::ldexp((double)(k & (~k + 1)), e - 53);
}
// reference evaluation with the printing accuracy of numbers, allowing sums and products to be re-associated:
// s = sum of the magnitudes of the terms of a sum, lo = their lowest bit; l = sum of |log2| of the factors of a product,
// b = sum of their numbers of significant bits. When re-association cannot be exact, the error bound grows accordingly.
struct PV { ref::Val v; double s, lo, l, b; };
void fresh(PV &r) {
    double x = r.v.v;
    r.s = std::fabs(x); r.lo = lowBit(x);
    r.l = x == 0 || !std::isfinite(x) ? 0 : std::fabs(std::log2(std::fabs(x)));
    r.b = x == 0 ? 0 : std::log2(std::fabs(x) / r.lo) + 1;
}
PV evalQ(const Arena &A, int t, const Env &e) {
    const ref::TN &q = A.n[t];
    PV r;
    if (q.op == ref::NUM) { r.v.v = q.v; r.v.err = leafErr(q.v); fresh(r); return r; }
    if (q.op == ref::VAR) { r.v = A.eval(t, e); fresh(r); return r; }
    PV a = evalQ(A, q.l, e), b;
    if (ref::isBin(q.op)) b = evalQ(A, q.r, e);
    r.v = ref::applyOp(q.op, a.v, b.v);
    fresh(r);
    if (!r.v.valid) return r;
    if (q.op == ref::ADD || q.op == ref::SUB) {
        r.s = a.s + b.s; r.lo = std::min(a.lo, b.lo);
        if (!(r.s < r.lo * 9e15) || r.v.err > 0) r.v.err += 2 * ref::ulp(r.s);
    } else if (q.op == ref::MUL || q.op == ref::DIV) {
        r.l = a.l + b.l; r.b = a.b + b.b;
        if (r.l > 1000) r.v.skip = true;
        if (r.b > 52) r.v.err += 2 * ref::ulp(r.v.v);
    }
    return r;
}
ref::Val evalP(const Arena &A, int t, const Env &e) { return evalQ(A, t, e).v; }
void check(const Arena &A, int t, Node n, const std::vector<Env> &es) {
    Node keep = Clone(n);
    mc::step(4);
    std::string s = n->ToString();
    if (n->ToString() != s) mc::failf("printing twice gives \"", s, "\" and \"", n->ToString(), "\"");
    std::ostringstream os;
    os << n;
    if (os.str() != s) mc::failf("operator<< prints \"", os.str(), "\", ToString \"", s, "\"");
    if (!n->Equal(keep)) mc::failf("printing \"", s, "\" changed the expression");
    mc::state(s);
    Node m;
    try { m = Parse(s); } catch (const std::exception &e) { mc::failf("the printed text \"", s, "\" of ", A.text(t), " is not accepted: ", e.what()); }
    std::set<std::string> want;
    A.names(t, want);
    if (m->GetAllVarNames() != want) mc::failf("names of \"", s, "\" printed for ", A.text(t));
    if (n->GetAllVarNames() != want) mc::failf("names of the expression ", A.text(t));
    for (auto &e : es) {
        ref::Val r = evalP(A, t, e);
        if (r.skip) continue;
        if (!r.valid) continue; // an invalid value may become valid by re-association (overflow), so only valid values are compared
        same(value(m, e), r, "\"" + s + "\" printed for " + A.text(t) + " and read back");
    }
    std::string s2 = m->ToString();
    bool negative = false; // a negative number is read back as the negation of a number
    for (auto &q : A.n) negative = negative || (q.op == ref::NUM && (q.v < 0 || (std::fabs(q.v) > 1e-16 && std::fabs(q.v) < 1.6e-16)));
    if (negative) { s = s2; s2 = Parse(s)->ToString(); }
    if (s2 != s) mc::failf("\"", s, "\" is read back as \"", s2, "\"");
}
void checkT(const ref::TermSpace &S, uint64_t i) {
    Arena A;
    int t = S.make(A, i);
    check(A, t, build(A, t), envs());
}
void addT(const std::string &name, const std::string &what, const ref::TermSpace &S, uint64_t chunk = 512) {
    mc::add(name, what, S.size(), [S](uint64_t i) { checkT(S, i); }, [S](uint64_t i) { Arena A; int t = S.make(A, i); return A.text(t); }, chunk);
}
const std::vector<double> &numbers() {
    static const std::vector<double> v = [] {
        std::vector<double> r;
        std::vector<double> ms = {1.0 / 3, 9.999999999999999, 2.5};
        if (mc::opt.thorough) ms = {1.0, 2.5, 9.999999999999999, 1.0 / 3, 1.7, 12345.678, 5.0, 7.0 / 11};
        for (double m : ms)
            for (int e : {-323, -310, -308, -300, -100, -20, -17, -16, -15, -10, -5, -1, 0, 1, 5, 15, 16, 17, 22, 100, 300, 304, 308}) {
                double x = m * std::pow(10.0, e);
                if (std::isfinite(x) && x != 0) { r.push_back(x); r.push_back(-x); }
            }
        for (double x : {0.0, -0.0, 1.0, -1.0, 100.0, -100.0, 1e15, 1e16, 9007199254740992.0, 9007199254740993.0, 0.1, 0.2, 0.3, -0.1, 3.141592653589793, 2.718281828459045, 4e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.9999999999999999, 1.0000000000000002, 1e-16, 1.0000000000000001e-16, 9.9e-17}) r.push_back(x);
        return r;
    }();
    return v;
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    using namespace ref;
    { TermSpace S; S.U = {POS, NEG, SIN, EXP}; S.B.assign(std::begin(ALLBIN), std::end(ALLBIN)); S.leafFresh(); S.leafNum(-3); S.leafNum(2); if (th) S.leafNum(-0.5); S.init(3);
      addT("trees/3", "all trees of at most 3 operators over 8 binary operators, both signs, 2 functions; leaves: variables, positive and negative numbers", S); }
    { TermSpace S; S.U = {NEG}; S.B.assign(std::begin(ALLBIN), std::end(ALLBIN)); S.leafFresh(); S.init(th ? 5 : 4);
      addT("trees/variables", "deeper trees of variables, binary operators and minus", S); }
    { TermSpace S; S.U = {NEG}; S.B = {SUB, MUL, POW, MOD}; S.leafFresh(); S.leafNum(-2); S.init(th ? 5 : 4);
      addT("trees/core", "deeper trees over - * ^ % and minus with variables and negative numbers", S); }
    { TermSpace S; S.U.assign(ALLFUN, ALLFUN + 11); S.U.push_back(POS); S.U.push_back(NEG); S.B = {ADD, SUB, DIV, POW, AND}; S.leafFresh(); S.leafNum(0.5); S.init(2);
      addT("trees/functions", "all functions and signs, nested and combined", S); }
    // every number in every context of up to two operators
    { TermSpace C; C.U = {POS, NEG, SIN, SQRT}; C.B.assign(std::begin(ALLBIN), std::end(ALLBIN)); C.leafVar("x"); C.leafVar("NUM"); C.init(2);
      uint64_t nc = C.size(), nv = numbers().size();
      auto mk = [C, nv](Arena &A, uint64_t i) { Arena B; int t = C.make(B, i / nv); double v = numbers()[i % nv]; for (auto &q : B.n) if (q.op == VAR && q.name == "NUM") { q.op = NUM; q.v = v; q.name.clear(); } return A.copy(B, t); };
      mc::add("numbers/contexts", "numbers of every magnitude and sign in every position of trees of at most 2 operators", nc * nv, [mk](uint64_t i) {
          Arena A; int t = mk(A, i); static std::vector<Env> es = [] { std::vector<Env> v(2); v[0]["x"] = 3; v[1]["x"] = 0.625; return v; }();
          check(A, t, build(A, t), es);
      }, [mk](uint64_t i) { Arena A; int t = mk(A, i); return A.text(t); }, 512); }
    // every name of a list in every leaf of every small tree: a name that Var takes is read back as this name
    static const std::vector<std::string> names = [] {
        std::set<std::string> r;
        for (std::string w : {"sin", "cos", "tan", "arcsin", "asin", "arccos", "acos", "arctan", "atan", "sqrt", "log", "log2", "log10", "exp", "inf", "nan", "infinity", "e", "E", "pi", "x", "_", "Var", "abs", "sec", "cot", "ln", "log1", "log20", "mod", "and", "or", "xor", "not", "i", "d", "f", "true", "NULL", "snan", "ind", "e1", "E10", "_1", "p3", "x1e5", "e5x", "infx", "in", "na"}) {
            r.insert(w);
            std::string c = w;
            for (char &q : c) q = toupper(q);
            r.insert(c); c = w; c[0] = toupper(c[0]); r.insert(c); c = w; c.back() = toupper(c.back()); r.insert(c);
            for (std::string z : {"_", "0", "1", "a", "e", "s"}) { r.insert(w + z); if (!isdigit(z[0])) r.insert(z + w); }
            if (w.size() > 1) { r.insert(w.substr(1)[0] >= '0' && w.substr(1)[0] <= '9' ? w : w.substr(1)); r.insert(w.substr(0, w.size() - 1)); }
            r.insert(w + w); r.insert(w + "_" + w);
        }
        r.erase("");
        return std::vector<std::string>(r.begin(), r.end());
    }();
    { TermSpace C; C.U = {NEG, POS, SIN, LOG}; C.B.assign(std::begin(ALLBIN), std::end(ALLBIN)); C.leafVar("NAME"); C.leafVar("y"); C.leafNum(2); C.init(th ? 2 : 1);
      uint64_t k = names.size();
      auto mk = [C, k](Arena &A, uint64_t i) { Arena B; int t = C.make(B, i / k); for (auto &q : B.n) if (q.op == VAR && q.name == "NAME") q.name = names[i % k]; return A.copy(B, t); };
      mc::add("names", std::to_string(k) + " names (of functions, words for numbers, near ones, in capitals) in every place of small trees", C.size() * k, [mk, k](uint64_t i) {
          const std::string &w = names[i % k];
          bool taken = true;
          try { Var(w); } catch (const std::runtime_error &) { taken = false; }
          if (VarNameIsLegal(w) != taken) mc::failf("VarNameIsLegal(\"", w, "\") and Var disagree");
          Node p;
          try { p = Parse(w); } catch (const std::runtime_error &) {}
          bool read = p && p->ToString() == w && p->GetAllVarNames() == std::set<std::string>{w};
          if (read != taken) mc::failf("Var ", taken ? "takes" : "rejects", " the name \"", w, "\", which the parser ", read ? "reads as a variable" : "does not read as a variable");
          if (!taken) { mc::state(w); return; }
          std::vector<Env> es(2); es[0][w] = 2; es[0]["y"] = 3; es[1][w] = 1.25; es[1]["y"] = 0.75;
          Arena A; int t = mk(A, i);
          check(A, t, build(A, t), es);
      }, [mk](uint64_t i) { Arena A; int t = mk(A, i); return A.text(t); }, 512); }
    // scale
    static std::vector<int> sizes = [] { std::vector<int> r; for (int i = 1; i <= (mc::opt.thorough ? 70 : 20); ++i) r.push_back(i); for (int i : {31, 33, 63, 64, 65, 100, 127, 129, 200, 257, 400}) if (i < 130 || mc::opt.thorough) r.push_back(i); return r; }();
    static std::vector<ref::Op> bins(std::begin(ALLBIN), std::end(ALLBIN));
    auto mkScale = [](Arena &A, uint64_t i) {
        mc::Dec d(i);
        int shape = (int)d.take(5);
        ref::Op o = bins[d.take(8)], p = bins[d.take(8)];
        int n = sizes[d.take(sizes.size())];
        int t = A.var("a");
        for (int k = 0; k < n; ++k) {
            int x = A.var(std::string(1, "bcd"[k % 3]));
            ref::Op q = k % 2 ? p : o;
            if (shape == 0) t = A.bin(q, t, x);
            else if (shape == 1) t = A.bin(q, x, t);
            else if (shape == 2) t = k % 2 ? A.bin(q, t, x) : A.bin(q, x, t);
            else if (shape == 3) t = k % 3 == 2 ? A.un(NEG, t) : A.bin(q, t, x);
            else t = k % 3 == 2 ? A.un(k % 2 ? SIN : POS, t) : A.bin(q, x, t);
        }
        return t;
    };
    mc::add("scale/shapes", "left-deep, right-deep, zig-zag and prefixed trees of n operators over every pair of binary operators", 5 * 64 * sizes.size(), [mkScale](uint64_t i) {
        Arena A; int t = mkScale(A, i);
        static std::vector<Env> es = [] { std::vector<Env> v(2); v[0]["a"] = 2; v[0]["b"] = 1; v[0]["c"] = 3; v[0]["d"] = 1; v[1]["a"] = 1.25; v[1]["b"] = 1.0625; v[1]["c"] = 0.9375; v[1]["d"] = 1.5; return v; }();
        check(A, t, build(A, t), es);
    }, nullptr, 64);
}
