// C09: expressions behave as independent values and release all their memory.
#include "lib.h"
#include <sanitizer/allocator_interface.h>
using namespace br;

namespace {
using Impl = internal::NodeImpl;
const ref::Op B5[5] = {ref::ADD, ref::SUB, ref::MUL, ref::DIV, ref::POW};

enum Kind { CLONE, MOVE, BCC, BMC, BCM, BMM, AC, AM, UC, UM, FC, FM, ASSIGN, MASSIGN, CALC, SUBC, SUBM, RESET, FRESH, COPYCTOR, SWAP, PRINT, NONE };
struct O { Kind k; int t, i, j; ref::Op op; }; // target, operands
std::string show(const O &o) {
    auto s = [](int i) { return std::string(1, (char)('a' + i)); };
    std::string op = ref::opName(o.op);
    switch (o.k) {
    case CLONE: return s(o.t) + "=Clone(" + s(o.i) + ")";
    case MOVE: return s(o.t) + "=Move(" + s(o.i) + ")";
    case BCC: return s(o.t) + "=" + s(o.i) + op + s(o.j);
    case BMC: return s(o.t) + "=Move(" + s(o.i) + ")" + op + s(o.j);
    case BCM: return s(o.t) + "=" + s(o.i) + op + "Move(" + s(o.j) + ")";
    case BMM: return s(o.t) + "=Move(" + s(o.i) + ")" + op + "Move(" + s(o.j) + ")";
    case AC: return s(o.i) + op + "=" + s(o.j);
    case AM: return s(o.i) + op + "=Move(" + s(o.j) + ")";
    case UC: case FC: return s(o.t) + "=" + op + "(" + s(o.i) + ")";
    case UM: case FM: return s(o.t) + "=" + op + "(Move(" + s(o.i) + "))";
    case ASSIGN: return "*" + s(o.t) + "=*" + s(o.i);
    case MASSIGN: return "*" + s(o.t) + "=move(*" + s(o.i) + ")";
    case CALC: return s(o.i) + "->Calc()";
    case SUBC: return s(o.t) + "=Subs(" + s(o.i) + ",x," + s(o.j) + ")";
    case SUBM: return s(o.t) + "=Subs(Move(" + s(o.i) + "),x," + s(o.j) + ")";
    case RESET: return s(o.t) + "=nullptr";
    case FRESH: return s(o.t) + "=new";
    case COPYCTOR: return s(o.t) + "=make_unique(*" + s(o.i) + ")";
    case SWAP: return "swap(" + s(o.t) + "," + s(o.i) + ")";
    case PRINT: return "print(" + s(o.i) + ")";
    default: return "-";
    }
}
std::vector<O> ops(int n, const std::vector<ref::Op> &bins, bool full) {
    std::vector<O> r;
    for (int i = 0; i < n; ++i) {
        r.push_back({CALC, i, i, i, ref::ADD});
        r.push_back({RESET, i, i, i, ref::ADD});
        r.push_back({FRESH, i, i, i, ref::ADD});
        if (full) r.push_back({PRINT, i, i, i, ref::ADD});
        for (int j = 0; j < n; ++j) {
            r.push_back({CLONE, i, j, j, ref::ADD});
            if (i != j) r.push_back({MOVE, i, j, j, ref::ADD});
            for (auto b : bins) { r.push_back({AC, i, i, j, b}); if (i != j) r.push_back({AM, i, i, j, b}); }
            r.push_back({UC, i, j, j, ref::NEG}); r.push_back({UM, i, j, j, ref::NEG});
            if (full) { r.push_back({UC, i, j, j, ref::POS}); for (auto f : ref::ALLFUN) { r.push_back({FC, i, j, j, f}); r.push_back({FM, i, j, j, f}); } }
            else r.push_back({FM, i, j, j, ref::SIN});
            r.push_back({ASSIGN, i, j, j, ref::ADD});
            if (i != j) r.push_back({MASSIGN, i, j, j, ref::ADD});
            r.push_back({COPYCTOR, i, j, j, ref::ADD});
            if (i < j) r.push_back({SWAP, i, j, j, ref::ADD});
            for (int t = 0; t < n; ++t) {
                for (auto b : bins) {
                    r.push_back({BCC, t, i, j, b});
                    if (i != j) { r.push_back({BMC, t, i, j, b}); r.push_back({BCM, t, i, j, b}); r.push_back({BMM, t, i, j, b}); }
                }
                r.push_back({SUBC, t, i, j, ref::ADD});
                if (i != j) r.push_back({SUBM, t, i, j, ref::ADD});
            }
        }
    }
    return r;
}
template <class X, class Y> Node bin(ref::Op o, X &&x, Y &&y) {
    switch (o) {
    case ref::ADD: return std::forward<X>(x) + std::forward<Y>(y);
    case ref::SUB: return std::forward<X>(x) - std::forward<Y>(y);
    case ref::MUL: return std::forward<X>(x) * std::forward<Y>(y);
    case ref::DIV: return std::forward<X>(x) / std::forward<Y>(y);
    default: return std::forward<X>(x) ^ std::forward<Y>(y);
    }
}
template <class Y> Node &asg(ref::Op o, Node &x, Y &&y) {
    switch (o) {
    case ref::ADD: return x += std::forward<Y>(y);
    case ref::SUB: return x -= std::forward<Y>(y);
    case ref::MUL: return x *= std::forward<Y>(y);
    case ref::DIV: return x /= std::forward<Y>(y);
    default: return x ^= std::forward<Y>(y);
    }
}
template <class X> Node un(ref::Op o, X &&x) {
    switch (o) {
    case ref::POS: return +std::forward<X>(x);
    case ref::NEG: return -std::forward<X>(x);
    case ref::SIN: return sin(std::forward<X>(x));
    case ref::COS: return cos(std::forward<X>(x));
    case ref::TAN: return tan(std::forward<X>(x));
    case ref::ASIN: return asin(std::forward<X>(x));
    case ref::ACOS: return acos(std::forward<X>(x));
    case ref::ATAN: return atan(std::forward<X>(x));
    case ref::SQRT: return sqrt(std::forward<X>(x));
    case ref::LOG: return log(std::forward<X>(x));
    case ref::LOG2: return log2(std::forward<X>(x));
    case ref::LOG10: return log10(std::forward<X>(x));
    default: return exp(std::forward<X>(x));
    }
}
struct World {
    int n;
    Arena A;
    Node s[3];
    int m[3] = {-1, -1, -1};
    World(int n, int init) : n(n) {
        static const char *tx[3][3] = {{"x", "2", "x-sin(y)"}, {"x-2", "cos(x)", "y"}, {"5", "3", "x"}};
        for (int i = 0; i < n; ++i) { bool u; s[i] = Parse(tx[init][i]); m[i] = ref::Reader::parse(tx[init][i], A, u); }
    }
    void set(int t, Node v, int mv) { s[t] = std::move(v); m[t] = mv; }
    // false: the operation needs an operand that is not there
    bool apply(const O &o) {
        int a = m[o.i], b = m[o.j];
        switch (o.k) {
        case RESET: s[o.t].reset(); m[o.t] = -1; return true;
        case FRESH: { int t = A.bin(ref::POW, A.var("w"), A.num(3)); s[o.t] = Var("w") ^ Num(3); m[o.t] = t; return true; }
        case SWAP: std::swap(s[o.t], s[o.i]); std::swap(m[o.t], m[o.i]); return true;
        case MOVE: s[o.t] = Move(s[o.i]); m[o.t] = a; m[o.i] = -1; return true;
        default: break;
        }
        if (a < 0 || b < 0) return false;
        mc::step();
        switch (o.k) {
        case CLONE: s[o.t] = Clone(s[o.i]); m[o.t] = a; break;
        case COPYCTOR: s[o.t] = std::make_unique<Impl>(*s[o.i]); m[o.t] = a; break;
        case BCC: { int r = A.bin(o.op, a, b); s[o.t] = bin(o.op, s[o.i], s[o.j]); m[o.t] = r; break; }
        case BMC: { int r = A.bin(o.op, a, b); s[o.t] = bin(o.op, Move(s[o.i]), s[o.j]); if (o.i != o.t) m[o.i] = -1; m[o.t] = r; break; }
        case BCM: { int r = A.bin(o.op, a, b); s[o.t] = bin(o.op, s[o.i], Move(s[o.j])); if (o.j != o.t) m[o.j] = -1; m[o.t] = r; break; }
        case BMM: { int r = A.bin(o.op, a, b); s[o.t] = bin(o.op, Move(s[o.i]), Move(s[o.j])); if (o.i != o.t) m[o.i] = -1; if (o.j != o.t) m[o.j] = -1; m[o.t] = r; break; }
        case AC: { int r = A.bin(o.op, a, b); Node &q = asg(o.op, s[o.i], s[o.j]); if (&q != &s[o.i]) mc::fail("compound assignment returns another object"); m[o.i] = r; break; }
        case AM: { int r = A.bin(o.op, a, b); asg(o.op, s[o.i], Move(s[o.j])); m[o.j] = -1; m[o.i] = r; break; }
        case UC: case FC: { int r = A.un(o.op, a); s[o.t] = un(o.op, s[o.i]); m[o.t] = r; break; }
        case UM: case FM: { int r = A.un(o.op, a); s[o.t] = un(o.op, Move(s[o.i])); if (o.i != o.t) m[o.i] = -1; m[o.t] = r; break; }
        case ASSIGN: if (m[o.t] < 0) return false; *s[o.t] = *s[o.i]; m[o.t] = a; break;
        case MASSIGN: if (m[o.t] < 0) return false; *s[o.t] = std::move(*s[o.i]); s[o.i].reset(); m[o.t] = a; m[o.i] = -1; break;
        case CALC: {
            std::set<std::string> nm;
            A.names(a, nm);
            ref::Val v = A.eval(a, Env());
            if (v.skip && nm.empty()) return false;
            bool thrown = false;
            try { s[o.i]->Calc(); } catch (const std::runtime_error &) { thrown = true; }
            if (thrown != (!nm.empty() || !v.valid)) mc::failf("Calc of ", A.text(a), thrown ? " throws" : " does not throw");
            if (!thrown) { double got = s[o.i]->Vpa(); if (!(std::fabs(got - v.v) <= 1e-13 * std::fabs(v.v))) mc::failf("Calc of ", A.text(a), " gives ", got); m[o.i] = A.num(got); }
            break;
        }
        case SUBC: { std::map<std::string, int> d; d["x"] = b; int r = A.subst(a, d); s[o.t] = Subs(s[o.i], "x", s[o.j]); m[o.t] = r; break; }
        case SUBM: { std::map<std::string, int> d; d["x"] = b; int r = A.subst(a, d); s[o.t] = Subs(Move(s[o.i]), "x", s[o.j]); if (o.i != o.t) m[o.i] = -1; m[o.t] = r; break; }
        case PRINT: { std::ostringstream ss; ss << s[o.i]; s[o.i]->Equal(s[o.j]); s[o.i]->GetAllVarNames(); break; }
        default: break;
        }
        return true;
    }
    void check() {
        uint64_t h = 5;
        Node built[3];
        for (int i = 0; i < n; ++i) {
            if ((m[i] < 0) != !s[i]) mc::failf("slot ", i, m[i] < 0 ? " should be empty" : " is empty");
            if (m[i] < 0) continue;
            s[i]->CheckParent();
            built[i] = build(A, m[i]);
            mc::step();
            if (!s[i]->Equal(built[i]) || !built[i]->Equal(s[i])) mc::failf("slot ", i, " is ", s[i]->ToString(), ", expected ", A.text(m[i]));
            std::set<std::string> nm;
            A.names(m[i], nm);
            if (s[i]->GetAllVarNames() != nm) mc::failf("names of slot ", i, " which is ", A.text(m[i]));
            h = mc::hash(A.text(m[i]), h + i);
        }
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
                if (m[i] >= 0 && m[j] >= 0 && s[i]->Equal(s[j]) != A.equal(m[i], A, m[j])) mc::failf("Equal(", A.text(m[i]), ", ", A.text(m[j]), ") is wrong");
        // printing walks up to the parent: a stale link shows (AddressSanitizer) or changes the text
        if (mc::state(h))
            for (int i = 0; i < n; ++i)
                if (m[i] >= 0) { auto a = s[i]->ToString(), b = built[i]->ToString(); if (a != b) mc::failf("slot ", i, " prints ", a, ", expected ", b); }
    }
};
// run f; memory in use afterwards must be what it was before (one retry: first uses of statics)
template <class F> void noLeak(F f, const char *what) {
    size_t grow = 0;
    for (int k = 0; k < 3; ++k) {
        size_t a = __sanitizer_get_current_allocated_bytes();
        f();
        size_t b = __sanitizer_get_current_allocated_bytes();
        if (b <= a) return;
        grow = b - a;
    }
    mc::failf(what, ": ", grow, " bytes more are in use after every repetition");
}
struct Hist {
    std::vector<O> o;
    int n, depth, init;
    uint64_t size() const { uint64_t s = 0, k = 1; for (int i = 0; i < depth; ++i) { k *= o.size(); s += k; } return s; }
    std::vector<int> seq(uint64_t i) const { uint64_t k = o.size(); int d = 1; while (i >= k) { i -= k; k *= o.size(); ++d; } std::vector<int> r; for (int j = 0; j < d; ++j) { r.push_back((int)(i % o.size())); i /= o.size(); } return r; }
    void run(uint64_t i) const {
        auto q = seq(i);
        bool last = false;
        auto once = [&] { World w(n, init); for (int k : q) { last = w.apply(o[k]); if (!last) return; } w.check(); };
        noLeak(once, "history");
    }
    std::string describe(uint64_t i) const { std::string s; for (int k : seq(i)) s += (s.empty() ? "" : "; ") + show(o[k]); return s; }
};
void addH(const std::string &name, const std::string &what, const Hist &h) {
    mc::add(name, what, h.size(), [h](uint64_t i) { h.run(i); }, [h](uint64_t i) { return h.describe(i); }, 512);
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    std::vector<ref::Op> all(B5, B5 + 5);
    addH("histories/all-forms", "three expressions, every operation form (all operators and functions), depth 2", Hist{ops(3, all, true), 3, 2, 0});
    addH("histories/2-slots", "two expressions, depth 3", Hist{ops(2, {ref::SUB}, false), 2, th ? 4 : 3, 1});
    addH("histories/2-slots-numbers", "two expressions of numbers (so that calculation succeeds), depth 3", Hist{ops(2, {ref::DIV}, false), 2, 3, 2});
    if (th) addH("histories/3-slots", "three expressions, depth 3", Hist{ops(3, {ref::POW}, false), 3, 3, 0});
    else { // reduced operation set, three slots, depth 3
        std::vector<O> r;
        for (auto &o : ops(3, {ref::POW}, false)) if ((o.k != BCC || o.t == o.i) && (o.k != SUBC || o.t == o.j) && o.k != FRESH && o.k != PRINT && (o.k != BMM || o.t != o.i) && (o.k != SUBM || o.t == o.i) && (o.k != BCM || o.t == o.j) && (o.k != BMC || o.t == o.i) && (o.k != CLONE || o.t != o.i)) r.push_back(o);
        addH("histories/3-slots", "three expressions, reduced set of forms, depth 3", Hist{r, 3, 3, 0});
    }
    // equality: all pairs of small trees
    { ref::TermSpace S; S.U = {ref::NEG, ref::SIN}; S.B = {ref::SUB, ref::POW}; S.leafVar("x"); S.leafVar("y"); S.leafNum(2); S.leafNum(0.5); S.init(2);
      uint64_t n = S.size();
      mc::add("equality/pairs", "Equal on all pairs of trees of at most 2 operators", n * n, [S, n](uint64_t i) {
          Arena A; int a = S.make(A, i / n), b = S.make(A, i % n);
          Node p = build(A, a), q = build(A, b);
          mc::step(2);
          bool want = A.equal(a, A, b);
          if (p->Equal(q) != want || q->Equal(p) != want) mc::failf("Equal(", A.text(a), ", ", A.text(b), ") is ", !want);
      }, [S, n](uint64_t i) { Arena A; int a = S.make(A, i / n), b = S.make(A, i % n); return A.text(a) + " and " + A.text(b); }, 2048); }
    { ref::TermSpace S; S.U.assign(ref::ALLFUN, ref::ALLFUN + 11); S.U.push_back(ref::NEG); S.U.push_back(ref::POS); S.B.assign(std::begin(ref::ALLBIN), std::end(ref::ALLBIN)); for (auto v : {"x", "y", "xx"}) S.leafVar(v); for (double v : {0.0, 1.0, -1.0, 1.0000000000000002, 1e-300}) S.leafNum(v); S.init(1);
      uint64_t n = S.size();
      mc::add("equality/operators", "Equal on all pairs of trees of at most 1 operator over all operators, names and close numbers", n * n, [S, n](uint64_t i) {
          Arena A; int a = S.make(A, i / n), b = S.make(A, i % n);
          Node p = build(A, a), q = build(A, b);
          mc::step(2);
          bool want = A.equal(a, A, b);
          if (p->Equal(q) != want || q->Equal(p) != want) mc::failf("Equal(", A.text(a), ", ", A.text(b), ") is ", !want);
      }, [S, n](uint64_t i) { Arena A; int a = S.make(A, i / n), b = S.make(A, i % n); return A.text(a) + " and " + A.text(b); }, 2048); }
    // a single difference deep inside
    mc::add("equality/deep", "trees of n operators in three shapes that differ in one leaf, operator or presence at place k", 3 * 40 * 41 * 3, [](uint64_t i) {
        mc::Dec d(i);
        int shape = (int)d.take(3), n = (int)d.take(40) + 1, k = (int)d.take(41), what = (int)d.take(3);
        if (k > n) return;
        auto mk = [&](Arena &A, bool diff) { int t = A.var("a"); for (int j = 0; j <= n; ++j) { bool h = diff && j == k; int l = h && what == 0 ? A.var("q") : A.num(j); ref::Op o = h && what == 1 ? ref::MUL : ref::SUB; if (h && what == 2) l = A.un(ref::POS, l); t = shape == 0 || (shape == 2 && j % 2) ? A.bin(o, t, l) : A.bin(o, l, t); } return t; };
        Arena A;
        Node p = build(A, mk(A, false)), q = build(A, mk(A, true)), r = Clone(p);
        mc::step(3);
        if (p->Equal(q) || q->Equal(p)) mc::failf("different trees are equal (shape ", shape, ", n ", n, ", place ", k, ")");
        if (!p->Equal(r) || !r->Equal(p)) mc::fail("a clone is not equal");
        r->CheckParent();
    });
    // memory: every call, throwing or not, returns to the amount in use before
    static std::vector<std::string> tok = {"x", "2", "sin", "+", "-", "^", "(", ")", " ", "#"};
    static int L = th ? 6 : 5;
    uint64_t n = 1;
    for (int i = 0; i < L; ++i) n *= tok.size();
    mc::add("memory/parse", "no text of at most " + std::to_string(L) + " tokens, accepted or rejected, leaks when parsed", n, [](uint64_t i) {
        std::string s;
        for (int k = 0; k < L; ++k) { s += tok[i % tok.size()]; i /= tok.size(); }
        noLeak([&] { mc::step(); try { Node n = Parse(s); } catch (const std::exception &) {} }, "Parse");
    }, [](uint64_t i) { std::string s; for (int k = 0; k < L; ++k) { s += tok[i % tok.size()]; i /= tok.size(); } return s; }, 512);
    { ref::TermSpace S; S.U = {ref::NEG, ref::LOG, ref::SQRT, ref::TAN, ref::ASIN}; S.B.assign(std::begin(ref::ALLBIN), std::end(ref::ALLBIN)); S.leafVar("x"); S.leafVar("y"); S.leafNum(0); S.leafNum(1); S.leafNum(-2); S.init(2);
      mc::add("memory/operations", "differentiating, simplifying, substituting, evaluating, calculating, printing and copying any tree of at most 2 operators does not leak, whether it throws or not", S.size(), [S](uint64_t i) {
          Arena A; int t = S.make(A, i);
          Node n = build(A, t), keep = Clone(n);
          noLeak([&] { mc::step(); try { Node d = Diff(n, "x", 2); } catch (const std::exception &) {} }, "Diff");
          noLeak([&] { mc::step(); Node c = Clone(n); try { Node d = Diff(Move(c), "x"); } catch (const std::exception &) {} }, "Diff, consuming");
          noLeak([&] { mc::step(); Node c = Clone(n); Simplify(c); }, "Simplify");
          noLeak([&] { mc::step(); Node c = Clone(n); try { c->Calc(); } catch (const std::exception &) {} }, "Calc");
          noLeak([&] { mc::step(); try { n->Vpa(); } catch (const std::exception &) {} }, "Vpa");
          noLeak([&] { mc::step(); Node c = Subs(n, "x", n); c = Subs(Move(c), "y", Num(0)); try { c->Calc(); } catch (const std::exception &) {} }, "Subs");
          noLeak([&] { mc::step(); std::string s = n->ToString(); }, "ToString");
          noLeak([&] { mc::step(); Impl c(*n); Impl e(std::move(c)); c = e; e = std::move(c); }, "copies");
          noLeak([&] { mc::step(); SymMat m(2, 2); m.Value(0, 0) = Clone(n); m.Value(0, 1) = Clone(n); m.Value(1, 0) = Num(1); m.Value(1, 1) = Var("y"); SymMat c = m.Clone(); SymMat p = m * c; SymMat q = m - c; try { Jacobian(SymVec{Clone(n), Var("x")}, {"x", "y"}); } catch (const std::exception &) {} try { p.Calc(); } catch (const std::exception &) {} try { m.ToMat(); } catch (const std::exception &) {} }, "SymMat");
          if (!n->Equal(keep)) mc::failf("the operations changed ", A.text(t));
      }, [S](uint64_t i) { Arena A; int t = S.make(A, i); return A.text(t); }, 64); }
    static std::vector<std::pair<std::string, std::string>> sys = {{"x^2-2", "y-x"}, {"x+y-3", "x-y-1"}, {"x+y", "x+y-1"}, {"x*y-1", "x-y"}, {"log(x)", "y"}, {"x/y", "y-1"}, {"x&y", "x"}, {"sin(x)-2", "y^2+1"}, {"x^2", "y^2"}, {"1/x", "y"}, {"x-1", "x-1"}};
    mc::add("memory/solve", "solving, by both methods, whether it succeeds or throws, does not leak", sys.size() * 2 * 3, [](uint64_t i) {
        ConfigGuard cg;
        auto &p = sys[i / 6];
        Config::Get().nonlinearMethod = i % 2 ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON;
        Config::Get().initialValue = (double)(i / 2 % 3) - 0.5;
        noLeak([&] { mc::step(); try { SymVec f{Parse(p.first), Parse(p.second)}; VarsTable v = Solve(f); } catch (const std::exception &) {} }, "Solve");
    }, [](uint64_t i) { return sys[i / 6].first + ", " + sys[i / 6].second; }, 1);
}
