// C07: simplification preserves value and never fails.
#include "lib.h"
using namespace br;

namespace {
const std::vector<Env> &assignments() {
    static const std::vector<Env> e = [] {
        std::vector<Env> r;
        for (double x : {0.0, 1.0, -1.0, 2.0, 0.5, -3.0})
            for (double y : {0.0, 2.0, -1.5}) { Env q; q["x"] = x; q["y"] = y; r.push_back(q); }
        return r;
    }();
    return e;
}
void check(const Arena &A, int t, bool deep) {
    auto &cfg = Config::Get();
    std::set<std::string> have;
    A.names(t, have);
    Node orig = build(A, t);
    for (int policy = 0; policy < 2; ++policy) {
        cfg.throwOnInvalidValue = policy == 0;
        Node n = Clone(orig);
        mc::step();
        Simplify(n);
        if (!n) mc::failf("simplifying ", A.text(t), " gives nothing");
        n->CheckParent();
        Node twice = Clone(n);
        mc::step();
        Simplify(twice);
        bool same2 = twice->Equal(n) || (policy == 1 && twice->ToString() == n->ToString());
        if (!same2) mc::failf("simplifying ", A.text(t), " twice gives ", twice->ToString(), ", once ", n->ToString());
        auto names = n->GetAllVarNames();
        for (auto &v : names) if (!have.count(v)) mc::failf("simplified ", A.text(t), " mentions ", v);
        cfg.throwOnInvalidValue = true;
        if (policy == 0) mc::state(n->ToString());
        if (have.empty()) {
            ref::Val r = A.eval(t, Env());
            if (!r.skip && r.valid) {
                LV l = vpa(n);
                same(l, r, "simplified " + A.text(t));
                if (!n->Equal(Num(l.v))) mc::failf(A.text(t), " has a valid value but simplifies to ", n->ToString());
            }
            continue;
        }
        for (auto &e : assignments()) {
            if (!have.count("y") && e.at("y") != 2) continue;
            if (!have.count("x") && e.at("x") != 2) continue;
            ref::Val r = A.eval(t, e);
            if (r.skip || !r.valid || r.zz) continue;
            same(value(n, e), r, "simplified " + A.text(t) + " = " + n->ToString() + " at x=" + ref::Arena::numText(e.at("x")) + " y=" + ref::Arena::numText(e.at("y")));
        }
    }
    cfg.Reset();
}
void addT(const std::string &name, const std::string &what, const ref::TermSpace &S, uint64_t chunk = 512) {
    mc::add(name, what, S.size(), [S](uint64_t i) { Arena A; int t = S.make(A, i); check(A, t, false); }, [S](uint64_t i) { Arena A; int t = S.make(A, i); return A.text(t); }, chunk);
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    using namespace ref;
    std::vector<ref::Op> un(ALLFUN, ALLFUN + 11), bin(std::begin(ALLBIN), std::end(ALLBIN));
    un.push_back(POS); un.push_back(NEG);
    { TermSpace S; S.U = un; S.B = bin; S.leafVar("x"); S.leafVar("y"); for (double v : {0.0, -0.0, 1.0, -1.0, 2.0, 0.5}) S.leafNum(v); if (th) for (double v : {3.0, -2.0, 1e300, 1e-300}) S.leafNum(v); S.init(2);
      addT("trees/2", "all trees of at most 2 operators over all 21 operators; leaves x, y, 0, -0, 1, -1, 2, 0.5", S); }
    { TermSpace S; S.U = {NEG, LOG}; S.B = bin; S.leafVar("x"); S.leafNum(0); S.leafNum(1); if (th) { S.leafNum(2); S.leafVar("y"); } S.init(3);
      addT("trees/3", "all trees of at most 3 operators over 8 binary operators, minus, log; leaves x, 0, 1", S); }
    { TermSpace S; S.U = {NEG}; S.B = {SUB, MUL, DIV}; S.leafVar("x"); S.leafNum(0); S.leafNum(1); S.init(th ? 5 : 4);
      addT("trees/rings", "deeper trees over - * / and minus; leaves x, 0, 1", S); }
    { TermSpace S; S.U = {}; S.B = {ADD, POW, DIV}; S.leafVar("x"); S.leafVar("y"); S.leafNum(0); S.leafNum(1); S.init(th ? 4 : 3);
      addT("trees/powers", "trees over + ^ / with two variables", S); }
    { TermSpace S; S.U = {SQRT, COS, NEG}; S.B = {ADD, SUB, MUL, DIV, POW, MOD}; for (double v : {0.0, 1.0, 2.0, -1.0, 0.3}) S.leafNum(v); S.init(th ? 4 : 3);
      addT("constants", "trees of constants only, with and without a valid value", S); }
    { TermSpace S; S.U = un; S.B = bin; S.leafVar("x"); for (double v : {3.0, -2.0, 4.0, 10.0, -0.5, 1e-10, -1e-10, 1e-16, 1e-17, 1e-300, 5e-324, 1 + 1e-10, 1 - 1e-10, 1 + 2.3e-16, -1 - 1e-10, 1e10, 1e17, -1e300, 2147483648.0, 4294967296.0, 1.0 / 3, 3.141592653589793, 2.718281828459045, 0.0, 1.0, -1.0, -0.0, 2.0, 0.5}) S.leafNum(v); S.init(1);
      addT("constants at hand/1", "one operator; leaves x and 29 telling numbers", S); }
    { TermSpace S; S.U = {NEG, SQRT}; S.B = bin; S.leafVar("x"); for (double v : {3.0, -2.0, 1e-10, 1 + 1e-10, 0.0, 1e17, 1.0 / 3}) S.leafNum(v); S.init(2);
      addT("constants at hand/2", "two operators; leaves x, 3, -2, 1e-10, 1+1e-10, 0, 1e17, 1/3", S); }
    { TermSpace S; S.U = {}; S.B = {MUL, DIV}; S.leafVar("x"); S.leafNum(2); S.leafNum(3); S.init(th ? 5 : 4);
      addT("coefficients/products", "trees of * and / with coefficients 2 and 3", S); }
    { TermSpace S; S.U = {}; S.B = {ADD, SUB}; S.leafVar("x"); S.leafNum(2); S.leafNum(3); S.init(th ? 5 : 4);
      addT("coefficients/sums", "trees of + and - with terms 2 and 3", S); }
    { TermSpace S; S.U = {NEG}; S.B = {ADD, SUB, MUL, DIV}; S.leafVar("x"); S.leafNum(2); S.leafNum(3); S.init(th ? 4 : 3);
      addT("coefficients/mixed", "trees of + - * / and minus with 2 and 3", S); }
    // folding at every place of a long chain
    mc::add("scale/chains", "chains of n operators with neutral elements and constants at every place", 2 * 5 * 6 * 40, [](uint64_t i) {
        mc::Dec d(i);
        bool left = d.take(2);
        static const ref::Op ops[5] = {ADD, SUB, MUL, DIV, POW};
        int o = (int)d.take(5), period = (int)d.take(6) + 1, n = (int)d.take(40) * 3 + 1;
        Arena A;
        auto leaf = [&](int k) { return k % period ? A.num(k % period == 1 ? 0 : k % period == 2 ? 1 : 2) : A.var(k % 4 ? "y" : "x"); };
        int t = leaf(0);
        for (int k = 1; k <= n; ++k) { int l = leaf(k); ref::Op p = k % 7 == 3 ? ops[(o + 1) % 5] : ops[o]; t = left ? A.bin(p, t, l) : A.bin(p, l, t); }
        check(A, t, true);
    }, nullptr, 8);
}
