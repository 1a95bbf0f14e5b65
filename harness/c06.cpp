// C06: symbolic differentiation gives the mathematical derivative.
#include "lib.h"
using namespace br;

namespace {
const std::vector<Env> &points() {
    static const std::vector<Env> p = [] {
        std::vector<Env> r(5);
        double a[5][3] = {{0.37, 0.81, 0.53}, {1.7, 2.3, 0.6}, {-0.6, 1.4, 0.45}, {0.62, -0.55, 1.9}, {2.25, 3, -2}};
        for (int k = 0; k < 5; ++k) { r[k]["x"] = a[k][0]; r[k]["y"] = a[k][1]; r[k]["w"] = a[k][2]; r[k]["z"] = a[k][2]; }
        return r;
    }();
    return p;
}
std::string at(const Env &p) {
    std::string r;
    for (auto &q : p) r += (r.empty() ? "" : " ") + q.first + "=" + std::to_string(q.second);
    return r;
}
void checkOne(const Arena &A, int t, const Node &n, const std::string &x, int order, bool forms, const std::vector<Env> &points = ::points()) {
    Node keep = forms ? Clone(n) : Node();
    mc::step();
    Node d;
    std::string what = "derivative of order " + std::to_string(order) + " of " + A.text(t) + " by " + x;
    try { d = Diff(n, x, order); } catch (const std::exception &e) { mc::failf(what, " throws ", e.what()); }
    d->CheckParent();
    std::set<std::string> have, all = d->GetAllVarNames();
    A.names(t, have);
    for (auto &v : all) if (!have.count(v)) mc::failf(what, " mentions ", v, ": ", d->ToString());
    if (forms) {
        if (!n->Equal(keep)) mc::failf(what, " changed its argument");
        Node c = Clone(n);
        mc::step();
        Node e = Diff(Move(c), x, order);
        if (!e->Equal(d)) mc::failf(what, ": the consuming form gives ", e->ToString(), ", the copying form ", d->ToString());
        if (order == 1) { mc::step(); if (!Diff(n, x)->Equal(d)) mc::failf(what, ": default order"); }
        mc::state(d->ToString());
    }
    static const double fac[8] = {1, 1, 2, 6, 24, 120, 720, 5040};
    struct Len { Len(int o) { ref::jl() = std::max(4, o + 1); } ~Len() { ref::jl() = 4; } } len(order);
    for (auto &p : points) {
        ref::Val v = A.eval(t, p);
        if (!v.valid || v.skip) continue;
        ref::Jet j = A.jet(t, p, x);
        if (j.undef || j.mag > 300) continue;
        double want = j.c[order] * fac[order];
        LV l = value(d, p);
        if (l.k != LV::VALUE) mc::failf(what, " = ", d->ToString(), " has no value at ", at(p), " (", l.what, "), expected ", want);
        mc::state(mc::hash(&l.v, 8));
        double tol = 1e-11 * std::max(1.0, std::fabs(want)) * std::pow(std::max(1.0, j.mag), 2 + order);
        if (tol > 1e-3 * std::max(1.0, std::fabs(want))) continue;
        if (!(std::fabs(l.v - want) <= tol)) mc::failf(what, " = ", d->ToString(), " is ", l.v, " at ", at(p), ", expected ", want, " (tolerance ", tol, ")");
        if (!have.count(x) && l.v != 0) mc::failf(what, " is not zero");
    }
}
void check(const ref::TermSpace &S, uint64_t i, int maxOrder, bool forms, const std::vector<std::string> &vars) {
    Arena A;
    int t = S.make(A, i);
    Node n = build(A, t);
    for (auto &v : vars) for (int o = 1; o <= maxOrder; ++o) checkOne(A, t, n, v, o, forms);
}
void addT(const std::string &name, const std::string &what, const ref::TermSpace &S, int maxOrder, bool forms, std::vector<std::string> vars, uint64_t chunk = 64) {
    mc::add(name, what, S.size(), [=](uint64_t i) { check(S, i, maxOrder, forms, vars); }, [S](uint64_t i) { Arena A; int t = S.make(A, i); return A.text(t); }, chunk);
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    using namespace ref;
    std::vector<ref::Op> un(ALLFUN, ALLFUN + 11), bin = {ADD, SUB, MUL, DIV, POW};
    un.push_back(POS); un.push_back(NEG);
    { TermSpace S; S.U = un; S.B = bin; S.leafVar("x"); S.leafVar("y"); for (double v : {2.0, 0.5, 3.0, -1.0, 0.0, 1.0}) S.leafNum(v); S.init(2);
      addT("trees/2", "all trees of at most 2 operators (5 binary, 2 signs, 11 functions); orders 1 to 3; by x, y and an absent variable; both call forms", S, 3, true, {"x", "y", "w"}); }
    { TermSpace S; S.U = un; S.B = bin; S.leafVar("x"); S.leafVar("y"); S.leafNum(2); if (th) S.leafNum(0.5); S.init(3);
      addT("trees/3", "all trees of at most 3 operators; order 1", S, 1, false, {"x"}); }
    { TermSpace S; S.U = {NEG, SIN, LOG, EXP, SQRT}; S.B = bin; S.leafVar("x"); S.leafVar("y"); if (th) S.leafNum(3); S.init(3);
      addT("trees/3-order2", "trees of at most 3 operators over four functions; orders 1 and 2, by x and y", S, 2, false, {"x", "y"}); }
    { TermSpace S; S.U = {NEG}; S.B = bin; S.leafVar("x"); S.leafNum(2); S.init(th ? 5 : 4);
      addT("trees/arithmetic", "deeper arithmetic trees; order 1", S, 1, false, {"x"}); }
    if (th) { TermSpace S; S.U = un; S.B = bin; S.leafVar("x"); S.leafNum(2.5); S.init(3);
      addT("trees/3-order3", "all trees of at most 3 operators in one variable; orders 1 to 3", S, 3, false, {"x"}); }
    // high orders
    { TermSpace S; S.U = {SIN, COS, EXP, LOG, SQRT, ATAN, NEG}; S.B = bin; S.leafVar("x"); S.leafVar("y"); S.leafNum(2); S.leafNum(5); S.init(th ? 2 : 1);
      int O = th ? 4 : 2;
      mc::add("high orders", "small trees, every order from 4 to 5 (thorough 7), by x and y", S.size() * O * 2, [S, O](uint64_t i) {
          mc::Dec d(i); int o = 4 + (int)d.take(O); const char *v = d.take(2) ? "x" : "y";
          Arena A; int t = S.make(A, d.v);
          int ops = 0; for (auto &q : A.n) ops += q.op != NUM && q.op != VAR;
          if (ops > 1 && o > 5) return;
          checkOne(A, t, build(A, t), v, o, false);
      }, [S, O](uint64_t i) { mc::Dec d(i); int o = 4 + (int)d.take(O); d.take(2); Arena A; int t = S.make(A, d.v); return A.text(t) + ", order " + std::to_string(o); }, 1);
      mc::spaces.back().hang = 200; }
    // every exponent, base and coefficient of a list, in every shape
    { static const std::vector<double> cs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 25, 0.5, 0.25, 1.5, 2.5, 1.0 / 3, -0.5, -1, -2, -3, -4, -5, -1.5, 0.001, 1e-7, 100, 1e4, 2.718281828459045, 0.9999999999, 1.0000000001, -1e-3};
      TermSpace S; S.U = {NEG, SIN, LOG}; S.B = bin; S.leafVar("x"); S.leafVar("y"); S.leafNum(1234); S.init(2);
      mc::add("constants", "every constant of a list in the place of every leaf of every small tree; orders 1 and 2", S.size() * cs.size(), [S](uint64_t i) {
          mc::Dec d(i); double c = cs[d.take(cs.size())];
          Arena A; int t = S.make(A, d.v);
          bool any = false;
          for (auto &q : A.n) if (q.op == NUM) { q.v = c; any = true; }
          if (!any) return;
          Node n = build(A, t);
          checkOne(A, t, n, "x", 1, false);
          checkOne(A, t, n, "x", 2, false);
      }, nullptr, 128); }
    // chains of nested functions
    std::vector<ref::Op> ch = un;
    int depth = th ? 5 : 4;
    uint64_t n = 1;
    for (int k = 0; k < depth; ++k) n *= ch.size();
    mc::add("chains/functions", "all compositions of " + std::to_string(depth) + " functions and signs", n, [ch, depth](uint64_t i) {
        Arena A; int t = A.bin(MUL, A.num(0.5), A.var("x"));
        for (int k = 0; k < depth; ++k) { t = A.un(ch[i % ch.size()], t); i /= ch.size(); }
        checkOne(A, t, build(A, t), "x", 1, false);
    }, [ch, depth](uint64_t i) { Arena A; int t = A.bin(MUL, A.num(0.5), A.var("x")); for (int k = 0; k < depth; ++k) { t = A.un(ch[i % ch.size()], t); i /= ch.size(); } return A.text(t); });
    // names that are beginnings of each other, and near names
    { static const std::vector<std::string> ns = {"x", "X", "xx", "x1", "x10", "x_", "_x", "_", "__", "x11", "xy", "y", "e", "x_1", "sinx", "a_rather_long_name_of_a_variable", "a_rather_long_name_of_a_variablf"};
      TermSpace S; S.U = {NEG, SIN}; S.B = {SUB, MUL, DIV, POW}; S.leafVar("x"); S.leafVar("y"); S.leafNum(2); S.init(2);
      uint64_t k = th ? ns.size() : 10;
      mc::add("names", "all pairs of near names in all small trees, differentiated by the one, by the other and by a third", S.size() * k * k, [S, k](uint64_t i) {
          mc::Dec d(i);
          std::string p = ns[d.take(k)], q = ns[d.take(k)];
          Arena A; int s = S.make(A, d.v);
          if (p == q) return;
          std::map<std::string, int> m;
          m["x"] = A.var(p); m["y"] = A.var(q);
          int t = A.subst(s, m);
          std::vector<Env> pts(2);
          for (int j = 0; j < 2; ++j) for (auto &x : ns) pts[j][x] = x == p ? points()[j].at("x") : x == q ? points()[j].at("y") : 0.7;
          Node n = build(A, t);
          checkOne(A, t, n, p, 1, false, pts);
          checkOne(A, t, n, q, 1, false, pts);
          std::string third = ns[(i / 7) % k];
          checkOne(A, t, n, third, 1, false, pts);
      }, nullptr, 256); }
    // & | % are refused wherever they stand
    { TermSpace S; S.U = {NEG, SIN, EXP, ATAN}; S.B = {ADD, SUB, MUL, DIV, POW, AND, OR, MOD}; S.leafVar("x"); S.leafVar("y"); S.leafNum(2); S.init(th ? 3 : 2);
      mc::add("refused", "trees containing & | % at any place: an exception, the argument unchanged", S.size(), [S](uint64_t i) {
          Arena A; int t = S.make(A, i);
          if (!A.has(t, AND) && !A.has(t, OR) && !A.has(t, MOD)) return;
          Node n = build(A, t), keep = Clone(n);
          for (auto x : {"x", "y", "w"}) for (int o = 1; o <= 2; ++o) {
              bool thrown = false;
              mc::step();
              try { Diff(n, x, o); } catch (const std::runtime_error &e) { thrown = true; }
              if (!n->Equal(keep)) mc::failf("Diff changed ", A.text(t));
              n->CheckParent();
              if (!thrown) mc::failf("Diff of ", A.text(t), " by ", x, " does not throw");
              Node c = Clone(n);
              thrown = false;
              try { Diff(Move(c), x, o); } catch (const std::runtime_error &e) { thrown = true; }
              if (!thrown) mc::failf("consuming Diff of ", A.text(t), " by ", x, " does not throw");
          }
          mc::state(A.text(t));
      }, [S](uint64_t i) { Arena A; int t = S.make(A, i); return A.text(t); }); }
    // long sums, products and powers: every term gets its derivative
    // the exponent or the base is a constant of any size: compared relative to the exact value, however small that is
    static const std::vector<double> consts = {1e-300, 1e-200, 1e-100, 1e-30, 1e-17, 1e-16, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.1, 0.25, 1. / 3, 0.5, 0.5 + 1e-9, 0.9, 1 - 1e-3, 1 - 1e-6, 1 - 1e-9, 1 - 1e-12, 1 + 1e-12, 1 + 1e-9, 1 + 1e-6, 1 + 1e-3, 1.5, 2, 2 - 1e-9, 2 + 1e-9, 2 - 1e-6, 2 + 1e-6, 2.5, 2.718281828459045, 3, 3 + 1e-7, 7, 10, 33.3, 100, 200};
    static const char *const us[] = {"x", "2*x", "x+1", "x^2", "x*y", "sin(x)", "exp(x)", "sqrt(x)", "y/x"};
    const uint64_t nu = sizeof us / sizeof *us;
    mc::add("powers/constants", "u^a, u^-a and a^u of 9 operands u and 46 constants a from 1e-300 over both sides of 1 and 2 to 200, alone, scaled by 1/a, and in a sum: the first derivative relative to the exact one, within 1e-12", consts.size() * nu * 3 * 3, [nu](uint64_t i) {
        mc::Dec d(i);
        double a = consts[d.take(consts.size())];
        int k = (int)d.take(nu), form = (int)d.take(3), wrap = (int)d.take(3);
        if (form == 1) a = -a;
        for (auto xy : {std::pair<double, double>{0.37, 0.81}, {1.7, 2.3}, {0.62, 3}}) {
            long double x = xy.first, y = xy.second;
            long double u[] = {x, 2 * x, x + 1, x * x, x * y, sinl(x), expl(x), sqrtl(x), y / x}, du[] = {1, 2, 1, 2 * x, y, cosl(x), expl(x), 0.5L / sqrtl(x), -y / x / x};
            long double v = form == 2 ? powl(a, u[k]) : powl(u[k], a), w = form == 2 ? v * logl(a) * du[k] : a * (v / u[k]) * du[k], sc = wrap == 1 ? 1 / (long double)a : 1;
            // what an evaluation in double precision loses: the exponent times the logarithm of the base
            long double amp = 1 + std::fabs(form == 2 ? u[k] * logl(a) : a * logl(u[k])) + (form == 2 ? u[k] * 4 : std::fabs(a) * 4);
            w *= sc;
            if (std::fabs(w) < 1e-290L || std::fabs(w) > 1e290L || std::fabs(v) < 1e-290L || std::fabs(v) > 1e290L || std::fabs(v / u[k]) > 1e290L || std::fabs(v / u[k]) < 1e-290L) continue;
            Node n = form == 2 ? Num(a) ^ Parse(us[k]) : Parse(us[k]) ^ Num(a);
            if (wrap == 1) n = Num((double)sc) * n;
            if (wrap == 2) n = n + Var("y") * Num(3);
            mc::step();
            Env p; p["x"] = (double)x; p["y"] = (double)y;
            LV l = value(Diff(n, "x"), p);
            if (l.k != LV::VALUE) mc::failf("the derivative of ", n->ToString(), " has no value at x=", (double)x, ": ", l.what);
            mc::state(mc::hash(&l.v, 8));
            if (!(std::fabs(l.v - w) <= 1e-12L * amp * std::fabs(w))) mc::failf("the derivative of ", n->ToString(), ", constant ", a, ", is ", l.v, " at x=", (double)x, " y=", (double)y, ", expected ", (double)w);
        }
    }, [nu](uint64_t i) { mc::Dec d(i); std::ostringstream o; o.precision(17); o << "constant " << consts[d.take(consts.size())] << ", operand " << us[d.take(nu)] << ", form " << d.take(3) << ", wrapped " << d.take(3); return o.str(); }, 16);
    mc::add("scale/chains", "sums, products, quotients and powers of n factors, left-deep and right-deep, by each of the variables", 2 * 5 * 24, [](uint64_t i) {
        mc::Dec d(i);
        bool left = d.take(2);
        int kind = (int)d.take(5), n = (int)d.take(24) + 1;
        Arena A;
        auto leaf = [&](int k) { int v = A.var(k % 2 ? "y" : "x"); return kind == 4 && k ? A.num(1.25) : k % 3 == 0 ? A.un(SIN, v) : k % 3 == 1 ? A.bin(POW, v, A.num(2)) : v; };
        int t = leaf(0);
        static const ref::Op ops[5] = {ADD, SUB, MUL, DIV, POW};
        for (int k = 1; k <= n; ++k) { int l = leaf(k); ref::Op o = ops[kind]; if (kind == 3 && k % 2) o = MUL; t = left || kind == 4 ? A.bin(o, t, l) : A.bin(o, l, t); }
        Node e = build(A, t);
        for (auto x : {"x", "y", "w"}) checkOne(A, t, e, x, 1, true);
        if (n <= 6) for (auto x : {"x", "y", "w"}) checkOne(A, t, e, x, 2, true);
    }, nullptr, 1);
}
