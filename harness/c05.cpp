// C05: evaluation is compositional and honours the invalid-number policy.
#include "lib.h"
using namespace br;

namespace {
const double INF = std::numeric_limits<double>::infinity(), NAN_ = std::numeric_limits<double>::quiet_NaN();

// plain evaluation: value, whether an operator produced inf or nan, whether the result is unspecified
struct R { double v; bool bad, unspec, var; };
R eval(const Arena &A, int t, const std::map<std::string, double> *env = nullptr) {
    const ref::TN &q = A.n[t];
    if (q.op == ref::NUM) return {q.v, false, false, false};
    if (q.op == ref::VAR) return {0, false, false, true};
    R a = eval(A, q.l), b{0, false, false, false};
    if (ref::isBin(q.op)) b = eval(A, q.r);
    R r{0, a.bad || b.bad, a.unspec || b.unspec, a.var || b.var};
    double x = a.v, y = b.v;
    auto isInt = [](double d) { return d > -2147483649.0 && d < 2147483648.0; };
    switch (q.op) {
    case ref::POS: r.v = x; break;
    case ref::NEG: r.v = -x; break;
    case ref::SIN: r.v = std::sin(x); break;
    case ref::COS: r.v = std::cos(x); break;
    case ref::TAN: r.v = std::tan(x); break;
    case ref::ASIN: r.v = std::asin(x); break;
    case ref::ACOS: r.v = std::acos(x); break;
    case ref::ATAN: r.v = std::atan(x); break;
    case ref::SQRT: r.v = std::sqrt(x); break;
    case ref::LOG: r.v = std::log(x); break;
    case ref::LOG2: r.v = std::log2(x); break;
    case ref::LOG10: r.v = std::log10(x); break;
    case ref::EXP: r.v = std::exp(x); break;
    case ref::ADD: r.v = x + y; break;
    case ref::SUB: r.v = x - y; break;
    case ref::MUL: r.v = x * y; break;
    case ref::DIV: r.v = x / y; break;
    case ref::POW: r.v = std::pow(x, y); break;
    default:
        if (r.var) break;
        if (!isInt(x) || !isInt(y)) { r.unspec = true; break; }
        { int64_t i = (int64_t)x, j = (int64_t)y; r.v = q.op == ref::AND ? (double)(int)(i & j) : q.op == ref::OR ? (double)(int)(i | j) : j == 0 ? NAN_ : (double)(i % j); }
    }
    if (!r.var && !std::isfinite(r.v)) r.bad = true;
    return r;
}
bool sameD(double a, double b) { return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b)) || (a == 0 && b == 0) || std::fabs(a - b) <= 4e-16 * std::fabs(b); }

void check(const Arena &A, int t) {
    R r = eval(A, t);
    Node n = build(A, t), keep = Clone(n);
    auto &cfg = Config::Get();
    bool nanLeaf = false;
    for (auto &q : A.n) nanLeaf = nanLeaf || (q.op == ref::NUM && std::isnan(q.v));
    for (int policy = 0; policy < 2; ++policy) {
        cfg.throwOnInvalidValue = policy == 0;
        bool expectThrow = r.var || (policy == 0 && r.bad);
        for (int form = 0; form < 2; ++form) { // Vpa, Calc
            mc::step();
            double got = 0;
            int k = 0; // 0 value, 1 invalid number, 2 other runtime_error
            std::string what;
            Node m = Clone(n);
            try {
                if (form == 0) got = m->Vpa();
                else { internal::NodeImpl &q = m->Calc(); got = q.Vpa(); if (&q != m.get()) mc::fail("Calc returns another node"); }
            } catch (const MathError &e) { k = e.GetErrorType() == ErrorType::ERROR_INVALID_NUMBER ? 1 : 3; what = e.what(); }
            catch (const mc::Violation &) { throw; }
            catch (const std::runtime_error &e) { k = 2; what = e.what(); }
            const char *fn = form ? "Calc" : "Vpa";
            if (form == 0 || k != 0) { if (!(m->Equal(keep) || (nanLeaf && m->ToString() == keep->ToString()))) mc::failf(fn, " changed the expression ", A.text(t), " into ", m->ToString()); }
            m->CheckParent();
            if (k == 3 || (k && what.empty())) mc::failf(fn, " of ", A.text(t), ": wrong error type: ", what);
            mc::state(mc::hash(&got, 8, 77 + k));
            if (r.unspec && !r.var) continue;
            if (expectThrow) {
                if (!k) mc::failf(fn, " of ", A.text(t), " gives ", got, r.var ? " although a variable occurs" : " although an operator has an invalid result", " (policy ", policy, ")");
                if (!r.var && k != 1) mc::failf(fn, " of ", A.text(t), ": expected an invalid-number error, got ", what);
                if (r.var && !r.bad && !r.unspec && k != 2) mc::failf(fn, " of ", A.text(t), " which has a variable: ", what);
            } else {
                if (k) mc::failf(fn, " of ", A.text(t), " throws ", what, ", expected ", r.v, " (policy ", policy, ")");
                if (!sameD(got, r.v)) mc::failf(fn, " of ", A.text(t), " gives ", got, ", expected ", r.v);
                if (form == 1 && !(m->Equal(Num(got)) || (std::isnan(got) && m->GetAllVarNames().empty()))) mc::failf("Calc of ", A.text(t), " does not leave a number");
            }
        }
        if (cfg.throwOnInvalidValue != (policy == 0)) mc::fail("evaluation changed the configuration");
    }
    cfg.Reset();
}
void addT(const std::string &name, const std::string &what, const ref::TermSpace &S, uint64_t chunk = 512) {
    mc::add(name, what, S.size(), [S](uint64_t i) { Arena A; int t = S.make(A, i); check(A, t); }, [S](uint64_t i) { Arena A; int t = S.make(A, i); return A.text(t); }, chunk);
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    using namespace ref;
    std::vector<ref::Op> un(ALLFUN, ALLFUN + 11), bin(std::begin(ALLBIN), std::end(ALLBIN));
    un.push_back(POS); un.push_back(NEG);
    static std::vector<double> vals = {0.0, -0.0, 1, -1, 2, -2, 3, -3, 0.5, -0.5, 0.25, 1.5, -1.5, 2.9, -2.9, 4, 7, -7, 8, 10, 12, 15, 16, 100, 255, 256, 0.1, 1.0 / 3, 3.141592653589793, 1.5707963267948966, 2.718281828459045, 0.9999999999999999, 1.0000000000000002, -1.0000000000000002, 1e-9, 1e-300, -1e-300, 4e-324, 1e9, -1e9, 2147483647.0, -2147483648.0, 2147483646.5, 2147483648.0, -2147483649.0, 4294967296.0, 1e15, 1e16, 1e300, -1e300, 1.7976931348623157e308, 709.0, 710.0, -745.0, -746.0, 1023, 1024, 0.3, -0.7, INF, -INF, NAN_};
    uint64_t nv = vals.size();
    add("operators/unary", "every unary operator at every value of a telling list", 13 * nv, [un, nv](uint64_t i) { Arena A; int t = A.un(un[i / nv], A.num(vals[i % nv])); check(A, t); },
        [un, nv](uint64_t i) { Arena A; return A.text(A.un(un[i / nv], A.num(vals[i % nv]))); });
    add("operators/binary", "every binary operator at every pair of values of a telling list", 8 * nv * nv, [bin, nv](uint64_t i) { Arena A; mc::Dec d(i); ref::Op o = bin[d.take(8)]; int a = A.num(vals[d.take(nv)]), b = A.num(vals[d.take(nv)]); check(A, A.bin(o, a, b)); },
        [bin, nv](uint64_t i) { Arena A; mc::Dec d(i); ref::Op o = bin[d.take(8)]; int a = A.num(vals[d.take(nv)]), b = A.num(vals[d.take(nv)]); return A.text(A.bin(o, a, b)); });
    static std::vector<double> ints = [] { std::vector<double> r; for (int i = -20; i <= 20; ++i) { r.push_back(i); r.push_back(i + 0.75); } for (double x : {2147483647.0, -2147483648.0, 65535.0, 1e9}) r.push_back(x); return r; }();
    uint64_t ni = ints.size();
    add("operators/integer", "& | % at all pairs of small integers and fractions", 3 * ni * ni, [ni](uint64_t i) { Arena A; mc::Dec d(i); ref::Op o = (ref::Op)(AND + d.take(3)); int a = A.num(ints[d.take(ni)]), b = A.num(ints[d.take(ni)]); check(A, A.bin(o, a, b)); });
    // the whole range of numbers: every power of two and its neighbours, and an even grid up to +-800
    static std::vector<double> range = [] {
        std::vector<double> r;
        for (int e = -1074; e < 1024; ++e) for (double m : {1.0, 1.0000000000000002, 1.5, 1.9999999999999998}) for (int s : {1, -1}) r.push_back(s * std::ldexp(m, e));
        for (int k = -6400; k <= 6400; ++k) r.push_back(k / 8.0);
        for (int k = 1; k < 2000; ++k) { r.push_back(k * 1.5707963267948966); r.push_back(-k * 0.78539816339744828); }
        for (double x : {709.78, 709.7827, 709.782712893384, 709.7827128933841, -745.13, -745.1332, -708.3964185322641, -708.4, 745.0}) r.push_back(x);
        return r;
    }();
    uint64_t nr = range.size();
    add("operators/range", "every unary operator at every power of two, at its neighbours, at every eighth up to +-800 and at multiples of pi/2 and pi/4", 13 * nr, [un, nr](uint64_t i) { Arena A; int t = A.un(un[i / nr], A.num(range[i % nr])); check(A, t); },
        [un, nr](uint64_t i) { Arena A; return A.text(A.un(un[i / nr], A.num(range[i % nr]))); }, 512);
    static const std::vector<double> bases = {2, -2, 0.5, 10, -10, 0.1, 3, 1.5, 1e-5, 1e5, -0.75, 1.0000001};
    add("operators/powers", "12 bases to every half-integer power up to +-1100", 12 * 4401, [](uint64_t i) { Arena A; int a = A.num(bases[i % 12]), b = A.num(((int)(i / 12) - 2200) / 2.0); check(A, A.bin(POW, a, b)); },
        [](uint64_t i) { Arena A; int a = A.num(bases[i % 12]), b = A.num(((int)(i / 12) - 2200) / 2.0); return A.text(A.bin(POW, a, b)); }, 512);
    static std::vector<double> words = [] { std::vector<double> r; for (int k = 0; k < 31; ++k) for (int d : {-1, 0, 1}) for (int s : {1, -1}) r.push_back(s * (std::ldexp(1.0, k) + d)); r.push_back(-2147483648.0); r.push_back(2147483647.0); return r; }();
    static uint64_t nw = words.size();
    add("operators/words", "& | % at all pairs of powers of two and their neighbours, of either sign", 3 * nw * nw, [](uint64_t i) { Arena A; mc::Dec d(i); ref::Op o = (ref::Op)(AND + d.take(3)); int a = A.num(words[d.take(nw)]), b = A.num(words[d.take(nw)]); check(A, A.bin(o, a, b)); },
        [](uint64_t i) { Arena A; mc::Dec d(i); ref::Op o = (ref::Op)(AND + d.take(3)); int a = A.num(words[d.take(nw)]), b = A.num(words[d.take(nw)]); return A.text(A.bin(o, a, b)); }, 512);
    { TermSpace S; S.U = un; S.B = bin; for (double v : {0.0, 1.0, -1.0, 2.0, -0.5, 3.7, 1e300}) S.leafNum(v); if (th) for (double v : {-2.0, 1e-300, INF, NAN_}) S.leafNum(v); S.init(2);
      addT("trees/2", "all trees of at most two operators over all 21 operators", S); }
    { TermSpace S; S.U = {NEG, SQRT, LOG, ATAN}; S.B = bin; for (double v : {0.0, 2.0, -1.5}) S.leafNum(v); if (th) { S.leafNum(5); S.leafNum(INF); } S.init(3);
      addT("trees/3", "all trees of at most three operators", S); }
    { TermSpace S; S.U = {NEG}; S.B = {SUB, DIV, POW}; S.leafNum(0); S.leafNum(3); S.init(th ? 6 : 5);
      addT("trees/deep", "deeper trees over - / ^ and minus", S); }
    { TermSpace S; S.U = {NEG, LOG, EXP}; S.B = {SUB, DIV, MOD, MUL}; S.leafNum(0); S.leafNum(2); S.leafVar("x"); S.init(3);
      addT("variables", "trees that mix variables, numbers and invalid operations", S); }
    // long chains: value and place of the single invalid operation
    add("scale/chains", "left-deep, right-deep and balanced trees of n operators with an invalid operation at every tenth", 3 * 4 * 64 * 11, [](uint64_t i) {
        mc::Dec d(i);
        int shape = (int)d.take(3), kind = (int)d.take(4), n = (int)d.take(64) * 3 + 1, w = (int)d.take(11);
        Arena A;
        int bad = w == 10 ? -1 : n * w / 10;
        auto leaf = [&](int k) { int l = A.num(1 + k % 3); if (k != bad) return l; return kind == 0 ? A.bin(DIV, l, A.num(0)) : kind == 1 ? A.un(LOG, A.num(-1)) : kind == 2 ? A.bin(MOD, l, A.num(0.5)) : A.var("v"); };
        std::function<int(int, int)> mk = [&](int a, int b) -> int { // leaves a..b
            if (a == b) return leaf(a);
            int m = shape == 0 ? b - 1 : shape == 1 ? a : (a + b) / 2;
            int l = mk(a, m), r = mk(m + 1, b);
            return A.bin(b % 3 == 0 ? SUB : b % 3 == 1 ? ADD : MUL, l, r);
        };
        int t = mk(0, n);
        check(A, t);
    }, nullptr, 16);
}
