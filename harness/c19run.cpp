// Transcripts of enumerated uses of the public interface. Compiled twice: against the library and its headers, and
// against the single header (with the namespaces tomsolver, br and pr renamed so that both fit in one program).
#include "mc.h"
#include "probes.h"
#include "kinds.h"
#include "c19.h"
#include <cfloat>
using namespace br;
namespace {
std::string U(const std::string &s) { return s; }
using pr::D; using pr::M; using pr::T; using pr::N; using pr::guard;
bool TH;
struct Reset { Reset() { Config::Get().Reset(); } ~Reset() { Config::Get().Reset(); } };
std::string cfgText() { auto &c = Config::Get(); return D(c.throwOnInvalidValue) + D(c.epsilon) + D((int)c.logLevel) + D(c.maxIterations) + D((int)c.nonlinearMethod) + D(c.initialValue) + D(c.allowIndeterminateEquation); }
void setCfg(int k) {
    auto &c = Config::Get();
    switch (k) {
    case 1: c.throwOnInvalidValue = false; break;
    case 2: c.epsilon = 1e-3; break;
    case 3: c.epsilon = 1e-13; break;
    case 4: c.maxIterations = 3; break;
    case 5: c.maxIterations = 0; break;
    case 6: c.nonlinearMethod = NonlinearMethod::LM; break;
    case 7: c.initialValue = -2; break;
    case 8: c.allowIndeterminateEquation = true; break;
    case 9: c.logLevel = LogLevel::OFF; c.throwOnInvalidValue = false; c.allowIndeterminateEquation = true; break;
    case 10: c.nonlinearMethod = NonlinearMethod::LM; c.allowIndeterminateEquation = true; break;
    case 11: c.initialValue = 0; c.nonlinearMethod = NonlinearMethod::LM; c.epsilon = 1e-6; break;
    default: break;
    }
}
// everything one can see of an expression
std::string whole(const Node &n) {
    n->CheckParent();
    std::string r = N(n);
    r += " v:" + guard([&] { return D(n->Vpa()); });
    for (int k = 0; k < 2; ++k) r += " at:" + guard([&] { return D(Subs(n, envs()[k ? 3 : 0])->Vpa()); });
    r += " dx:" + guard([&] { return N(Diff(n, "x")); });
    r += " dy:" + guard([&] { return N(Diff(Clone(n), "y")); });
    r += " s:" + guard([&] { Node m = Clone(n); Simplify(m); m->CheckParent(); return N(m) + (m->Equal(n) ? "=" : "#"); });
    r += " c:" + guard([&] { Node m = Clone(n); m->Calc(); return N(m); });
    r += " u:" + guard([&] { Node m = Subs(n, "x", n); return N(m); });
    return r;
}
// ---- probes under configurations
std::string rProbe(uint64_t i) { Reset g; mc::Dec d(i); int k = (int)d.take(12); setCfg(k); std::string r = pr::probes()[i / 12].run(); return r + cfgText(); }
std::string dProbe(uint64_t i) { return pr::probes()[i / 12].name + " under configuration " + std::to_string(i % 12); }
// ---- kinds of calls, every argument, every configuration; and two calls after each other
const std::vector<const pr::Probe *> &calls() { static const std::vector<const pr::Probe *> v = [] { std::vector<const pr::Probe *> r; for (auto &k : pr::kinds()) for (auto &c : k.calls) r.push_back(&c); return r; }(); return v; }
std::string rKind(uint64_t i) { Reset g; mc::Dec d(i); setCfg((int)d.take(12)); std::string r = calls()[i / 12]->run(); return r + cfgText(); }
std::string dKind(uint64_t i) { return calls()[i / 12]->name + " under configuration " + std::to_string(i % 12); }
const std::vector<std::pair<const pr::Probe *, const pr::Probe *>> &callPairs() { static const std::vector<std::pair<const pr::Probe *, const pr::Probe *>> v = [] { std::vector<std::pair<const pr::Probe *, const pr::Probe *>> r; for (auto &k : pr::kinds()) for (auto &a : k.calls) for (auto &b : k.calls) r.push_back({&a, &b}); return r; }(); return v; }
std::string rPair(uint64_t i) { Reset g; auto &p = callPairs()[i]; std::string r = p.first->run(); return r + " then " + p.second->run(); }
std::string dPair(uint64_t i) { auto &p = callPairs()[i]; return p.first->name + ", then " + p.second->name; }
// ---- texts
const std::vector<std::string> &toks() { static const std::vector<std::string> t = {"x", "y", "2", "+", "-", "*", "^", "(", ")", "sin", "/", ".5", "1e3", "&", "%", " ", "#", "|", ",", "log2", "_a1", "\t", "\n", "3."}; return t; }
int TB() { return (int)toks().size(); }
std::string text(uint64_t i) { // length then digits
    uint64_t n = 1; int len = 0;
    while (i >= n) { i -= n; n *= TB(); ++len; }
    std::string s;
    for (int k = 0; k < len; ++k) { s += toks()[i % TB()]; i /= TB(); }
    return s;
}
uint64_t textCount(int len) { uint64_t n = 1, t = 0; for (int k = 0; k <= len; ++k) { t += n; n *= TB(); } return t; }
std::string rText(uint64_t i) { std::string s = text(i); return guard([&] { Node n = Parse(s); n->CheckParent(); return N(n) + guard([&] { return D(Subs(n, envs()[0])->Vpa()); }); }); }
// single edits of long texts
const std::vector<std::string> &longs() { static const std::vector<std::string> v = {"sin(x)^2+arccos(-y/3.25e-2)*(a_b1-4)%7&x|exp(2*z)", "((x+1)*(y-2))/-z^-2-sqrt(log(x)*log10(5))", "1.5e10-.25+3.*-(-x)", "a-b-c*d/e^f^g+tan(x*arctan(y))-arcsin(0.5)"}; return v; }
std::string edited(uint64_t i) {
    mc::Dec d(i); std::string s = longs()[d.take(longs().size())]; int what = (int)d.take(3); size_t pos = d.take(60); char c = (char)(what == 1 ? 0 : d.take(256));
    if (pos > s.size()) return "";
    if (what == 0) return s.substr(0, pos) + c + s.substr(pos);
    if (pos == s.size()) return "";
    if (what == 1) return s.substr(0, pos) + s.substr(pos + 1);
    return s.substr(0, pos) + c + s.substr(pos + 1);
}
std::string rEdit(uint64_t i) { std::string s = edited(i); return guard([&] { return N(Parse(s)); }); }
// ---- terms
ref::TermSpace &terms(int k) {
    static std::map<int, ref::TermSpace> c;
    auto it = c.find(k);
    if (it != c.end()) return it->second;
    ref::TermSpace &s = c[k];
    s.U = {ref::NEG, ref::SIN, ref::SQRT}; s.B = {ref::ADD, ref::SUB, ref::MUL, ref::DIV, ref::POW};
    if (k == 0) { s.U.assign({ref::POS, ref::NEG}); for (auto f : ref::ALLFUN) s.U.push_back(f); s.B.insert(s.B.end(), {ref::AND, ref::OR, ref::MOD}); for (double v : {0.0, 1.0, -1.0, 2.0, 3.0, 0.5, 1e300}) s.leafNum(v); s.leafVar("x"); s.leafVar("y"); s.init(TH ? 2 : 2); }
    else { s.leafNum(0); s.leafNum(1); s.leafNum(2.5); s.leafVar("x"); s.leafVar("y"); if (k == 2) { s.U = {ref::NEG, ref::EXP}; s.B = {ref::ADD, ref::MUL, ref::POW}; s.init(TH ? 4 : 3); } else s.init(3); }
    return s;
}
template <int K> std::string rTerm(uint64_t i) { Arena A; int t = terms(K).make(A, i); return guard([&] { return whole(build(A, t)); }); }
template <int K> std::string dTerm(uint64_t i) { Arena A; int t = terms(K).make(A, i); return A.text(t); }
// ---- numbers
double number(uint64_t i) {
    static const uint64_t man[] = {0, 1, 0xfffffffffffffull, 0x8000000000000ull, 0x5555555555555ull, 0x3333333333333ull, 0x921fb54442d18ull, 0x0000000010000ull, 0x999999999999aull, 0x1234567890abcull};
    mc::Dec d(i); uint64_t m = man[d.take(10)], e = d.take(2047), s = d.take(2), b = s << 63 | e << 52 | m; double v; memcpy(&v, &b, 8); return v;
}
std::string rNum(uint64_t i) { double v = number(i); std::string s = tomsolver::ToString(v); return s + " " + guard([&] { return D(Parse(s)->Vpa()); }) + Num(v)->ToString() + guard([&] { Node x = Var("x") * Num(v); return N(x); }); }
std::string rDec(uint64_t i) { // decimal fractions and other literals
    mc::Dec d(i); int e = (int)d.take(13) - 6, m = (int)d.take(4000); char b[60]; snprintf(b, sizeof b, "%d.%03de%d", m / 1000, m % 1000, e * 4);
    double v = strtod(b, nullptr); return tomsolver::ToString(v) + guard([&] { return D(Parse(b)->Vpa()); }) + tomsolver::ToString(m / std::pow(10.0, e + 6));
}
// ---- numeric matrices
std::string vecText(Vec v) { return M(v); }
std::string matUses(Mat a, Mat b) {
    std::string r = M(a) + a.ToString();
    bool sq = a.Rows() == a.Cols(), same = a.Rows() == b.Rows() && a.Cols() == b.Cols();
    r += D(a.Norm2()) + D(a.NormInfinity()) + D(a.NormNegInfinity()) + D(a.Min()) + M(a.Transpose()) + M(-a) + M(a * 1.5) + M(-2.0 * a) + (IsZero(a) ? "Z" : "N") + (a == 2.0 ? "Y" : "X");
    r += guard([&] { return M(a.ToVec()); });
    for (int j = 0; j < a.Cols(); ++j) r += D(GetMaxAbsRowIndex(a, 0, a.Rows() - 1, j)) + (a.Rows() > 1 ? D(GetMaxAbsRowIndex(a, 1, a.Rows() - 1, j)) : "");
    if (same) { r += M(a + b) + M(a - b) + M(EachDivide(a, b)) + (a == b ? "E" : "D") + (AllIsLessThan(a, b) ? "L" : "G"); Mat c = a; c += b; r += M(c); }
    if (a.Cols() == b.Rows()) r += M(a * b);
    if (sq) {
        r += D(Det(a, a.Rows())) + guard([&] { return M(a.Inverse()); }) + (a.PositiveDetermine() ? "P" : "Q");
        if (a.Rows() > 1) { Mat j(a.Rows(), a.Rows()); Adjoint(a, j); r += M(j); Mat t(a.Rows(), a.Rows()); GetCofactor(a, t, 0, a.Rows() - 1, a.Rows()); r += M(t); }
    }
    Mat e = a;
    for (int i = 0; i < a.Rows(); ++i) { e.SwapRow(i, a.Rows() - 1 - i); std::valarray<double> w = e.Row(i); for (double v : w) r += D(v); }
    for (int j = 0; j < a.Cols(); ++j) { e.SwapCol(0, j); std::valarray<double> w = e.Col(j); for (double v : w) r += D(v); }
    r += M(e);
    e.Resize(a.Rows() + 1, a.Cols() + 2); r += M(e); e.Resize(1, 1); r += M(e); e.SetValue(4); r += M(e); e.Zero(); e.Ones(); r += M(e);
    return r;
}
std::string rShape(uint64_t i) {
    mc::Dec d(i); int r = 1 + (int)d.take(5), c = 1 + (int)d.take(5), r2 = 1 + (int)d.take(5), c2 = 1 + (int)d.take(5), p = (int)d.take(3);
    Mat a(r, c), b(r2, c2);
    for (int x = 0; x < r; ++x) for (int y = 0; y < c; ++y) a.Value(x, y) = ((x * 7 + y * 3 + p * 5) % 11) - 4 + (p == 2 ? 0.25 : 0);
    for (int x = 0; x < r2; ++x) for (int y = 0; y < c2; ++y) b.Value(x, y) = ((x * 5 + y * 2 + p) % 9) - 3.5;
    return guard([&] { return matUses(a, b); });
}
std::string rMat2(uint64_t i) {
    static const double v[] = {0, 1, -1, 2, 0.5, 3e-6, 1e-10}; mc::Dec d(i); Mat a(2, 2), b(2, 2); Vec y(2);
    for (int k = 0; k < 4; ++k) a.Value(k / 2, k % 2) = v[d.take(7)];
    y[0] = v[d.take(3)]; y[1] = v[d.take(3)];
    b = a; b.Value(1, 1) += (i % 3) * 1e-9; b.Value(0, 0) -= (i % 5) * 4e-10;
    Reset g; std::string r;
    r += guard([&] { return matUses(a, b); }) + guard([&] { return M(SolveLinear(a, y)); });
    Config::Get().allowIndeterminateEquation = true;
    return r + guard([&] { return M(SolveLinear(a, y)); });
}
std::string rMat3(uint64_t i) {
    static const double v[] = {0, 1, -2, 5}; int K = TH ? 4 : 3; mc::Dec d(i); Mat a(3, 3);
    for (int k = 0; k < 9; ++k) a.Value(k / 3, k % 3) = v[d.take(K)];
    Reset g; std::string r;
    for (int c = 0; c < 2; ++c) { Config::Get().allowIndeterminateEquation = c; r += guard([&] { return M(SolveLinear(a, Vec{1, 2, 3})); }); }
    return r + D(Det(a, 3)) + guard([&] { return M(a.Inverse()); }) + (a.PositiveDetermine() ? "P" : "Q");
}
std::string rLin(uint64_t i) { // all shapes, patterns with zero rows and dependent rows
    mc::Dec d(i); int r = 1 + (int)d.take(6), c = 1 + (int)d.take(6), z = (int)d.take(7), q = (int)d.take(7), p = (int)d.take(4), inc = (int)d.take(2), sc = (int)d.take(3);
    Mat a(r, c); Vec b(r);
    for (int x = 0; x < r; ++x) { for (int y = 0; y < c; ++y) a.Value(x, y) = (((x + 1) * (y + 2) * (p + 3) + x * x * 5 + y * y * y) % 13 - 6) * (sc == 1 ? 1e-7 : sc == 2 ? 1e7 : 1); b[x] = x - 2; }
    if (z < r) { for (int y = 0; y < c; ++y) a.Value(z, y) = 0; b[z] = inc ? 1 : 0; }
    if (q < r && q > 0) { for (int y = 0; y < c; ++y) a.Value(q, y) = 2 * a.Value(0, y); b[q] = 2 * b[0] + inc; }
    Reset g; std::string o;
    for (int k = 0; k < 2; ++k) { Config::Get().allowIndeterminateEquation = k; o += guard([&] { return M(SolveLinear(a, b)); }); }
    return o;
}
std::string rVec(uint64_t i) {
    static const double v[] = {0, 1, -1, 2.5}; mc::Dec d(i); int n = 1 + (int)d.take(3); Vec a(n), b(n);
    for (int k = 0; k < 3; ++k) { double x = v[d.take(4)], y = v[d.take(4)]; if (k < n) { a[k] = x; b[k] = y; } }
    Vec e = a; e.Resize(n + 1);
    return M(a + b) + M(a - b) + M(a * b) + M(a / b) + M(-a) + M(a * 3.0) + M(0.5 * a) + D(Dot(a, b)) + (a < b ? "L" : "G") + (a == b ? "E" : "D") + M(e) + D(a.Norm2()) + a.ToString() + M(a.AsMat());
}
// ---- symbolic matrices
const std::vector<std::string> &elems() { static const std::vector<std::string> e = {"x", "y-2", "3", "x*y", "sin(x)", "x^2-y/z", "-1.5", "z", "0", "(x+y)^2", "log(z)", "-x"}; return e; }
std::string rSym(uint64_t i) {
    mc::Dec d(i); int r = 1 + (int)d.take(3), c = 1 + (int)d.take(3), r2 = 1 + (int)d.take(3), c2 = 1 + (int)d.take(3), p = (int)d.take(5), cf = (int)d.take(2);
    Reset g; Config::Get().throwOnInvalidValue = !cf;
    SymMat a(r, c), b(r2, c2);
    for (int x = 0; x < r; ++x) for (int y = 0; y < c; ++y) a.Value(x, y) = Parse(elems()[(x * 3 + y * (p + 1) + p) % elems().size()]);
    for (int x = 0; x < r2; ++x) for (int y = 0; y < c2; ++y) b.Value(x, y) = Parse(elems()[(x * 5 + y * 2 + p * 3) % elems().size()]);
    std::string o = a.ToString();
    { std::ostringstream s; s << a; o += s.str(); }
    for (auto &v : a.GetAllVarNames()) o += v;
    if (r == r2 && c == c2) o += (a - b).ToString();
    o += guard([&] { return (a * b).ToString(); });
    o += guard([&] { return a.ToSymVec().ToString(); }) + guard([&] { return a.ToSymVecOneByOne().ToString(); });
    o += a == a.Clone() ? "E" : "D"; o += a == b ? "E" : "D"; o += a.Empty() ? "M" : "F";
    o += guard([&] { return M(a.ToMat()); });
    SymMat q = a.Clone(); q.Subs(std::map<std::string, double>{{"x", 2}, {"y", 0.5}}); o += q.ToString();
    q.Subs(VarsTable{{"z", (p == 4 ? -1.0 : 3.0)}}); o += q.ToString();
    o += guard([&] { return M(q.ToMat()); }); o += guard([&] { q.Calc(); return q.ToString(); });
    static const std::vector<std::vector<std::string>> vs = {{"x"}, {"x", "y"}, {"z", "x", "y"}, {"q", "y"}, {"y", "z", "x", "q"}};
    if (c == 1) o += guard([&] { return Jacobian(a, vs[p]).ToString(); });
    o += guard([&] { return SymMat(Mat{{1, 2.5}, {p + 0.0, 4}}).ToString(); });
    return o;
}
// ---- equations
const std::vector<std::string> &eqs() { static const std::vector<std::string> e = {"x^2-4", "x+y-3", "x*y-2", "sin(x)-y", "x-y", "exp(x)-2", "x^2+y^2-5", "y^3-8", "log(x)-y", "x^2+1", "2*x+2*y-6", "x-1", "y-x^2", "1/x-2", "0*x", "sqrt(y)-x", "x%3-1", "arctan(x*y)-0.5"}; return e; }
std::string solveAll(const SymVec &f, int how, const VarsTable &t) {
    return guard([&] { switch (how) { case 0: return T(Solve(f, t)); case 1: return T(SolveByNewtonRaphson(f, t)); case 2: return T(SolveByLM(f, t)); default: return T(Solve(f)); } });
}
std::string rSolve1(uint64_t i) {
    static const double st[] = {1, -1, 0, 2, 0.3, -3, 50};
    mc::Dec d(i); std::string e = eqs()[d.take(eqs().size())]; int how = (int)d.take(4), s = (int)d.take(7), k = (int)d.take(12);
    Reset g; setCfg(k); SymVec f{Parse(e)};
    if (e.find('y') != std::string::npos && e.find('x') != std::string::npos) return solveAll(f, how, VarsTable{{"x", st[s]}, {"y", 0.5}});
    return solveAll(f, how, VarsTable{{e.find('y') != std::string::npos ? "y" : "x", st[s]}}) + f.ToString();
}
std::string rSolve2(uint64_t i) {
    static const double st[4][2] = {{1, 2}, {-1, 0.5}, {3, 3}, {0, 0}};
    mc::Dec d(i); size_t a = d.take(eqs().size()), b = d.take(eqs().size()); int how = (int)d.take(4), s = (int)d.take(4), k = TH ? (int)d.take(12) : (int)((i * 7) % 12);
    Reset g; setCfg(k); SymVec f{Parse(eqs()[a]), Parse(eqs()[b])};
    return solveAll(f, how, (i & 1) ? VarsTable{{"x", st[s][0]}, {"y", st[s][1]}} : VarsTable{{"y", st[s][1]}, {"x", st[s][0]}}) + f.ToString() + cfgText();
}
std::string dSolve2(uint64_t i) { mc::Dec d(i); size_t a = d.take(eqs().size()), b = d.take(eqs().size()); int how = (int)d.take(4); return eqs()[a] + " , " + eqs()[b] + " by method " + std::to_string(how); }
std::string rSolve3(uint64_t i) {
    static const std::vector<std::string> e = {"x+y+z-6", "x*y*z-6", "x-y", "x^2+y^2+z^2-14", "z-3", "x+2*y-z", "y*z-6", "exp(x)-z", "x+y+z-5"};
    mc::Dec d(i); int a = (int)d.take(9), b = (int)d.take(9), c = (int)d.take(9), how = (int)d.take(3), k = (int)((i / 3) % 3);
    Reset g; setCfg(k == 1 ? 6 : k == 2 ? 8 : 0);
    return solveAll(SymVec{Parse(e[a]), Parse(e[b]), Parse(e[c])}, how, VarsTable{{"x", 1.2}, {"y", 2.1}, {"z", 2.7}});
}
// ---- substitution
std::string rSubs(uint64_t i) {
    static const std::vector<std::string> base = {"x", "x-2*y", "x^y-y^x", "sin(x*y)/z", "z", "5", "x&3|y", "-x-(-y)"}, img = {"y", "x", "2", "x+y", "-z", "x*x", "sin(y)", "1/0"};
    mc::Dec d(i); std::string b = base[d.take(8)], p = img[d.take(8)], q = img[d.take(8)]; int form = (int)d.take(6), mv = (int)d.take(2);
    return guard([&]() -> std::string {
        Node n = Parse(b), keep = Clone(n), r;
        std::map<std::string, Node> dict; dict["x"] = Parse(p); dict["y"] = Parse(q);
        SymVec sv{Parse(q), Parse(p)};
        switch (form) {
        case 0: r = mv ? Subs(std::move(n), "x", Parse(p)) : Subs(n, "x", Parse(p)); break;
        case 1: r = mv ? Subs(std::move(n), std::vector<std::string>{"y", "x"}, sv) : Subs(n, std::vector<std::string>{"y", "x"}, sv); break;
        case 2: r = mv ? Subs(std::move(n), dict) : Subs(n, dict); break;
        case 3: r = mv ? Subs(std::move(n), std::map<std::string, double>{{"x", 2}, {"z", -1}}) : Subs(n, std::map<std::string, double>{{"x", 2}, {"z", -1}}); break;
        case 4: r = mv ? Subs(std::move(n), VarsTable{{"x", 2}, {"y", 0.1}}) : Subs(n, VarsTable{{"x", 2}, {"y", 0.1}}); break;
        default: r = Subs(keep, "q", Parse(p)); break;
        }
        std::string o = N(r) + sv.ToString() + N(dict["x"]);
        if (n) o += N(n);
        return o + (r->Equal(keep) ? "E" : "D");
    });
}
// ---- histories: sequences of operations on a pool
std::string rHist(uint64_t i) {
    static const int W = 26;
    Node a = Parse("x-2"), b = Parse("sin(y)"); VarsTable t{{"x", 1.5}, {"y", -2}}; std::string o;
    for (int k = 0; k < (TH ? 5 : 4); ++k) {
        int op = (int)(i % W); i /= W;
        o += guard([&]() -> std::string {
            switch (op) {
            case 0: a = a + b; break; case 1: a = b - a; break; case 2: a *= b; break; case 3: b /= a; break; case 4: a ^= Move(b); b = Num(3); break;
            case 5: a += a; break; case 6: b = -a; break; case 7: b = cos(Move(a)); a = Var("z"); break; case 8: std::swap(a, b); break;
            case 9: a = Diff(a, "x"); break; case 10: b = Diff(Move(b), "y", 2); break; case 11: Simplify(a); break; case 12: a->Calc(); break;
            case 13: a = Subs(a, "x", b); break; case 14: b = Subs(Move(b), t); break; case 15: *a = *b; break; case 16: *b = std::move(*a); a = Num(0.5); break;
            case 17: a = Parse(b->ToString()); break; case 18: t.SetValues(Vec{7, 8}); break; case 19: return D(t["zz"]); case 20: b = Var("1a"); break;
            case 21: a = Parse("3+"); break; case 22: return a->Equal(b) ? "E" : "D"; case 23: return D(a->Vpa()); case 24: Config::Get().throwOnInvalidValue = !Config::Get().throwOnInvalidValue; break;
            case 25: b = Clone(a); break;
            }
            return "";
        });
        o += N(a) + ";" + N(b) + ";" + T(t);
    }
    Config::Get().Reset();
    return o;
}
// ---- functions of operators and errors
std::string rMisc(uint64_t i) {
    if (i == 0) return guard([&] { Op(MathOperator::MATH_NULL); return std::string("ok"); });
    if (i < 24) {
        MathOperator op = (MathOperator)i; std::string r = guard([&] { return MathOperatorToStr(op); });
        if (i >= 22) return r;
        r += D(GetOperatorNum(op)) + D(Rank(op)) + D(IsFunction(op)) + D(InAssociativeLaws(op)) + D(IsLeft2Right(op));
        return r + guard([&] { return std::string(Op(op) ? "1" : "0"); });
    }
    if (i < 24 + 16) { ErrorType e = (ErrorType)(i - 24); std::string r = GetErrorInfo(e); MathError m(e), k(e, "more"); return r + m.what() + k.what() + D((int)k.GetErrorType()); }
    i -= 40;
    static const double v[] = {0, 1, -1, 2, -3, 0.5, -2.5, 1e10, 1e300, -1e-300, 4, 10, 1e9, 7};
    mc::Dec d(i); double a = v[d.take(14)], b = v[d.take(14)]; int op = 1 + (int)d.take(21), cf = (int)d.take(2);
    if (op >= 19 && (std::fabs(a) > 2e9 || std::fabs(b) > 2e9 || b == 0)) return "";
    Reset g; Config::Get().throwOnInvalidValue = !cf;
    return guard([&] { return D(Calc((MathOperator)op, a, b)); }) + D(radians(double(a))) + D(degrees(double(b))) + D(PI) + (VarNameIsLegal(std::string(1, (char)i) + "a") ? "1" : "0") + guard([&] { return N(Var(std::string("a") + (char)(i % 256))); });
}
std::string noSign(std::string s) { // the sign and width of nan are free
    std::string r;
    for (char ch : s) if (ch != ' ') r += ch;
    for (size_t p; (p = r.find("-nan")) != std::string::npos;) r.erase(p, 1);
    return r;
}
std::string rInvalid(uint64_t i) { // matrices, vectors and systems with nan and infinity
    static const double v[] = {0, -1.5, 2, std::nan(""), INFINITY, -INFINITY};
    static const int shapes[5][2] = {{1, 1}, {2, 1}, {1, 3}, {4, 1}, {2, 2}};
    mc::Dec d(i); int k = (int)d.take(5), p = (int)d.take(4), R = shapes[k][0], C = shapes[k][1]; double e[4];
    for (double &x : e) x = v[d.take(6)];
    Mat a(R, C), b(R, C);
    for (int x = 0; x < R * C; ++x) { a.Value(x / C, x % C) = e[x]; b.Value(x / C, x % C) = p == 0 ? 1 : p == 1 ? e[x] : p == 2 ? e[R * C - 1 - x] : v[(x + i) % 6]; }
    Reset g; std::string r = guard([&] { return matUses(a, b); });
    if (R == C) for (int w = 0; w < 2; ++w) { Config::Get().allowIndeterminateEquation = w; Vec y(R); for (int x = 0; x < R; ++x) y[x] = b.Value(x, 0); r += guard([&] { return M(SolveLinear(a, y)); }); }
    if (C == 1) { Vec y = a.ToVec(), z = b.ToVec(); r += D(Dot(y, z)) + (y < z ? "L" : "G") + M(y / z) + M(y * z); }
    return noSign(r);
}
std::string rSearch2(uint64_t i) { // two components, some constant, undefined or growing
    mc::Dec d(i); int w = (int)d.take(36); double x0 = (int)d.take(5) - 2, y0 = (int)d.take(3) - 1, dx = (int)d.take(4) - 1.5, dy = (int)d.take(3) - 1;
    auto one = [](int k, const Vec &x) { return k == 0 ? x[0] * x[0] - 2 : k == 1 ? x[1] - 3 : k == 2 ? 4.0 : k == 3 ? std::log(x[0]) : k == 4 ? 1 / (x[1] - 1) : std::exp(x[0] + x[1]); };
    auto f = [&](Vec x) { return Vec{one(w % 6, x), one(w / 6, x)}; };
    return noSign(guard([&] { return D(FindAlpha(Vec{x0, y0}, Vec{dx, dy}, f)); }) + guard([&] { return D(FindAlpha(Vec{x0, y0}, Vec{dx, dy}, f, 1e-3)); }));
}
std::string rSearch(uint64_t i) {
    mc::Dec d(i); double x0 = (int)d.take(5) - 2, dd = (int)d.take(5) - 2.5; int w = (int)d.take(3);
    auto f = [w](Vec x) { Vec r(1); r[0] = w == 0 ? x[0] * x[0] - 2 : w == 1 ? x[0] - 3 : std::sin(x[0]); return r; };
    auto df = [w](Vec x) { Mat m(1, 1); m.Value(0, 0) = w == 0 ? 2 * x[0] : w == 1 ? 1 : std::cos(x[0]); return m; };
    return guard([&] { return D(FindAlpha(Vec{x0}, Vec{dd}, f)); }) + guard([&] { return D(FindAlpha(Vec{x0}, Vec{dd}, f, 1e-3)); }) + guard([&] { return D(Armijo(Vec{x0}, Vec{-x0 - 0.5}, f, df)); });
}
// ---- scaled shapes
std::string rDeep(uint64_t i) {
    mc::Dec d(i); int shape = (int)d.take(6), op = (int)d.take(5), n = 1 + (int)d.take(40) * 25; std::string s;
    static const char *o5[] = {"+", "-", "*", "/", "^"}, *o = o5[op];
    if (shape == 0) { s = "x"; for (int k = 0; k < n; ++k) s += o + std::string(k % 3 ? "y" : "2"); }
    else if (shape == 1) { for (int k = 0; k < n; ++k) s += std::string("(") + (k % 3 ? "x" : "1.5") + o; s += "y" + std::string(n, ')'); }
    else if (shape == 2) { for (int k = 0; k < n; ++k) s += (k % 2 ? "sin(" : "-("); s += "x" + std::string(n, ')'); }
    else if (shape == 3) { s = std::string(n, '-') + "x" + o + "2"; }
    else if (shape == 4) { for (int k = 0; k < n; ++k) s += (k % 2 ? "(x" : "(") + std::string(k % 2 ? o : ""); s += "y"; for (int k = n; k-- > 0;) s += k % 2 ? ")" : std::string(o) + "x)"; }
    else { s = std::string(n, 'v') + o + std::string(n, '3'); }
    return guard([&] {
        Node q = Parse(s); q->CheckParent(); std::string r = q->ToString(); Node c = Clone(q); r += c->Equal(q) ? "E" : "D"; Simplify(c); r += c->ToString();
        r += guard([&] { return D(Subs(q, envs()[1])->Vpa()); });
        if (n < 400) r += guard([&] { return Diff(q, "x")->ToString(); });
        return r;
    });
}
} // namespace

static std::vector<C19Space> mk(bool th) {
    TH = th;
    std::vector<C19Space> v;
    v.push_back({"probes", "every probe under 12 configurations", 12 * (uint64_t)pr::probes().size(), rProbe, dProbe, 8});
    v.push_back({"kinds of calls", "every kind of call with every argument under 12 configurations", 12 * (uint64_t)calls().size(), rKind, dKind, 32});
    if (th) v.push_back({"pairs of calls", "every ordered pair of calls of one kind", callPairs().size(), rPair, dPair, 64});
    v.push_back({"operators and errors", "every operator, error type, Calc of every operator at every pair of 14 values, names", 40 + 14 * 14 * 21 * 2, rMisc, nullptr, 64});
    v.push_back({"line searches", "Armijo and FindAlpha", 75, rSearch, nullptr, 4});
    v.push_back({"line searches, two components", "FindAlpha for every pair of six components, starts and directions", 36 * 5 * 3 * 4 * 3, rSearch2, nullptr, 64});
    v.push_back({"invalid numbers", "matrices, vectors and systems of up to 4 values over 6 with nan and infinities", 5 * 4 * 1296, rInvalid, nullptr, 64});
    v.push_back({"texts", "every sequence of up to N tokens of 24", textCount(th ? 5 : 4), rText, text, 512});
    v.push_back({"edited texts", "every insertion, deletion and replacement of every byte in long texts", 4 * 3 * 60 * 256, rEdit, edited, 256});
    v.push_back({"terms, all operators", "every term of up to 2 operators", terms(0).size(), rTerm<0>, dTerm<0>, 128});
    v.push_back({"terms, 8 operators", "every term of up to 3 operators", terms(1).size(), rTerm<1>, dTerm<1>, 128});
    v.push_back({"terms, 5 operators", "every term of up to 3 (thorough 4) operators", terms(2).size(), rTerm<2>, dTerm<2>, 128});
    v.push_back({"numbers", "every exponent, ten mantissas, both signs", 2047 * 20, rNum, [](uint64_t i) { return D(number(i)); }, 256});
    v.push_back({"decimal literals", "4000 mantissas, 13 exponents", 13 * 4000, rDec, nullptr, 256});
    v.push_back({"matrix shapes", "every pair of shapes up to 5x5, three patterns", 5 * 5 * 5 * 5 * 3, rShape, nullptr, 64});
    v.push_back({"2x2 matrices", "all over 7 values, 9 right-hand sides", 2401 * 9, rMat2, nullptr, 64});
    v.push_back({"3x3 matrices", "all over 3 (thorough 4) values", (uint64_t)(th ? 262144 : 19683), rMat3, nullptr, 128});
    v.push_back({"linear systems", "all shapes up to 6x6 with zero and dependent rows", 6 * 6 * 7 * 7 * 4 * 2 * 3, rLin, nullptr, 64});
    v.push_back({"vectors", "all up to length 3 over 4 values", 3 * 4096, rVec, nullptr, 64});
    v.push_back({"symbolic matrices", "every pair of shapes up to 3x3, patterns, both settings", 81 * 5 * 2, rSym, nullptr, 8});
    v.push_back({"one equation", "18 equations, ways to call, starts, configurations", eqs().size() * 4 * 7 * 12, rSolve1, nullptr, 16});
    v.push_back({"two equations", "18x18 equations, ways to call, starts, configurations", eqs().size() * eqs().size() * 4 * 4 * (th ? 12 : 1), rSolve2, dSolve2, 8});
    v.push_back({"three equations", "9x9x9 equations, ways to call", 9 * 9 * 9 * 3, rSolve3, nullptr, 8});
    v.push_back({"substitutions", "8 expressions, 8x8 images, call forms", 8 * 8 * 8 * 6 * 2, rSubs, nullptr, 64});
    v.push_back({"histories", "every sequence of 4 (thorough 5) of 26 operations on a pool", (uint64_t)26 * 26 * 26 * 26 * (th ? 26 : 1), rHist, nullptr, 64});
    v.push_back({"scaled shapes", "six shapes, five operators, 40 sizes up to 976", 6 * 5 * 40, rDeep, nullptr, 2});
    return v;
}
#ifdef FLAVOUR_SINGLE
const C19Api c19_single = {mk};
#else
const C19Api c19_src = {mk};
#endif
