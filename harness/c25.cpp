// C25: running out of memory is reported, never hidden. Every allocation of every operation fails once (or from then on).
#include "lib.h"
#include <csignal>
#include <exception>
#include <iostream>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace br;

namespace {
// ---- allocation
long live = 0;        // blocks in use
bool armed = false;   // inside the call under test
long count = 0;       // allocations since arming
long failAt = 0;      // this one fails (1 is the first), 0: none
bool sticky = false;  // and all later ones
bool failed = false;
void *get(size_t n) {
    if (armed) {
        ++count;
        if (failAt && (count == failAt || (sticky && count > failAt))) { failed = true; return nullptr; }
    }
    void *p = std::malloc(n ? n : 1);
    if (p) ++live;
    return p;
}
void put(void *p) { if (p) { --live; std::free(p); } }
} // namespace
void *operator new(size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }

namespace {
struct Run {
    std::string out;   // what came out
    std::string tx;    // a text
    bool threw = false; // std::bad_alloc came out
    // the call under test; its result is described by d, with memory
    template <class F> void call(F f) {
        struct Arm { Arm() { count = 0; failed = false; armed = true; } ~Arm() { armed = false; } };
        try {
            Arm a;
            f();
        } catch (const std::bad_alloc &) { threw = true; }
        catch (const SingleParseError &e) { out = "SingleParseError " + std::to_string(e.GetPos()) + e.what(); }
        catch (const MultiParseError &e) { out = std::string("MultiParseError ") + e.what(); }
        catch (const MathError &e) { out = "MathError " + std::to_string((int)e.GetErrorType()) + e.what(); }
        catch (const std::out_of_range &e) { out = std::string("out_of_range ") + e.what(); }
        catch (const std::runtime_error &e) { out = std::string("runtime_error ") + e.what(); }
    }
    void put(const std::string &s) { if (!threw) out += s; }
};
std::string D(double v) { char b[40]; snprintf(b, sizeof b, "%.17g ", v); return b; }
std::string S(const Mat &m) { std::string s = std::to_string(m.Rows()) + "x" + std::to_string(m.Cols()) + " "; for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) s += D(m.Value(i, j)); return s; }
std::string S(const Node &n) { if (!n) return "null"; n->CheckParent(); return n->ToString() + " "; }
std::string S(const SymMat &m) { std::string s = std::to_string(m.Rows()) + "x" + std::to_string(m.Cols()) + " "; for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) s += S(m.Value(i, j)); return s; }
std::string S(const VarsTable &t) { std::string s; for (auto &p : t) s += p.first + "=" + D(p.second); for (auto &v : t.Vars()) s += v + ","; return s + S(t.Values()); }
std::string S(const std::set<std::string> &n) { std::string s; for (auto &v : n) s += v + ","; return s; }
struct Changed : std::runtime_error { using std::runtime_error::runtime_error; };
template <class T> struct Keep { // an argument that must stay as it is
    const T &t; std::string s; const char *n;
    Keep(const T &t, const char *n) : t(t), s(S(t)), n(n) {}
    void check() const { if (S(t) != s) throw Changed(std::string("the argument ") + n + " was changed from " + s + " to " + S(t)); }
};
template <class T> Keep<T> keep(const T &t, const char *n) { return Keep<T>(t, n); }
struct Op { std::string name; std::function<void(Run &)> body; };
std::vector<Op> ops;
void op(const std::string &n, std::function<void(Run &)> f) { ops.push_back({n, f}); }
SymVec sys(const std::vector<std::string> &e) { SymVec f((int)e.size()); for (size_t i = 0; i < e.size(); ++i) f[i] = Parse(e[i]); return f; }
const char *LONG = "a_name_longer_than_sixteen_letters";

void all() {
    std::string L = LONG;
    for (std::string s : {std::string("x"), std::string("1.25e-3"), std::string("sin(x)^2-(y+3)*-z/2"), L + "*" + L + "2-exp(" + L + ")", std::string("((((x+1)*2)-3)^4)%5&6|7"), std::string("a-b-c-d-e-f-g-h^i^j^k"), std::string("1.234567890123456789"), std::string("x*12345678901234567890.5e-3^y"), std::string("arctan(0.00000000000000000001)"), L + "^" + L, std::string("   x   +   2   ")})
        op("Parse " + s, [s](Run &r) { Node n; r.call([&] { n = Parse(s); }); r.put(S(n)); });
    for (std::string s : {std::string("x+"), std::string("(x"), std::string("x)"), std::string("x y"), std::string("a b c+d e"), std::string("2#3"), std::string(""), std::string("3" + L), std::string("sin*x"), std::string("1.2345678901234567.8"), std::string("1234567890123456789e999+1"), std::string("x+(y*(z-1.2345678901234567)"), std::string("1.23456789012345678 0.1234567890123456789")})
        op("Parse malformed " + s, [s](Run &r) { Node n; r.call([&] { n = Parse(s); }); r.put(S(n)); });
    for (std::string s : {std::string("x*y-sin(z)/2"), L + "+1", std::string("2^3^x"), std::string("-(-(x+1))"), std::string("x*1+2*y-3/z+sin(x*4)^2-exp(5-y)*(6+x)-7*log(z+8)+x^9-(x-(y-(z-10)))")}) {
        op("Clone " + s, [s](Run &r) { Node n = Parse(s), c; auto k = keep(n, "node"); r.call([&] { c = Clone(n); }); r.put(S(c)); k.check(); });
        op("ToString " + s, [s](Run &r) { Node n = Parse(s); auto k = keep(n, "node"); r.call([&] { r.tx = n->ToString(); }); r.put(r.tx); k.check(); });
        op("names " + s, [s](Run &r) { Node n = Parse(s); auto k = keep(n, "node"); std::set<std::string> v; r.call([&] { v = n->GetAllVarNames(); }); r.put(S(v)); k.check(); });
        op("Equal " + s, [s](Run &r) { Node n = Parse(s), m = Parse(s); auto k = keep(n, "node"); bool b = false; r.call([&] { b = n->Equal(m); }); r.put(b ? "equal" : "different"); k.check(); });
        op("Simplify " + s, [s](Run &r) { Node n = Parse(s); r.call([&] { Simplify(n); }); r.put(S(n)); });
        op("Vpa " + s, [s](Run &r) { Node n = Parse(s); auto k = keep(n, "node"); double v = 0; r.call([&] { v = n->Vpa(); }); r.put(D(v)); k.check(); });
        op("Calc " + s, [s](Run &r) { Node n = Parse(s); r.call([&] { n->Calc(); }); r.put(S(n)); });
        for (int o = 1; o < 3; ++o) {
            op("Diff " + std::to_string(o) + " " + s, [s, o](Run &r) { Node n = Parse(s), d; auto k = keep(n, "node"); r.call([&] { d = Diff(n, "x", o); }); r.put(S(d)); k.check(); });
            op("Diff of a moved " + std::to_string(o) + " " + s, [s, o](Run &r) { Node n = Parse(s), d; r.call([&] { d = Diff(Move(n), "x", o); }); r.put(S(d)); });
        }
        op("Subs name " + s, [s](Run &r) { Node n = Parse(s), m = Parse("q*2-1"), d; auto k = keep(n, "node"), k2 = keep(m, "image"); r.call([&] { d = Subs(n, "x", m); }); r.put(S(d)); k.check(); k2.check(); });
        op("Subs map " + s, [s, L](Run &r) { Node n = Parse(s), d; std::map<std::string, Node> mp; mp["x"] = Parse("y+1"); mp["y"] = Parse("x"); mp[L] = Parse("z"); auto k = keep(n, "node"); r.call([&] { d = Subs(n, mp); }); r.put(S(d)); k.check(); if (mp.size() != 3) throw Changed("the map was changed"); });
        op("Subs numbers " + s, [s, L](Run &r) { Node n = Parse(s), d; std::map<std::string, double> mp{{"x", 2}, {L, 3}}; auto k = keep(n, "node"); r.call([&] { d = Subs(n, mp); }); r.put(S(d)); k.check(); });
        op("Subs table " + s, [s, L](Run &r) { Node n = Parse(s), d; VarsTable t{{"x", 2}, {L, 3}}; auto k = keep(n, "node"); auto k2 = keep(t, "table"); r.call([&] { d = Subs(n, t); }); r.put(S(d)); k.check(); k2.check(); });
        op("Subs lists " + s, [s](Run &r) { Node n = Parse(s), d; SymVec v{Num(1), Var("w")}; auto k = keep(n, "node"); auto k2 = keep<SymMat>(v, "images"); std::vector<std::string> o{"y", "x"}; r.call([&] { d = Subs(n, o, v); }); r.put(S(d)); k.check(); k2.check(); });
    }
    for (std::string s : {"2*3-4^0.5", "1/0", "log(-1)+2", "sin(1)*cos(2)-exp(3)%7", "1-2-3-4-5"}) {
        op("Vpa " + s, [s](Run &r) { Node n = Parse(s); auto k = keep(n, "node"); double v = 0; r.call([&] { v = n->Vpa(); }); r.put(D(v)); k.check(); });
        op("Calc " + s, [s](Run &r) { Node n = Parse(s); r.call([&] { n->Calc(); }); r.put(S(n)); });
        op("Simplify " + s, [s](Run &r) { Node n = Parse(s); r.call([&] { Simplify(n); }); r.put(S(n)); });
    }
    op("Diff not differentiable", [](Run &r) { Node n = Parse("x*(x&2)+sin(x)"), d; auto k = keep(n, "node"); r.call([&] { d = Diff(n, "x"); }); r.put(S(d)); k.check(); });
    op("operators", [](Run &r) { Node a = Parse("x+1"), b = Parse("y*2"), c; auto k = keep(a, "left"), k2 = keep(b, "right"); r.call([&] { c = (a + b) * sin(a) - b / a; }); r.put(S(c)); k.check(); k2.check(); });
    for (int o = 0; o < 5; ++o) {
        op("compound with another " + std::to_string(o), [o](Run &r) { Node a = Parse("x+1"), b = Parse("y*2"); auto k2 = keep(b, "right"); r.call([&] { switch (o) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; default: a ^= b; } }); r.put(S(a)); k2.check(); a = Num(1); });
        op("compound with itself " + std::to_string(o), [o](Run &r) { Node a = Parse("x+1"); r.call([&] { switch (o) { case 0: a += a; break; case 1: a -= a; break; case 2: a *= a; break; case 3: a /= a; break; default: a ^= a; } }); r.put(S(a)); a = Num(1); });
    }
    op("copy of a node", [](Run &r) { Node a = Parse("x+sin(y)"), b; auto k = keep(a, "node"); r.call([&] { b = std::make_unique<internal::NodeImpl>(*a); }); r.put(S(b)); k.check(); });
    op("assignment of a node", [](Run &r) { Node a = Parse("x+sin(y)"), b = Parse("z*2"); auto k = keep(a, "node"); r.call([&] { *b = *a; }); r.put(S(b)); k.check(); });
    op("Var", [L](Run &r) { Node n; r.call([&] { n = Var(L); }); r.put(S(n)); });
    op("Var illegal", [L](Run &r) { Node n; r.call([&] { n = Var("1" + L); }); r.put(S(n)); });
    op("Num", [](Run &r) { Node n; r.call([&] { n = Num(2.5); }); r.put(S(n)); });
    op("ToString number", [](Run &r) { r.call([&] { r.tx = tomsolver::ToString(-1.2345678901234567e-12); }); r.put(r.tx); });
    op("GetErrorInfo", [](Run &r) { r.call([&] { r.tx = GetErrorInfo(ErrorType::ERROR_INDETERMINATE_EQUATION); }); r.put(r.tx); });
    // tables
    op("VarsTable list", [L](Run &r) { std::unique_ptr<VarsTable> t; r.call([&] { t = std::make_unique<VarsTable>(std::vector<std::string>{L, "b", "a"}, 1.5); }); if (t) r.put(S(*t)); });
    op("VarsTable pairs", [](Run &r) { std::unique_ptr<VarsTable> t; r.call([&] { t.reset(new VarsTable{{"b", 1}, {"a_long_name_of_a_variable", 2}}); }); if (t) r.put(S(*t)); });
    op("VarsTable map", [L](Run &r) { std::map<std::string, double> m{{L, 1}, {"b", 2}, {"c", 3}}; std::unique_ptr<VarsTable> t; r.call([&] { t = std::make_unique<VarsTable>(m); }); if (t) r.put(S(*t)); if (m.size() != 3) throw Changed("the map was changed"); });
    op("VarsTable copy", [L](Run &r) { VarsTable a{{L, 1}, {"b", 2}}; auto k = keep(a, "table"); std::unique_ptr<VarsTable> t; r.call([&] { t = std::make_unique<VarsTable>(a); }); if (t) r.put(S(*t)); k.check(); });
    op("VarsTable assignment", [L](Run &r) { VarsTable a{{L, 1}, {"b", 2}}, b{{"q", 4}, {"r", 5}}; auto k = keep(a, "table"); r.call([&] { b = a; }); r.put(r.threw ? "" : S(b)); k.check(); });
    op("VarsTable SetValues", [L](Run &r) { VarsTable a{{L, 1}, {"b", 2}}; Vec v{5, 6}; auto k = keep<Mat>(v, "values"); r.call([&] { a.SetValues(v); }); r.put(r.threw ? "" : S(a)); k.check(); });
    op("VarsTable lookups", [L](Run &r) { VarsTable a{{L, 1}, {"b", 2}}; auto k = keep(a, "table"); double v = 0; r.call([&] { v = a[LONG]; if (a.Has("another_name_longer_than_sixteen")) v = 99; }); r.put(D(v)); k.check(); });
    op("VarsTable missing", [L](Run &r) { VarsTable a{{L, 1}, {"b", 2}}; auto k = keep(a, "table"); double v = 0; r.call([&] { v = a["no_such_variable_in_this_table"]; }); r.put(D(v)); k.check(); });
    op("VarsTable text", [L](Run &r) { VarsTable a{{L, 1}, {"b", 2}}; auto k = keep(a, "table"); r.call([&] { r.tx = a.ToString(); }); r.put(r.tx); k.check(); });
    op("VarsTable ==", [L](Run &r) { VarsTable a{{L, 1}, {"b", 2}}, b(a); auto k = keep(a, "table"); bool q = false; r.call([&] { q = a == b; }); r.put(q ? "equal" : "different"); k.check(); });
    // matrices
    op("Mat operations", [](Run &r) { Mat a{{1, 2}, {3, 4}}, b{{0, 1}, {1, 5}}, c(1, 1); auto k = keep(a, "left"), k2 = keep(b, "right"); r.call([&] { c = (a * b + a - b) * 2.0 + b.Transpose(); }); r.put(S(c)); k.check(); k2.check(); });
    op("Mat inverse", [](Run &r) { Mat a{{1, 2, 0}, {3, 4, 1}, {0, 1, 5}}, c(1, 1); auto k = keep(a, "matrix"); r.call([&] { c = a.Inverse(); }); r.put(S(c)); k.check(); });
    op("Mat singular", [](Run &r) { Mat a{{1, 2}, {2, 4}}, c(1, 1); auto k = keep(a, "matrix"); r.call([&] { c = a.Inverse(); }); r.put(S(c)); k.check(); });
    op("Mat in place", [](Run &r) { Mat a{{1, 2}, {3, 4}}; r.call([&] { a.Resize(3, 4); a.SwapRow(0, 1); a.SwapCol(1, 2); a += a; }); r.put(S(a)); a = Mat(1, 1); });
    op("Mat assignment", [](Run &r) { Mat a{{1, 2}, {3, 4}}, b(2, 2); auto k = keep(a, "matrix"); r.call([&] { b = a; }); r.put(r.threw ? "" : S(b)); k.check(); b = Mat(1, 1); });
    op("Mat rows", [](Run &r) { const Mat a{{1, 2}, {3, 4}}; Mat b(2, 2); auto k = keep(a, "matrix"); r.call([&] { b.Row(0) = std::valarray<double>(a.Row(1)); b.Col(1) = std::valarray<double>(a.Col(0)); }); r.put(S(b)); k.check(); });
    op("Mat text", [](Run &r) { Mat a{{1, 2}, {3, 4}}; r.call([&] { r.tx = a.ToString(); }); r.put(r.tx); });
    op("Vec operations", [](Run &r) { Vec a{1, 2, 3}, b{4, 5, 6}, c(1); double q = 0; auto k = keep<Mat>(a, "left"); r.call([&] { c = a + b * 2.0 - a; q = Dot(a, b) + a.Norm2(); }); r.put(S(c) + D(q)); k.check(); });
    op("Mat from lists", [](Run &r) { Mat a(1, 1); Vec v(1); r.call([&] { a = Mat{{1, 2, 3}, {4, 5, 6}}; v = Vec{1, 2, 3, 4}; }); r.put(r.threw ? "" : S(a) + S(v)); a = Mat(1, 1); });
    op("Mat determinants", [](Run &r) { Mat a{{1, 2, 0, 1}, {3, 4, 1, 0}, {0, 1, 5, 2}, {1, 1, 0, 3}}, c(4, 4), t(3, 3); auto k = keep(a, "matrix"); double q = 0; r.call([&] { q = Det(a, 4); Adjoint(a, c); GetCofactor(a, t, 1, 2, 4); q += a.PositiveDetermine() + GetMaxAbsRowIndex(a, 1, 3, 1); }); r.put(S(c) + S(t) + D(q)); k.check(); });
    op("Mat comparisons", [](Run &r) { Mat a{{1, 2}, {3, 4}}, b(a); int q = 0; auto k = keep(a, "left"); r.call([&] { q = (a == b) + 2 * (a == 1.0) + 4 * IsZero(a) + 8 * AllIsLessThan(a, b) + 16 * (int)a.NormInfinity() + 256 * (int)a.Min(); }); r.put(std::to_string(q)); k.check(); });
    op("SymVec from a list", [](Run &r) { SymVec v(1); r.call([&] { v = SymVec{Parse("x+1"), Var("y"), Num(2)} - SymVec{Num(1), Num(2), Num(3)}; }); r.put(r.threw ? "" : S(v)); });
    op("literal", [](Run &r) { Node n; r.call([&] { n = "x+sin(y)*2"_f; }); r.put(S(n)); });
    op("output", [](Run &r) { Node n = Parse("x+sin(y)*2"); Mat m{{1, 2}}; SymMat q(1, 1); q.Value(0, 0) = Var("z"); VarsTable t{{"x", 1}}; std::string s; r.call([&] { std::ostringstream o; o.exceptions(std::ios_base::badbit); o << n << m << q << t; s = o.str(); }); r.put(s); });
    op("Mat to Vec", [](Run &r) { Mat a(3, 1, 2.0), e(2, 2); Vec c(1); r.call([&] { c = a.ToVec(); c = e.ToVec(); }); r.put(S(c)); });
    struct Lin { const char *n; Mat a; Vec b; bool allow; };
    static std::vector<Lin> lin;
    lin = {{"unique", {{2, 1, 0}, {1, 3, 1}, {0, 1, 4}}, {3, 5, 6}, false}, {"dependent", {{1, 1}, {2, 2}}, {1, 2}, false}, {"contradictory", {{1, 1}, {2, 2}}, {1, 3}, false}, {"indeterminate", {{1, 2, 3}, {0, 1, 1}}, {1, 2}, false}, {"indeterminate allowed", {{1, 2, 3}, {0, 1, 1}}, {1, 2}, true}, {"over", Mat{{1, 2}, {0, 1}, {1, 1}}, {1, 2, 3}, false}};
    for (size_t i = 0; i < lin.size(); ++i)
        op(std::string("SolveLinear ") + lin[i].n, [i](Run &r) { Mat a = lin[i].a; Vec b = lin[i].b, x(1); auto k = keep(a, "matrix"); auto k2 = keep<Mat>(b, "right side"); Config::Get().allowIndeterminateEquation = lin[i].allow; r.call([&] { x = SolveLinear(a, b); }); Config::Get().allowIndeterminateEquation = false; r.put(S(x)); k.check(); k2.check(); });
    // symbolic matrices
    auto sm = [] { SymMat a(2, 2); a.Value(0, 0) = Var("x"); a.Value(0, 1) = Parse("y*2"); a.Value(1, 0) = Num(3); a.Value(1, 1) = Parse("x-y"); return a; };
    op("SymMat operations", [sm](Run &r) { SymMat a = sm(), b = sm(), c(1, 1); auto k = keep(a, "left"), k2 = keep(b, "right"); r.call([&] { c = a * b - a; }); r.put(S(c)); k.check(); k2.check(); });
    op("SymMat mismatch", [sm](Run &r) { SymMat a = sm(), b(1, 2), c(1, 1); b.Value(0, 0) = Num(1); b.Value(0, 1) = Num(2); auto k = keep(a, "left"), k2 = keep(b, "right"); r.call([&] { c = a * b; }); r.put(S(c)); k.check(); k2.check(); });
    op("SymMat clone", [sm](Run &r) { SymMat a = sm(), c(1, 1); auto k = keep(a, "matrix"); r.call([&] { c = a.Clone(); }); r.put(S(c)); k.check(); });
    op("SymMat names", [sm](Run &r) { SymMat a = sm(); auto k = keep(a, "matrix"); std::set<std::string> v; r.call([&] { v = a.GetAllVarNames(); }); r.put(S(v)); k.check(); });
    op("SymMat to vector", [sm](Run &r) { SymMat a = sm(); auto k = keep(a, "matrix"); SymVec v(1); r.call([&] { v = a.ToSymVecOneByOne(); }); r.put(S(v)); k.check(); });
    op("SymMat to column", [sm](Run &r) { SymMat a = sm(); auto k = keep(a, "matrix"); SymVec v(1); r.call([&] { v = a.ToSymVec(); }); r.put(S(v)); k.check(); });
    op("SymMat Subs Calc ToMat", [sm](Run &r) { SymMat a = sm(); Mat m(1, 1); r.call([&] { a.Subs(VarsTable{{"x", 2}, {"y", 3}}).Calc(); m = a.ToMat(); }); r.put(S(m)); });
    op("SymMat Calc with variables", [sm](Run &r) { SymMat a = sm(); r.call([&] { a.Calc(); }); r.put(S(a)); a = SymMat(1, 1); });
    op("SymMat ==", [sm](Run &r) { SymMat a = sm(), b = sm(); bool q = false; r.call([&] { q = a == b; }); r.put(q ? "equal" : "different"); });
    op("SymMat text", [sm](Run &r) { SymMat a = sm(); auto k = keep(a, "matrix"); r.call([&] { r.tx = a.ToString(); }); r.put(r.tx); k.check(); });
    op("SymMat of numbers", [](Run &r) { Mat m{{1, 2}, {3, 4}}; SymMat c(1, 1); auto k = keep(m, "matrix"); r.call([&] { c = SymMat(m); }); r.put(S(c)); k.check(); });
    op("Jacobian", [](Run &r) { SymVec f = sys({"x^2*y", "sin(x)-y"}); auto k = keep<SymMat>(f, "equations"); SymMat j(1, 1); std::vector<std::string> v{"y", "x"}; r.call([&] { j = Jacobian(f, v); }); r.put(S(j)); k.check(); });
    // solving
    struct So { std::vector<std::string> e; std::vector<std::pair<std::string, double>> t; int it; };
    static const std::vector<So> so = {{{"x^2-4"}, {{"x", 1}}, 100}, {{"x^2+1"}, {{"x", 0.3}}, 2}, {{"x+y-3", "x-y-1"}, {{"x", 0}, {"y", 0}}, 100}, {{"x^2+y^2-5", "x*y-2"}, {{"y", 0.5}, {"x", 1.5}}, 100}, {{"1/x"}, {{"x", 0}}, 100}, {{"x-x", "y"}, {{"x", 1}, {"y", 2}}, 100}};
    for (size_t i = 0; i < so.size(); ++i)
        for (int m = 0; m < 4; ++m)
            op((m == 0 ? "Newton " : m == 1 ? "Levenberg " : m == 2 ? "Solve " : "Solve without table ") + so[i].e[0], [i, m](Run &r) {
                auto &s = so[i];
                SymVec f = sys(s.e);
                std::vector<std::string> nm; Vec v((int)s.t.size());
                for (size_t k = 0; k < s.t.size(); ++k) { nm.push_back(s.t[k].first); v[(int)k] = s.t[k].second; }
                VarsTable t(nm, 0), u(nm, 7);
                t.SetValues(v);
                auto k = keep<SymMat>(f, "equations");
                auto k2 = keep(t, "table");
                Config::Get().maxIterations = s.it;
                r.call([&] { u = m == 0 ? SolveByNewtonRaphson(f, t) : m == 1 ? SolveByLM(f, t) : m == 2 ? Solve(f, t) : Solve(f); });
                Config::Get().maxIterations = 100;
                r.put(r.threw ? "" : S(u));
                k.check(); k2.check();
                u = t;
            });
    op("Armijo", [](Run &r) { Vec x{3.0}, d{-6.0}; double a = 0; auto k = keep<Mat>(x, "point"); r.call([&] { a = Armijo(x, d, [](Vec v) { return Vec{v[0] * v[0] + 1}; }, [](Vec v) { return Mat(1, 1, 2 * v[0]); }); }); r.put(D(a)); k.check(); });
    op("FindAlpha", [](Run &r) { Vec x{3.0}, d{1.0}; double a = 0; auto k = keep<Mat>(x, "point"); r.call([&] { a = FindAlpha(x, d, [](Vec v) { return Vec{v[0] * v[0] - 12}; }); }); r.put(D(a)); k.check(); });
    op("Config", [](Run &r) { r.call([&] { Config c = Config::Get(); Config::Get().Reset(); }); });
}
std::string cfg() { auto &c = Config::Get(); std::ostringstream o; o.precision(17); o << c.epsilon << " " << c.maxIterations << " " << (int)c.logLevel << " " << (int)c.nonlinearMethod << " " << c.initialValue << " " << c.throwOnInvalidValue << " " << c.allowIndeterminateEquation; return o.str(); }

// what a child process tells
struct Shared { volatile long k; volatile int terminated; volatile long n; char msg[2000]; };
Shared *sh() { static Shared *s = nullptr; if (!s) s = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return s; }
void say(const std::string &m) { snprintf(sh()->msg, sizeof sh()->msg, "%s", m.c_str()); }
[[noreturn]] void onTerminate() {
    armed = false;
    // an orderly end only if memory ran out
    if (failed) _exit(42);
    say("std::terminate without a failed allocation");
    _exit(43);
}
// one execution; false: something is wrong (told)
bool once(const Op &o, long k, bool st, const std::string *want, std::string &out, long &n, bool &threw) {
    failAt = k; sticky = st;
    long before = live;
    std::string err;
    {
        Run r;
        try { o.body(r); } catch (const Changed &e) { err = e.what(); } catch (const std::exception &e) { err = std::string("another exception: ") + e.what(); }
        armed = false;
        out = r.out; n = count; threw = r.threw;
    }
    failAt = 0;
    if (!err.empty()) { say(err); return false; }
    std::string().swap(err);
    if (want) {
        if (threw && !failed) { say("std::bad_alloc though no allocation failed"); return false; }
        if (!threw && out != *want) { say("the failure is hidden: the result is \"" + out + "\", with memory it is \"" + *want + "\""); return false; }
        long extra = live - before;
        // the result string itself
        if (out.capacity() > 15) --extra;
        if (extra != 0) { std::ostringstream s; s << extra << " blocks are not released" << (threw ? " after std::bad_alloc" : ""); say(s.str()); return false; }
    }
    return true;
}
void childLoop(const Op &o, long from, long step, bool st) {
    std::set_terminate(onTerminate);
    signal(SIGALRM, SIG_DFL);
    alarm(60);
    std::string want, out;
    long n = 0;
    bool threw = false;
    std::string c0 = cfg();
    for (int k = 0; k < 2; ++k) { std::string w; once(o, 0, false, nullptr, w, n, threw); if (threw) { say("std::bad_alloc without a failure"); _exit(43); } want = w; }
    sh()->n = n;
    std::string c1 = cfg();
    for (long k = from; k <= n; k += step) {
        sh()->k = k;
        { std::string w; long m; if (!once(o, k, st, &want, w, m, threw)) _exit(43); }
        failed = false;
        if (cfg() != c1) { say("the configuration is " + cfg() + ", it was " + c1); _exit(43); }
        { std::string w; long m; bool t2; if (!once(o, 0, false, &want, w, m, t2)) { std::string q = sh()->msg; say("afterwards, with memory: " + q); _exit(43); } if (t2) { say("afterwards, with memory: std::bad_alloc"); _exit(43); } }
        alarm(60);
    }
    _exit(0);
}
void check(const Op &o, long res, long step, bool st) {
    long k = res + 1;
    Shared *s = sh();
    while (true) {
        s->k = 0; s->n = -1; s->msg[0] = 0;
        std::cout.flush(); std::fflush(nullptr);
        pid_t p = fork();
        if (p < 0) mc::fail("fork failed");
        if (p == 0) childLoop(o, k, step, st);
        int w = 0;
        while (waitpid(p, &w, 0) < 0 && errno == EINTR) {}
        long at = s->k;
        for (long q = k; q <= (at ? at : 0); q += step) { mc::step(); mc::state(mc::hash(o.name, q * 2 + st)); }
        if (WIFEXITED(w) && WEXITSTATUS(w) == 0) return;
        std::ostringstream where;
        where << o.name << ", allocation " << at << " of " << s->n << (st ? " and all later ones fail: " : " fails: ");
        if (WIFEXITED(w) && WEXITSTATUS(w) == 42 && at) { k = at + step; if (k > s->n) return; continue; }
        if (WIFEXITED(w) && WEXITSTATUS(w) == 43) mc::fail(where.str() + s->msg);
        if (WIFSIGNALED(w) && WTERMSIG(w) == SIGALRM) mc::fail(where.str() + "no end");
        std::ostringstream t; t << "the program crashes (" << (WIFSIGNALED(w) ? "signal " : "status ") << (WIFSIGNALED(w) ? WTERMSIG(w) : WEXITSTATUS(w)) << ")";
        mc::fail(where.str() + t.str());
    }
}
} // namespace
void mc::harness() {
    all();
    const long R = 8;
    mc::add("one", std::to_string(ops.size()) + " operations x every allocation fails once", ops.size() * R, [](uint64_t i) { check(ops[i / R], i % R, R, false); }, [](uint64_t i) { return ops[i / R].name; }, 1);
    mc::spaces.back().hang = 300;
    mc::add("all later", std::to_string(ops.size()) + " operations x every allocation and all later ones fail", ops.size() * R, [](uint64_t i) { check(ops[i / R], i % R, R, true); }, [](uint64_t i) { return ops[i / R].name; }, 1);
    mc::spaces.back().hang = 300;
}
