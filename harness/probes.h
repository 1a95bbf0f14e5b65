// Probes: small complete uses of the library whose outcome is written down as text.
#pragma once
#include "lib.h"
#include <iostream>
namespace pr {
using namespace br;
inline std::string D(double v) { // written with a point in every locale
    if (std::isnan(v)) return "nan";
    char b[40]; snprintf(b, sizeof b, "%.17g", v);
    std::string s; bool other = false;
    for (char *p = b; *p; ++p) { bool known = strchr("0123456789+-einf", *p); if (known) s += *p; else if (!other) s += '.'; other = !known; }
    return s;
}
inline std::string M(const Mat &m) { std::string s = std::to_string(m.Rows()) + "x" + std::to_string(m.Cols()); for (int i = 0; i < m.Rows(); ++i) for (int j = 0; j < m.Cols(); ++j) s += " " + D(m.Value(i, j)); return s; }
inline std::string T(const VarsTable &t) { std::string s; for (auto &p : t) s += p.first + "=" + D(p.second) + " "; for (auto &v : t.Vars()) s += v + ","; s += M(t.Values()); return s; }
inline std::string N(const Node &n) { std::string s = n->ToString() + " {"; for (auto &v : n->GetAllVarNames()) s += v + ","; return s + "}"; }
template <class F> std::string guard(F f) {
    try { return f(); }
    catch (const SingleParseError &e) { return std::string("SingleParseError line ") + std::to_string(e.GetLine()) + " pos " + std::to_string(e.GetPos()) + " " + e.what(); }
    catch (const ParseError &e) { return std::string("ParseError ") + e.what(); }
    catch (const MathError &e) { return std::string("MathError ") + std::to_string((int)e.GetErrorType()) + " " + e.what(); }
    catch (const std::out_of_range &e) { return std::string("out_of_range ") + e.what(); }
    catch (const std::runtime_error &e) { return std::string("runtime_error ") + e.what(); }
    catch (const std::exception &e) { return std::string("exception ") + e.what(); }
}
struct Probe { std::string name; std::function<std::string()> run; };
inline const std::vector<Probe> &probes() {
    static const std::vector<Probe> all = [] {
        std::vector<Probe> p;
        auto add = [&](const std::string &n, std::function<std::string()> f) { p.push_back({n, [f] { return guard(f); }}); };
        for (std::string s : {"x+1", "x+2", "x + 1", "-x^2*sin(y)-3/(z-1)", "a-(b-c)", "2%3&5", "sin", "x+", "(x", "x)", "1..2", "x#y", "", "+", "3a", "1e+5*y", "((((x))))", "a+b*(c-d", "a+b c*d", "arcsin(x)+log2(y)"})
            add("Parse " + s, [s] { Node n = Parse(s); return N(n); });
        for (std::string s : {"1/0", "log(0-1)", "2^10", "5%0", "sqrt(2)*3", "x", "7&3|8", "exp(1000)", "0.1+0.2"})
            add("Vpa " + s, [s] { Node n = Parse(s); return D(n->Vpa()); });
        for (std::string s : {"1/0+1", "2+3*4", "x+1", "0^0"})
            add("Calc " + s, [s] { Node n = Parse(s); std::string r = guard([&] { n->Calc(); return std::string("ok"); }); return r + " " + N(n); });
        for (auto q : std::vector<std::pair<std::string, std::string>>{{"x^2*y", "x"}, {"x^2*y", "y"}, {"x^2*y", "z"}, {"sin(x)/x", "x"}, {"x^y", "y"}, {"x&y", "x"}, {"sin(x)*cos(x)*(x&2)", "x"}, {"exp(x)", "y"}, {"5", "x"}})
            add("Diff " + q.first + " by " + q.second, [q] { Node n = Parse(q.first); Node d = Diff(n, q.second); return N(d) + " of " + N(n); });
        add("Diff 2 x^4", [] { return N(Diff(Parse("x^4"), "x", 2)); });
        for (std::string s : {"x*1+0", "0*x+2*3", "x-x", "1/0*x", "x^1^0", "(2+3)*(y+0)", "2/3", "-(-x)"})
            add("Simplify " + s, [s] { Node n = Parse(s); Simplify(n); return N(n); });
        add("Subs x->y+1", [] { return N(Subs(Parse("x*y-x"), "x", Parse("y+1"))); });
        add("Subs swap", [] { std::map<std::string, Node> m; m["x"] = Var("y"); m["y"] = Var("x"); return N(Subs(Parse("x-2*y"), m)); });
        add("Subs numbers", [] { return N(Subs(Parse("x-2*y"), std::map<std::string, double>{{"x", 5}, {"y", -1.5}})); });
        add("Subs table", [] { return N(Subs(Parse("x-2*y"), VarsTable{{"x", 7}, {"q", 1}})); });
        add("Subs lists", [] { return N(Subs(Parse("x-2*y"), std::vector<std::string>{"y", "x"}, SymVec{Num(4), Var("z")})); });
        for (double v : {1.0, -0.5, 1.0 / 3, 1e16, 1e-16, 1e-17, 123456.789, 1e300, -2e-300, 100.0, 0.0, 5e-324})
            add("ToString " + D(v), [v] { return tomsolver::ToString(v) + " " + Num(v)->ToString(); });
        add("operators", [] { Node x = Var("x"), n = x + Num(1); n *= x; n -= n; n ^= Num(2); return N(n) + " " + N(-x / sin(n)) + (n->Equal(Clone(n)) ? " eq" : " ne"); });
        add("Var illegal", [] { return N(Var("1x")); });
        add("Var", [] { return N(Var("abc_1")); });
        struct L { std::vector<std::vector<double>> a; std::vector<double> b; const char *n; };
        for (auto &l : std::vector<L>{{{{2, 1}, {1, 3}}, {3, 5}, "2x2"}, {{{2, 1}, {1, 3}}, {1, 0}, "2x2, other b"}, {{{1, 1}, {1, 1}}, {1, 1}, "dependent"}, {{{1, 1}, {1, 1}}, {1, 2}, "contradictory"}, {{{1, 2, 3}, {4, 5, 6}}, {1, 2}, "wide"}, {{{1}, {2}}, {1, 2}, "tall"}, {{{0, 0, 1}, {0, 2, 0}, {3, 0, 0}}, {1, 2, 3}, "3x3"}, {{{1e-5, 0}, {0, 1}}, {1, 2}, "small pivot"}})
            add(std::string("SolveLinear ") + l.n, [l] { Mat a((int)l.a.size(), (int)l.a[0].size()); Vec b((int)l.b.size()); for (int i = 0; i < a.Rows(); ++i) { b[i] = l.b[i]; for (int j = 0; j < a.Cols(); ++j) a.Value(i, j) = l.a[i][j]; } return M(SolveLinear(a, b)); });
        struct S { std::vector<std::string> e; std::vector<std::pair<std::string, double>> t; };
        for (auto &s : std::vector<S>{{{"x^2-4"}, {{"x", 1}}}, {{"x^2-4"}, {{"x", -1}}}, {{"x^2-4"}, {}}, {{"x^2-9"}, {}}, {{"x^2+1"}, {{"x", 0.3}}}, {{"x^2+y^2-5", "x*y-2"}, {{"x", 1.5}, {"y", 0.5}}}, {{"x^2+y^2-5", "x*y-2"}, {{"y", 1.5}, {"x", 0.5}}}, {{"x+y-3", "x-y-1"}, {}}, {{"x+y-3"}, {{"x", 0}, {"y", 0}}}, {{"log(x)"}, {{"x", -1}}}, {{"x-1", "x-2"}, {{"x", 0}}}, {{"x-1", "2*x-2"}, {{"x", 0}}}, {{"x-a"}, {{"x", 0}}}, {{"x^3-1e-4"}, {{"x", 1}}}}) {
            std::string nm = "Solve";
            for (auto &e : s.e) nm += " " + e;
            for (auto &e : s.t) nm += " " + e.first + "=" + D(e.second);
            add(nm, [s] { SymVec f((int)s.e.size()); for (size_t i = 0; i < s.e.size(); ++i) f[i] = Parse(s.e[i]); if (s.t.empty()) return T(Solve(f)); std::vector<std::string> n; Vec v((int)s.t.size()); for (size_t i = 0; i < s.t.size(); ++i) { n.push_back(s.t[i].first); v[i] = s.t[i].second; } VarsTable t(n, 0); t.SetValues(v); return T(Solve(f, t)); });
        }
        add("SolveByLM", [] { return T(SolveByLM(SymVec{Parse("x^2-2"), Parse("y-x")}, VarsTable{{"x", 1}, {"y", 1}})); });
        add("SolveByNewtonRaphson", [] { return T(SolveByNewtonRaphson(SymVec{Parse("x^2-2"), Parse("y-x")}, VarsTable{{"x", -1}, {"y", 1}})); });
        add("Jacobian", [] { return Jacobian(SymVec{Parse("x^2*y"), Parse("x-y")}, {"y", "x", "q"}).ToString(); });
        add("SymMat", [] { SymMat a{{Var("x"), Num(2)}, {Parse("x*y"), Var("y")}}; SymMat b = a * a - a.Clone(); std::string s = b.ToString() + a.ToString(); b.Subs(VarsTable{{"x", 2}, {"y", 3}}); b.Calc(); return s + M(b.ToMat()); });
        add("SymMat mismatch", [] { SymMat a{{Var("x"), Num(2), Num(3)}, {Num(1), Num(1), Var("y")}}; return (a * a.Clone()).ToString(); });
        add("SymMat to numbers", [] { SymMat a{{Var("x"), Num(2)}}; return M(a.ToMat()); });
        add("Mat", [] { Mat a{{1, 2}, {3, 4}}, b{{0, 1}, {1, 0}}; return M(a * b) + M(a + b) + M(a - b) + M(-a) + M(2 * a) + M(a.Transpose()) + M(a.Inverse()) + D(Det(a, 2)) + D(a.Norm2()) + D(a.NormInfinity()) + a.ToString() + (a == b ? "eq" : "ne"); });
        add("Mat 3x3", [] { Mat a{{1, 2, 3}, {0, 1, 4}, {5, 6, 0}}; Mat j(3, 3); Adjoint(a, j); return M(j) + M(a.Inverse()) + D(Det(a, 3)); });
        add("Mat singular", [] { return M(Mat{{1, 2}, {2, 4}}.Inverse()); });
        add("Mat almost singular", [] { return M(Mat{{1, 0}, {0, 1e-5}}.Inverse()); });
        add("Mat almost equal", [] { Mat a{{1, 2}}, b{{1, 2.0001}}; return std::string(a == b ? "eq" : "ne") + (IsZero(Mat{{1e-4}}) ? "0" : "1"); });
        add("Mat swap and resize", [] { Mat a{{1, 2}, {3, 4}, {5, 6}}; a.SwapRow(0, 2); a.SwapCol(0, 1); a.Resize(2, 4); a.Row(1) = std::valarray<double>{9, 8, 7, 6}; return M(a) + D(a.Min()); });
        add("Vec", [] { Vec a{1, -2, 3}, b{4, 5, 6}; return M(a + b) + M(a * b) + M(a / b) + D(Dot(a, b)) + (a < b ? "lt" : "ge"); });
        add("VarsTable", [] { VarsTable t({"b", "a"}, 1.5), u(t); u.SetValues(Vec{7, 8}); std::string s = T(t) + T(u) + t.ToString() + (t == u ? "eq" : "ne") + (t.Has("a") ? "1" : "0"); return s + guard([&] { return D(t["zz"]); }); });
        add("VarsTable close", [] { return std::string(VarsTable{{"x", 1}} == VarsTable{{"x", 1.0001}} ? "eq" : "ne"); });
        add("long expression", [] { std::string s = "x"; for (int i = 0; i < 60; ++i) s += (i % 3 ? "+" : "*") + std::to_string(i); Node n = Parse(s); Node d = Diff(n, "x"); return N(n) + N(d) + D(Subs(n, "x", Num(2))->Vpa()); });
        return p;
    }();
    return all;
}
} // namespace pr
