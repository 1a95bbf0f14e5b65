// Kinds of calls with many telling arguments each; the outcome of every call is written down as text.
#pragma once
#include "probes.h"
namespace pr {
struct Kind { std::string name; std::vector<Probe> calls; };
inline const std::vector<std::string> &exprs() {
    static const std::vector<std::string> v = {"x", "y", "x1", "xx", "x_1", "X", "2", "3", "2.0000000001", "0.00000000000000001", "0", "1", "0-1", "-x", "+x", "--x", "x+y", "y+x", "x-y", "y-x", "x*y", "x/y", "y/x",
        "x^y", "y^x", "x^2", "x^3", "x^(0-2)", "2^x", "3^x", "(x+1)*2", "x+1*2", "x-y-z", "x-(y-z)", "x/y/z", "x/(y/z)", "x^y^z", "(x^y)^z", "sin(x)", "sin(y)", "cos(x)", "sin(x)*cos(x)", "cos(x)*sin(x)", "sin(cos(x))",
        "x%y", "x&y", "x|y", "3&1", "3|1", "7%4", "1/0", "x/0", "0/x", "x*0", "x*1", "x^0", "0^0", "log(0-1)", "log(x)", "exp(x)", "sqrt(x)", "1e300*1e300", "x+x", "x-x", "x*x", "x/x", "2*3+x", "2*(3+x)", "a+b+c+d", "d+c+b+a"};
    return v;
}
inline std::string whole(const Node &n) { std::string s = N(n); s += " "; s += guard([&] { return D(n->Vpa()); }); return s; }
inline const std::vector<Kind> &kinds() {
    static const std::vector<Kind> all = [] {
        std::vector<Kind> ks;
        auto kind = [&](const std::string &n) -> Kind & { ks.push_back({n, {}}); return ks.back(); };
        auto add = [](Kind &k, const std::string &n, std::function<std::string()> f) { k.calls.push_back({n, [f] { return guard(f); }}); };
        auto E = exprs();
        {
            Kind &k = kind("Parse");
            for (auto s : E) add(k, s, [s] { return whole(Parse(s)); });
            for (std::string s : {"x + y", " x+y", "(x+y)", "x+ y", "x+", "x+y)", "(x+y", "sin x", "sinx", "sin(x", "sin()", "x y", "1.5", "1.50", "1e5", "1e-5", "1e", "1x", "x#", "\tx", "x\n", "x+\ny", "x+\n\ny+", "a+b*(c-d", "a+b c*d", "x y z*(2", "((a+b)*c d)", "sin(cos(x) 2", "a^b^c^", "a*(b+c))+d", "a+2*1z", "-(-(-"}) add(k, s, [s] { return whole(Parse(s)); });
        }
        { Kind &k = kind("Print and names"); for (auto s : E) add(k, s, [s] { Node n = Parse(s); std::ostringstream o; o << n; return N(n) + o.str() + N(Clone(n)); }); }
        { Kind &k = kind("Vpa"); for (std::string s : {"1+2*(3/0)+4", "(x+2)*(y-1/0)", "1+(2+(3+z))", "z-(x-(y-1))", "sin(x)+cos(y)*(5%0)"}) add(k, s, [s] { return D(Subs(Parse(s), std::map<std::string, double>{{"x", 3}, {"y", 2}})->Vpa()); }); for (auto s : E) add(k, s, [s] { return D(Subs(Parse(s), std::map<std::string, double>{{"x", 3}, {"y", 2}})->Vpa()); }); for (double v : {1.0, 2.0, 3.0, 0.0, -1.0}) add(k, "sqrt(x)/(x-1) at " + D(v), [v] { return D(Subs(Parse("sqrt(x)/(x-1)"), "x", Num(v))->Vpa()); }); }
        { Kind &k = kind("Calc"); for (auto s : E) add(k, s, [s] { Node n = Parse(s); std::string r = guard([&] { n->Calc(); return std::string("ok"); }); return r + N(n); }); }
        {
            Kind &k = kind("Diff");
            for (auto s : {"x^3*y^2", "x^2*y^3", "sin(x)*y", "sin(y)*x", "x^y", "y^x", "x1*x", "x/y", "y/x", "exp(x*y)", "x%y", "5", "z"})
                for (auto v : {"x", "y", "x1"})
                    for (int o : {1, 2, 3}) { std::string t = s, w = v; add(k, t + " by " + w + " " + std::to_string(o), [t, w, o] { Node n = Parse(t); Node d = o == 1 ? Diff(n, w) : Diff(n, w, o); return N(d) + N(n); }); }
        }
        for (std::string t : {"sin(x)*cos(x)*(x&2)", "(x|1)*sin(x)*exp(y)", "exp(x*y)+(x+y*(x-2)^(x%3))", "x*y*sin(x)+(3|x)", "(x^2-y)/(x&y)+sin(cos(x))*y"}) for (int o : {1, 2}) add(ks.back(), t + " by x " + std::to_string(o), [t, o] { Node n = Parse(t); std::string r = guard([&] { return N(Diff(n, "x", o)); }); return r + N(n); });
        { Kind &k = kind("Simplify"); for (auto s : E) add(k, s, [s] { Node n = Parse(s); Simplify(n); return N(n); }); }
        {
            Kind &k = kind("Subs");
            for (auto s : {"x-y", "x*y", "x^2-y/z", "sin(x)", "z"})
                for (auto q : std::vector<std::pair<std::string, std::string>>{{"x", "y"}, {"y", "x"}, {"x", "2"}, {"x", "3"}, {"x", "y+1"}, {"x", "x+1"}, {"z", "x"}, {"y", "2"}, {"x1", "y"}}) {
                    std::string t = s; add(k, t + " " + q.first + "->" + q.second, [t, q] { return N(Subs(Parse(t), q.first, Parse(q.second))); });
                    add(k, "map " + t + " " + q.first + "->" + q.second + ", y->w", [t, q] { std::map<std::string, Node> m; m["y"] = Var("w"); m[q.first] = Parse(q.second); return N(Subs(Parse(t), m)); });
                }
        }
        {
            Kind &k = kind("Equal");
            std::vector<std::string> e = {"x", "y", "x+y", "y+x", "x-y", "2", "2.0000000001", "sin(x)", "cos(x)", "x+1", "x+2"};
            for (auto &a : e) for (auto &b : e) add(k, a + " = " + b, [a, b] { return std::string(Parse(a)->Equal(Parse(b)) ? "eq" : "ne"); });
        }
        { Kind &k = kind("ToString(double)"); for (double v : {0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 0.1, 0.2, 0.3, 0.1 + 0.2, 1.0 / 3, 2.0 / 3, 1 + 1e-15, 1 + 1e-16, 1 + 1e-10, 1e-10, 1e-15, 1e-16, 1e-17, 1.5e-16, 100.0, 1e5, 123456.789, 123456.7891, 999999.5, 1e15, 1e16, 1e17, 1e22, 1e23, 12345678901234567.0, 1e100, 1e-100, 1e300, -1e300, 5e-324, 3.0000001, 4294967297.0, 4294967296.0, 1.7976931348623157e308}) add(k, D(v), [v] { return tomsolver::ToString(v) + " " + Num(v)->ToString(); }); }
        { Kind &k = kind("VarNameIsLegal"); for (std::string s : {"x", "x1", "1x", "", "_", "_1", "a b", "sin", "x-", "x+y", "SIN", "e", "pi", "x.", "xsin", "sinx", "log", "log2", "log3", "inf", "nan"}) add(k, s, [s] { return std::string(VarNameIsLegal(s) ? "legal" : "illegal") + guard([&] { return N(Var(s)); }); }); }
        struct L { std::vector<std::vector<double>> a; std::vector<double> b; };
        std::vector<L> ls = {{{{2, 1}, {1, 3}}, {3, 5}}, {{{2, 1}, {1, 3}}, {5, 3}}, {{{1, 3}, {2, 1}}, {3, 5}}, {{{2, 1}, {3, 1}}, {3, 5}}, {{{2, 0}, {0, 3}}, {3, 5}}, {{{0, 2}, {3, 0}}, {3, 5}}, {{{1, 1}, {1, 1}}, {1, 1}}, {{{1, 1}, {1, 1}}, {1, 2}}, {{{1, 1}, {1, 1.5}}, {1, 2}}, {{{1, 2}}, {3}}, {{{1}, {2}}, {3, 6}}, {{{1}, {2}}, {3, 7}}, {{{5}}, {3}}, {{{0}}, {3}}, {{{0}}, {0}}, {{{1, 0, 0}, {0, 2, 0}, {0, 0, 4}}, {1, 2, 3}}, {{{0, 0, 1}, {0, 2, 0}, {4, 0, 0}}, {1, 2, 3}}, {{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}, {1, 2, 3}}, {{{1, 2, 3}, {4, 5, 6}, {7, 8, 10}}, {1, 2, 3}}, {{{1e-5, 0}, {0, 1}}, {1, 2}}, {{{1e-5, 0}, {0, 1e-5}}, {1, 2}}, {{{-2, -1}, {-1, -3}}, {3, 5}}};
        auto mat = [](const L &l) { Mat a((int)l.a.size(), (int)l.a[0].size()); for (int i = 0; i < a.Rows(); ++i) for (int j = 0; j < a.Cols(); ++j) a.Value(i, j) = l.a[i][j]; return a; };
        auto vec = [](const L &l) { Vec b((int)l.b.size()); for (int i = 0; i < b.Rows(); ++i) b[i] = l.b[i]; return b; };
        { Kind &k = kind("SolveLinear"); for (auto l : ls) add(k, M(mat(l)) + " = " + M(vec(l)), [=] { return M(SolveLinear(mat(l), vec(l))); }); }
        { Kind &k = kind("Inverse"); for (auto l : ls) if (l.a.size() == l.a[0].size()) add(k, M(mat(l)), [=] { return M(mat(l).Inverse()); }); }
        { Kind &k = kind("Det and adjoint"); for (auto l : ls) if (l.a.size() == l.a[0].size()) add(k, M(mat(l)), [=] { Mat a = mat(l), j = a; int n = a.Rows(); std::string s = D(Det(a, n)); if (n > 1) { Adjoint(a, j); s += M(j); } return s; }); }
        { Kind &k = kind("matrix arithmetic"); for (auto l : ls) for (auto q : ls) if (l.a.size() == q.a.size() && l.a[0].size() == q.a[0].size()) add(k, M(mat(l)) + " and " + M(mat(q)), [=] { Mat a = mat(l), b = mat(q); std::string s = M(a + b) + M(a - b) + M(a * b.Transpose()) + M(2 * a) + (a == b ? "eq" : "ne") + D(a.Norm2()) + D(b.NormInfinity()) + a.ToString(); return s; }); }
        {
            Kind &k = kind("Solve");
            std::vector<std::vector<std::string>> es = {{"x^2-4"}, {"x^2-9"}, {"4-x^2"}, {"x^2+1"}, {"x-y"}, {"x^2+y^2-5", "x*y-2"}, {"x*y-2", "x^2+y^2-5"}, {"y^2+x^2-5", "y-x-1"}, {"x+y-3", "x-y-1"}, {"x+y-3", "x-y-2"}, {"sin(x)"}, {"log(x)"}, {"exp(x)-2"}, {"x"}, {"5"}};
            std::vector<std::vector<std::pair<std::string, double>>> ts = {{}, {{"x", 1}}, {{"x", -1}}, {{"x", 3}}, {{"x", 1}, {"y", 2}}, {{"y", 1}, {"x", 2}}, {{"x", 2}, {"y", 1}}};
            for (auto &e : es) for (auto &t : ts) for (int how = 0; how < 3; ++how) {
                if (how && (t.size() != 1 || t[0].second == 3) && !(t.size() == 2 && t[0].first == "y")) continue;
                if (t.empty() && e[0] == "5") continue; // a table has at least one variable
                std::string nm; for (auto &q : e) nm += q + "; "; for (auto &q : t) nm += q.first + "=" + D(q.second) + " ";
                nm += how == 1 ? "Newton" : how == 2 ? "LM" : "Solve";
                add(k, nm, [=] {
                    SymVec f((int)e.size());
                    for (size_t i = 0; i < e.size(); ++i) f[i] = Parse(e[i]);
                    if (t.empty()) return T(Solve(f));
                    std::vector<std::string> n; Vec v((int)t.size());
                    for (size_t i = 0; i < t.size(); ++i) { n.push_back(t[i].first); v[i] = t[i].second; }
                    VarsTable tab(n, 0); tab.SetValues(v);
                    return T(how == 1 ? SolveByNewtonRaphson(f, tab) : how == 2 ? SolveByLM(f, tab) : Solve(f, tab));
                });
            }
        }
        {
            Kind &k = kind("Jacobian and symbolic matrices");
            for (auto a : {"x^2*y", "x-y", "y-x", "sin(x)", "5"}) for (auto b : {"x*y", "y", "x"}) for (int o = 0; o < 3; ++o) {
                std::string p = a, q = b;
                add(k, p + ", " + q + " " + std::to_string(o), [=] {
                    SymVec f{Parse(p), Parse(q)};
                    std::vector<std::string> v = o == 0 ? std::vector<std::string>{"x", "y"} : o == 1 ? std::vector<std::string>{"y", "x"} : std::vector<std::string>{"y"};
                    SymMat j = Jacobian(f, v), s{{Parse(p), Num(1)}, {Num(2), Parse(q)}};
                    std::string r = j.ToString() + (s * s).ToString() + (j - j.Clone()).ToString() + (j == s ? "eq" : "ne");
                    for (auto &w : j.GetAllVarNames()) r += w + ",";
                    j.Subs(VarsTable{{"x", 2}, {"y", 3}});
                    return r + j.ToString() + M(j.ToMat());
                });
            }
        }
        {
            Kind &k = kind("VarsTable");
            for (auto n : std::vector<std::vector<std::string>>{{"x"}, {"y"}, {"x", "y"}, {"y", "x"}, {"x1", "x"}, {"a", "b", "c"}, {"c", "b", "a"}}) for (double v : {0.0, 1.0, 1.0001}) {
                std::string nm; for (auto &q : n) nm += q + " ";
                add(k, nm + D(v), [=] { VarsTable t(n, v); std::string s = T(t) + t.ToString() + (t == VarsTable{{"x", 1}} ? "eq" : "ne") + (t.Has("x") ? "1" : "0"); Vec w((int)n.size()); for (int i = 0; i < w.Rows(); ++i) w[i] = v + i; t.SetValues(w); return s + T(t) + guard([&] { return D(t["x"]); }); });
            }
        }
        return ks;
    }();
    return all;
}
} // namespace pr
