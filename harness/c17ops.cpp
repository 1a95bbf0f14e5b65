// Operations run by the threads. Compiled with -fsanitize=thread together with the library; the runtime is c17rt.cpp.
#include "c17ops.h"
#include "probes.h"
using namespace br;
namespace c17 {
int opCount() { return (int)pr::probes().size(); }
const char *opName(int i) { return pr::probes()[i].name.c_str(); }
void opRun(int i, std::string &out) { out = pr::probes()[i].run(); }
void warm() { Config::Get(); tomsolver::ToString(0.5); }
struct Objects {
    Node n, same, other, num;
    SymVec eq; SymMat sm; VarsTable t; Mat m, m2; Vec v; std::map<std::string, Node> dict; std::map<std::string, double> vals; SymVec imgs; std::string text;
    Objects(const char *a, const char *b) : n(Parse(a)), same(Parse(a)), other(Parse(b)), num(Parse("2^3-sqrt(2)/7")), eq{Parse("x^2+y^2-5"), Parse("x*y-2")}, sm{{Parse(a), Num(2)}, {Parse(b), Var("y")}}, t{{"x", 1.5}, {"y", 0.5}, {"z", 0.25}}, m{{2, 1, 0}, {1, 3, 1}, {0, 1, 4}}, m2{{1, 0, 2}, {0, 1, 0}, {2, 0, 1}}, v{1, 2, 3}, imgs{Parse("y+1"), Parse("x")}, text(a) { dict["x"] = Parse("y-1"); dict["y"] = Parse("x*x"); vals["x"] = 1.25; vals["y"] = 2; vals["z"] = 3; }
};
int roSets() { return 3; }
void *roObjects(int s) { return s == 0 ? new Objects("x^2*sin(y)-3/(x+z)", "a-(b-c)*x") : s == 1 ? new Objects("-x", "((x+1)*(x-1))^2^x") : new Objects("x+y*z-exp(x/2)%3&5|1", "1/0*x+log(y)"); }
struct RO { const char *name; std::string (*f)(const Objects &); };
static const RO ro[] = {
    {"ToString", [](const Objects &o) { return o.n->ToString() + o.other->ToString(); }},
    {"Clone", [](const Objects &o) { Node c = Clone(o.n); return c->ToString(); }},
    {"copy construction", [](const Objects &o) { internal::NodeImpl c(*o.n); return c.ToString(); }},
    {"Equal", [](const Objects &o) { return std::string(o.n->Equal(o.same) ? "e" : "d") + (o.n->Equal(o.other) ? "e" : "d"); }},
    {"Vpa", [](const Objects &o) { return pr::D(o.num->Vpa()) + pr::guard([&] { return pr::D(o.n->Vpa()); }); }},
    {"GetAllVarNames", [](const Objects &o) { std::string s; for (auto &v : o.n->GetAllVarNames()) s += v; return s; }},
    {"CheckParent", [](const Objects &o) { o.n->CheckParent(); return std::string(); }},
    {"Diff", [](const Objects &o) { return pr::N(Diff(o.n, "y")) ; }},
    {"Subs by an expression", [](const Objects &o) { return pr::N(Subs(o.n, "x", o.other)); }},
    {"Subs by a map", [](const Objects &o) { return pr::N(Subs(o.n, o.dict)); }},
    {"Subs by numbers", [](const Objects &o) { return pr::guard([&] { return pr::D(Subs(o.n, o.vals)->Vpa()); }); }},
    {"Subs by a table", [](const Objects &o) { return pr::N(Subs(o.n, o.t)); }},
    {"Subs by lists", [](const Objects &o) { return pr::N(Subs(o.n, std::vector<std::string>{"x", "y"}, o.imgs)); }},
    {"operators", [](const Objects &o) { Node a = o.n + o.other; a *= o.n; a = -o.n / sin(o.num); return pr::N(a); }},
    {"operator<<", [](const Objects &o) { std::ostringstream s; using internal::operator<<; s << o.n; s << o.t << o.m << o.sm; return s.str(); }},
    {"Solve", [](const Objects &o) { return pr::guard([&] { return pr::T(Solve(o.eq, VarsTable{{"x", 1.5}, {"y", 0.5}})); }); }},
    {"SolveByLM", [](const Objects &o) { return pr::guard([&] { return pr::T(SolveByLM(o.eq, VarsTable{{"x", 1.5}, {"y", 0.5}})); }); }},
    {"Jacobian", [](const Objects &o) { return Jacobian(o.eq, {"x", "y"}).ToString(); }},
    {"SymMat operations", [](const Objects &o) { return pr::guard([&] { return o.sm.ToString() + (o.sm * o.sm).ToString() + (o.sm - o.sm).ToString() + (o.sm == o.sm.Clone() ? "e" : "d") + std::to_string(o.sm.GetAllVarNames().size()); }); }},
    {"SymMat conversions", [](const Objects &o) { return pr::guard([&] { return o.sm.Value(0, 0)->ToString() + o.eq[1]->ToString() + o.sm.ToSymVecOneByOne().ToString() + pr::M(o.sm.ToMat()); }); }},
    {"VarsTable", [](const Objects &o) { return pr::T(o.t) + o.t.ToString() + pr::D(o.t["x"]) + (o.t.Has("q") ? "1" : "0") + pr::guard([&] { return pr::D(o.t["q"]); }) + (o.t == o.t ? "e" : "d") + pr::T(VarsTable(o.t)); }},
    {"Mat operations", [](const Objects &o) { return pr::M(o.m * o.m2) + pr::M(o.m + o.m2) + pr::M(o.m - o.m2) + pr::M(o.m * 2) + pr::M(o.m.Transpose()) + (o.m == o.m2 ? "e" : "d") + o.m.ToString(); }},
    {"Inverse and Det", [](const Objects &o) { return pr::M(o.m.Inverse()) + pr::D(Det(o.m, 3)) + pr::D(o.m.Norm2()) + pr::D(o.m.NormInfinity()) + pr::D(o.m.Min()) + (o.m.PositiveDetermine() ? "p" : "n"); }},
    {"SolveLinear", [](const Objects &o) { return pr::guard([&] { return pr::M(SolveLinear(o.m, o.v)); }); }},
    {"Vec", [](const Objects &o) { return pr::M(o.v + o.v) + pr::M(o.v * o.v) + pr::D(Dot(o.v, o.v)) + pr::D(o.v[1]); }},
    {"Parse of a shared text", [](const Objects &o) { return pr::N(Parse(o.text)); }},
    {"Config reads", [](const Objects &) { auto &c = Config::Get(); return pr::D(c.epsilon) + pr::D(c.maxIterations); }},
    {"Simplify a copy", [](const Objects &o) { Node c = Clone(o.other); Simplify(c); return pr::N(c); }},
};
int roCount() { return (int)(sizeof ro / sizeof *ro); }
const char *roName(int i) { return ro[i].name; }
void roRun(int i, void *o, std::string &out) { out = pr::guard([&] { return ro[i].f(*(const Objects *)o); }); }
}
