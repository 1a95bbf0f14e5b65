// A second translation unit that includes the single header.
#include "c19.h"
#include <tomsolver/tomsolver.h>
using namespace tomsolver;
std::string c19_second_tu(int op, const std::string &arg) {
    auto &c = Config::Get();
    switch (op) {
    case 0: return Parse(arg)->ToString();
    case 1: c.throwOnInvalidValue = arg == "1"; return "";
    case 2: return std::to_string(Parse(arg)->Vpa());
    case 3: c.Reset(); return "";
    case 4: return std::to_string(c.maxIterations) + " " + std::to_string(c.throwOnInvalidValue) + " " + std::to_string((size_t)&c);
    case 5: { Node n = Parse(arg); Node d = Diff(n, "x"); Simplify(d); return d->ToString() + ToString(0.5) + Mat{{1, 2}, {3, 4}}.Inverse().ToString() + Solve(SymVec{Parse("x-3")}).ToString(); }
    case 6: c.maxIterations = atoi(arg.c_str()); return "";
    default: return "";
    }
}
