// Deep expressions of every periodic shape, long texts, and every operation on them under a measurement (C18, C23).
#pragma once
#include "lib.h"
using namespace br;
namespace {
size_t measured(std::function<void()> f); // runs f; what it used
struct Level { ref::Op op; bool left; }; // left: the deep child is the left operand
std::string lname(const Level &l) { return std::string(ref::opName(l.op)) + (ref::isBin(l.op) ? (l.left ? "l" : "r") : ""); }
const std::vector<Level> &alphabet(bool full) {
    static std::vector<Level> a, b;
    if (a.empty()) {
        for (auto o : {ref::NEG, ref::SIN}) a.push_back({o, true});
        for (auto o : {ref::ADD, ref::SUB, ref::MUL, ref::DIV, ref::POW}) { a.push_back({o, true}); a.push_back({o, false}); }
        a.push_back({ref::MOD, true});
        b.push_back({ref::POS, true}); b.push_back({ref::NEG, true});
        for (auto f : ref::ALLFUN) b.push_back({f, true});
        for (auto o : {ref::ADD, ref::SUB, ref::MUL, ref::DIV, ref::POW, ref::AND, ref::OR, ref::MOD}) { b.push_back({o, true}); b.push_back({o, false}); }
    }
    return full ? b : a;
}
struct Shape { std::vector<Level> period; int leaves; };
std::string sname(const Shape &s) { std::string r; for (auto &l : s.period) r += lname(l) + " "; return r + (s.leaves == 0 ? "over x, 1.5, y" : s.leaves == 1 ? "mostly over 1" : s.leaves == 2 ? "over 0, 1, x" : s.leaves == 4 ? "over x, y, negative numbers" : "over distinct names"); }
// leaf at level k
std::pair<bool, std::pair<double, std::string>> leaf(int kind, int k) {
    auto num = [](double v) { return std::make_pair(false, std::make_pair(v, std::string())); };
    auto var = [](const std::string &s) { return std::make_pair(true, std::make_pair(0.0, s)); };
    switch (kind) {
    case 0: return k % 3 == 0 ? var("x") : k % 3 == 1 ? num(1.5) : var("y");
    case 1: return k % 50 == 0 ? var("x") : k % 2 ? num(1) : var("o");
    case 2: return k % 3 == 0 ? num(0) : k % 3 == 1 ? num(1) : var("x");
    case 4: return k % 5 == 0 ? var("x") : k % 5 == 1 ? num(-1.5) : k % 5 == 2 ? num(-2) : k % 5 == 3 ? var("y") : num(-0.5);
    default: return var("v" + std::to_string(k));
    }
}
const Env &env() { static const Env e = {{"x", 1.25}, {"y", 0.75}, {"o", 1}}; return e; }
struct Chain {
    Arena A; // children before parents: evaluated without recursion
    int root;
    Node n;
    std::string text;
    Chain(const Shape &s, int depth) {
        std::vector<std::string> pre, suf;
        auto mk = [&](int k, Node &nd, std::string &tx) { auto l = leaf(s.leaves, k); if (l.first) { nd = Var(l.second.second); tx = l.second.second; return A.var(l.second.second); } nd = Num(l.second.first); tx = l.second.first < 0 ? "(" + Arena::numText(l.second.first) + ")" : Arena::numText(l.second.first); return A.num(l.second.first); };
        std::string core;
        root = mk(0, n, core);
        for (int k = 1; k <= depth; ++k) {
            const Level &l = s.period[k % s.period.size()];
            std::string o = ref::opName(l.op);
            if (!ref::isBin(l.op)) {
                root = A.un(l.op, root);
                n = unNode(l.op, Move(n));
                pre.push_back(ref::isFun(l.op) ? o + "(" : "(" + o); suf.push_back(")");
                continue;
            }
            Node m; std::string t;
            int q = mk(k, m, t);
            root = l.left ? A.bin(l.op, root, q) : A.bin(l.op, q, root);
            if (l.op == ref::AND || l.op == ref::OR || l.op == ref::MOD) n = internal::Operator(l.op == ref::AND ? MathOperator::MATH_AND : l.op == ref::OR ? MathOperator::MATH_OR : MathOperator::MATH_MOD, l.left ? Move(n) : Move(m), l.left ? Move(m) : Move(n));
            else { if (!l.left) std::swap(n, m); n = binNode(l.op, Move(n), Move(m)); }
            if (l.left) { pre.push_back("("); suf.push_back(o + t + ")"); } else { pre.push_back("(" + t + o); suf.push_back(")"); }
        }
        for (size_t k = pre.size(); k-- > 0;) text += pre[k];
        text += core;
        for (auto &q : suf) text += q;
    }
    ref::Val eval(const Env &e) const {
        std::vector<ref::Val> v(A.n.size());
        for (size_t i = 0; i < A.n.size(); ++i) {
            auto &q = A.n[i];
            if (q.op == ref::NUM) v[i].v = q.v;
            else if (q.op == ref::VAR) { auto it = e.find(q.name); v[i].v = it == e.end() ? 1 : it->second; }
            else v[i] = ref::applyOp(q.op, v[q.l], q.r >= 0 ? v[q.r] : ref::Val());
        }
        return v[root];
    }
    std::set<std::string> names() const { std::set<std::string> r; for (auto &q : A.n) if (q.op == ref::VAR) r.insert(q.name); return r; }
};
enum Op { BUILD, CLONE, COPY, EQUAL, UNEQUAL, STRING, STREAM, PARSE, PARSEBAD, REPARSE, SUBS, SUBSMOVE, SUBSDEEP, SUBSTABLE, VPA, CALC, NAMES, SIMPLIFY, COMBINE, DESTROY, ASSIGN, CHECKPARENT, NOPS, DIFF };
const char *oname[] = {"building", "Clone", "copy construction", "Equal (equal)", "Equal (differing in the deepest leaf)", "ToString", "operator<<", "Parse", "Parse of malformed text", "Parse of the printed text", "Subs", "Subs of a moved expression", "Subs by a deep expression", "Subs by a table", "Vpa", "Calc", "GetAllVarNames", "Simplify", "combining", "destruction", "assignment", "CheckParent", "", "Diff"};
Env full(const Chain &c) { Env e = env(); for (auto &n : c.names()) if (!e.count(n)) e[n] = 1; return e; }
// stack used by op on the chain; compares its result
size_t use(const Shape &s, int depth, int op, bool compare) {
    auto &cfg = Config::Get();
    cfg.throwOnInvalidValue = false;
    std::unique_ptr<Chain> c(new Chain(s, depth));
    mc::step();
    size_t r = 0;
    auto val = [&](const Node &m, const char *what, double slack = 0) { // compare the value of m with the chain
        if (!compare) return;
        ref::Val v = c->eval(full(*c));
        if (v.skip || !v.valid) return;
        same(value(m, full(*c)), v, std::string(what) + " of a deep expression", slack);
    };
    Node m;
    switch (op) {
    case BUILD: r = measured([&] { Chain q(s, depth); }); val(c->n, "value"); break;
    case CLONE: r = measured([&] { m = Clone(c->n); }); if (compare) { if (!m->Equal(c->n)) mc::fail("the clone of a deep expression is not equal to it"); val(m, "clone"); } break;
    case COPY: r = measured([&] { m.reset(new internal::NodeImpl(*c->n)); }); if (compare && !m->Equal(c->n)) mc::fail("the copy of a deep expression is not equal to it"); break;
    case ASSIGN: m = Num(3) + Var("q"); r = measured([&] { *m = *c->n; *m = std::move(*c->n); }); if (compare) val(m, "assignment"); break;
    case EQUAL: m = Clone(c->n); r = measured([&] { if (!m->Equal(c->n)) mc::fail("equal deep expressions compare unequal"); }); break;
    case UNEQUAL: {
        auto nm = leaf(s.leaves, 0);
        if (!nm.first) break;
        bool again = false; // the name of the deepest leaf occurs elsewhere: change it everywhere
        (void)again;
        m = Subs(c->n, nm.second.second, Var("other"));
        r = measured([&] { if (m->Equal(c->n)) mc::fail("different deep expressions compare equal"); });
        break;
    }
    case STRING: { std::string t; r = measured([&] { t = c->n->ToString(); }); if (compare && depth <= 4000) val(Parse(t), "printed text"); break; }
    case STREAM: { std::ostringstream o; r = measured([&] { using internal::operator<<; o << c->n; }); if (compare && o.str() != c->n->ToString()) mc::fail("operator<< differs from ToString"); break; }
    case PARSE: r = measured([&] { m = Parse(c->text); }); if (s.leaves == 4) val(m, "parsed text"); else if (compare && !m->Equal(c->n)) mc::fail("the parsed deep text is not the expected expression"); break; // a negative number is read as a sign before a number
    case PARSEBAD: {
        for (int k = 0; k < 4; ++k) {
            std::string t = c->text;
            if (k == 0) t += "+"; else if (k == 1) t = "(" + t; else if (k == 2) t += ")"; else t += "#";
            r = std::max(r, measured([&] { bool threw = false; try { m = Parse(t); } catch (const ParseError &) { threw = true; } if (!threw) mc::fail("malformed deep text was accepted"); }));
        }
        break;
    }
    case REPARSE: { std::string t = c->n->ToString(); r = measured([&] { m = Parse(t); }); val(m, "reading back"); break; }
    case SUBS: r = measured([&] { m = Subs(c->n, "x", Num(1.25)); }); val(m, "substitution"); break;
    case SUBSMOVE: { Node k = Clone(c->n); r = measured([&] { m = Subs(std::move(k), "x", Num(1.25)); }); val(m, "substitution"); break; }
    case SUBSDEEP: { Node d = Clone(c->n), e = Var("x") - Var("q"); r = measured([&] { m = Subs(e, "x", d); }); if (compare && !m->Equal(c->n - Var("q"))) mc::fail("substituting a deep expression"); break; }
    case SUBSTABLE: { Env f = full(*c); VarsTable t(f); r = measured([&] { m = Subs(c->n, t); }); if (compare && !m->GetAllVarNames().empty()) mc::fail("names are left after substituting all"); val(m, "substitution by a table"); break; }
    case VPA: { Node k = Subs(c->n, full(*c)); double v = 0; r = measured([&] { v = k->Vpa(); }); if (compare) { ref::Val w = c->eval(full(*c)); LV l; l.v = v; if (!w.skip && w.valid) same(l, w, "value of a deep expression"); } break; }
    case CALC: { m = Subs(c->n, full(*c)); r = measured([&] { m->Calc(); }); val(m, "Calc"); break; }
    case NAMES: { std::set<std::string> t; r = measured([&] { t = c->n->GetAllVarNames(); }); if (compare && t != c->names()) mc::fail("the names of a deep expression are wrong"); break; }
    case SIMPLIFY: { m = Clone(c->n); r = measured([&] { Simplify(m); }); cfg.throwOnInvalidValue = true; if (compare) { ref::Val v = c->eval(full(*c)); if (!v.skip && v.valid && !v.zz) same(value(m, full(*c)), v, "simplified deep expression"); } break; }
    case COMBINE: { Node k = Clone(c->n); r = measured([&] { k = Move(k) + c->n; k *= c->n; k = sin(Move(k)); k = -k; }); break; }
    case DESTROY: r = measured([&] { c->n.reset(); }); break;
    case CHECKPARENT: r = measured([&] { c->n->CheckParent(); }); break;
    case DIFF: {
        bool integer = false; // & | % have no derivative
        for (auto &q : c->A.n) if (q.op == ref::AND || q.op == ref::OR || q.op == ref::MOD) integer = true;
        r = measured([&] { try { m = Diff(c->n, "x"); } catch (const std::runtime_error &) { if (!integer) throw; } });
        if (!m) break;
        if (compare) {
            Env e = full(*c);
            ref::Jet j = c->A.jet(c->root, e, "x");
            ref::Val v = c->eval(e);
            if (!j.undef && j.mag < 1e6 && v.valid && !v.skip) { cfg.throwOnInvalidValue = true; LV l = value(m, e); if (l.k == LV::VALUE && std::isfinite(l.v) && std::fabs(l.v - j.c[1]) > 1e-6 * (1 + std::fabs(j.c[1]) + j.mag)) mc::failf("derivative of a deep expression is ", l.v, ", expected ", j.c[1]); }
        }
        break;
    }
    }
    cfg.Reset();
    return r;
}
std::vector<Shape> shapes(bool full, int period, std::vector<int> leaves) {
    auto &al = alphabet(full);
    std::vector<Shape> r;
    uint64_t n = 1; for (int k = 0; k < period; ++k) n *= al.size();
    for (int lf : leaves) for (uint64_t i = 0; i < n; ++i) {
        mc::Dec d(i); Shape s; s.leaves = lf;
        for (int k = 0; k < period; ++k) s.period.push_back(al[d.take(al.size())]);
        r.push_back(s);
    }
    return r;
}
// texts without the parentheses of every level
const std::vector<std::pair<const char *, std::function<std::string(int)>>> &flat() {
    auto rep = [](const std::string &s, int n) { std::string r; r.reserve(s.size() * n); while (n-- > 0) r += s; return r; };
    static const std::vector<std::pair<const char *, std::function<std::string(int)>>> v = {
        {"x+x+..", [=](int n) { return rep("x+", n) + "x"; }}, {"x-2-..", [=](int n) { return rep("x-2-", n / 2) + "x"; }}, {"x*x*..", [=](int n) { return rep("x*", n) + "x"; }},
        {"x/2/..", [=](int n) { return rep("x/2/", n / 2) + "x"; }}, {"1^x^..", [=](int n) { return rep("1^x^", n / 2) + "x"; }}, {"a*b+a*b", [=](int n) { return rep("a*b+", n) + "a"; }},
        {"a+b*c^d-", [=](int n) { return rep("a+b*c^d-", n / 2) + "a"; }}, {"x&y|", [=](int n) { return rep("x&y|", n / 2) + "a"; }}, {"x%3%", [=](int n) { return rep("x%3%", n / 2) + "a"; }},
        {"----x", [=](int n) { return rep("-", n) + "x"; }}, {"-+-+x", [=](int n) { return rep("-+", n / 2) + "x"; }}, {"((((x))))", [=](int n) { return rep("(", n) + "x" + rep(")", n); }},
        {"sin(sin(..", [=](int n) { return rep("sin(", n) + "x" + rep(")", n); }}, {"-sin(-cos(", [=](int n) { return rep("-sin(-cos(", n / 2) + "x" + rep("))", n / 2); }}, {"x+(x+(x+", [=](int n) { return rep("x+(", n) + "x" + rep(")", n); }},
        {"((x+1)*2-..", [=](int n) { return rep("(", n) + "x" + rep("+1)*2", n); }}, {"x*-x*-x", [=](int n) { return rep("x*-", n) + "x"; }}, {"2^-2^-", [=](int n) { return rep("2^-", n) + "x"; }},
        {"long name", [=](int n) { return rep("a", n); }}, {"long name with digits", [=](int n) { return rep("a1_", n) + "+2"; }}, {"long integer", [=](int n) { return "0." + rep("7", n); }}, {"long zeros", [=](int n) { return rep("0", n) + "1"; }},
        {"blanks", [=](int n) { return rep(" ", n) + "x" + rep("\t ", n) + "+" + rep("\n", n) + "1"; }},
        {"many names", [=](int n) { std::string r = "x"; for (int i = 0; i < n; ++i) r += "+v" + std::to_string(i); return r; }},
        {"many numbers", [=](int n) { std::string r = "x"; for (int i = 0; i < n; ++i) r += "+0." + std::to_string(i); return r; }},
        {"(x)+(x)..", [=](int n) { return rep("(x)+", n) + "x"; }}, {"(((x+1)))*((..", [=](int n) { return rep("(((x+1)))*", n) + "((((x))))"; }}};
    return v;
}
const std::vector<std::pair<const char *, std::function<std::string(int)>>> &broken() {
    auto rep = [](const std::string &s, int n) { std::string r; r.reserve(s.size() * n); while (n-- > 0) r += s; return r; };
    static const std::vector<std::pair<const char *, std::function<std::string(int)>>> v = {
        {"((((", [=](int n) { return rep("(", n); }}, {"))))", [=](int n) { return rep(")", n); }}, {"((((x", [=](int n) { return rep("(", n) + "x"; }}, {"x))))", [=](int n) { return "x" + rep(")", n); }}, {"x+x+..+", [=](int n) { return rep("x+", n); }},
        {"----", [=](int n) { return rep("-", n); }}, {"sin(sin(", [=](int n) { return rep("sin(", n); }}, {"sin sin sin", [=](int n) { return rep("sin ", n) + "+"; }}, {"****", [=](int n) { return "x" + rep("*", n); }}, {"x x x x", [=](int n) { return rep("x ", n) + "y"; }},
        {"x+(x+(x+)", [=](int n) { return rep("x+(", n) + rep(")", n); }}, {"####", [=](int n) { return rep("#", n); }}, {"1..1..", [=](int n) { return rep("1..", n); }}, {"()()()", [=](int n) { return rep("()", n); }}, {"x+1#", [=](int n) { return rep("x+", n) + "1#"; }}, {"x^x^^", [=](int n) { return rep("x^", n) + "^2"; }},
        {"blanks only", [=](int n) { return rep(" ", n); }}};
    return v;
}
void flatText(int k, int op, int n, bool bad, size_t &used) {
    mc::step();
    std::string t = bad ? broken()[k].second(n) : flat()[k].second(n);
    if (bad) { Node m; used = measured([&] { bool th = false; try { m = Parse(t); } catch (const ParseError &) { th = true; } if (!th) mc::fail("malformed text was accepted"); }); return; }
    Node m = Parse(t), q; Config::Get().throwOnInvalidValue = false;
    switch (op) {
    case 0: used = measured([&] { q = Parse(t); }); if (!q->Equal(m)) mc::fail("parsed twice, not equal"); break;
    case 1: { std::string s; used = measured([&] { s = m->ToString(); }); break; }
    case 2: used = measured([&] { q = Clone(m); }); if (!q->Equal(m)) mc::fail("clone not equal"); break;
    case 3: q = Clone(m); used = measured([&] { if (!q->Equal(m)) mc::fail("equal expressions compare unequal"); }); break;
    case 4: { std::set<std::string> s; used = measured([&] { s = m->GetAllVarNames(); }); if (std::string(flat()[k].first) == "many names" && (int)s.size() != n + 1) mc::fail("names are missing"); break; }
    case 5: used = measured([&] { q = Subs(m, "x", Num(2)); }); if (q->GetAllVarNames().count("x")) mc::fail("a name is left"); break;
    case 6: used = measured([&] { Simplify(m); }); break;
    case 7: { std::map<std::string, double> e; for (auto &s : m->GetAllVarNames()) e[s] = 1; q = Subs(m, e); used = measured([&] { q->Vpa(); q->Calc(); }); break; }
    case 8: used = measured([&] { m.reset(); }); break;
    }
    Config::Get().Reset();
}
} // namespace
