// C08: substitution is simultaneous, complete and agrees across all overloads.
#include "lib.h"
using namespace br;

namespace {
using Map = std::map<std::string, int>; // variable -> term

std::string show(const Arena &A, int t, const Map &m) {
    std::string s = A.text(t) + " with {";
    for (auto &p : m) s += " " + p.first + ":=" + A.text(p.second);
    return s + " }";
}
void check(Arena &A, int t, const Map &m) {
    Node n = build(A, t), keep = Clone(n);
    Node want = build(A, A.subst(t, m));
    std::map<std::string, Node> dict;
    std::vector<std::string> names;
    for (auto &p : m) { dict.insert(std::make_pair(p.first, build(A, p.second))); names.push_back(p.first); }
    auto judge = [&](const char *form, const Node &got) {
        mc::step();
        if (!got) mc::failf(form, ": nothing returned for ", show(A, t, m));
        got->CheckParent();
        if (!got->Equal(want)) mc::failf(form, ": substituting ", show(A, t, m), " gives ", got->ToString(), ", expected ", want->ToString());
    };
    auto unchanged = [&](const char *form) {
        if (!n->Equal(keep)) mc::failf(form, " changed its argument ", A.text(t), " into ", n->ToString());
        n->CheckParent();
        for (auto &p : m) if (!dict.at(p.first)->Equal(build(A, p.second))) mc::failf(form, " changed the replacement of ", p.first);
    };
    judge("map", Subs(n, dict)); unchanged("map");
    { Node c = Clone(n); judge("map, consuming", Subs(Move(c), dict)); unchanged("map, consuming"); }
    // the list form with every order of the names (at most 3)
    std::sort(names.begin(), names.end());
    if (!names.empty()) do {
        SymVec v((int)names.size());
        for (size_t i = 0; i < names.size(); ++i) v[i] = Clone(dict.at(names[i]));
        judge("list", Subs(n, names, v)); unchanged("list");
        Node c = Clone(n);
        judge("list, consuming", Subs(Move(c), names, v));
        for (size_t i = 0; i < names.size(); ++i) if (!v[i]->Equal(dict.at(names[i]))) mc::fail("list form changed the replacements");
    } while (std::next_permutation(names.begin(), names.end()));
    if (m.size() == 1) {
        auto &x = m.begin()->first;
        const Node &r = dict.begin()->second;
        judge("single", Subs(n, x, r)); unchanged("single");
        Node c = Clone(n);
        judge("single, consuming", Subs(Move(c), x, r)); unchanged("single, consuming");
        if (A.equal(m.begin()->second, A, t)) judge("single, the expression into itself", Subs(n, x, n));
    }
    bool numbers = !m.empty();
    std::map<std::string, double> nums;
    for (auto &p : m) { if (A.n[p.second].op != ref::NUM) numbers = false; else nums[p.first] = A.n[p.second].v; }
    if (numbers) {
        judge("numbers", Subs(n, nums)); unchanged("numbers");
        Node c = Clone(n);
        judge("numbers, consuming", Subs(Move(c), nums));
        VarsTable vt(nums);
        judge("table", Subs(n, vt)); unchanged("table");
        c = Clone(n);
        judge("table, consuming", Subs(Move(c), vt));
        if (!(vt == VarsTable(nums))) mc::fail("Subs changed the table");
        SymMat M(1, 2);
        M.Value(0, 0) = Clone(n); M.Value(0, 1) = Num(7);
        SymMat M2 = M.Clone();
        SymMat &r = M.Subs(nums);
        if (&r != &M) mc::fail("SymMat::Subs returns another matrix");
        judge("matrix, numbers", M.Value(0, 0));
        if (!M.Value(0, 1)->Equal(Num(7))) mc::fail("SymMat::Subs changed another element");
        M2.Subs(vt);
        judge("matrix, table", M2.Value(0, 0));
    }
    mc::state(want->ToString());
}
std::vector<std::function<int(Arena &)>> images() {
    return {nullptr, [](Arena &A) { return A.var("x"); }, [](Arena &A) { return A.var("y"); }, [](Arena &A) { return A.bin(ref::SUB, A.var("x"), A.var("z")); }, [](Arena &A) { return A.num(5); },
            [](Arena &A) { return A.un(ref::NEG, A.var("y")); }, [](Arena &A) { return A.var("w"); }};
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    using namespace ref;
    static auto img = images();
    static const char *nm[3] = {"x", "y", "z"};
    auto mkMap = [](Arena &A, mc::Dec &d) { Map m; for (int k = 0; k < 3; ++k) { auto &f = img[d.take(img.size())]; if (f) m[nm[k]] = f(A); } return m; };
    { TermSpace S; S.U = {NEG, SIN}; S.B = {SUB, POW}; S.leafVar("x"); S.leafVar("y"); S.leafVar("z"); S.leafNum(2); S.init(2);
      uint64_t nmaps = 7 * 7 * 7;
      mc::add("maps/terms", "all trees of at most 2 operators x all maps of x, y, z to {absent, x, y, x-z, 5, -y, w}, all call forms", S.size() * nmaps,
          [S, nmaps, mkMap](uint64_t i) { Arena A; mc::Dec d(i % nmaps); Map m = mkMap(A, d); int t = S.make(A, i / nmaps); check(A, t, m); },
          [S, nmaps, mkMap](uint64_t i) { Arena A; mc::Dec d(i % nmaps); Map m = mkMap(A, d); int t = S.make(A, i / nmaps); return show(A, t, m); }, 128); }
    { TermSpace S; S.U = {NEG, EXP}; S.B = {SUB, DIV}; S.leafVar("x"); S.leafVar("y"); S.leafVar("zz"); S.leafNum(5); S.init(th ? 3 : 2);
      static std::vector<double> nv = {0, 0, 5, -0.5, 1e300};
      uint64_t nmaps = 125;
      auto mk = [](Arena &A, uint64_t k) { Map m; mc::Dec d(k); static const char *n2[3] = {"x", "y", "zz"}; for (int j = 0; j < 3; ++j) { int q = (int)d.take(5); if (q) m[n2[j]] = A.num(nv[q]); } return m; };
      mc::add("maps/numbers", "all trees x all maps of three variables to {absent, 0, 5, -0.5, 1e300}, all numeric call forms", S.size() * nmaps,
          [S, nmaps, mk](uint64_t i) { Arena A; Map m = mk(A, i % nmaps); int t = S.make(A, i / nmaps); check(A, t, m); },
          [S, nmaps, mk](uint64_t i) { Arena A; Map m = mk(A, i % nmaps); int t = S.make(A, i / nmaps); return show(A, t, m); }, 128); }
    { TermSpace S; S.U = {NEG, POS, SQRT}; S.B = {ADD, MOD, AND, MUL}; S.leafVar("x"); S.leafVar("y"); S.init(3);
      mc::add("swap", "x and y swapped, rotated and captured in all trees of at most 3 operators", S.size() * 4, [S](uint64_t i) {
          Arena A; Map m; int k = (int)(i % 4);
          if (k == 0) { m["x"] = A.var("y"); m["y"] = A.var("x"); }
          else if (k == 1) { m["x"] = A.bin(DIV, A.var("x"), A.var("y")); m["y"] = A.bin(SUB, A.var("y"), A.var("x")); }
          else if (k == 2) { m["x"] = A.un(NEG, A.var("x")); }
          else { m["x"] = A.bin(POW, A.var("y"), A.var("y")); m["y"] = A.num(3); }
          int t = S.make(A, i / 4);
          check(A, t, m);
      }, [S](uint64_t i) { Arena A; return A.text(S.make(A, i / 4)); }, 128); }
    // the expression into itself
    { TermSpace S; S.U = {NEG, SIN}; S.B = {SUB, POW}; S.leafVar("x"); S.leafVar("y"); S.leafNum(2); S.init(3);
      mc::add("self", "every tree substituted into itself", S.size() * 2, [S](uint64_t i) { Arena A; int t = S.make(A, i / 2); Map m; m[i % 2 ? "x" : "y"] = t; check(A, t, m); },
          [S](uint64_t i) { Arena A; return A.text(S.make(A, i / 2)); }); }
    // names that are prefixes of each other, and near names
    mc::add("names", "all pairs of near names: only the exact name is replaced", 14 * 14 * 4, [](uint64_t i) {
        static const char *ns[14] = {"a", "A", "aa", "a1", "a_", "_a", "_", "__", "a11", "ab", "b", "e", "x_1", "x_12"};
        mc::Dec d(i);
        std::string p = ns[d.take(14)], q = ns[d.take(14)];
        int k = (int)d.take(4);
        Arena A; Map m;
        int a = A.var(p), b = A.var(q);
        int t = k == 0 ? a : k == 1 ? A.bin(SUB, a, b) : k == 2 ? A.bin(POW, A.un(NEG, b), a) : A.bin(MUL, A.bin(MUL, a, b), A.bin(SUB, b, a));
        m[p] = k % 2 ? A.num(4) : A.bin(ADD, A.var(q), A.num(1));
        check(A, t, m);
    });
    // many variables, many occurrences, every shape
    static std::vector<int> sizes; sizes.clear();
    for (int i = 1; i <= (th ? 120 : 40); ++i) sizes.push_back(i);
    for (int i : {63, 64, 65, 127, 128, 129, 255, 256, 257}) sizes.push_back(i);
    mc::add("scale", "trees of n operators in five shapes with v distinct variables, all or half of them replaced", sizes.size() * 5 * 4 * 3, [](uint64_t i) {
        mc::Dec d(i);
        int n = sizes[d.take(sizes.size())], shape = (int)d.take(5), nv = (int)d.take(4), kind = (int)d.take(3);
        nv = nv == 0 ? 1 : nv == 1 ? 2 : nv == 2 ? 7 : n;
        Arena A;
        auto leaf = [&](int k) { return A.var("v" + std::to_string(k % nv)); };
        std::function<int(int, int)> bal = [&](int a, int b) -> int { if (a == b) return leaf(a); int m = (a + b) / 2; int l = bal(a, m), r = bal(m + 1, b); return A.bin((a + b) % 2 ? SUB : DIV, l, r); };
        int t;
        if (shape == 4) t = bal(0, n);
        else { t = leaf(0); for (int k = 1; k <= n; ++k) { int l = leaf(k); t = shape == 0 ? A.bin(SUB, t, l) : shape == 1 ? A.bin(SUB, l, t) : shape == 2 ? (k % 2 ? A.bin(DIV, t, l) : A.bin(POW, l, t)) : (k % 3 ? A.un(k % 2 ? NEG : COS, t) : A.bin(MUL, l, t)); } }
        Map m;
        for (int k = 0; k < nv; ++k) if (kind != 1 || k % 2 == 0) m["v" + std::to_string(k)] = kind == 2 ? A.num(k + 0.5) : A.bin(MUL, A.var("v" + std::to_string((k + 1) % nv)), A.num(k));
        if (m.size() > 3) { // too many orders for the list form: only the given and the reverse order
            Node e = build(A, t), want = build(A, A.subst(t, m));
            std::map<std::string, Node> dict;
            std::vector<std::string> names;
            for (auto &p : m) { dict.insert(std::make_pair(p.first, build(A, p.second))); names.push_back(p.first); }
            for (int r = 0; r < 2; ++r) {
                SymVec v((int)names.size());
                for (size_t j = 0; j < names.size(); ++j) v[j] = Clone(dict.at(names[j]));
                mc::step();
                if (!Subs(e, names, v)->Equal(want)) mc::failf("list form with ", names.size(), " names is wrong");
                std::reverse(names.begin(), names.end());
            }
            mc::step();
            Node got = Subs(e, dict);
            got->CheckParent();
            if (!got->Equal(want)) mc::failf("map form with ", names.size(), " names is wrong");
            if (kind == 2) { std::map<std::string, double> nums; for (auto &p : m) nums[p.first] = A.n[p.second].v; if (!Subs(e, VarsTable(nums))->Equal(want) || !Subs(e, nums)->Equal(want)) mc::fail("numeric form with many names is wrong"); }
            return;
        }
        check(A, t, m);
    }, nullptr, 4);
}
