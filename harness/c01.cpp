// C01: parsed text means what the grammar says.
#include "lib.h"
using namespace br;

namespace {

// ---- grammar-guided enumeration of well-formed token strings ----
struct Gram {
    std::vector<std::string> pre, post; // tokens allowed when an operand is expected (besides the operand) / after one
    std::vector<std::string> operands = {""}; // "" stands for a fresh letter
    int L;
    std::vector<std::vector<std::vector<uint64_t>>> c[2];
    uint64_t cnt(int e, int d, int n) {
        if (d < 0 || d > n + (e ? 0 : 0)) { if (d < 0 || d > n) return 0; }
        return c[e][d][n][0];
    }
    void init(int l) {
        L = l;
        for (int e = 0; e < 2; ++e) c[e].assign(L + 3, std::vector<std::vector<uint64_t>>(L + 1, std::vector<uint64_t>(1, 0)));
        for (int n = 0; n <= L; ++n)
            for (int d = 0; d <= L + 1; ++d) {
                c[0][d][n][0] = n == 0 ? (d == 0) : post.size() * c[1][d][n - 1][0] + (d > 0 ? c[0][d - 1][n - 1][0] : 0);
                if (n == 0) { c[1][d][n][0] = 0; continue; }
                uint64_t s = operands.size() * c[0][d][n - 1][0];
                for (auto &t : pre) s += t.back() == '(' ? c[1][d + 1][n - 1][0] : c[1][d][n - 1][0];
                c[1][d][n][0] = s;
            }
    }
    uint64_t total() { uint64_t s = 0; for (int n = 1; n <= L; ++n) s += c[1][0][n][0]; return s; }
    std::vector<std::string> get(uint64_t i) {
        std::vector<std::string> r;
        int n = 1;
        while (i >= c[1][0][n][0]) i -= c[1][0][n++][0];
        int e = 1, d = 0, f = 0;
        while (n > 0) {
            --n;
            if (e) {
                uint64_t k = c[0][d][n][0];
                if (i < k * operands.size()) {
                    auto &o = operands[i / k];
                    i %= k;
                    r.push_back(o.empty() ? std::string(1, (char)('a' + f++ % 10)) : o);
                    e = 0;
                    continue;
                }
                i -= k * operands.size();
                for (auto &t : pre) {
                    int nd = t.back() == '(' ? d + 1 : d;
                    k = c[1][nd][n][0];
                    if (i < k) { r.push_back(t); d = nd; break; }
                    i -= k;
                }
            } else {
                uint64_t k = d > 0 ? c[0][d - 1][n][0] : 0;
                if (i < k) { r.push_back(")"); --d; continue; }
                i -= k;
                for (auto &t : post) {
                    k = c[1][d][n][0];
                    if (i < k) { r.push_back(t); e = 1; break; }
                    i -= k;
                }
            }
        }
        return r;
    }
};

std::string join(const std::vector<std::string> &v, const std::string &sep = "") {
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) s += (i ? sep : "") + v[i];
    return s;
}

Node parseText(const std::string &s) {
    mc::step();
    try { return Parse(s); } catch (const std::exception &e) { mc::failf("well-formed text rejected: \"", s, "\": ", e.what()); }
}

// parse with the library, compare value at the assignments and names with the reference reading
void check(const std::string &s, const std::vector<Env> &es, bool evalNames = true) {
    Arena A;
    bool unspec = false;
    int t = ref::Reader::parse(s, A, unspec);
    if (t < 0) mc::failf("harness: reference reader rejects \"", s, "\"");
    Node n = parseText(s);
    uint64_t h = 0;
    for (auto &e : es) {
        ref::Val r = A.eval(t, e);
        LV l = value(n, e);
        same(l, r, "value of \"" + s + "\"");
        double q = l.v;
        h = mc::hash(&q, sizeof q, h + l.k);
    }
    mc::state(h);
    if (evalNames) {
        std::set<std::string> want;
        A.names(t, want);
        mc::step();
        if (n->GetAllVarNames() != want) mc::failf("variable names of \"", s, "\" are wrong");
    }
}
std::vector<Env> moreEnvs(const std::vector<std::string> &names) {
    std::vector<Env> es;
    const double base[4] = {3, 2, 0.75, -2};
    for (int k = 0; k < 3; ++k) {
        Env e;
        double v = base[k];
        for (size_t i = 0; i < names.size(); ++i) e[names[i]] = v + (k == 0 ? (double)(i * 7 % 5) : k == 1 ? (double)(i % 3) : 0.125 * (i * 5 % 7));
        es.push_back(e);
    }
    return es;
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    static Gram g1, g2, g4;
    g1.pre = {"(", "-", "sin("};
    g1.post = {"+", "-", "*", "/", "^", "&", "|", "%"};
    g1.init(th ? 11 : 10);
    add("grammar/all-operators", "all token strings up to the length bound over 8 binary operators, prefix minus, parentheses, sin", g1.total(),
        [](uint64_t i) { check(join(g1.get(i)), envs()); }, [](uint64_t i) { return join(g1.get(i)); }, 512);
    g2.pre = {"(", "-", "+", "sqrt("};
    g2.post = {"-", "^", "%"};
    g2.init(th ? 13 : 11);
    add("grammar/core", "longer token strings over - ^ %, both prefix signs, parentheses, sqrt", g2.total(),
        [](uint64_t i) { check(join(g2.get(i)), envs()); }, [](uint64_t i) { return join(g2.get(i)); }, 512);
    g4.pre = {"(", "-", "log("};
    g4.post = {"+", "-", "*", "/", "^", "&", "|", "%"};
    g4.operands = {"", "a", "2", "0.5"};
    g4.init(th ? 8 : 7);
    add("grammar/operands", "token strings over all operators whose operands are new variables, a repeated variable and literals", g4.total(),
        [](uint64_t i) { check(join(g4.get(i)), envs()); }, [](uint64_t i) { return join(g4.get(i)); }, 512);
    // all sequences of 4 (thorough 5) binary operators without parentheses, with every single-operand prefix sign
    static int K = th ? 5 : 4;
    static auto chain = [](uint64_t i) {
        mc::Dec d(i);
        std::string s;
        int where = (int)d.take(K + 2);
        for (int k = 0; k <= K; ++k) {
            if (k == where) s += "-";
            s += (char)('a' + k);
            if (k < K) s += ref::opName(ref::ALLBIN[d.take(8)]);
        }
        return s;
    };
    uint64_t nc = K + 2;
    for (int k = 0; k < K; ++k) nc *= 8;
    add("chains/binary", "all unparenthesised sequences of binary operators, with a prefix minus at every operand or none", nc,
        [](uint64_t i) { check(chain(i), envs()); }, [](uint64_t i) { return chain(i); }, 512);

    // functions: every name, in every neighbourhood
    static std::vector<std::string> fn = {"sin", "cos", "tan", "arcsin", "arccos", "arctan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp"};
    static std::vector<std::string> ctx = {"@(a)", "-@(a)", "+@(a)", "@(-a)", "@(+a)", "@(a)^2", "2^@(a)", "b-@(a)", "@(a)-b", "b/@(a)", "@(a)/b", "-@(a)^b", "b^-@(a)", "@((a))", "(@(a))", "@(a*b)", "@(a/b)", "@(a-b)", "@(a^b)", "@(a%b)", "b*@(a)*c", "@(a)%b", "b%@(a)", "@(a)+@(b)", "@(@(a))", "-@(-@(a))", "@(a)^@(b)", "@( a )", " @ (a)", "@\t(a)", "@(((a)-b))", "@(0.5)", "@(1)", "@(.25)", "@(2e-1)", "--@(a)", "b--@(a)", "b^@(a)^c", "@(a)*-@(b)"};
    add("functions/context", "every function name in every neighbourhood", fn.size() * ctx.size(), [](uint64_t i) {
        std::string s = ctx[i / fn.size()], f = fn[i % fn.size()], r;
        for (char c : s) { if (c == '@') r += f; else r += c; }
        static std::vector<Env> es = [] { std::vector<Env> v(3); double a[3][3] = {{0.5, 0.25, 2}, {0.875, 0.5, 3}, {3, 2, 0.5}}; for (int k = 0; k < 3; ++k) { v[k]["a"] = a[k][0]; v[k]["b"] = a[k][1]; v[k]["c"] = a[k][2]; } return v; }();
        check(r, es);
    });
    add("functions/pairs", "every pair of functions nested, added and as base/exponent", fn.size() * fn.size() * 4, [](uint64_t i) {
        mc::Dec d(i);
        std::string f = fn[d.take(fn.size())], h = fn[d.take(fn.size())];
        int k = (int)d.take(4);
        std::string s = k == 0 ? f + "(" + h + "(a))" : k == 1 ? f + "(a)-" + h + "(b)*c" : k == 2 ? f + "(a)^" + h + "(b)" : "-" + f + "(a/" + h + "(b))";
        static std::vector<Env> es = [] { std::vector<Env> v(2); double a[2][3] = {{0.5, 0.25, 2}, {0.8125, 0.375, 3}}; for (int k = 0; k < 2; ++k) { v[k]["a"] = a[k][0]; v[k]["b"] = a[k][1]; v[k]["c"] = a[k][2]; } return v; }();
        check(s, es);
    });
    // whitespace of every kind in every gap
    static std::vector<std::string> seeds = {"a+b", "-a", "a*-b", "sin(a)", "(a-b)*c", "a^b^c", "12*a", "1.5-a", "2e3+a", "a%b", "a&b|c", "((a))", "exp(-a)/b", "-(-a)", "1e-2*a", "a-1E+2", "x1-x2_", "2-3"};
    static auto toks = [](const std::string &s) {
        ref::Reader r; r.lex(s);
        std::vector<std::string> v;
        for (auto &t : r.toks) if (t.k != ref::Reader::TEND) v.push_back(t.s);
        return v;
    };
    static std::vector<std::string> ws = {" ", "\t", "\n", "\v", "\f", "\r", "  ", " \t\n\r "};
    static std::vector<std::pair<int, int>> wsCases; // seed, (gap mask)
    wsCases.clear();
    for (size_t k = 0; k < seeds.size(); ++k) {
        int gaps = (int)toks(seeds[k]).size() + 1;
        for (int m = 1; m < (1 << gaps); ++m)
            if (gaps <= 8 || __builtin_popcount(m) <= 2 || m == (1 << gaps) - 1) wsCases.push_back({(int)k, m});
    }
    add("whitespace", "every kind of white space in every subset of the gaps between tokens", wsCases.size() * ws.size(), [](uint64_t i) {
        auto c = wsCases[i / ws.size()];
        auto &w = ws[i % ws.size()];
        auto v = toks(seeds[c.first]);
        std::string s;
        for (size_t k = 0; k <= v.size(); ++k) {
            if (c.second >> k & 1) s += w;
            if (k < v.size()) s += v[k];
        }
        check(s, moreEnvs({"a", "b", "c", "x1", "x2_"}));
    });
    // names: all short names over a telling alphabet, and names close to function names
    static std::string al = "abeExinsptcog_0129X", first = "abeExinsptcog_X";
    static uint64_t nn = first.size() * (1 + al.size() + al.size() * al.size());
    static auto name = [](uint64_t i) {
        mc::Dec d(i);
        std::string s(1, first[d.take(first.size())]);
        if (d.v >= 1 + al.size()) { d.v -= 1 + al.size(); s += al[d.take(al.size())]; s += al[d.take(al.size())]; }
        else if (d.v >= 1) { d.v -= 1; s += al[d.take(al.size())]; }
        return s;
    };
    static std::vector<std::string> near = [] {
        std::vector<std::string> r;
        for (auto &f : fn) {
            for (std::string x : {f + "1", f + "x", f + "_", "_" + f, "a" + f, "x" + f, f + f, f.substr(1), f.substr(0, f.size() - 1), f + "0", f + "h", "arc" + f, f + "2", f + "10"}) r.push_back(x);
            std::string u = f; u[0] = (char)toupper(u[0]); r.push_back(u);
            for (auto &c : u) c = (char)toupper(c);
            r.push_back(u);
        }
        for (auto x : {"pi", "e", "E", "e1", "E5", "e10", "_", "__", "_1", "p", "x1e5", "ln", "lg", "abs", "pow", "mod", "and", "L__", "infx", "nanx", "in", "na"}) r.push_back(x);
        // names whose 64-bit FNV-1a hash is that of a function name (sqrt, acos, acos), by which Str2Function looks them up
        for (auto x : {"hIxT3m0aagx", "jcs6kPtve_c", "f0H1dMWpgaE"}) r.push_back(x);
        return r;
    }();
    add("names", "variable names: every short name over a telling alphabet and every near-miss of a function name (hash collisions too), in five contexts", (nn + near.size()) * 5, [](uint64_t i) {
        std::string v = i / 5 < nn ? name(i / 5) : near[i / 5 - nn];
        ref::Op o;
        char *end;
        (void)strtod(v.c_str(), &end);
        if (ref::Reader::fun(v, o) || *end == 0) return;
        const char *c[] = {"@", "-@*2", "@-b*@", "sin(@)^@", "2^@-1e2*@"};
        std::string s;
        for (const char *p = c[i % 5]; *p; ++p) { if (*p == '@') s += v; else s += *p; }
        Env e, e2; e["b"] = 3; e[v] = 0.75; e2["b"] = -1; e2[v] = 2;
        check(s, {e, e2});
    }, nullptr, 256);
    // scale: long chains, deep nesting, many names, long names, long numbers
    static int SC = th ? 2000 : 600;
    static std::vector<std::string> ops = {"+", "-", "*", "/", "^", "%", "&", "|"};
    static std::vector<int> sizes = [] { std::vector<int> r; for (int i = 1; i <= 130; ++i) r.push_back(i); for (int i = 140; i <= SC; i = i * 5 / 4) { r.push_back(i); r.push_back(i + 1); } for (int i : {255, 256, 257, 511, 512, 513, 1023, 1024, 1025}) if (i <= SC) r.push_back(i); return r; }();
    add("scale/chains", "chains of n operands with one operator, or alternating operators", sizes.size() * (ops.size() + 4), [](uint64_t i) {
        int n = sizes[i / (ops.size() + 4)], k = (int)(i % (ops.size() + 4));
        std::string s;
        for (int j = 0; j <= n; ++j) {
            if (j) s += k < (int)ops.size() ? ops[k] : k == 8 ? (j % 2 ? "-" : "*") : k == 9 ? (j % 3 ? "+" : "/") : k == 10 ? (j % 2 ? "*" : "^") : ops[j * 5 % 7 % 3];
            s += k == 4 || k == 10 ? (j + 1 > n - 2 ? "a" : "b") : std::string(1, (char)('a' + j % 3));
        }
        Env e; e["a"] = 2; e["b"] = 1; e["c"] = 3;
        Env e2; e2["a"] = 1.25; e2["b"] = 1.0625; e2["c"] = 0.9375;
        check(s, {e, e2});
    });
    static std::vector<std::string> wrap = {"(@)", "-@", "+@", "-(@)", "(@-b)", "(a-@)", "sin(@)", "a-(@)", "-(a^@)", "(@)^c", "(@)*c-b", "cos(b-@)", "sqrt(@)"};
    add("scale/nesting", "n-fold nesting of every wrapper", sizes.size() * wrap.size(), [](uint64_t i) {
        int n = sizes[i / wrap.size()];
        const std::string &w = wrap[i % wrap.size()];
        std::string l = w.substr(0, w.find('@')), r = w.substr(w.find('@') + 1), s;
        for (int j = 0; j < n; ++j) s += l;
        s += "a";
        for (int j = 0; j < n; ++j) s += r;
        Env e; e["a"] = 2; e["b"] = 1; e["c"] = 1;
        Env e2; e2["a"] = 1.25; e2["b"] = 0.25; e2["c"] = 1.0009765625;
        check(s, {e, e2});
    });
    add("scale/nested-then-op", "operator before and after a parenthesised group at depth n", (uint64_t)60 * 8 * 8, [](uint64_t i) {
        mc::Dec d(i);
        int n = (int)d.take(60) + 1;
        auto &o = ops[d.take(8)], &q = ops[d.take(8)];
        std::string s = "a" + o + std::string(n, '(') + "b" + q + "c" + std::string(n, ')') + q + "d" + o + "-(" + std::string(n, '(') + "a" + std::string(n, ')') + ")";
        check(s, envs());
    });
    add("scale/names", "n distinct names, and names of length n", (uint64_t)300 * 2, [](uint64_t i) {
        int n = (int)(i / 2) + 1;
        std::vector<std::string> names;
        std::string s;
        if (i % 2) for (int j = 0; j < n; ++j) names.push_back("v" + std::to_string(j * j));
        else for (int j = 0; j < 3; ++j) { std::string v; for (int k = 0; k < n; ++k) v += (char)('a' + (k * 7 + n) % 26); v += "XYZ"[j]; names.push_back(v); }
        for (size_t j = 0; j < names.size(); ++j) s += (j ? (j % 3 ? "-" : "*") : "") + names[j];
        check(s, moreEnvs(names));
    });
    add("scale/numbers", "integer and decimal literals of n digits inside expressions", (uint64_t)120 * 4, [](uint64_t i) {
        int n = (int)(i / 4) + 1;
        std::string v;
        for (int k = 0; k < n; ++k) v += (char)('1' + (k * 7 + n) % 9);
        int m = i % 4;
        std::string s = m == 0 ? v + "/" + v + "0" : m == 1 ? "a*0." + v + "-b" : m == 2 ? v + "." + v + "-a" : "a-" + v + "e-" + std::to_string(n);
        check(s, envs());
    });
    // sizes at which counters of 8 and 16 bits end; expected values by direct loops
    static std::vector<int> large = {250, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70001};
    if (th) for (int q : {131073, 500000, 1 << 20, (1 << 20) + 1}) large.push_back(q);
    add("scale/large", "texts of 13 kinds of up to 70001 (thorough: 2^20+1) operands, parentheses, signs, names, digits or blanks", large.size() * 13, [](uint64_t i) {
        int n = large[i / 13], k = (int)(i % 13);
        std::string s;
        std::map<std::string, double> e{{"x", 3}};
        double want = 3;
        switch (k) {
        case 0: s = "x"; for (int j = 1; j <= n; ++j) { s += (j % 3 ? "+" : "-") + std::to_string(j % 10); want += (j % 3 ? 1 : -1) * (j % 10); } break;
        case 1: for (int j = 0; j < n; ++j) s += "("; s += "x"; for (int j = 0; j < n; ++j) { s += j % 3 ? "-2)" : "+3)"; want += j % 3 ? -2 : 3; } break;
        case 2: for (int j = 0; j < n; ++j) s += "1-("; s += "x"; s += std::string(n, ')'); if (n % 2) want = 1 - 3; break;
        case 3: s = std::string(n, '-') + "x*2"; want = n % 2 ? -6 : 6; break;
        case 4: s = "7-" + std::string(n, '(') + "x" + std::string(n, ')') + "*3-1"; want = 7 - 9 - 1; break;
        case 5: s = "x"; for (int j = 0; j < n; ++j) s += "^1"; s += "^5-2^x"; want = 3 - 8; break;
        case 6: want = 0; for (int j = 0; j < n; ++j) { std::string v = "v" + std::to_string(j * 7919LL % n); s += (j ? j % 4 == 1 ? "-" : "+" : "") + v; double u = (j * 7919LL % n) % 11; e[v] = u; want += j % 4 == 1 ? -u : u; } break;
        case 7: { std::string v; for (int j = 0; j < n; ++j) v += (char)('a' + (j * 7 + n) % 26); s = v + "A-2*" + v + "B-x*" + v; e[v + "A"] = 11; e[v + "B"] = 4; e[v] = 0.5; want = 11 - 8 - 1.5; break; }
        case 8: { s = std::string(n, '0') + "12." + std::string(n, '3') + "-0." + std::string(n, '0') + "5*x"; want = 12 + 1.0 / 3; break; }
        case 9: s = std::string(n, ' ') + "x" + std::string(n, '\t') + "-" + std::string(n, '\n') + "(" + std::string(n, ' ') + "2" + std::string(n, ' ') + ")" + std::string(n, ' '); want = 1; break;
        case 10: s = "13"; for (int j = 0; j < n; ++j) s += j % 2 ? "&15" : "|4"; s += "%8+x"; want = (13 & 15 % 8) + 3; for (int j = 0, v = 13; j < n; ++j) { int m = j % 2 ? 15 : 4; if (j + 1 == n) m %= 8; v = j % 2 ? v & m : v | m; want = v + 3; } break;
        case 11: s = "x"; for (int j = 0; j < n; ++j) s += j % 2 ? "/4" : "*4"; want = n % 2 ? 12 : 3; break;
        case 12: for (int j = 0; j < n; ++j) s += "-("; s += "x"; for (int j = 0; j < n; ++j) s += ")"; s += "-2"; want = (n % 2 ? -3 : 3) - 2; break;
        }
        Node m = parseText(s);
        mc::step(3);
        std::set<std::string> names;
        for (auto &q : e) if (q.first != "x" || s.find('x') != std::string::npos) names.insert(q.first);
        if (k == 6 || k == 7) { if (k == 6) names.erase("x"); }
        if (m->GetAllVarNames() != names && !(k == 7)) mc::failf("the names of a text of kind ", k, " and size ", n, " are wrong");
        if (k == 7 && m->GetAllVarNames().size() != 4) mc::failf("long names: ", m->GetAllVarNames().size(), " different ones, expected 4");
        double v = Subs(m, e)->Vpa();
        if (!(std::fabs(v - want) <= 1e-9 * (1 + std::fabs(want)))) mc::failf("the value of a text of kind ", k, " and size ", n, " is ", v, ", expected ", want);
        mc::state(mc::hash(s));
    }, [](uint64_t i) { return "text of kind " + std::to_string(i % 13) + " and size " + std::to_string(large[i / 13]); }, 1);
    mc::spaces.back().hang = 120;
}
