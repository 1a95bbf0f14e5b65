// C02: malformed text is rejected with a library error; well-formed text is accepted; nothing crashes.
#include "lib.h"
using namespace br;

namespace {
enum Out { ACCEPT, REJECT };

// parse from a buffer that ends exactly where the text ends
Out attempt(const std::string &s, std::string &msg, Node *keep = nullptr) {
    char *p = (char *)malloc(s.size() ? s.size() : 1);
    memcpy(p, s.data(), s.size());
    struct F { char *p; ~F() { free(p); } } f{p};
    mc::step();
    try {
        Node n = Parse({p, s.size()});
        if (!n) mc::fail("Parse returned a null expression");
        n->CheckParent();
        if (keep) *keep = Move(n);
        return ACCEPT;
    } catch (const SingleParseError &e) {
        msg = e.what();
        if (e.GetLine() != 0) mc::failf("error line ", e.GetLine(), " is outside the text");
        if (e.GetPos() < 0 || e.GetPos() > (int)s.size()) mc::failf("error position ", e.GetPos(), " is outside the text of ", s.size(), " characters");
        return REJECT;
    } catch (const ParseError &e) { msg = e.what(); return REJECT; }
    catch (const MathError &e) { msg = e.what(); return REJECT; }
    catch (const mc::Violation &) { throw; }
    catch (const std::exception &e) { mc::failf("not a library error: ", e.what()); }
}
std::string show(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) { char b[8]; if (c < 32 || c >= 127 || c == '"' || c == '\\') { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c; }
    return r + "\"";
}
void check(const std::string &s) {
    Arena A;
    bool unspec = false;
    int t = ref::Reader::parse(s, A, unspec);
    std::string m;
    Node n;
    Out o = attempt(s, m, &n);
    mc::state(mc::hash(m, o + 1));
    if (o == REJECT && m.empty()) mc::failf("error without a message for ", show(s));
    if (unspec) return;
    if (t >= 0 && o == REJECT) mc::failf("well-formed text rejected: ", show(s), ": ", m);
    if (t < 0 && o == ACCEPT) mc::failf("malformed text accepted: ", show(s), " as ", n->ToString());
    if (t >= 0) {
        std::set<std::string> want;
        A.names(t, want);
        if (n->GetAllVarNames() != want) mc::failf("names of ", show(s));
    }
}
struct Strings { // all strings up to length L over a token list
    std::vector<std::string> tok;
    int L;
    uint64_t size() const { uint64_t s = 0, k = 1; for (int i = 0; i <= L; ++i) { s += k; k *= tok.size(); } return s; }
    std::string get(uint64_t i) const {
        uint64_t k = 1;
        int n = 0;
        while (i >= k) { i -= k; k *= tok.size(); ++n; }
        std::string s;
        for (int j = 0; j < n; ++j) { s += tok[i % tok.size()]; i /= tok.size(); }
        return s;
    }
};
void addStrings(const std::string &name, const std::string &what, std::vector<std::string> tok, int L) {
    Strings S{std::move(tok), L};
    mc::add(name, what + ", every string of at most " + std::to_string(L), S.size(), [S](uint64_t i) { check(S.get(i)); }, [S](uint64_t i) { return show(S.get(i)); }, 1024);
}
std::vector<std::string> chars(const std::string &s) { std::vector<std::string> v; for (char c : s) v.push_back(std::string(1, c)); return v; }

const std::vector<std::string> seeds = {"a+b*c-d/2", "(a+b)*(c-d)", "sin(a)+cos(b)^2", "-(-a)*-b", "a^b^c^2", "((a))%((b))", "exp(-(a+1)^2/2.5e-1)", "a&b|c%d", "sqrt(log(exp(a)))", "2*arcsin(x1)-log10(y_2)", "((((a+b)*c)-d)/e1)", "-+-+a", "1.5e+3*a--b", "(a)-(b)+(c)", " a + b ", "sin(cos(tan(a)))", "a*(b+(c*(d+(e_*f))))"};
const std::vector<std::string> ins = {"+", "-", "*", "/", "^", "%", "&", "|", "(", ")", "a", "2", "sin", "sin(", " ", "()", "#", ".", "e", "1e", ",", "\0"};

struct Edit { int seed, kind, at, arg; };
std::vector<Edit> edits;
std::string apply(const std::string &s, int kind, int at, int arg) {
    std::string r = s;
    if (at > (int)r.size()) at = (int)r.size();
    switch (kind) {
    case 0: if (at < (int)r.size()) r.erase(at, 1); break;
    case 1: r.insert(at, ins[arg]); break;
    case 2: if (at < (int)r.size()) r.replace(at, 1, ins[arg]); break;
    case 3: if (at + 1 < (int)r.size()) std::swap(r[at], r[at + 1]); break;
    case 4: if (at < (int)r.size()) r.insert(at, 1, r[at]); break;
    case 5: r = r.substr(at); break;
    case 6: r = r.substr(0, at); break;
    }
    return r;
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    addStrings("tokens/all", "15 kinds of token", {"x", "2", "sin", "+", "-", "*", "^", "%", "&", "(", ")", " ", "1e", "#", "."}, th ? 6 : 5);
    addStrings("tokens/structure", "operands, one operator, prefix sign, function, parentheses, space", {"x", "-", "*", "(", ")", "sin", " "}, th ? 9 : 7);
    addStrings("tokens/parentheses", "operand, operator, parentheses", {"x", "+", "(", ")"}, th ? 12 : 10);
    addStrings("characters", "26 telling characters", chars(std::string("x20.eE+-*/^%&|()_ \t#=,\x80\xff~\0", 26)), th ? 5 : 4);
    addStrings("numbers", "characters of numeric literals", chars("09.eE+-x"), th ? 7 : 6);
    addStrings("bytes", "all 256 byte values", [] { std::vector<std::string> v; for (int i = 0; i < 256; ++i) v.push_back(std::string(1, (char)i)); return v; }(), 2);
    // every byte in the middle of an otherwise well-formed text
    add("bytes/context", "every byte value inserted at every place of a well-formed text", 256 * 12, [](uint64_t i) {
        std::string s = "ab*2-sin(c)";
        s.insert(i / 256, 1, (char)(i % 256));
        check(s);
    });
    edits.clear();
    for (int k = 0; k < (int)seeds.size(); ++k)
        for (int at = 0; at <= (int)seeds[k].size(); ++at)
            for (int kind = 0; kind < 7; ++kind)
                for (int arg = 0; arg < (kind == 1 || kind == 2 ? (int)ins.size() : 1); ++arg) edits.push_back({k, kind, at, arg});
    add("edits/single", "every single edit (delete, insert, replace, swap, duplicate, cut) of long well-formed texts", edits.size(),
        [](uint64_t i) { auto e = edits[i]; check(apply(seeds[e.seed], e.kind, e.at, e.arg)); },
        [](uint64_t i) { auto e = edits[i]; return show(apply(seeds[e.seed], e.kind, e.at, e.arg)); }, 256);
    // pairs of edits of the shorter seeds
    static std::vector<int> sh;
    sh.clear();
    static std::vector<Edit> base;
    base.clear();
    for (auto &e : edits) if ((e.seed == 1 || e.seed == 3 || (th && (e.seed == 2 || e.seed == 5 || e.seed == 12))) && (e.kind == 0 || e.kind == 3 || (e.kind == 1 && e.arg < 14 && e.arg % 2 == 0) || (th && e.kind < 3))) base.push_back(e);
    add("edits/double", "every pair of edits of two (thorough: five) texts", (uint64_t)base.size() * base.size(),
        [](uint64_t i) { auto e = base[i % base.size()], f = base[i / base.size()]; if (e.seed == f.seed) check(apply(apply(seeds[e.seed], e.kind, e.at, e.arg), f.kind, f.at, f.arg)); },
        [](uint64_t i) { auto e = base[i % base.size()], f = base[i / base.size()]; return show(apply(apply(seeds[e.seed], e.kind, e.at, e.arg), f.kind, f.at, f.arg)); }, 1024);

    // scale: one fault in a long text
    static int N = th ? 400 : 150;
    add("scale/one-fault", "chains and nests of n with one fault at position k", (uint64_t)N * 12 * 8, [](uint64_t i) {
        mc::Dec d(i);
        int kind = (int)d.take(12), where = (int)d.take(8), n = (int)d.take(N) + 1;
        int k = where == 0 ? 0 : where == 1 ? n : where == 2 ? n / 2 : where == 3 ? 1 : where == 4 ? n - 1 : where == 5 ? n / 3 : where == 6 ? 2 * n / 3 : n / 4;
        std::string s;
        auto chain = [&](const std::string &bad) { for (int j = 0; j <= n; ++j) { if (j) s += "+-*/^%&|"[j % 8]; s += j == k ? bad : std::string("v") + std::to_string(j % 7); } };
        switch (kind) {
        case 0: chain("v1"); break;
        case 1: chain(""); break;
        case 2: chain("a b"); break;
        case 3: chain("()"); break;
        case 4: chain("1a"); break;
        case 5: chain("(c"); break;
        case 6: chain("c)"); break;
        case 7: chain("sin"); break;
        case 8: s = std::string(n, '(') + "a" + std::string(k, ')'); break;
        case 9: s = std::string(k, '(') + "a" + std::string(n, ')'); break;
        case 10: s = std::string(n, '-') + (k == n ? "" : "a"); break;
        case 11: for (int j = 0; j < n; ++j) s += "sin("; s += k != n || n % 2 ? "a" : ""; s += std::string(k, ')'); break;
        }
        check(s);
    });
    // faults far from the beginning, counts at which counters of 8 and 16 bits end
    static std::vector<int> far = {255, 256, 257, 4096, 32768, 65536, 65537};
    if (th) for (int q : {131072, 1 << 20}) far.push_back(q);
    add("scale/far", "texts of 12 kinds with counts of up to 65537 (thorough: 2^20) and one fault of 12 kinds, and without a fault", far.size() * 12 * 13, [](uint64_t i) {
        mc::Dec d(i);
        int kind = (int)d.take(12), bad = (int)d.take(13), n = far[d.take(far.size())];
        auto rep = [](const std::string &s, int n) { std::string r; r.reserve(s.size() * n); while (n-- > 0) r += s; return r; };
        const char *b[] = {"a", "", "a b", "()", "1a", "(a", "a)", "a*", "#", "sin", "*a", "(a))", "((a)"};
        std::string core = b[bad], s;
        if ((kind == 2 && (bad == 1 || bad == 7)) || ((kind == 2 || kind == 9) && bad == 9)) return; // these are well-formed, or the documentation is silent
        switch (kind) {
        case 0: s = rep("(", n) + core + rep(")", n); break;
        case 1: s = rep("a+", n) + core; break;
        case 2: s = core + rep("-a", n); break;
        case 3: s = rep("-", n) + core; break;
        case 4: s = rep("sin(", n) + core + rep(")", n); break;
        case 5: s = rep("a", n) + "+" + core; break;
        case 6: s = rep("7", std::min(n, 300)) + rep(" ", n) + "*" + core; break;
        case 7: s = rep(" ", n) + core + rep("\n", n); break;
        case 8: s = rep("(a)-", n) + core; break;
        case 9: s = core + rep("^(a", n) + rep(")", n); break;
        case 10: s = rep("a*(", n) + core + rep(")", n) + "/a"; break;
        case 11: s = rep("(", n) + "a" + rep(")", n) + "-" + core; break;
        }
        std::string m;
        Out o = attempt(s, m);
        if (bad == 0 && o == REJECT) mc::failf("a well-formed text of kind ", kind, " and size ", n, " is rejected");
        if (bad && o == ACCEPT) mc::failf("a text of kind ", kind, " and size ", n, " with the fault ", core, " is accepted");
        // parentheses that are closed too rarely or too often by n
        if (bad == 1) for (int r = 1; r < 4; ++r) {
            std::string open = rep("(", r), close = rep(")", r);
            if (attempt(rep(open, n / r) + "(a)" + rep("", 1), m) == ACCEPT || attempt("(a)" + rep(close, n / r), m) == ACCEPT || attempt(rep("(", n + r) + "a" + rep(")", r), m) == ACCEPT || attempt(rep("(", r) + "a" + rep(")", n + r), m) == ACCEPT) mc::failf("a text with ", n, " parentheses too many is accepted");
        }
        mc::state(mc::hash(s.data(), std::min<size_t>(s.size(), 64), s.size() + i));
    }, [](uint64_t i) { mc::Dec d(i); int k = (int)d.take(12), b = (int)d.take(13); return "text of kind " + std::to_string(k) + ", fault " + std::to_string(b) + ", size " + std::to_string(far[d.take(far.size())]); }, 2);
    mc::spaces.back().hang = 120;
    add("byte-sequences", "120 sequences (byte order marks, blanks and operators of Unicode, comments, operators and numbers of other languages ...) put in at every place of 12 texts, in place of every byte, and also at the end", withSequences().size(), [](uint64_t i) { check(withSequences()[i]); });
    // illegal names and numbers of every length
    add("scale/names", "names of length n with one illegal character, numbers with an illegal end, white space only", (uint64_t)300 * 6 * 3, [](uint64_t i) {
        mc::Dec d(i);
        int kind = (int)d.take(6), w = (int)d.take(3), n = (int)d.take(300) + 1;
        int k = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
        std::string s(n, 'a');
        switch (kind) {
        case 0: break;
        case 1: s[k] = '$'; break;
        case 2: s[k] = (char)0xe9; break;
        case 3: s = std::string(n, '7'); s[k] = 'q'; break;
        case 4: s = std::string(n, '7'); s.insert(k, "."); if (w == 2) s.insert(0, "."); break;
        case 5: s = std::string(n, " \t\n"[w]); break;
        }
        check(s);
        check("b*" + s + "-c");
        check("sin(" + s + ")");
    });
    // every entry point behaves the same
    static Strings E{{"x", "2", "+", "-", "(", ")", "sin", " "}, 4};
    add("entry-points", "Parse(const char*), Parse(std::string) and the literal operator agree", E.size(), [](uint64_t i) {
        std::string s = E.get(i), m[4];
        Node n[4];
        Out o = attempt(s, m[0], &n[0]);
        for (int k = 1; k < 4; ++k) {
            mc::step();
            Out q = ACCEPT;
            try { n[k] = k == 1 ? Parse(s) : k == 2 ? Parse(s.c_str()) : operator""_f(s.c_str(), s.size()); } catch (const std::exception &e) { q = REJECT; m[k] = e.what(); }
            if (q != o || m[k] != m[0]) mc::failf("entry point ", k, " disagrees on ", show(s));
            if (o == ACCEPT && !n[0]->Equal(n[k])) mc::failf("entry point ", k, " reads ", show(s), " differently");
        }
    });
    // names given directly
    static Strings B{[] { std::vector<std::string> v; for (int i = 0; i < 256; ++i) v.push_back(std::string(1, (char)i)); return v; }(), 2};
    static Strings C{chars(std::string("aZ_09 .-$\x80\xc3\0", 12)), 4};
    static auto legal = [](const std::string &s) {
        if (s.empty() || ref::Reader::dig(s[0])) return false;
        for (char c : s) if (!ref::Reader::alpha(c) && !ref::Reader::dig(c)) return false;
        return true; // names of functions and numbers: C03
    };
    add("names/legal", "VarNameIsLegal and Var on every byte string up to length 2 and every string of telling characters up to 4", B.size() + C.size() + 3000, [](uint64_t i) {
        std::string s;
        if (i < B.size()) s = B.get(i);
        else if (i < B.size() + C.size()) s = C.get(i - B.size());
        else { int k = (int)(i - B.size() - C.size()); s = std::string(k % 1000 + 1, 'a'); if (k >= 1000) s[k >= 2000 ? s.size() - 1 : s.size() / 2] = k % 2 ? '-' : (char)0xc4; }
        bool want = legal(s);
        mc::step(2);
        if (VarNameIsLegal(s) != want) mc::failf("VarNameIsLegal(", show(s), ") is ", !want);
        bool got = true;
        try { Node n = Var(s); if (n->GetAllVarNames() != std::set<std::string>{s}) mc::failf("Var(", show(s), ") has another name"); } catch (const std::runtime_error &) { got = false; }
        if (got != want) mc::failf("Var(", show(s), ")", want ? " rejected" : " accepted");
        mc::state(mc::hash(s, want));
    }, nullptr, 1024);
}
