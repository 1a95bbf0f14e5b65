// C21: an error says what is wrong, and where.
#include "lib.h"
using namespace br;
namespace {
// ---- the faults of a text, found by a reader of its own
enum Kind { OPERAND, FUN, BAD, BIN, SIGN, L, R };
struct Tok { Kind k; int pos; std::string s; };
struct Faults {
    std::vector<Tok> t;
    bool odd = false;           // spellings on which the documentation is silent
    int bad = -1;               // first token that is no number, function, name or operator
    int order = -1;             // first token that cannot stand where it stands; t.size(): the end
    std::set<int> open;         // parentheses never closed
    int adjacent = 0;           // operands that follow an operand
};
bool isFunName(const std::string &s) {
    for (auto n : {"sin", "cos", "tan", "arcsin", "asin", "arccos", "acos", "arctan", "atan", "sqrt", "log", "log2", "log10", "exp"}) if (s == n) return true;
    return false;
}
bool isNumber(const std::string &s, bool &odd) { // digits [. digits] [e [sign] digits]
    size_t i = 0, d = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++d;
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++d; }
    bool ok = d > 0;
    if (ok && i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
        size_t j = i + 1;
        if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j;
        size_t b = j;
        while (j < s.size() && isdigit((unsigned char)s[j])) ++j;
        if (j > b) i = j;
    }
    if (ok && i == s.size()) { double v = strtod(s.c_str(), nullptr); if (!std::isfinite(v)) odd = true; return true; }
    char *e; strtod(s.c_str(), &e);
    if (*e == 0 && s.size()) odd = true; // inf, nan, hexadecimal
    return false;
}
Faults faults(const std::string &s) {
    Faults f;
    auto op = [](char c) { return strchr("()+-*/^&|%", c) && c; };
    size_t i = 0;
    while (i < s.size()) {
        unsigned char c = s[i];
        if (c == ' ' || (c >= 9 && c <= 13)) { ++i; continue; }
        bool before = !f.t.empty() && (f.t.back().k == OPERAND || f.t.back().k == BAD || f.t.back().k == R);
        if (op(c)) {
            Kind k = c == '(' ? L : c == ')' ? R : (c == '+' || c == '-') && !before ? SIGN : BIN;
            f.t.push_back({k, (int)i, std::string(1, c)});
            ++i;
            continue;
        }
        size_t b = i;
        bool number = true;
        while (i < s.size()) {
            unsigned char d = s[i];
            if (d == ' ' || (d >= 9 && d <= 13)) break;
            if (op(d)) {
                bool exp = number && (d == '+' || d == '-') && i - b >= 2 && (s[i - 1] == 'e' || s[i - 1] == 'E') && i + 1 < s.size() && isdigit((unsigned char)s[i + 1]);
                if (exp) { bool dig = false; for (size_t k = b; k + 1 < i; ++k) { if (isdigit((unsigned char)s[k])) dig = true; else if (s[k] != '.') exp = false; } exp = exp && dig; }
                if (!exp) break;
                number = false;
            }
            ++i;
        }
        std::string w = s.substr(b, i - b);
        bool name = isalpha((unsigned char)w[0]) || w[0] == '_';
        for (unsigned char d : w) name = name && d < 128 && (isalnum(d) || d == '_');
        Kind k = isNumber(w, f.odd) ? OPERAND : isFunName(w) ? FUN : name ? OPERAND : BAD;
        if (k == BAD && f.bad < 0) f.bad = (int)f.t.size();
        f.t.push_back({k, (int)b, w});
    }
    bool want = true;
    std::vector<int> st;
    for (int k = 0; k < (int)f.t.size(); ++k) {
        auto &q = f.t[k];
        if (k && (f.t[k - 1].k == OPERAND || f.t[k - 1].k == BAD || f.t[k - 1].k == R) && (q.k == OPERAND || q.k == BAD || q.k == L || q.k == FUN)) ++f.adjacent;
        if (k && f.t[k - 1].k == FUN && q.k != L) f.odd = true;
        switch (q.k) {
        case OPERAND: case BAD: want = false; break;
        case L: st.push_back(k); want = true; break;
        case R: if (st.empty() || want) { if (f.order < 0) f.order = k; } if (!st.empty()) st.pop_back(); want = false; break;
        case BIN: if (want && f.order < 0) f.order = k; want = true; break;
        default: want = true;
        }
    }
    if (f.order < 0 && want && !f.t.empty()) f.order = (int)f.t.size();
    f.open.insert(st.begin(), st.end());
    return f;
}
std::string show(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) { char b[8]; if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c; }
    return r + "\"";
}
bool has(const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; }
// the message quotes the text; the columns of the marks under it
std::vector<int> marks(const std::string &msg, const std::string &s) {
    std::vector<int> r;
    std::vector<std::string> lines(1);
    for (char c : msg) { if (c == '\n') lines.push_back(""); else lines.back() += c; }
    for (size_t k = 1; k < lines.size(); ++k) {
        size_t p = lines[k].find_first_not_of(' ');
        if (p == std::string::npos || lines[k][p] != '^' || !has(lines[k], "error")) continue;
        if (lines[k - 1] != s) mc::failf("the message for ", show(s), " does not quote the text above the mark:\n", msg);
        r.push_back((int)p);
    }
    return r;
}
uint64_t located = 0;
void check(const std::string &s) {
    std::string msg, copyMsg;
    int line = -1, pos = -1, kind = 0;
    {
        char *p = (char *)malloc(s.size() ? s.size() : 1);
        memcpy(p, s.data(), s.size());
        mc::step();
        std::exception_ptr keep;
        try { Node n = Parse({p, s.size()}); free(p); return; }
        catch (...) { keep = std::current_exception(); }
        memset(p, '?', s.size());
        free(p); // an error outlives the text
        try { std::rethrow_exception(keep); }
        catch (const SingleParseError &e) { kind = 1; line = e.GetLine(); pos = e.GetPos(); SingleParseError c(e), d(e); d = c; msg = e.what(); copyMsg = d.what(); if (d.GetPos() != pos || d.GetLine() != line) mc::fail("a copy of the error has another position"); }
        catch (const MultiParseError &e) { kind = 2; MultiParseError c(e); msg = e.what(); copyMsg = c.what(); }
        catch (const std::exception &e) { mc::failf(show(s), " is rejected by something else than a parse error: ", e.what()); }
    }
    if (msg != copyMsg) mc::fail("a copy of the error has another message");
    Faults f = faults(s);
    mc::state(mc::hash(msg));
    int size = (int)s.size();
    bool flat = true; for (char c : s) if (c == '\n' || c == 0) flat = false; // the mark stands under a text of one line
    if (kind == 1) {
        if (line != 0) mc::failf("line of the error is ", line);
        if (pos < 0 || pos > size) mc::failf("position ", pos, " outside the text ", show(s));
        if (flat) { auto m = marks(msg, s); if (m.size() != 1 || m[0] != pos) mc::failf("the mark is not under position ", pos, " of the text:\n", msg); }
        std::string at = "at(" + std::to_string(line) + ", " + std::to_string(pos) + ")";
        if (!has(s, std::string(1, '\0')) && !has(msg, at)) mc::failf("the message does not give the position ", at, ":\n", msg);
        if (f.t.empty()) { if (pos != 0 || !has(msg, "empty")) mc::failf("an empty text is reported as: ", msg); return; }
        if (f.odd) return;
        const Tok *q = nullptr;
        for (auto &k : f.t) if (k.pos == pos) q = &k;
        int k = q ? (int)(q - f.t.data()) : (int)f.t.size();
        if (!q && pos != size) mc::failf("position ", pos, " of ", show(s), " is not that of a token");
        bool real = k == f.order || (q && k == f.bad) || f.open.count(k);
        if (!real) mc::failf("position ", pos, " of ", show(s), " is not that of a fault: ", msg);
        if (q && flat && !has(msg, "\"" + q->s + "\"")) mc::failf("the message does not name the token \"", q->s, "\":\n", msg);
        bool paren = has(msg, "arenthesis"), operand = has(msg, "perand"), name = has(msg, "name");
        bool okKind = k == f.bad ? name && !paren : q && f.open.count(k) ? paren : k == f.order && !q ? operand : q->k == R ? paren || operand : operand;
        if (!okKind) mc::failf("another kind of fault is reported at position ", pos, " of ", show(s), ":\n", msg);
        return;
    }
    if (f.odd) return;
    if (!f.adjacent) mc::failf(show(s), " has no operand next to another, and is reported as if it had:\n", msg);
    if (!flat) return;
    auto m = marks(msg, s);
    if ((int)m.size() != f.adjacent) mc::failf(show(s), ": ", f.adjacent, " operands follow another, ", m.size(), " are reported:\n", msg);
    std::set<int> seen;
    for (int c : m) {
        const Tok *q = nullptr;
        for (auto &k : f.t) if (k.pos == c) q = &k;
        if (!q || q->k == L || q->k == R) mc::failf("a mark of\n", msg, " is under no operand or operator");
        if (!seen.insert(c).second) mc::failf("one place is marked twice:\n", msg);
        if (!has(msg, "\"" + q->s + "\"")) mc::failf("the message does not name the token \"", q->s, "\":\n", msg);
    }
}
struct Strings {
    std::vector<std::string> tok; int L;
    uint64_t size() const { uint64_t s = 0, k = 1; for (int i = 0; i <= L; ++i) { s += k; k *= tok.size(); } return s; }
    std::string get(uint64_t i) const { uint64_t k = 1; int n = 0; while (i >= k) { i -= k; k *= tok.size(); ++n; } std::string s; for (int j = 0; j < n; ++j) { s += tok[i % tok.size()]; i /= tok.size(); } return s; }
};
void addStrings(const std::string &name, const std::string &what, std::vector<std::string> tok, int L) {
    Strings S{std::move(tok), L};
    mc::add(name, what + ", every string of at most " + std::to_string(L), S.size(), [S](uint64_t i) { check(S.get(i)); }, [S](uint64_t i) { return show(S.get(i)); }, 1024);
}
// ---- errors of calculations
const std::vector<double> &nums() { static const std::vector<double> v = {0, 1, -1, 2.5, -3, 1e200, -1e200, 1e-200, 710, 1.7976931348623157e308}; return v; }
std::string opText(ref::Op o, double a, double b) { // how the failing operation is quoted
    std::string n = ref::opName(o);
    return ref::isBin(o) ? tomsolver::ToString(a) + " " + n + " " + tomsolver::ToString(b) : n + " " + tomsolver::ToString(a);
}
std::string squash(const std::string &s) { std::string r; for (char c : s) if (c != ' ' && c != '(' && c != ')') r += c; return r; }
double direct(ref::Op o, double a, double b) {
    ref::Val x, y; x.v = a; y.v = b;
    ref::Val r = ref::applyOp(o, x, y);
    return r.skip ? 1 : r.valid ? r.v : NAN;
}
void invalid(const Arena &A, int t) {
    Node n = build(A, t);
    // all operations of the tree that fail by themselves
    std::set<std::string> fails;
    bool skip = false;
    std::function<double(int, bool &)> go = [&](int k, bool &ok) -> double {
        auto &q = A.n[k];
        ok = true;
        if (q.op == ref::NUM) return q.v;
        bool a = true, b = true;
        double x = go(q.l, a), y = q.r >= 0 ? go(q.r, b) : 0;
        ok = a && b;
        if (!ok) return 0;
        ref::Val u, w; u.v = x; w.v = y;
        ref::Val r = ref::applyOp(q.op, u, w);
        if (r.skip) { skip = true; ok = false; return 0; }
        if (!r.valid || !std::isfinite(r.v)) { fails.insert(squash(opText(q.op, x, y))); ok = false; return 0; }
        return r.v;
    };
    bool ok; go(t, ok);
    if (skip) return;
    for (int how = 0; how < 2; ++how) {
        mc::step();
        bool thrown = false;
        try { if (how) { Node m = Clone(n); m->Calc(); } else (void)n->Vpa(); }
        catch (const MathError &e) {
            thrown = true;
            std::string w = e.what();
            mc::state(mc::hash(w));
            if (e.GetErrorType() != ErrorType::ERROR_INVALID_NUMBER) mc::failf(n->ToString(), ": type of the error");
            if (!has(w, GetErrorInfo(ErrorType::ERROR_INVALID_NUMBER))) mc::failf(n->ToString(), ": the message ", w, " does not say invalid number");
            bool named = false;
            for (auto &f : fails) named = named || has(squash(w), "\"" + f + "\"");
            if (!named) mc::failf(n->ToString(), ": the message names an operation that does not fail: ", w);
        }
        if (thrown != !fails.empty()) mc::failf(n->ToString(), thrown ? " fails" : " does not fail");
    }
}
const ErrorType allTypes[] = {ErrorType::ERROR_INVALID_NUMBER, ErrorType::ERROR_ILLEGALCHAR, ErrorType::ERROR_INVALID_VARNAME, ErrorType::ERROR_WRONG_EXPRESSION, ErrorType::ERROR_EMPTY_INPUT, ErrorType::ERROR_UNDEFINED_VARIABLE, ErrorType::ERROR_SUBS_NOT_EQUAL, ErrorType::ERROR_NOT_LINK_VARIABLETABLE, ErrorType::ERROR_OUTOF_DOMAIN, ErrorType::ERROR_VAR_COUNT_NOT_EQUAL_NUM_COUNT, ErrorType::ERROR_VAR_HAS_BEEN_DEFINED, ErrorType::ERROR_INDETERMINATE_EQUATION, ErrorType::ERROR_SINGULAR_MATRIX, ErrorType::ERROR_INFINITY_SOLUTIONS, ErrorType::ERROR_OVER_DETERMINED_EQUATIONS, ErrorType::SIZE_NOT_MATCH};
const char *words[] = {"invalid number", "illegal character", "variable name", "invalid expression", "empty", "undefined variable", "substitutions", "variable table", "domain", "number of variable", "redefined", "indeterminate", "singular", "infinite", "overdetermined", "size"};
const std::vector<std::string> edSeeds = {"a+b*c-d/2", "(a+b)*(c-d)", "sin(a)+cos(b)^2", "-(-a)*-b", "exp(-(a+1)^2/2.5e-1)", "a&b|c%d", "2*arcsin(x1)-log10(y_2)", "((((a+b)*c)-d)/e1)", "1.5e+3*a--b", " a + b ", "a*(b+(c*(d+(e_*f))))"};
const std::vector<std::string> ins = {"+", "-", "*", "/", "^", "%", "&", "|", "(", ")", "a", "2", "sin(", " ", "()", "#", ".", "1e", ",", " a ", ") (", "2z"};
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    addStrings("texts/tokens", "11 kinds of token", {"x", "12", "sin(", "+", "-", "*", "(", ")", " ", "2z", "#"}, th ? 7 : 6);
    addStrings("texts/operands", "operands next to operands", {"x", "yy ", " 2", "(", ")", "*", "-", "sin("}, th ? 8 : 7);
    addStrings("texts/operators", "every operator", {"x", "+", "-", "*", "/", "^", "%", "&", "|", "(", ")"}, th ? 7 : 6);
    addStrings("texts/characters", "telling characters", [] { std::vector<std::string> v; for (char c : std::string("x2.eE+-*()_ \t\n#,\x80")) v.push_back(std::string(1, c)); return v; }(), th ? 6 : 5);
    static std::vector<std::string> ed;
    ed.clear();
    for (auto &s : edSeeds) for (size_t at = 0; at <= s.size(); ++at) {
        for (auto &q : ins) { std::string r = s; ed.push_back(r.insert(at, q)); if (at < s.size()) { r = s; ed.push_back(r.replace(at, 1, q)); } }
        if (at < s.size()) { std::string r = s; ed.push_back(r.erase(at, 1)); ed.push_back(s.substr(at)); ed.push_back(s.substr(0, at)); }
    }
    add("texts/edits", "every single edit of long well-formed texts", ed.size(), [](uint64_t i) { check(ed[i]); }, [](uint64_t i) { return show(ed[i]); }, 128);
    static std::vector<std::string> ed2;
    ed2.clear();
    { std::vector<std::string> two = {"(a+b)*(c-d)", "-(-a)*-b"}; if (th) two.push_back("sin(a)+cos(b)^2");
      for (auto &s : two) for (size_t at = 0; at <= s.size(); ++at) for (auto &q : ins) for (size_t bt = at; bt <= s.size(); ++bt) for (auto &p : ins) { std::string r = s; r.insert(bt, p); r.insert(at, q); ed2.push_back(r); } }
    add("texts/two insertions", "every pair of insertions into two (thorough: three) texts", ed2.size(), [](uint64_t i) { check(ed2[i]); }, [](uint64_t i) { return show(ed2[i]); }, 512);
    add("texts/byte sequences", "120 sequences (byte order marks, blanks and operators of Unicode, comments, operators and numbers of other languages ...) put in at every place of 12 texts, in place of every byte, and also at the end", withSequences().size(), [](uint64_t i) { check(withSequences()[i]); }, [](uint64_t i) { return show(withSequences()[i]); }, 128);
    static int N = th ? 300 : 120;
    add("texts/long", "chains of n tokens with one or two faults at place k", (uint64_t)N * 10 * 6, [](uint64_t i) {
        mc::Dec d(i);
        int bad = (int)d.take(10), where = (int)d.take(6), n = (int)d.take(N) + 1;
        int k = where == 0 ? 0 : where == 1 ? n : where == 2 ? n / 2 : where == 3 ? n / 3 : where == 4 ? n - 1 : 1;
        const char *b[] = {"", "a b", "()", "1a", "(c", "c)", "c d e", "*", "#", "a (b) c"};
        std::string s;
        for (int j = 0; j <= n; ++j) { if (j) s += "+-*/^%&|"[j % 8]; s += j == k || (j == n - k && i % 2) ? b[bad] : ("v" + std::to_string(j)); }
        check(s);
    }, nullptr, 64);
    static std::vector<int> far = {250, 255, 256, 257, 4095, 4096, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131071, 131072};
    if (th) for (int q : {262144, 1000000}) far.push_back(q);
    add("texts/far", "a fault of 9 kinds at positions up to 131072 (thorough: 1000000), behind terms, one name, one number, blanks or parentheses, at the end or in the middle", far.size() * 9 * 5 * 2, [](uint64_t i) {
        mc::Dec d(i);
        int P = far[d.take(far.size())], bad = (int)d.take(9), pad = (int)d.take(5); bool tail = d.take(2);
        const char *b[] = {"a b", "()", "1a", "(c", "c)", "c d e", "*", "#", "a (b) c"};
        std::string s;
        if (pad == 0) while ((int)s.size() + 2 < P) s += s.size() % 400 ? "x+" : "yy-"; // the fault starts at P or just before
        else if (pad == 1) s = std::string(P - 1, 'n') + "+";
        else if (pad == 2) s = "0." + std::string(P - 3, '7') + "*";
        else if (pad == 3) s = std::string(P, ' ');
        else { while ((int)s.size() + 14 <= P) s += "(x+sin(yz))-"; s += std::string(P - s.size(), ' '); }
        s += b[bad];
        if (tail) s += "+x*(y-2)";
        check(s);
    }, [](uint64_t i) { mc::Dec d(i); int P = far[d.take(far.size())], bad = (int)d.take(9), pad = (int)d.take(5); return "fault " + std::to_string(bad) + " behind " + std::to_string(P) + " characters of kind " + std::to_string(pad); }, 2);
    static int NF = th ? 250 : 60;
    add("texts/many faults", "n operands without operators, of six kinds, separated in three ways, in six places of a text", (uint64_t)NF * 6 * 3 * 6, [](uint64_t i) {
        mc::Dec d(i);
        int kind = (int)d.take(6), sep = (int)d.take(3), place = (int)d.take(6), n = (int)d.take(NF) + 2;
        std::string s;
        for (int j = 0; j < n; ++j) {
            std::string v = "v" + std::to_string(j);
            const std::string item[] = {v, std::to_string(j), "(" + v + ")", "(" + v + "+b)", "sin(" + v + ")", j % 2 ? v : "(" + v + "*2)"};
            s += (j ? sep == 0 ? " " : sep == 1 ? "\t  " : std::string(j % 4 + 1, ' ') : "") + item[kind];
        }
        const char *before[] = {"", "x+", "(", "x*(y-", "  ", "exp("}, *after[] = {"", "*z", ")", ")/2", "   ", ")^2"};
        check(before[place] + s + after[place]);
    }, nullptr, 32);
    // calculations
    static const std::vector<ref::Op> ops = [] { std::vector<ref::Op> v = {ref::ADD, ref::SUB, ref::MUL, ref::DIV, ref::POW, ref::AND, ref::OR, ref::MOD, ref::NEG, ref::POS}; for (auto f : ref::ALLFUN) v.push_back(f); return v; }();
    static const uint64_t no = ops.size(), nn = nums().size();
    add("calculations/one", "every operator at all pairs of telling numbers", no * nn * nn, [](uint64_t i) {
        mc::Dec d(i); auto o = ops[d.take(no)]; double a = nums()[d.take(nn)], b = nums()[d.take(nn)];
        Arena A; int x = A.num(a); invalid(A, ref::isBin(o) ? A.bin(o, x, A.num(b)) : A.un(o, x));
    }, nullptr, 64);
    add("calculations/two", "every pair of operators, the first at the left or right of the second or both, at telling numbers", no * no * 3 * nn * nn * nn, [](uint64_t i) {
        mc::Dec d(i); auto o = ops[d.take(no)], q = ops[d.take(no)]; int side = (int)d.take(3); double a = nums()[d.take(nn)], b = nums()[d.take(nn)], c = nums()[d.take(nn)];
        Arena A;
        auto mk = [&](ref::Op o, int l, int r) { return ref::isBin(o) ? A.bin(o, l, r) : A.un(o, l); };
        if (!ref::isBin(q) && side) return;
        int in = mk(o, A.num(a), A.num(b));
        invalid(A, side == 0 ? mk(q, in, ref::isBin(q) ? A.num(c) : -1) : side == 1 ? A.bin(q, A.num(c), in) : A.bin(q, in, mk(o, A.num(c), A.num(b))));
    }, [](uint64_t i) {
        mc::Dec d(i); auto o = ops[d.take(no)], q = ops[d.take(no)]; int side = (int)d.take(3); double a = nums()[d.take(nn)], b = nums()[d.take(nn)], c = nums()[d.take(nn)];
        std::ostringstream s; s << ref::opName(o) << " below " << ref::opName(q) << " side " << side << " at " << a << " " << b << " " << c; return s.str();
    }, 1024);
    // names
    static Strings NM{{"a", "_", "1", "-", " ", "sin", "#", "\x80", "."}, 4};
    add("names", "every string of at most 4 telling pieces as a name of a variable and as a name looked up", NM.size(), [](uint64_t i) {
        std::string s = NM.get(i);
        bool legal = s.size() && (isalpha((unsigned char)s[0]) || s[0] == '_');
        for (unsigned char c : s) legal = legal && c < 128 && (isalnum(c) || c == '_');
        mc::step(2);
        std::string w; bool threw = false;
        try { (void)Var(s); } catch (const std::runtime_error &e) { threw = true; w = e.what(); }
        bool fun = isFunName(s);
        if (!fun && threw != !legal) mc::failf("Var(", show(s), ") ", threw ? "throws" : "does not throw");
        if (threw && !has(w, s)) mc::failf("the message ", w, " does not name ", show(s));
        VarsTable t{{"zz", 1.0}};
        threw = false;
        try { (void)t[s]; } catch (const std::out_of_range &e) { threw = true; w = e.what(); }
        if (!threw || !has(w, s)) mc::failf("looking up ", show(s), threw ? ": the message does not name it: " + w : " does not throw");
        mc::state(w);
    }, [](uint64_t i) { return show(NM.get(i)); }, 64);
    static int NL = th ? 2000 : 400;
    add("names/long", "names of n characters: illegal at the front or the end, looked up in tables of 0 to 3 names, in rejected texts", (uint64_t)NL * 8, [](uint64_t i) {
        mc::Dec d(i);
        int how = (int)d.take(8), n = (int)d.take(NL) + 1;
        std::string s;
        for (int j = 0; j < n; ++j) s += (char)('a' + (j * 7 + n + j / 26) % 26);
        mc::step();
        std::string w; bool threw = false;
        if (how < 2) {
            if (how == 0) s = "7" + s; else s += "#";
            try { (void)Var(s); } catch (const std::runtime_error &e) { threw = true; w = e.what(); }
            if (!threw || !has(w, s)) mc::failf("Var of an illegal name of ", s.size(), " characters", threw ? ": the message does not name it: " + w : " does not throw");
        } else if (how < 5) {
            VarsTable one{{"z_z", 1.0}}, three{{"a_", 1.0}, {s + "1", 2.0}, {s.substr(0, s.size() - 1) + "_", 3.0}};
            const VarsTable &t = how == 2 ? one : three;
            if (how == 4) s = s.substr(0, s.size() / 2) + "9" + s.substr(s.size() / 2);
            try { (void)t[s]; } catch (const std::out_of_range &e) { threw = true; w = e.what(); }
            if (!threw || !has(w, s)) mc::failf("looking up a name of ", s.size(), " characters", threw ? ": the message does not name it: " + w : " does not throw");
        } else check(how == 5 ? "x+7" + s + "*2" : how == 6 ? s + " " + s : "(x-" + s + " 2)");
        mc::state(w);
    }, nullptr, 32);
    // error objects
    static const std::vector<std::string> ext = {"", "x", "a \"quoted\" text", "two\nlines", std::string(5000, 'w'), "invalid number"};
    add("error objects", "every type of error x additional texts: type, message, copies, classes", 16 * ext.size(), [](uint64_t i) {
        ErrorType t = allTypes[i % 16]; const std::string &e = ext[i / 16];
        if (!has(GetErrorInfo(t), words[i % 16])) mc::failf("description of error ", i % 16, " is ", GetErrorInfo(t));
        for (int k = 0; k < 16; ++k) if (k != (int)(i % 16) && GetErrorInfo(allTypes[k]) == GetErrorInfo(t)) mc::fail("two types have one description");
        mc::step();
        std::unique_ptr<MathError> c;
        auto look = [&](const std::exception &x) { std::string w = x.what(); mc::state(w); if (w.find(GetErrorInfo(t)) != 0 || !has(w.substr(GetErrorInfo(t).size()), e)) mc::failf("message is ", w); };
        try { std::string tmp = e; throw MathError(t, tmp); }
        catch (const std::runtime_error &x) { look(x); c.reset(new MathError(dynamic_cast<const MathError &>(x))); }
        look(*c);
        if (c->GetErrorType() != t) mc::fail("type of a copy");
        MathError o(ErrorType::SIZE_NOT_MATCH, "other"); o = *c; c.reset();
        look(o);
        if (o.GetErrorType() != t) mc::fail("type after assignment");
    }, nullptr, 4);
}
