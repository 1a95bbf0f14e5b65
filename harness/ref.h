// Reference model of expressions: a plain term arena, evaluation with a running error bound, derivatives by Taylor
// arithmetic, an independent recursive-descent reader of the documented grammar, and exhaustive term enumeration.
// Nothing in here uses the library under test.
#pragma once
#include "mc.h"
#include <algorithm>
#include <limits>
#include <map>
#include <set>

namespace ref {

enum Op { NUM, VAR, POS, NEG, SIN, COS, TAN, ASIN, ACOS, ATAN, SQRT, LOG, LOG2, LOG10, EXP, ADD, SUB, MUL, DIV, POW, AND, OR, MOD };
inline bool isBin(Op o) { return o >= ADD; }
inline bool isFun(Op o) { return o >= SIN && o <= EXP; }
inline bool isUn(Op o) { return o >= POS && o <= EXP; }
inline const char *opName(Op o) {
    static const char *n[] = {"num", "var", "+", "-", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp", "+", "-", "*", "/", "^", "&", "|", "%"};
    return n[o];
}
static const Op ALLBIN[] = {ADD, SUB, MUL, DIV, POW, AND, OR, MOD};
static const Op ALLFUN[] = {SIN, COS, TAN, ASIN, ACOS, ATAN, SQRT, LOG, LOG2, LOG10, EXP};

struct TN {
    Op op;
    double v;
    int l, r;
    std::string name;
};
using Env = std::map<std::string, double>;

struct Val {
    double v = 0;
    double err = 0;    // bound on how far an equally correct evaluation (other association, printed numbers) may be
    bool valid = true; // no operator produced inf or nan
    bool skip = false; // outside the domain on which the comparison is meaningful (int casts, error bound crosses a discontinuity)
    bool zz = false;   // 0^0 occurred
};

inline double ulp(double v) { return std::fabs(v) * 2.3e-16 + 5e-324; }

inline Val applyOp(Op op, const Val &a, const Val &b) {
    Val r;
    r.valid = a.valid && b.valid;
    r.skip = a.skip || b.skip;
    r.zz = a.zz || b.zz;
    double x = a.v, y = b.v, e = 0;
    bool exact = false;
    auto intOk = [&](const Val &q) {
        if (!(q.v > -2147483649.0 && q.v < 2147483648.0)) return false;
        if (q.err > 0) { // the cast must give the same result over [v-err, v+err]
            double lo = std::trunc(q.v - 2 * q.err - 1e-12), hi = std::trunc(q.v + 2 * q.err + 1e-12);
            if (lo != hi) return false;
        }
        return true;
    };
    switch (op) {
    case POS: r.v = x; exact = true; e = a.err; break;
    case NEG: r.v = -x; exact = true; e = a.err; break;
    case SIN: r.v = std::sin(x); e = a.err; break;
    case COS: r.v = std::cos(x); e = a.err; break;
    case TAN: r.v = std::tan(x); e = a.err * (1 + r.v * r.v); break;
    case ASIN: case ACOS:
        r.v = op == ASIN ? std::asin(x) : std::acos(x);
        if (std::fabs(x) < 1) e = a.err / std::sqrt(1 - x * x);
        if (a.err > 0 && std::fabs(std::fabs(x) - 1) <= 4 * a.err) r.skip = true;
        break;
    case ATAN: r.v = std::atan(x); e = a.err; break;
    case SQRT:
        r.v = std::sqrt(x); e = x > 0 ? a.err / r.v : 0; exact = std::fma(r.v, r.v, -x) == 0;
        if (a.err > 0 && std::fabs(x) <= 4 * a.err) r.skip = true;
        break;
    case LOG: case LOG2: case LOG10:
        r.v = op == LOG ? std::log(x) : op == LOG2 ? std::log2(x) : std::log10(x);
        e = x != 0 ? 2 * a.err / std::fabs(x) : 0;
        if (a.err > 0 && std::fabs(x) <= 4 * a.err) r.skip = true;
        break;
    case EXP: r.v = std::exp(x); e = a.err * r.v; break;
    case ADD: case SUB: {
        double z = op == ADD ? y : -y;
        r.v = x + z; e = a.err + b.err;
        double bb = r.v - x;
        exact = ((x - (r.v - bb)) + (z - bb)) == 0;
        if (!exact) e += ulp(std::max(std::fabs(x), std::fabs(y))); // re-association
        break;
    }
    case MUL:
        r.v = x * y; e = std::fabs(x) * b.err + std::fabs(y) * a.err + a.err * b.err; exact = std::fma(x, y, -r.v) == 0;
        break;
    case DIV:
        r.v = x / y; e = y != 0 ? a.err / std::fabs(y) + std::fabs(r.v) * b.err / std::fabs(y) : 0; exact = std::fma(r.v, y, -x) == 0;
        if (b.err > 0 && std::fabs(y) <= 4 * b.err) r.skip = true;
        break;
    case POW:
        r.v = std::pow(x, y);
        if (x == 0 && y == 0) r.zz = true;
        exact = x == std::trunc(x) && y == std::trunc(y) && y >= 0 && std::fabs(r.v) < 9e15;
        if (a.err > 0 || b.err > 0) {
            e = (x != 0 ? std::fabs(r.v * y / x) * a.err : 0) + (x != 0 ? std::fabs(r.v * std::log(std::fabs(x))) * b.err : 0);
            if (x <= 4 * a.err && b.err > 0) r.skip = true; // neg^inexact
            if (std::fabs(x) <= 4 * a.err) r.skip = true;
        }
        if (x < 0 && y != std::trunc(y)) { /* nan: invalid */ }
        break;
    case AND: case OR: case MOD: {
        if (!r.valid || !intOk(a) || !intOk(b)) { r.skip = true; r.v = 0; break; }
        int i = (int)x, j = (int)y;
        exact = true;
        if (op == AND) r.v = i & j;
        else if (op == OR) r.v = i | j;
        else if (j == 0) r.v = std::numeric_limits<double>::quiet_NaN();
        else r.v = j == -1 ? 0 : i % j;
        break;
    }
    default: mc::fail("ref: bad op");
    }
    if (!std::isfinite(r.v)) r.valid = false;
    r.err = e + (exact ? 0 : ulp(r.v));
    if (!std::isfinite(r.err)) r.skip = true;
    if (r.valid && std::fabs(r.v) > 1e300) r.skip = r.skip || r.err > 0;
    return r;
}

// ---- Taylor coefficients c[0..jl()-1] in one variable ----
constexpr int JN = 8;
inline int &jl() { static int n = 4; return n; } // number of coefficients in use
struct Jet {
    double c[JN] = {};
    bool undef = false;
    double mag = 0;
    void upd() {
        for (double x : c) {
            if (!std::isfinite(x)) undef = true;
            mag = std::max(mag, std::fabs(x));
        }
    }
};
inline Jet jconst(double v) { Jet j; j.c[0] = v; j.upd(); return j; }
inline Jet carry(const Jet &a, const Jet &b) { Jet r; r.undef = a.undef || b.undef; r.mag = std::max(a.mag, b.mag); return r; }
inline Jet jadd(const Jet &a, const Jet &b, double s) { Jet r = carry(a, b); for (int i = 0; i < jl(); ++i) r.c[i] = a.c[i] + s * b.c[i]; r.upd(); return r; }
inline Jet jmul(const Jet &a, const Jet &b) {
    Jet r = carry(a, b);
    for (int i = 0; i < jl(); ++i) for (int k = 0; k <= i; ++k) r.c[i] += a.c[k] * b.c[i - k];
    r.upd(); return r;
}
inline Jet jdiv(const Jet &a, const Jet &b) {
    Jet r = carry(a, b);
    if (std::fabs(b.c[0]) < 1e-3) { r.undef = true; return r; }
    for (int i = 0; i < jl(); ++i) { double s = a.c[i]; for (int k = 1; k <= i; ++k) s -= b.c[k] * r.c[i - k]; r.c[i] = s / b.c[0]; }
    r.mag = std::max(r.mag, 1 / std::fabs(b.c[0]));
    r.upd(); return r;
}
inline Jet jexp(const Jet &a) {
    Jet r = carry(a, a);
    r.c[0] = std::exp(a.c[0]);
    for (int i = 1; i < jl(); ++i) { double s = 0; for (int k = 1; k <= i; ++k) s += k * a.c[k] * r.c[i - k]; r.c[i] = s / i; }
    r.upd(); return r;
}
inline Jet jlog(const Jet &a) {
    Jet r = carry(a, a);
    if (a.c[0] < 1e-3) { r.undef = true; return r; }
    r.c[0] = std::log(a.c[0]);
    for (int i = 1; i < jl(); ++i) { double s = i * a.c[i]; for (int k = 1; k < i; ++k) s -= k * r.c[k] * a.c[i - k]; r.c[i] = s / (i * a.c[0]); }
    r.mag = std::max(r.mag, 1 / a.c[0]);
    r.upd(); return r;
}
inline void jsincos(const Jet &a, Jet &s, Jet &c) {
    s = carry(a, a); c = carry(a, a);
    s.c[0] = std::sin(a.c[0]); c.c[0] = std::cos(a.c[0]);
    for (int i = 1; i < jl(); ++i) {
        double x = 0, y = 0;
        for (int k = 1; k <= i; ++k) { x += k * a.c[k] * c.c[i - k]; y -= k * a.c[k] * s.c[i - k]; }
        s.c[i] = x / i; c.c[i] = y / i;
    }
    s.upd(); c.upd();
}
inline Jet jsqrt(const Jet &a) {
    Jet r = carry(a, a);
    if (a.c[0] < 1e-3) { r.undef = true; return r; }
    r.c[0] = std::sqrt(a.c[0]);
    for (int i = 1; i < jl(); ++i) { double s = a.c[i]; for (int k = 1; k < i; ++k) s -= r.c[k] * r.c[i - k]; r.c[i] = s / (2 * r.c[0]); }
    r.mag = std::max(r.mag, 1 / r.c[0]);
    r.upd(); return r;
}
// f with f' = g(a) a'
inline Jet jint(double f0, const Jet &g, const Jet &a) {
    Jet r = carry(g, a);
    r.c[0] = f0;
    for (int i = 1; i < jl(); ++i) { double s = 0; for (int k = 1; k <= i; ++k) s += k * a.c[k] * g.c[i - k]; r.c[i] = s / i; }
    r.upd(); return r;
}
inline Jet jscale(Jet a, double s) { for (double &x : a.c) x *= s; a.upd(); return a; }
inline bool jisconst(const Jet &a) { for (int i = 1; i < jl(); ++i) if (a.c[i] != 0) return false; return true; }
inline Jet jpow(const Jet &a, const Jet &b, bool fixedExp) {
    if (fixedExp && b.c[0] == std::trunc(b.c[0]) && std::fabs(b.c[0]) <= 8) {
        int n = (int)std::fabs(b.c[0]);
        Jet r = jconst(1);
        if (std::fabs(a.c[0]) < 1e-3) { r.undef = true; return r; }
        for (int i = 0; i < n; ++i) r = jmul(r, a);
        r = b.c[0] < 0 ? jdiv(jconst(1), r) : r;
        Jet q = carry(a, b); r.undef |= q.undef; r.mag = std::max({r.mag, q.mag, 1 / std::fabs(a.c[0])});
        return r;
    }
    return jexp(jmul(b, jlog(a)));
}

struct Arena {
    std::vector<TN> n;
    int num(double v) { n.push_back({NUM, v, -1, -1, ""}); return (int)n.size() - 1; }
    int var(const std::string &s) { n.push_back({VAR, 0, -1, -1, s}); return (int)n.size() - 1; }
    int un(Op o, int a) { n.push_back({o, 0, a, -1, ""}); return (int)n.size() - 1; }
    int bin(Op o, int a, int b) { n.push_back({o, 0, a, b, ""}); return (int)n.size() - 1; }

    Val eval(int t, const Env &env) const {
        const TN &q = n[t];
        if (q.op == NUM) { Val r; r.v = q.v; return r; }
        if (q.op == VAR) {
            Val r;
            auto it = env.find(q.name);
            if (it == env.end()) { r.skip = true; return r; }
            r.v = it->second; return r;
        }
        Val a = eval(q.l, env), b;
        if (isBin(q.op)) b = eval(q.r, env);
        return applyOp(q.op, a, b);
    }
    Jet jet(int t, const Env &env, const std::string &x) const {
        const TN &q = n[t];
        if (q.op == NUM) return jconst(q.v);
        if (q.op == VAR) { Jet j = jconst(env.at(q.name)); if (q.name == x) { j.c[1] = 1; j.upd(); } return j; }
        Jet a = jet(q.l, env, x), b, sn, cs;
        if (isBin(q.op)) b = jet(q.r, env, x);
        switch (q.op) {
        case POS: return a;
        case NEG: return jscale(a, -1);
        case SIN: jsincos(a, sn, cs); return sn;
        case COS: jsincos(a, sn, cs); return cs;
        case TAN: jsincos(a, sn, cs); return jdiv(sn, cs);
        case ASIN: case ACOS: {
            if (std::fabs(a.c[0]) > 0.999) { a.undef = true; return a; }
            Jet g = jdiv(jconst(1), jsqrt(jadd(jconst(1), jmul(a, a), -1)));
            return q.op == ASIN ? jint(std::asin(a.c[0]), g, a) : jint(std::acos(a.c[0]), jscale(g, -1), a);
        }
        case ATAN: return jint(std::atan(a.c[0]), jdiv(jconst(1), jadd(jconst(1), jmul(a, a), 1)), a);
        case SQRT: return jsqrt(a);
        case LOG: return jlog(a);
        case LOG2: return jscale(jlog(a), 1 / std::log(2.0));
        case LOG10: return jscale(jlog(a), 1 / std::log(10.0));
        case EXP: return jexp(a);
        case ADD: return jadd(a, b, 1);
        case SUB: return jadd(a, b, -1);
        case MUL: return jmul(a, b);
        case DIV: return jdiv(a, b);
        case POW: { std::set<std::string> s; names(q.r, s); return jpow(a, b, !s.count(x)); }
        default: { Jet r = carry(a, b); r.undef = true; return r; }
        }
    }
    void names(int t, std::set<std::string> &s) const {
        const TN &q = n[t];
        if (q.op == VAR) s.insert(q.name);
        if (q.l >= 0) names(q.l, s);
        if (q.r >= 0) names(q.r, s);
    }
    bool has(int t, Op o) const {
        const TN &q = n[t];
        return q.op == o || (q.l >= 0 && has(q.l, o)) || (q.r >= 0 && has(q.r, o));
    }
    bool equal(int a, const Arena &o, int b) const {
        const TN &p = n[a], &q = o.n[b];
        if (p.op != q.op) return false;
        if (p.op == NUM) return p.v == q.v;
        if (p.op == VAR) return p.name == q.name;
        return equal(p.l, o, q.l) && (p.r < 0 || equal(p.r, o, q.r));
    }
    int copy(const Arena &o, int t) {
        TN q = o.n[t];
        if (q.l >= 0) q.l = copy(o, q.l);
        if (q.r >= 0) q.r = copy(o, q.r);
        n.push_back(q);
        return (int)n.size() - 1;
    }
    // simultaneous substitution: map from name to term of this arena
    int subst(int t, const std::map<std::string, int> &m) {
        TN q = n[t];
        if (q.op == VAR) { auto it = m.find(q.name); return it == m.end() ? t : it->second; }
        if (q.op == NUM) return t;
        q.l = subst(q.l, m);
        if (q.r >= 0) q.r = subst(q.r, m);
        n.push_back(q);
        return (int)n.size() - 1;
    }
    static std::string numText(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
    // fully parenthesised text
    std::string text(int t) const {
        const TN &q = n[t];
        if (q.op == NUM) return q.v < 0 ? "(-" + numText(-q.v) + ")" : numText(q.v);
        if (q.op == VAR) return q.name;
        if (isFun(q.op)) return std::string(opName(q.op)) + "(" + text(q.l) + ")";
        if (isUn(q.op)) return std::string("(") + opName(q.op) + text(q.l) + ")";
        return "(" + text(q.l) + opName(q.op) + text(q.r) + ")";
    }
};

// ---- exhaustive term enumeration ----
// leaf kinds: >=0 index into the leaf callback
struct TermSpace {
    std::vector<Op> U, B;
    std::vector<std::function<int(Arena &, int &)>> leaves; // (arena, fresh-variable counter)
    std::vector<uint64_t> T, cum;
    int K;
    void init(int k) {
        K = k;
        T.assign(k + 1, 0);
        T[0] = leaves.size();
        for (int i = 1; i <= k; ++i) {
            T[i] = U.size() * T[i - 1];
            for (int a = 0; a < i; ++a) T[i] += B.size() * T[a] * T[i - 1 - a];
        }
        cum.assign(k + 2, 0);
        for (int i = 0; i <= k; ++i) cum[i + 1] = cum[i] + T[i];
    }
    uint64_t size() const { return cum[K + 1]; }
    int make(Arena &A, uint64_t idx) const {
        int fresh = 0;
        for (int k = 0; k <= K; ++k)
            if (idx < cum[k + 1]) return rec(A, k, idx - cum[k], fresh);
        mc::fail("TermSpace: index");
    }
    int rec(Arena &A, int k, uint64_t i, int &fresh) const {
        if (k == 0) return leaves[i](A, fresh);
        uint64_t u = U.size() * T[k - 1];
        if (i < u) { Op o = U[i % U.size()]; return A.un(o, rec(A, k - 1, i / U.size(), fresh)); }
        i -= u;
        for (int a = 0; a < k; ++a) {
            uint64_t c = B.size() * T[a] * T[k - 1 - a];
            if (i < c) {
                Op o = B[i % B.size()]; i /= B.size();
                int l = rec(A, a, i % T[a], fresh);
                int r = rec(A, k - 1 - a, i / T[a], fresh);
                return A.bin(o, l, r);
            }
            i -= c;
        }
        mc::fail("TermSpace: rec");
    }
    void leafNum(double v) { leaves.push_back([v](Arena &A, int &) { return A.num(v); }); }
    void leafVar(const std::string &s) { leaves.push_back([s](Arena &A, int &) { return A.var(s); }); }
    void leafFresh() { leaves.push_back([](Arena &A, int &f) { return A.var(std::string(1, (char)('a' + f++))); }); }
};

// ---- reference lexer and parser of the documented grammar ----
struct Reader {
    enum Kind { TNUM, TNAME, TFUN, TOP, TLP, TRP, TEND };
    struct Tok { Kind k; std::string s; double v; Op f; };
    std::vector<Tok> toks;
    bool lexOk = true;
    bool unspecified = false; // text whose treatment the grammar leaves open (special number spellings, function without parentheses)
    size_t p = 0;
    Arena *A = nullptr;
    bool ok = true;

    static bool fun(const std::string &s, Op &o) {
        static const std::map<std::string, Op> m = {{"sin", SIN}, {"cos", COS}, {"tan", TAN}, {"arcsin", ASIN}, {"arccos", ACOS}, {"arctan", ATAN}, {"asin", ASIN}, {"acos", ACOS}, {"atan", ATAN}, {"sqrt", SQRT}, {"log", LOG}, {"log2", LOG2}, {"log10", LOG10}, {"exp", EXP}};
        auto it = m.find(s);
        if (it == m.end()) return false;
        o = it->second;
        return true;
    }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
    // number := digits [. digits*] | . digits ; optional e[+-]digits. returns length of the longest number at s, 0 if none
    static size_t numberLen(const std::string &s, size_t i) {
        size_t j = i, d = 0;
        while (j < s.size() && dig(s[j])) ++j, ++d;
        if (j < s.size() && s[j] == '.') { ++j; while (j < s.size() && dig(s[j])) ++j, ++d; }
        if (!d) return 0;
        if (j < s.size() && (s[j] == 'e' || s[j] == 'E')) {
            size_t k = j + 1;
            if (k < s.size() && (s[k] == '+' || s[k] == '-')) ++k;
            size_t k0 = k;
            while (k < s.size() && dig(s[k])) ++k;
            if (k > k0) j = k;
        }
        return j - i;
    }
    void lex(const std::string &s) {
        size_t i = 0;
        while (i < s.size()) {
            char c = s[i];
            if (c == ' ' || (c >= '\t' && c <= '\r')) { ++i; continue; }
            if (c == '(') { toks.push_back({TLP, "(", 0, NUM}); ++i; continue; }
            if (c == ')') { toks.push_back({TRP, ")", 0, NUM}); ++i; continue; }
            if (strchr("+-*/^&|%", c) && c) { toks.push_back({TOP, std::string(1, c), 0, NUM}); ++i; continue; }
            // a word: up to the next operator, parenthesis or space; a sign inside a number's exponent belongs to it
            size_t nl = numberLen(s, i), j = i + nl;
            while (j < s.size() && !(s[j] == ' ' || (s[j] >= '\t' && s[j] <= '\r') || (s[j] && strchr("()+-*/^&|%", s[j])))) ++j;
            std::string w = s.substr(i, j - i);
            i = j;
            if (nl == w.size()) { toks.push_back({TNUM, w, strtod(w.c_str(), nullptr), NUM}); double v = toks.back().v; if (!std::isfinite(v)) unspecified = true; continue; }
            Op f;
            if (fun(w, f)) { toks.push_back({TFUN, w, 0, f}); continue; }
            // spellings that C number conversion accepts (inf, nan, hexadecimal) are left open
            char *end;
            (void)strtod(w.c_str(), &end);
            if (w.find('\0') == std::string::npos && *end == 0) { unspecified = true; toks.push_back({TNUM, w, strtod(w.c_str(), nullptr), NUM}); continue; }
            bool legal = alpha(w[0]);
            for (char q : w) legal = legal && (alpha(q) || dig(q));
            if (!legal) { lexOk = false; return; }
            toks.push_back({TNAME, w, 0, NUM});
        }
        toks.push_back({TEND, "", 0, NUM});
    }
    const Tok &peek() { return toks[p]; }
    bool op(const char *set, char &c) { if (peek().k == TOP && strchr(set, peek().s[0])) { c = peek().s[0]; return true; } return false; }
    static Op binOp(char c) { return c == '+' ? ADD : c == '-' ? SUB : c == '*' ? MUL : c == '/' ? DIV : c == '^' ? POW : c == '&' ? AND : c == '|' ? OR : MOD; }
    int sum() { int a = prod(); char c; while (ok && op("+-", c)) { ++p; int b = prod(); a = ok ? A->bin(binOp(c), a, b) : -1; } return a; }
    int prod() { int a = power(); char c; while (ok && op("*/", c)) { ++p; int b = power(); a = ok ? A->bin(binOp(c), a, b) : -1; } return a; }
    int power() { int a = bits(); char c; if (ok && op("^", c)) { ++p; int b = power(); return ok ? A->bin(POW, a, b) : -1; } return a; }
    int bits() { int a = mod(); char c; while (ok && op("&|", c)) { ++p; int b = mod(); a = ok ? A->bin(binOp(c), a, b) : -1; } return a; }
    int mod() { int a = prefix(); char c; while (ok && op("%", c)) { ++p; int b = prefix(); a = ok ? A->bin(MOD, a, b) : -1; } return a; }
    int prefix() {
        char c;
        if (op("+-", c)) { ++p; int a = prefix(); return ok ? A->un(c == '+' ? POS : NEG, a) : -1; }
        return primary();
    }
    int primary() {
        if (!ok) return -1;
        Tok t = peek();
        if (t.k == TNUM) { ++p; return A->num(t.v); }
        if (t.k == TNAME) { ++p; return A->var(t.s); }
        if (t.k == TLP) { ++p; int a = sum(); if (ok && peek().k == TRP) { ++p; return a; } ok = false; return -1; }
        if (t.k == TFUN) {
            ++p;
            if (peek().k != TLP) { ok = false; return -1; } // "sin x": see parse()
            int a = primary();
            return ok ? A->un(t.f, a) : -1;
        }
        ok = false;
        return -1;
    }
    // returns root or -1
    static int parse(const std::string &s, Arena &A, bool &unspecified) {
        Reader r;
        r.A = &A;
        r.lex(s);
        if (!r.lexOk) { unspecified = false; return -1; }
        int t = r.sum();
        if (r.ok && r.peek().k != TEND) r.ok = false;
        // functions without parentheses anywhere make the text unspecified
        for (size_t i = 0; i + 1 < r.toks.size(); ++i)
            if (r.toks[i].k == TFUN && r.toks[i + 1].k != TLP && r.toks[i + 1].k != TEND && r.toks[i + 1].k != TRP &&
                !(r.toks[i + 1].k == TOP && !strchr("+-", r.toks[i + 1].s[0]))) r.unspecified = true;
        unspecified = r.unspecified;
        return r.ok ? t : -1;
    }
};

} // namespace ref
