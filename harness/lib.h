// Bridge between the reference terms and the library under test (public API only).
#pragma once
#include "ref.h"
#include <tomsolver/tomsolver.h>
#ifndef FLAVOUR_SINGLE
#include <tomsolver/error_type.h>
#endif

namespace br {
using namespace tomsolver;
using ref::Arena;
using ref::Env;

inline Node binNode(ref::Op o, Node a, Node b) {
    switch (o) {
    case ref::ADD: return Move(a) + Move(b);
    case ref::SUB: return Move(a) - Move(b);
    case ref::MUL: return Move(a) * Move(b);
    case ref::DIV: return Move(a) / Move(b);
    case ref::POW: return Move(a) ^ Move(b);
    default: break;
    }
    std::map<std::string, Node> d; // & | % have no C++ operator: take them from parsed text
    d.insert(std::make_pair(std::string("L__"), Move(a)));
    d.insert(std::make_pair(std::string("R__"), Move(b)));
    return Subs(Parse(o == ref::AND ? "L__&R__" : o == ref::OR ? "L__|R__" : "L__%R__"), d);
}
inline Node unNode(ref::Op o, Node a) {
    switch (o) {
    case ref::POS: return +Move(a);
    case ref::NEG: return -Move(a);
    case ref::SIN: return sin(Move(a));
    case ref::COS: return cos(Move(a));
    case ref::TAN: return tan(Move(a));
    case ref::ASIN: return asin(Move(a));
    case ref::ACOS: return acos(Move(a));
    case ref::ATAN: return atan(Move(a));
    case ref::SQRT: return sqrt(Move(a));
    case ref::LOG: return log(Move(a));
    case ref::LOG2: return log2(Move(a));
    case ref::LOG10: return log10(Move(a));
    case ref::EXP: return exp(Move(a));
    default: mc::fail("bridge: bad unary");
    }
}
inline Node build(const Arena &A, int t) {
    const ref::TN &q = A.n[t];
    if (q.op == ref::NUM) return Num(q.v);
    if (q.op == ref::VAR) return Var(q.name);
    if (ref::isUn(q.op)) return unNode(q.op, build(A, q.l));
    return binNode(q.op, build(A, q.l), build(A, q.r));
}
struct LV {
    enum K { VALUE, INVALID, OTHER } k = VALUE;
    double v = 0;
    std::string what;
};
inline LV vpa(const Node &n) {
    LV r;
    mc::step();
    try { r.v = n->Vpa(); }
    catch (const MathError &e) { r.k = e.GetErrorType() == ErrorType::ERROR_INVALID_NUMBER ? LV::INVALID : LV::OTHER; r.what = e.what(); }
    catch (const std::exception &e) { r.k = LV::OTHER; r.what = e.what(); }
    return r;
}
inline LV value(const Node &n, const Env &env) {
    return vpa(Subs(n, env));
}
// library value l against reference value r; extra = additional absolute tolerance
inline void same(const LV &l, const ref::Val &r, const std::string &what, double extra = 0) {
    if (r.skip) return;
    if (!r.valid) {
        if (l.k != LV::INVALID) mc::failf(what, ": expected an invalid-number error, got ", l.k == LV::VALUE ? "value " : "other error ", l.v, l.what);
        return;
    }
    if (l.k != LV::VALUE) mc::failf(what, ": expected value ", r.v, ", got error ", l.what);
    double tol = 1e-13 * std::fabs(r.v) + 200 * r.err + extra + 1e-300;
    if (!(std::fabs(l.v - r.v) <= tol)) mc::failf(what, ": expected ", r.v, ", got ", l.v, " (tolerance ", tol, ")");
}
// 3 assignments used to tell expressions apart: small integers, powers of two, fractions
inline const std::vector<Env> &envs() {
    static const std::vector<Env> e = [] {
        std::vector<Env> r(4);
        double a[4][10] = {{5, 3, 2, 7, 4, 6, 3, 2, 9, 5}, {2, 4, 1, 8, 2, 4, 1, 2, 8, 4}, {1.5, 0.75, 2.25, 0.5, 1.25, 3.5, 0.25, 1.75, 2.5, 0.875}, {-3, 2, -5, 3, -2, 7, 4, -1, 2, -6}};
        for (int k = 0; k < 4; ++k) {
            for (int i = 0; i < 10; ++i) r[k][std::string(1, (char)('a' + i))] = a[k][i];
            r[k]["x"] = a[k][0]; r[k]["y"] = a[k][1]; r[k]["z"] = a[k][2]; r[k]["w"] = a[k][3];
        }
        return r;
    }();
    return e;
}
struct ConfigGuard {
    Config saved;
    ConfigGuard() : saved(Config::Get()) {}
    ~ConfigGuard() { Config::Get() = saved; }
};
// the text of a matrix: rows on lines in brackets, elements separated by commas (blanks do not matter)
inline void layout(const std::string &text, int rows, int cols, const std::function<std::string(int, int)> &element, const char *what) {
    auto bad = [&](const char *why) { mc::failf(what, ": the text of a ", rows, "x", cols, " matrix ", why, ":\n", text); };
    auto trim = [](std::string s) { size_t a = s.find_first_not_of(" \n"), b = s.find_last_not_of(" \n"); return a == std::string::npos ? std::string() : s.substr(a, b - a + 1); };
    std::string t = trim(text);
    mc::step();
    if (t.size() < 2 || t[0] != '[' || t.back() != ']' || text.back() != '\n') bad("is not a line or lines in brackets");
    std::vector<std::vector<std::string>> e(1, std::vector<std::string>(1));
    for (char c : t.substr(1, t.size() - 2)) { if (c == '\n') e.emplace_back(1); else if (c == ',') e.back().emplace_back(); else e.back().back() += c; }
    if ((int)e.size() != rows) bad("does not have its number of lines");
    for (int i = 0; i < rows; ++i) {
        if ((int)e[i].size() != cols) bad("has a line with another number of elements");
        for (int j = 0; j < cols; ++j) if (trim(e[i][j]) != element(i, j)) mc::failf(what, ": in the text of a ", rows, "x", cols, " matrix the element (", i, ",", j, ") is ", e[i][j], ", expected ", element(i, j), ":\n", text);
    }
}

// texts with a telling sequence of bytes put in at a place, or in place of a byte
inline const std::vector<std::string> &withSequences() {
    static const std::vector<std::string> v = [] {
        std::vector<std::string> seq = {"\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\xC2\xA0", "\xE2\x80\x8B", "\xE3\x80\x80", "\xE2\x88\x92", "\xC3\x97", "\xC3\xB7", "\xC2\xB7", "\xEF\xBC\x88", "\xEF\xBC\x89",
            "\xEF\xBC\x8B", "\xE2\x80\x93", "\xCF\x80", "\xC2\xB2", "\xE2\x88\x9A", "\x1A", std::string(1, 0), std::string("\0x", 2), "\x7f", "\x1b[0m", "\x85", "\xA0", "\xE2\x80\xA8", "//", "//c\n", "/*c*/", "/*", "*/", "**", "==", "=", ":=", ";", ";;", "#",
            "#\n", ",", "\"", "'", "\"x\"", "\\", "\\n", "\\\n", "%%", "&&", "||", "!", "!=", "<", "<=", ">", "[", "]", "[0]", "{", "}", "{}", "@", "~", "`", "?", ":", "?:", "$", "$x", "%d", "%s", "+-", "-+", "--", "++", "^^", "//2", "0x", "0b1", "1e", "e+", "E-5", "1e+-2", ".", "..", "...", "_",
            "1_000", "1'000", "1,5", "2i", "1f", "1L", "1u", "1.0f", "\r\n", "\n\n", "\x0b", "\f", " \t ", "&amp;", "<!--", "x()", "sin", "sin()", "()", "sinx", "sin2", "x.y", "a::b", "a->b", "x'", "2x", "x2", "2(", ")(", ")2", "1 000"};
        std::vector<std::string> base = {"x", "x+1", "a*(b-2)", "sin(y)^2", "-x", "1.5e-3*z", "(a)", " x ", "a%b&c|d", "log10(x2/3)", "", "  "}, r;
        for (auto &b : base) for (auto &q : seq) for (size_t at = 0; at <= b.size(); ++at) {
            std::string s = b;
            r.push_back(s.insert(at, q));
            r.push_back(r.back() + q); // and at the end too
            if (at < b.size()) { s = b; r.push_back(s.replace(at, 1, q)); }
        }
        return r;
    }();
    return v;
}
} // namespace br
