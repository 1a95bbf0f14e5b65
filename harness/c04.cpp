// C04: numbers survive conversion to text and back.
#include "lib.h"
using namespace br;

namespace {
double bitsToD(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
uint64_t dToBits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

void shape(const std::string &s, double v) {
    size_t i = 0;
    auto bad = [&](const char *why) { mc::failf("ToString(", v, ") = \"", s, "\": ", why); };
    if (s[i] == '-') ++i;
    size_t d = i;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
    if (i == d) bad("no digit");
    if (i - d > 1 && s[d] == '0') bad("superfluous leading zero");
    if (i < s.size() && s[i] == '.') {
        size_t f = ++i;
        while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
        if (i == f) bad("superfluous decimal point");
        if (s[i - 1] == '0') bad("superfluous trailing zero");
    }
    if (i < s.size()) {
        if (s[i] != 'e') bad("unexpected character");
        ++i;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
        size_t e = i;
        while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
        if (i == e || i != s.size()) bad("bad exponent");
    }
}
Node parse(const std::string &s) {
    mc::step();
    try { return Parse(s); } catch (const std::exception &e) { mc::failf("\"", s, "\" is not accepted: ", e.what()); }
}
void checkDouble(double v) {
    mc::step(3);
    std::string s = ToString(v);
    shape(s, v);
    if (v == 0 && s != "0") mc::failf("zero is printed as \"", s, "\"");
    if ((v < 0) != (s[0] == '-')) mc::failf("sign of ", v, " lost in \"", s, "\"");
    Node n = Num(v);
    if (n->ToString() != s) mc::failf("Num(", v, ") prints \"", n->ToString(), "\", ToString(double) \"", s, "\"");
    double q = n->Vpa();
    if (dToBits(q) != dToBits(v)) mc::failf("Num(", v, ") has the value ", q);
    Node m = parse(s);
    double w = m->Vpa(), d = std::fabs(w - v);
    if (!(d <= 1e-16 || d <= 1e-15 * std::fabs(v))) mc::failf(v, " is printed as \"", s, "\" and read as ", w);
    std::string t = s[0] == '-' ? s.substr(1) : s;
    double u = strtod(t.c_str(), nullptr);
    Node pos = Num(u), want = s[0] == '-' ? -pos : Clone(pos);
    if (!m->Equal(want)) mc::failf("\"", s, "\" is not read as a single number: ", m->ToString());
    mc::state(s);
    // the same number in an expression
    std::string e = (Var("x") * Num(std::fabs(v)))->ToString();
    if (e != "x*" + t) mc::failf("x times ", std::fabs(v), " prints \"", e, "\"");
}
const std::vector<uint64_t> &mant() {
    static const std::vector<uint64_t> m = [] {
        std::vector<uint64_t> r = {0, 1, 2, 3, 0xfffffffffffffull, 0xffffffffffffeull, 0x8000000000000ull, 0x7ffffffffffffull, 0x8000000000001ull, 0x5555555555555ull, 0xaaaaaaaaaaaaaull, 0x999999999999aull, 0x3333333333333ull, 0x921fb54442d18ull, 0x5bf0a8b145769ull, 0xc000000000000ull, 0x123456789abcdull};
        for (int b = 0; b < 52; b += mc::opt.thorough ? 1 : 3) { r.push_back(1ull << b); r.push_back((1ull << b) - 1); r.push_back(0xfffffffffffffull ^ (1ull << b)); }
        return r;
    }();
    return m;
}
// ---- literals ----
std::vector<std::string> ints, exps;
struct Lit {
    uint64_t n() const { return ints.size() * (ints.size() + 1) * exps.size(); }
    std::string get(uint64_t i) const {
        mc::Dec d(i);
        std::string a = ints[d.take(ints.size())];
        uint64_t f = d.take(ints.size() + 1);
        if (f) a += "." + ints[f - 1];
        return a + exps[d.take(exps.size())];
    }
};
void checkLit(const std::string &s) {
    if (s.find_first_of("0123456789") == std::string::npos || !ref::Reader::dig(s.find('e') == std::string::npos && s.find('E') == std::string::npos ? s[s.find_first_of("0123456789")] : '0')) return;
    if (s.empty() || ref::Reader::numberLen(s, 0) != s.size()) return;
    double want = strtod(s.c_str(), nullptr);
    if (!std::isfinite(want)) return;
    Node n = parse(s);
    double got = n->Vpa();
    if (dToBits(got) != dToBits(want)) mc::failf("\"", s, "\" is read as ", got, ", the nearest double is ", want);
    if (!n->Equal(Num(want))) mc::failf("\"", s, "\" is not read as a single number");
    mc::state(mc::hash(&want, 8));
}
void checkLitCtx(const std::string &s) {
    if (s.empty() || ref::Reader::numberLen(s, 0) != s.size()) return;
    double w = strtod(s.c_str(), nullptr);
    if (!std::isfinite(w)) return;
    const char *ctx[] = {"@-x", "x-@", "x+@", "@+x", "-@", "(@)", "@*x", "x/@", " @ ", "x*-@", "exp(@)", "x^@", "@-@", "(@+x)-@"};
    for (const char *c : ctx) {
        std::string t;
        for (const char *p = c; *p; ++p) { if (*p == '@') t += s; else t += *p; }
        std::map<std::string, Node> d;
        std::string u = c;
        Node n = parse(t);
        std::string v;
        for (const char *p = c; *p; ++p) { if (*p == '@') v += "N__"; else v += *p; }
        Node want = Subs(Parse(v), "N__", Num(w));
        if (!n->Equal(want)) mc::failf("\"", t, "\" is read as ", n->ToString());
    }
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    uint64_t nm = mant().size();
    add("doubles/exponents", "every exponent of double (subnormals included), both signs, telling mantissas", 2047 * nm * 2, [nm](uint64_t i) {
        mc::Dec d(i);
        uint64_t m = mant()[d.take(nm)], e = d.take(2047), s = d.take(2);
        checkDouble(bitsToD(s << 63 | e << 52 | m));
    }, [nm](uint64_t i) { mc::Dec d(i); uint64_t m = mant()[d.take(nm)], e = d.take(2047), s = d.take(2); char b[64]; snprintf(b, 64, "%a", bitsToD(s << 63 | e << 52 | m)); return std::string(b); }, 256);
    static std::vector<double> ds;
    ds.clear();
    for (int e = -323; e <= 308; ++e)
        for (double m : {1.0, 2.0, 5.0, 9.5, 1.5}) {
            double v = m * std::pow(10.0, e);
            if (!std::isfinite(v) || v == 0) continue;
            uint64_t b = dToBits(v);
            for (int k = -3; k <= 3; ++k) if (b + k < 0x7ff0000000000000ull) ds.push_back(bitsToD(b + k));
        }
    for (int e = 0; e <= 62; ++e) for (int k = -2; k <= 2; ++k) ds.push_back((double)((1ll << e) + k));
    for (long long p = 1; p <= 100000000000000000ll; p *= 10) for (int k = -20; k <= 20; ++k) for (int j : {1, 2, 7}) ds.push_back((double)(p * j) + k);
    for (int k = 0; k <= 3000; ++k) ds.push_back(k);
    add("doubles/neighbours", "neighbours of powers of ten and two, of integers and of the notation switch points", ds.size() * 2, [](uint64_t i) { checkDouble(i % 2 ? -ds[i / 2] : ds[i / 2]); },
        [](uint64_t i) { char b[64]; snprintf(b, 64, "%.17g", i % 2 ? -ds[i / 2] : ds[i / 2]); return std::string(b); }, 256);
    static uint64_t K = th ? 10000 : 2000;
    add("doubles/decimals", "every decimal fraction k / 10^d", K * 22 * 2, [](uint64_t i) {
        mc::Dec d(i);
        bool neg = d.take(2);
        uint64_t k = d.take(K);
        int e = (int)d.take(22);
        char b[64];
        snprintf(b, sizeof b, "%llue-%d", (unsigned long long)k, e);
        double v = strtod(b, nullptr);
        checkDouble(neg ? -v : v);
    }, nullptr, 256);
    ints.assign(1, "");
    std::string al = th ? "01259" : "0159";
    for (size_t a = 0, n = 1; a < 3; ++a) { size_t st = ints.size() - n, en = ints.size(); n = 0; for (size_t k = st; k < en; ++k) for (char c : al) { ints.push_back(ints[k] + c); ++n; } }
    exps.assign(1, "");
    for (std::string e : {"e", "E"}) for (std::string s : {"", "+", "-"}) for (std::string x : {"0", "1", "5", "9", "00", "05", "10", "15", "19", "22", "23", "51", "99", "007", "300", "305", "308", "320", "324", "400"}) exps.push_back(e + s + x);
    static Lit L;
    add("literals/all", "every literal: integer part, fraction and exponent over telling digits", L.n(), [](uint64_t i) { checkLit(L.get(i)); }, [](uint64_t i) { return L.get(i); }, 1024);
    static std::vector<std::string> sh = [] {
        std::vector<std::string> r;
        for (std::string a : {"", "0", "5", "10", "150"}) for (std::string f : {"", ".", ".0", ".5", ".25", ".500"}) for (auto &e : exps) if (e.size() < 4 || e[1] == '-') r.push_back(a + f + e);
        return r;
    }();
    add("literals/contexts", "literals next to operators, signs and parentheses", sh.size(), [](uint64_t i) { checkLitCtx(sh[i]); }, [](uint64_t i) { return sh[i]; });
    add("literals/long", "literals of n digits before and after the point, with and without exponent", 400 * 10 * 4, [](uint64_t i) {
        mc::Dec d(i);
        int kind = (int)d.take(4), dig = (int)d.take(10), n = (int)d.take(400) + 1;
        std::string a;
        for (int k = 0; k < n; ++k) a += (char)('0' + (dig == 9 ? (k * 7 + 3) % 10 : dig));
        std::string s = kind == 0 ? a : kind == 1 ? "0." + a : kind == 2 ? a + "." + a : a + "e-" + std::to_string(n);
        checkLit(s);
        if (kind != 2) { // halfway cases of the 53-bit mantissa
            std::string h = "9007199254740993" + (kind == 0 ? std::string(n % 40, '0') : kind == 1 ? "." + std::string(n % 60, '0') + "1" : "e" + std::to_string(n % 280));
            checkLit(h);
        }
    }, nullptr, 128);
}
