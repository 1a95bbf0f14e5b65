// C20: calls leave their surroundings alone and do not depend on them.
#include "lib.h"
#include "probes.h"
#include "kinds.h"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <locale>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <xmmintrin.h>
extern char **environ;
namespace {
using namespace br;

// ---- what is written to standard output and standard error, below the stream objects
int capOut = -1, capErr = -1;
void capture() {
    static bool done = false;
    if (done) return;
    done = true;
    for (int k = 1; k <= 2; ++k) {
        int fd = memfd_create("c20", 0);
        if (fd < 0 || fcntl(fd, F_SETFL, O_APPEND)) mc::fail("harness: no scratch file");
        fflush(k == 1 ? stdout : stderr);
        if (k == 1) { dup2(fd, 1); capOut = fd; }
        else capErr = fd; // standard error stays where the sanitizers' reports are collected, except during a call
    }
}
off_t written(int fd) { struct stat s; fstat(fd, &s); return s.st_size; }

// ---- the surroundings
struct Seen {
    std::string text;
    bool operator!=(const Seen &o) const { return text != o.text; }
};
std::string streamState(std::ostream &s) {
    std::ostringstream o;
    o.imbue(std::locale::classic());
    o << (long)s.flags() << " " << s.precision() << " " << s.width() << " " << (int)s.fill() << " " << (int)s.rdstate() << " " << (int)s.exceptions() << " " << (void *)s.rdbuf() << " " << (void *)s.tie();
    return o.str();
}
std::locale *current; // the global C++ locale the case put in place
std::string firstDifference(const std::vector<std::pair<std::string, std::string>> &a, const std::vector<std::pair<std::string, std::string>> &b) {
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) return a[i].first + " was " + a[i].second + ", is " + b[i].second;
    return "";
}
std::vector<std::pair<std::string, std::string>> look() {
    std::vector<std::pair<std::string, std::string>> r;
    r.push_back({"std::cout", streamState(std::cout)});
    r.push_back({"std::cerr", streamState(std::cerr)});
    r.push_back({"std::clog", streamState(std::clog)});
    r.push_back({"std::cin", std::to_string((int)std::cin.rdstate()) + " " + std::to_string((long)std::cin.flags())});
    r.push_back({"the C locale", setlocale(LC_ALL, nullptr)});
    r.push_back({"the locale of the thread", std::to_string((long)uselocale(nullptr))});
    r.push_back({"the global C++ locale", std::locale() == *current ? "as set" : "another"});
    r.push_back({"the rounding mode", std::to_string(fegetround())});
    r.push_back({"the floating-point control word", std::to_string(_mm_getcsr() & 0xffc0u) + " " + std::to_string(fegetexcept())});
    std::string h;
    for (int s : {SIGFPE, SIGABRT, SIGILL, SIGINT, SIGTERM, SIGALRM, SIGUSR1, SIGPIPE, SIGCHLD}) { struct sigaction a; sigaction(s, nullptr, &a); h += std::to_string((long)a.sa_handler) + ","; }
    sigset_t m; sigprocmask(SIG_SETMASK, nullptr, &m);
    for (int s = 1; s < 65; ++s) h += sigismember(&m, s) ? '1' : '0';
    r.push_back({"the signal handlers", h});
    r.push_back({"the terminate handler", std::to_string((long)std::get_terminate())});
    r.push_back({"the new handler", std::to_string((long)std::get_new_handler())});
    char cwd[4096]; r.push_back({"the working directory", getcwd(cwd, sizeof cwd) ? cwd : "?"});
    std::string e; for (char **p = environ; p && *p; ++p) { e += *p; e += '\n'; }
    r.push_back({"the environment", std::to_string(mc::hash(e.data(), e.size()))});
    int fds = 0; for (int f = 0; f < 64; ++f) if (fcntl(f, F_GETFD) != -1) ++fds;
    r.push_back({"the number of open files", std::to_string(fds)});
    mode_t u = umask(0); umask(u); r.push_back({"the file mode mask", std::to_string(u)});
    return r;
}
// ---- settings of the surroundings under which a call must give the same result
struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};
// named locales, made for this run: a decimal comma, a decimal point of two bytes, another table of characters
const std::string &localeDir() {
    static const std::string dir = [] {
        char cwd[4096] = "";
        std::string d = mc::opt.tmp;
        if (d[0] != '/') d = std::string(getcwd(cwd, sizeof cwd) ? cwd : "") + "/" + d;
        d += "/locales";
        mkdir(d.c_str(), 0755);
        for (auto l : {"de_DE UTF-8", "ps_AF UTF-8", "de_DE ISO-8859-1"}) {
            std::string w = l, name = w.substr(0, 5), map = w.substr(6), to = d + "/" + name + "." + map;
            if (access((to + "/LC_NUMERIC").c_str(), R_OK)) if (system(("localedef -i " + name + " -f " + map + " '" + to + "' > /dev/null 2>&1").c_str())) {}
        }
        setenv("LOCPATH", d.c_str(), 1);
        return d;
    }();
    return dir;
}
bool haveLocale(const char *n) {
    localeDir();
    std::string was = setlocale(LC_ALL, nullptr);
    bool r = setlocale(LC_ALL, n);
    setlocale(LC_ALL, was.c_str());
    return r;
}
struct Letters : std::ctype<char> { // a locale that takes every character for a letter
    static const mask *table() { static mask t[table_size]; for (auto &m : t) m = alpha | alnum | print | graph; return t; }
    Letters() : std::ctype<char>(table()) {}
};
enum Where { PLAIN, UNWINDING, IN_HANDLER, NESTED };
struct Setting { std::string name; std::function<void()> set; Where where; };
const std::vector<Setting> &settings() {
    static const std::vector<Setting> v = [] {
        std::vector<Setting> r;
        auto add = [&](const std::string &n, std::function<void()> f, Where w = PLAIN) { r.push_back({n, f, w}); };
        add("as the program starts", [] {});
        add("a global C++ locale with a decimal comma and digit grouping", [] { *current = std::locale(std::locale::classic(), new Comma); std::locale::global(*current); });
        add("a global C++ locale with another character table", [] { *current = std::locale(std::locale::classic(), new Letters); std::locale::global(*current); });
        add("std::cout in hexadecimal, scientific, 2 digits, width 9, filled", [] { std::cout << std::hex << std::showbase << std::uppercase << std::scientific << std::showpos << std::boolalpha; std::cout.precision(2); std::cout.width(9); std::cout.fill('*'); });
        add("std::cout imbued with a decimal comma", [] { std::cout.imbue(std::locale(std::locale::classic(), new Comma)); });
        add("std::cout failed", [] { std::cout.setstate(std::ios::badbit); });
        add("std::cerr failed and formatted", [] { std::cerr.setstate(std::ios::failbit); std::cerr << std::hex; });
        add("errno = ERANGE", [] { errno = ERANGE; });
        add("errno = EINVAL", [] { errno = EINVAL; });
        add("errno = EDOM", [] { errno = EDOM; });
        add("all floating-point flags raised", [] { feraiseexcept(FE_ALL_EXCEPT); });
        add("no floating-point flag raised", [] { feclearexcept(FE_ALL_EXCEPT); });
        add("an exception in flight (called from a destructor)", [] {}, UNWINDING);
        add("an exception being handled", [] {}, IN_HANDLER);
        add("a library error in flight inside the handling of another", [] {}, NESTED);
        for (auto l : {"de_DE.UTF-8", "ps_AF.UTF-8", "de_DE.ISO-8859-1"}) {
            if (!haveLocale(l)) { printf("note: no locale %s can be made here, left out\n", l); continue; }
            std::string n = l;
            add("setlocale(LC_ALL, " + n + ")", [n] { setlocale(LC_ALL, n.c_str()); });
            add("the global C++ locale " + n, [n] { *current = std::locale(n.c_str()); std::locale::global(*current); });
            add("this thread's locale " + n, [n] { static std::map<std::string, locale_t> m; locale_t &q = m[n]; if (!q) q = newlocale(LC_ALL_MASK, n.c_str(), nullptr); uselocale(q); });
        }
        add("environment variables of another language", [] { setenv("LANG", "de_DE.UTF-8", 1); setenv("LC_NUMERIC", "de_DE.UTF-8", 1); });
        return r;
    }();
    return v;
}
struct Restore { // puts everything back
    std::ios cout{nullptr}, cerr{nullptr};
    std::fenv_t fe;
    std::locale cpp, coutLoc;
    std::ios::iostate so, se;
    std::string lang, num, cloc = setlocale(LC_ALL, nullptr); bool hasLang, hasNum;
    Config cfg;
    Restore() : cpp(), coutLoc(std::cout.getloc()), so(std::cout.rdstate()), se(std::cerr.rdstate()), cfg(Config::Get()) {
        cout.copyfmt(std::cout); cerr.copyfmt(std::cerr); fegetenv(&fe);
        const char *p = getenv("LANG"); hasLang = p; if (p) lang = p;
        p = getenv("LC_NUMERIC"); hasNum = p; if (p) num = p;
        current = new std::locale(cpp);
    }
    ~Restore() {
        std::cout.clear(); std::cerr.clear();
        std::cout.copyfmt(cout); std::cerr.copyfmt(cerr); std::cout.imbue(coutLoc); std::cout.width(0); std::cerr.width(0);
        std::cout.clear(so); std::cerr.clear(se);
        fesetenv(&fe); std::locale::global(cpp); delete current; uselocale(LC_GLOBAL_LOCALE); setlocale(LC_ALL, cloc.c_str());
        if (hasLang) setenv("LANG", lang.c_str(), 1); else unsetenv("LANG");
        if (hasNum) setenv("LC_NUMERIC", num.c_str(), 1); else unsetenv("LC_NUMERIC");
        Config::Get() = cfg;
    }
};
// calls whose numbers have many digits: positions in long texts, sizes, counts, orders
const std::vector<pr::Probe> &wide() {
    static const std::vector<pr::Probe> v = [] {
        std::vector<pr::Probe> p;
        auto add = [&](const std::string &n, std::function<std::string()> f) { p.push_back({n, [f] { return pr::guard(f); }}); };
        for (int n : {7, 9, 10, 11, 99, 100, 999, 1000, 1234, 12345}) {
            std::string a(n, 'a'), b(n, ' ');
            for (std::string t : {a + "+", a + ")", b + "(x", b + "2x", a + " b", b + "x*/2", a + " b c d", b})
                add("Parse of a long text, " + t.substr(t.size() - 3) + std::to_string(n), [t] { return pr::N(Parse(t)); });
            add("Var of an illegal long name", [a] { return pr::N(Var("1" + a)); });
            add("lookup of an unknown long name", [a] { VarsTable t{{"x", 1}}; return pr::D(t[a]); });
            add("names of a long expression", [n] { std::string s = "x"; for (int k = 0; k < n % 200; ++k) s += "+v" + std::to_string(k); Node q = Parse(s); std::string r = q->ToString(); for (auto &w : q->GetAllVarNames()) r += w + " "; return r; });
            add("text of a long vector", [n] { Vec v(n % 300 + 1); for (int k = 0; k < v.Rows(); ++k) v[k] = k * 1000.5 - 1e6; return v.ToString() + pr::D(v.Norm2()); });
        }
        for (double d : {1234567.0, 1e15, 1.5e16, 123456.789, 1e-5, 1e300, 1e-300, -98765.4321, 1e6, 1000.0, 0.001})
            add("number " + pr::D(d), [d] { std::string r = tomsolver::ToString(d) + Num(d)->ToString() + Parse(Num(d)->ToString())->ToString() + pr::D(Parse(Num(d)->ToString())->Vpa()) + Mat({{d, d}, {1, d}}).ToString() + VarsTable{{"x", d}}.ToString(); std::ostringstream o; o << Num(d) << Mat({{d}}) << VarsTable{{"x", d}} << SymMat(Mat({{d}})); return r + o.str(); });
        for (std::string t : {"1234567/0", "log(0-1234567)", "0.001/0", "1e200^1234", "12345%0"}) add("Vpa " + t, [t] { return pr::D(Parse(t)->Vpa()); });
        add("SolveLinear, indeterminate, large numbers", [] { return SolveLinear(Mat({{12345, 1}, {24690, 2}}), Vec{1234567, 2469134}).ToString(); });
        add("Solve by an unknown method", [] { Config::Get().nonlinearMethod = (NonlinearMethod)12345; return Solve({Parse("x-1")}).ToString(); });
        add("high derivative", [] { return pr::N(Diff(Parse("x^1234"), "x", 12)); });
        return p;
    }();
    return v;
}
struct Call { std::string kind; const pr::Probe *p; };
const std::vector<Call> &calls() {
    static const std::vector<Call> v = [] {
        std::vector<Call> r;
        for (auto &k : pr::kinds()) for (auto &c : k.calls) r.push_back({k.name, &c});
        for (auto &c : pr::probes()) r.push_back({"probe", &c});
        for (auto &c : wide()) r.push_back({"wide", &c});
        return r;
    }();
    return v;
}
std::string runAt(const pr::Probe &p, Where w) {
    switch (w) {
    case UNWINDING: {
        std::string r;
        struct D { std::string &r; const pr::Probe &p; ~D() { r = p.run(); } };
        try { D d{r, p}; throw 1; } catch (int) {}
        return r;
    }
    case IN_HANDLER:
        try { throw std::runtime_error("elsewhere"); } catch (const std::exception &) { return p.run(); }
    case NESTED: {
        std::string r;
        struct D { std::string &r; const pr::Probe &p; ~D() { r = p.run(); } };
        try { Parse("1+"); } catch (const std::exception &) {
            try { D d{r, p}; Parse("1/0")->Vpa(); Var("1x"); } catch (const std::exception &) {}
        }
        return r;
    }
    default: return p.run();
    }
}
// log levels: below INFO silence is asked for
const LogLevel levels[] = {LogLevel::OFF, LogLevel::FATAL, LogLevel::ERROR, LogLevel::WARN, LogLevel::INFO, LogLevel::DEBUG, LogLevel::TRACE, LogLevel::ALL};
// calls on objects made beforehand: nothing else of the library runs between the setting and the call
struct Prepared { std::string name; std::function<std::function<std::string()>()> make; };
const std::vector<Prepared> &prepared() {
    static const std::vector<Prepared> v = [] {
        std::vector<Prepared> r;
        auto add = [&](const std::string &n, std::function<std::function<std::string()>()> f) { r.push_back({n, f}); };
        std::vector<std::string> texts;
        for (std::string f : {"sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp"}) for (std::string a : {"0.5", "-0.5", "0", "2", "1000", "-1000", "1e-320", "x"}) texts.push_back(f + "(" + a + ")");
        for (std::string o : {"+", "-", "*", "/", "^", "&", "|", "%"}) for (std::string a : {"2@3", "7.5@-2", "-2@0.5", "0@0", "1e300@1e300", "1e-300@1e300", "x@y", "x@2", "0@x"}) { std::string t = a; t.replace(t.find('@'), 1, o); texts.push_back(t); }
        for (auto t : {"x", "12345.678", "-x", "+(3)", "1e-310", "sin(x)^2+cos(x)^2", "(x+y)*(x-y)/(2-z)", "x^y^2", "-(-x)", "2^0.5*log(3)", "exp(1)-2.718281828459045", "1/3+2/7-0.1"}) texts.push_back(t);
        for (auto &t : texts) {
            using S = std::shared_ptr<Node>;
            auto node = [t] { return S(new Node(Parse(t))); };
            add("Vpa " + t, [node] { S n = node(); return [n] { return pr::D((*n)->Vpa()); }; });
            add("Calc " + t, [node] { S n = node(); return [n] { (*n)->Calc(); return pr::N(*n); }; });
            add("text of " + t, [node] { S n = node(); return [n] { std::ostringstream o; o << *n; return (*n)->ToString() + o.str(); }; });
            add("Simplify " + t, [node] { S n = node(); return [n] { Simplify(*n); return pr::N(*n); }; });
            if (t.find_first_of("&|%") == std::string::npos) add("Diff " + t, [node] { S n = node(); return [n] { return pr::N(Diff(*n, "x")) + pr::N(Diff(*n, "y", 2)); }; });
            add("Subs in " + t, [node] { S n = node(); return [n] { return pr::N(Subs(*n, "x", Num(0.1))) + pr::N(Subs(*n, VarsTable{{"x", 2}, {"y", 1.0 / 3}})); }; });
            add("Clone, compare and combine " + t, [node] { S n = node(); return [n] { Node c = Clone(*n); std::string r = c->Equal(*n) ? "equal" : "differs"; c += *n; return r + pr::N(c * *n) + pr::N(sqrt(-c)); }; });
            add("names of " + t, [node] { S n = node(); return [n] { std::string r; for (auto &w : (*n)->GetAllVarNames()) r += w + " "; return r; }; });
            add("SymMat of " + t, [node] { S n = node(); std::shared_ptr<SymMat> m(new SymMat({{Clone(*n), Num(2)}, {Var("x"), Clone(*n)}})); return [m] { return m->ToString() + (*m * *m).ToString() + (*m - *m).ToString() + Jacobian(m->ToSymVecOneByOne(), {"x", "y"}).ToString() + m->Subs(VarsTable{{"x", 0.5}, {"y", 2}, {"z", 3}}).Calc().ToMat().ToString(); }; });
        }
        for (double a : {0.0, 1.0, -2.5, 1e-17, 1e200}) for (double b : {1.0, 3.0, 1e-200}) {
            auto mk = [a, b] { return std::make_shared<Mat>(Mat({{a, b}, {b, 2}})); };
            std::string n = pr::D(a) + " " + pr::D(b);
            add("matrix laws " + n, [mk] { auto m = mk(); return [m] { Mat k = *m; std::string r = (k * k).ToString() + (k + k).ToString() + (k - k).ToString() + (-k).ToString() + (0.1 * k).ToString() + k.Transpose().ToString() + EachDivide(k, k + k).ToString(); for (double d : {Det(k, 2), k.Norm2(), k.NormInfinity(), k.NormNegInfinity(), k.Min()}) r += pr::D(d); r += k == k ? "=" : "!"; r += IsZero(k) ? "0" : "-"; r += k.PositiveDetermine() ? "p" : "n"; return r; }; });
            add("inverse " + n, [mk] { auto m = mk(); return [m] { return m->Inverse().ToString(); }; });
            add("linear " + n, [mk] { auto m = mk(); auto v = std::make_shared<Vec>(Vec{1, 0.3}); return [m, v] { return SolveLinear(*m, *v).ToString(); }; });
            add("table " + n, [a, b] { auto t = std::make_shared<VarsTable>(VarsTable{{"x", a}, {"y", b}}); return [t, a, b] { t->SetValues(Vec{b, a}); std::ostringstream o; o << *t; return o.str() + t->ToString() + pr::D((*t)["x"]) + (t->Has("q") ? "q" : "-") + (*t == *t ? "=" : "!") + pr::D((*t)["q"]); }; });
        }
        for (int lm = 0; lm < 2; ++lm) for (std::string e : {"x^2-4", "x^2+1", "exp(x)-2", "sin(x)", "x-5", "log(x)", "1/x-3", "x^3-2*x+2"}) for (double at : {1.0, -3.0, 0.1})
            add((lm ? "Solve by LM " : "Solve by Newton ") + e + " from " + pr::D(at), [lm, e, at] { Config::Get().nonlinearMethod = lm ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON; auto q = std::make_shared<SymVec>(SymVec({Parse(e)})); auto t = std::make_shared<VarsTable>(VarsTable{{"x", at}}); return [q, t] { return Solve(*q, *t).ToString() + Solve(*q).ToString(); }; });
        for (std::string t : {"1+2", "2.5e-3*x", "x y", "1e400", "2x", "", "sin(x", "x)", "1e-310+1e308", "1,5", "1,5*x", "x,y", "1.000,5", "1,000.5", "2.5,", ",5", ".5+5.", "1.5e-3", "1.5E+3*2.25", "\xe4", "x\xe4", "\xc3\xa4+1", "x\xa0+\xa0y", "\xd9\xab", "1\xd9\xab" "5", "0.1+0.01+0.001", "1.2.3", "1..2", "x.5", "0x1.8p1", "1'000", "(1.5)", "sin(1.5)%2.5", "1.5 2.5", "x\vy", "x\v+\fy\r\n", "INF", "nan"}) add("Parse " + t, [t] { return [t] { return pr::N(Parse(t)); }; });
        for (std::string t : {"x", "2x", "_", "", "\xe4", "x\xe4", "\xc4x", "\xb5", "\xc3\xa4", "\xdf", "x\xaa", "\xb2x", "sin", "I", "i"}) { add("Var " + t, [t] { return [t] { return pr::N(Var(t)) + (VarNameIsLegal(t) ? "y" : "n"); }; }); add("VarNameIsLegal " + t, [t] { return [t] { return std::string(VarNameIsLegal(t) ? "y" : "n"); }; }); }
        for (double d : {0.0, 0.1, -1e300, 5e-324, 123456789.125, 1.0 / 3}) add("number " + pr::D(d), [d] { return [d] { return tomsolver::ToString(d) + pr::D(double(Num(d)->Vpa())); }; });
        return r;
    }();
    return v;
}
struct Run { std::string result, changed; off_t out, err; int rnd; };
Run run(const pr::Probe &given, const Setting *s, LogLevel lv, bool thr, const Prepared *prep = nullptr) {
    capture();
    Run r;
    Restore g;
    Config::Get().logLevel = lv;
    Config::Get().throwOnInvalidValue = thr;
    std::function<std::string()> made;
    if (prep) made = prep->make();
    pr::Probe ready{"", [&] { return pr::guard(made); }};
    const pr::Probe &p = prep ? ready : given;
    if (s) s->set();
    if (ftruncate(capOut, 0) || ftruncate(capErr, 0)) mc::fail("harness: truncate");
    int keep = dup(2);
    fflush(nullptr);
    dup2(capErr, 2);
    auto before = look();
    srand(5);
    if (s) s->set(); // again: looking may have touched errno and the flags
    r.result = runAt(p, s ? s->where : PLAIN);
    auto after = look();
    r.changed = firstDifference(before, after);
    r.rnd = rand();
    fflush(nullptr);
    std::ios::iostate st = std::cout.rdstate(); std::cout.clear(); std::cout.flush(); std::cout.clear(st);
    st = std::cerr.rdstate(); std::cerr.clear(); std::cerr.flush(); std::clog.flush(); std::cerr.clear(st);
    dup2(keep, 2); close(keep);
    r.out = written(capOut); r.err = written(capErr);
    mc::step();
    return r;
}
void check(const Call &c, const Setting &s, LogLevel lv, bool thr, const Prepared *prep = nullptr) {
    Run base = run(*c.p, nullptr, LogLevel::WARN, thr, prep), r = run(*c.p, &s, lv, thr, prep);
    mc::state(r.result + s.name);
    if (r.result != base.result) mc::failf("gives ", r.result, "\n  and in ordinary surroundings ", base.result);
    if (!base.changed.empty()) mc::failf("leaves something behind: ", base.changed);
    if (!r.changed.empty()) mc::failf("leaves something behind: ", r.changed);
    srand(5);
    int want = rand();
    if (base.rnd != want || r.rnd != want) mc::fail("draws from the program's random numbers");
    if (base.out || base.err) mc::failf("writes ", (long)base.out, " bytes to standard output and ", (long)base.err, " to standard error under the default configuration");
    if (lv < LogLevel::INFO && r.out) mc::failf("writes ", (long)r.out, " bytes to standard output, at log level ", (int)lv);
    if (r.err) mc::failf("writes ", (long)r.err, " bytes to standard error, at log level ", (int)lv);
    if (r.out && c.kind.find("Solve") == std::string::npos && c.p->name.find("Solve") == std::string::npos && c.p->name.find("solve") == std::string::npos)
        mc::failf("is not a solver and writes ", (long)r.out, " bytes to standard output, at log level ", (int)lv);
}
// line searches have no log level of their own to obey but the configured one
std::string search(uint64_t i, bool &wrote, LogLevel lv) {
    mc::Dec d(i);
    double x0 = (double)((int)d.take(7) - 3) / 2, dd = (double)((int)d.take(7) - 3) / 2; int w = (int)d.take(6), u = (int)d.take(3), both = (int)d.take(2);
    if (w == 5) both = 0; // the Armijo search is for square systems
    int calls = 0;
    auto f = [w, &calls](Vec x) { Vec r(w == 5 ? 2 : 1); if (w == 5) { r[0] = x[0] * x[0] + 1; r[1] = -r[0]; return r; } ++calls; double v = x[0]; r[0] = w == 0 ? v * v - 2 : w == 1 ? v - 3 : w == 2 ? std::sin(v) : w == 3 ? std::sin(40 * v) + 2 : (calls % 2 ? 1 : 1 + 1.0 / calls); return r; };
    auto df = [w](Vec x) { Mat m(w == 5 ? 2 : 1, 1); if (w == 5) { m.Value(0, 0) = 2 * x[0]; m.Value(1, 0) = -2 * x[0]; return m; } double v = x[0]; m.Value(0, 0) = w == 0 ? 2 * v : w == 1 ? 1 : w == 2 ? std::cos(v) : w == 3 ? 40 * std::cos(40 * v) : 0; return m; };
    pr::Probe p{"line search", [&] { calls = 0; return both ? pr::guard([&] { return pr::D(Armijo(Vec{x0}, Vec{dd}, f, df)); }) : pr::guard([&] { return pr::D(FindAlpha(Vec{x0}, Vec{dd}, f, u == 0 ? 1e-5 : u == 1 ? 1e-15 : 0)); }); }};
    Run r = run(p, nullptr, lv, true);
    wrote = r.out || r.err;
    if (!r.changed.empty()) mc::failf("leaves something behind: ", r.changed);
    return r.result;
}
} // namespace

void mc::harness() {
    static const uint64_t nc = calls().size(), ns = settings().size();
    add("calls in surroundings", "every kind of call with every argument, in every setting of its surroundings, log level OFF and WARN, invalid numbers thrown or not", nc * ns * 4, [](uint64_t i) {
        mc::Dec d(i); auto &c = calls()[d.take(nc)]; auto &s = settings()[d.take(ns)]; int k = (int)d.take(4);
        check(c, s, k & 1 ? LogLevel::OFF : LogLevel::WARN, k & 2);
    }, [](uint64_t i) { mc::Dec d(i); auto &c = calls()[d.take(nc)]; auto &s = settings()[d.take(ns)]; int k = (int)d.take(4); return c.kind + " " + c.p->name + ", with " + s.name + (k & 1 ? ", log level OFF" : "") + (k & 2 ? "" : ", invalid numbers allowed"); }, 64);
    static const uint64_t np = prepared().size();
    static const pr::Probe none{"Solve", nullptr};
    add("calls on objects made before", "calls on expressions, matrices, tables and systems made before the surroundings are set, in every setting, invalid numbers thrown or not", np * ns * 2, [](uint64_t i) {
        mc::Dec d(i); auto &c = prepared()[d.take(np)]; auto &s = settings()[d.take(ns)]; int k = (int)d.take(2);
        check({c.name, &none}, s, LogLevel::WARN, k, &c);
    }, [](uint64_t i) { mc::Dec d(i); auto &c = prepared()[d.take(np)]; auto &s = settings()[d.take(ns)]; int k = (int)d.take(2); return c.name + ", with " + s.name + (k ? "" : ", invalid numbers allowed"); }, 64);
    add("calls and log levels", "every kind of call with every argument at every log level: only solvers write, to standard output, from INFO on", nc * 8, [](uint64_t i) {
        check(calls()[i / 8], settings()[0], levels[i % 8], true);
    }, [](uint64_t i) { auto &c = calls()[i / 8]; return c.kind + " " + c.p->name + " at log level " + std::to_string((int)levels[i % 8]); }, 64);
    if (opt.thorough)
        add("two calls in surroundings", "every ordered pair of the probes, in every setting of the surroundings", (uint64_t)pr::probes().size() * pr::probes().size() * ns, [](uint64_t i) {
            mc::Dec d(i); uint64_t np = pr::probes().size(); auto &a = pr::probes()[d.take(np)], &b = pr::probes()[d.take(np)]; auto &s = settings()[d.take(ns)];
            pr::Probe p{"", [&] { return a.run() + " then " + b.run(); }};
            Call c{"Solve", &p};
            check(c, s, LogLevel::WARN, true);
        }, [](uint64_t i) { mc::Dec d(i); uint64_t np = pr::probes().size(); auto &a = pr::probes()[d.take(np)], &b = pr::probes()[d.take(np)]; auto &s = settings()[d.take(ns)]; return a.name + ", then " + b.name + ", with " + s.name; }, 64);
    add("line searches", "both line searches, at log levels OFF and WARN", 7 * 7 * 6 * 3 * 2 * 2, [](uint64_t i) {
        bool w = false, v = false;
        std::string a = search(i / 2, w, i % 2 ? LogLevel::OFF : LogLevel::ERROR), b = search(i / 2, v, LogLevel::WARN);
        if (a != b) mc::failf("a line search gives ", a, " and, at another log level, ", b);
        if (w) mc::fail("a line search writes to a standard stream at a log level below WARN");
        mc::state(a);
    }, nullptr, 32);
}
