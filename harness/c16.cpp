// C16: results depend only on arguments and configuration, never on earlier calls.
// Every case runs in a process forked from one that has not called the library yet; expected transcripts come from
// processes that make one single call under the same configuration.
#include "mc.h"
#include "kinds.h"
#include <map>
using namespace br;
namespace {
constexpr size_t BUF = 1 << 20;
struct Box { char *p; Box() { p = (char *)mmap(nullptr, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(3); } };
inline void put(char *p, const std::string &s) { uint32_t n = (uint32_t)std::min(s.size(), BUF - 8); memcpy(p, &n, 4); memcpy(p + 4, s.data(), n); }
inline std::string get(char *p) { uint32_t n; memcpy(&n, p, 4); return std::string(p + 4, n); }

// run f in a forked process, return what it returned; a death is told in the text
template <class F> std::string inChild(F f, bool *died = nullptr) {
    static Box box;
    static int owner = 0;
    if (owner != (int)getpid()) { new (&box) Box; owner = (int)getpid(); } // one box per process that forks
    put(box.p, "");
    fflush(nullptr);
    pid_t c = fork();
    if (c == 0) {
        alarm(120);
        std::string r;
        try { r = f(); }
        catch (const std::exception &e) { r = std::string("!exception ") + e.what(); }
        catch (...) { r = "!unknown exception"; }
        put(box.p, r);
        _exit(0);
    }
    int st = 0;
    waitpid(c, &st, 0);
    if (st != 0) { if (died) *died = true; return "the process died, wait status " + std::to_string(st); }
    if (died) *died = false;
    return get(box.p);
}

// ---- model of the configuration
struct Cfg {
    bool thr = true; double eps = 1e-9; int log = (int)LogLevel::WARN; int maxit = 100; int method = (int)NonlinearMethod::NEWTON_RAPHSON; double init = 1.0; bool indet = false;
    std::string str() const { std::ostringstream s; s.precision(17); s << thr << " " << eps << " " << log << " " << maxit << " " << method << " " << init << " " << indet; return s.str(); }
};
Cfg snap() { auto &c = Config::Get(); Cfg r; r.thr = c.throwOnInvalidValue; r.eps = c.epsilon; r.log = (int)c.logLevel; r.maxit = c.maxIterations; r.method = (int)c.nonlinearMethod; r.init = c.initialValue; r.indet = c.allowIndeterminateEquation; return r; }
void apply(const Cfg &m) { auto &c = Config::Get(); c.throwOnInvalidValue = m.thr; c.epsilon = m.eps; c.logLevel = (LogLevel)m.log; c.maxIterations = m.maxit; c.nonlinearMethod = (NonlinearMethod)m.method; c.initialValue = m.init; c.allowIndeterminateEquation = m.indet; }

struct COp { std::string name; std::function<void(Config &)> lib; std::function<void(Cfg &)> model; };
const std::vector<COp> &cops() {
    static const std::vector<COp> v = {
        {"throwOnInvalidValue=false", [](Config &c) { c.throwOnInvalidValue = false; }, [](Cfg &c) { c.thr = false; }},
        {"epsilon=1e-3", [](Config &c) { c.epsilon = 1e-3; }, [](Cfg &c) { c.eps = 1e-3; }},
        {"epsilon=1e-12", [](Config &c) { c.epsilon = 1e-12; }, [](Cfg &c) { c.eps = 1e-12; }},
        {"logLevel=OFF", [](Config &c) { c.logLevel = LogLevel::OFF; }, [](Cfg &c) { c.log = (int)LogLevel::OFF; }},
        {"logLevel=ALL", [](Config &c) { c.logLevel = LogLevel::ALL; }, [](Cfg &c) { c.log = (int)LogLevel::ALL; }},
        {"maxIterations=3", [](Config &c) { c.maxIterations = 3; }, [](Cfg &c) { c.maxit = 3; }},
        {"nonlinearMethod=LM", [](Config &c) { c.nonlinearMethod = NonlinearMethod::LM; }, [](Cfg &c) { c.method = (int)NonlinearMethod::LM; }},
        {"initialValue=-2", [](Config &c) { c.initialValue = -2; }, [](Cfg &c) { c.init = -2; }},
        {"allowIndeterminateEquation=true", [](Config &c) { c.allowIndeterminateEquation = true; }, [](Cfg &c) { c.indet = true; }},
        {"Reset", [](Config &c) { c.Reset(); }, [](Cfg &c) { c = Cfg(); }},
        {"= Config()", [](Config &c) { c = Config(); }, [](Cfg &c) { c = Cfg(); }},
    };
    return v;
}
// ---- histories made of many calls
const std::vector<pr::Probe> &bulk() {
    static const std::vector<pr::Probe> v = {
        {"parse 1500 texts", [] { for (int i = 0; i < 1500; ++i) { try { Parse("x" + std::to_string(i) + (i % 3 ? "+" : "*") + std::to_string(i * 7) + "-y^" + std::to_string(i % 5)); } catch (...) {} } return std::string(); }},
        {"parse 1500 wrong texts", [] { for (int i = 0; i < 1500; ++i) { try { Parse(std::string(i % 40, '(') + "x" + std::to_string(i) + (i % 3 ? "+" : "1..")); } catch (...) {} } return std::string(); }},
        {"print 1500 numbers", [] { for (int i = 0; i < 1500; ++i) { tomsolver::ToString(i * 0.37 - 20); tomsolver::ToString(std::pow(1.7, i % 600 - 300)); } return std::string(); }},
        {"evaluate 1000 invalid", [] { for (int i = 0; i < 1000; ++i) { try { Parse("log(0-" + std::to_string(i) + ")")->Vpa(); } catch (...) {} } return std::string(); }},
        {"solve 60", [] { for (int i = 0; i < 60; ++i) { try { Solve(SymVec{Parse("x^2-" + std::to_string(i)), Parse("y*x-" + std::to_string(i % 7))}, VarsTable{{"x", 1.0 + i}, {"y", 2}}); } catch (...) {} } return std::string(); }},
        {"differentiate 500", [] { for (int i = 0; i < 500; ++i) { try { Diff(Parse("x^" + std::to_string(i) + "*sin(y*" + std::to_string(i) + ")"), i % 2 ? "x" : "y"); } catch (...) {} } return std::string(); }},
        {"matrices 500", [] { for (int i = 0; i < 500; ++i) { try { Mat a(1 + i % 4, 1 + i % 4, i); a.Value(0, 0) = 3; (a * a).Inverse(); SolveLinear(a, Vec(1 + i % 4, i)); } catch (...) {} } return std::string(); }},
        {"large matrix and deep expression", [] { Mat a(40, 40, 2); for (int i = 0; i < 40; ++i) a.Value(i, i) = 100 + i; SolveLinear(a, Vec(40, 1)); std::string s(3000, '('); s += "x"; s += std::string(3000, ')'); Node n = Parse(s + "+1"); std::string t = "x"; for (int i = 0; i < 3000; ++i) t += "*x"; n = Parse(t); Diff(n, "x"); Simplify(n); return std::string(); }},
    };
    return v;
}
// ---- objects made before a history and used after it
struct Objects {
    Node n = Parse("x^2*sin(y)-3/x"), m = Parse("1/0+y");
    VarsTable t = VarsTable{{"x", 2}, {"y", 0.5}};
    SymVec f = SymVec{Parse("x^2+y^2-5"), Parse("x*y-2")};
    SymMat s = SymMat{{Var("x"), Num(2)}, {Parse("x*y"), Var("y")}};
    Mat a = Mat{{2, 1}, {1, 3}};
    std::string use() {
        std::string r;
        r += pr::guard([&] { return pr::N(n) + pr::N(m) + pr::N(Diff(n, "x")); });
        r += pr::guard([&] { return pr::D(Subs(Clone(n), t)->Vpa()); });
        r += pr::guard([&] { return pr::T(t) + pr::T(Solve(f, t)); });
        r += pr::guard([&] { return s.ToString() + (s * s).ToString() + pr::M(a) + pr::M(SolveLinear(a, Vec{1, 2})); });
        r += pr::guard([&] { Simplify(m); return pr::N(m); });
        return r;
    }
};
std::map<std::string, std::string> cache;
const std::string &expected(const Cfg &c, int probe) { // probe -1: objects
    std::string key = std::to_string(probe) + "|" + c.str();
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    return cache[key] = inChild([&] {
        bool plain = c.str() == Cfg().str();
        if (probe < 0) { Objects o; if (!plain) apply(c); return o.use(); }
        if (!plain) apply(c); // the default configuration is not even touched
        return pr::probes()[probe].run();
    });
}
int nP() { return (int)pr::probes().size(); }
int nH() { return nP() + (int)cops().size() + (int)bulk().size(); }
int nS() { return nP() + (int)cops().size(); } // the short ones
std::string hname(int h) { if (h < nP()) return pr::probes()[h].name; h -= nP(); if (h < (int)cops().size()) return cops()[h].name; return bulk()[h - (int)cops().size()].name; }
void model(int h, Cfg &c) { if (h >= nP() && h < nP() + (int)cops().size()) cops()[h - nP()].model(c); }
std::string doH(int h) { // in the child
    if (h < nP()) return pr::probes()[h].run();
    h -= nP();
    if (h < (int)cops().size()) { cops()[h].lib(Config::Get()); return ""; }
    return bulk()[h - (int)cops().size()].run();
}
std::string diff(const std::string &what, const std::string &got, const std::string &want) {
    return "after a history, " + what + " gives\n    " + got + "\n  but in a fresh process with the same configuration\n    " + want;
}
// history (list of h), then the probes listed, then the objects made before it; run in a fresh process
void history(const std::vector<int> &hs, const std::vector<int> &probesAfter, bool objs) {
    std::vector<Cfg> cfg(1);
    for (int h : hs) { cfg.push_back(cfg.back()); model(h, cfg.back()); }
    for (size_t i = 0; i < hs.size(); ++i) if (hs[i] < nP()) expected(cfg[i], hs[i]);
    for (int p : probesAfter) expected(cfg.back(), p);
    if (objs) expected(cfg.back(), -1);
    std::string r = inChild([&]() -> std::string {
        std::unique_ptr<Objects> o;
        if (objs) o.reset(new Objects);
        auto checkCfg = [&](const Cfg &want, const std::string &after) -> std::string {
            Cfg got = snap();
            return got.str() == want.str() ? "" : "after " + after + " the configuration is [" + got.str() + "], expected [" + want.str() + "] (throwOnInvalidValue epsilon logLevel maxIterations method initialValue allowIndeterminate)";
        };
        for (size_t i = 0; i < hs.size(); ++i) {
            std::string got = doH(hs[i]);
            if (hs[i] < nP()) { const std::string &want = expected(cfg[i], hs[i]); if (got != want) return diff(hname(hs[i]), got, want); }
            std::string e = checkCfg(cfg[i + 1], hname(hs[i]));
            if (!e.empty()) return e;
        }
        for (int p : probesAfter) {
            std::string got = pr::probes()[p].run();
            const std::string &want = expected(cfg.back(), p);
            if (got != want) return diff(pr::probes()[p].name, got, want);
        }
        if (objs) { std::string got = o->use(); const std::string &want = expected(cfg.back(), -1); if (got != want) return diff("using objects made before it", got, want); }
        return checkCfg(cfg.back(), "all probes");
    });
    mc::step(hs.size() + probesAfter.size() + objs);
    std::string key;
    for (int h : hs) key += std::to_string(h) + ",";
    mc::state(key + cfg.back().str());
    if (!r.empty()) mc::fail(r);
}
// ---- the same kind of call with different arguments
std::map<std::string, std::string> kcache;
const std::string &kexpected(const Cfg &c, int k, int a) {
    std::string key = std::to_string(k) + "|" + std::to_string(a) + "|" + c.str();
    auto it = kcache.find(key);
    if (it != kcache.end()) return it->second;
    return kcache[key] = inChild([&] {
        if (c.str() != Cfg().str()) apply(c);
        return pr::kinds()[k].calls[a].run();
    });
}
struct KStep { int cop, call; }; // change the configuration (or not: -1), then call (or not: -1)
void khistory(int k, const std::vector<KStep> &hs) {
    std::vector<Cfg> cfg;
    Cfg c;
    for (auto &h : hs) { if (h.cop >= 0) cops()[h.cop].model(c); cfg.push_back(c); if (h.call >= 0) kexpected(c, k, h.call); }
    std::string r = inChild([&]() -> std::string {
        for (size_t i = 0; i < hs.size(); ++i) {
            if (hs[i].cop >= 0) cops()[hs[i].cop].lib(Config::Get());
            if (hs[i].call < 0) continue;
            std::string got = pr::kinds()[k].calls[hs[i].call].run();
            const std::string &want = kexpected(cfg[i], k, hs[i].call);
            if (got != want) return "step " + std::to_string(i) + ": " + diff(pr::kinds()[k].name + " of " + pr::kinds()[k].calls[hs[i].call].name, got, want);
        }
        return "";
    });
    mc::step(hs.size());
    if (!r.empty()) mc::fail(r);
}
std::string kdescribe(int k, const std::vector<KStep> &hs) {
    std::string s = pr::kinds()[k].name + ":";
    for (auto &h : hs) { if (h.cop >= 0) s += "  [" + cops()[h.cop].name + "]"; if (h.call >= 0) s += "  " + pr::kinds()[k].calls[h.call].name + ";"; }
    return s;
}
// (kind, i) of a flat list
struct Flat {
    std::vector<uint64_t> from{0};
    template <class F> explicit Flat(F size) { for (auto &k : pr::kinds()) from.push_back(from.back() + size(k.calls.size())); }
    uint64_t n() const { return from.back(); }
    int kind(uint64_t &i) const { int k = 0; while (i >= from[k + 1]) ++k; i -= from[k]; return k; }
};
std::string describe(const std::vector<int> &hs) { std::string s; for (int h : hs) s += (s.empty() ? "" : "  ;  ") + hname(h); return "history: " + s; }

// ---- calls during the initialisation of global variables
struct Early {
    std::vector<std::string> out;
    Early() {
        static std::ios_base::Init io;
        for (int i = 0; i < nP(); ++i) out.push_back(inChild([&] { return pr::probes()[i].run(); }));
        out.push_back(inChild([&] { return snap().str(); }));
        out.push_back(inChild([&] { Objects o; return o.use(); }));
    }
} early;

// ---- one object, changed and looked at in turn: what a look shows depends only on the changes made before it
template <class T> struct Kind {
    std::string name;
    std::vector<std::pair<std::string, std::function<T()>>> starts;
    std::vector<std::pair<std::string, std::function<void(T &)>>> changes;
    std::vector<std::pair<std::string, std::function<std::string(T &)>>> looks;
    std::map<std::string, std::string> cache;
    int nc() const { return (int)changes.size(); }
    int nl() const { return (int)looks.size(); }
    std::string change(int c, T &o) const { return pr::guard([&] { changes[c].second(o); return std::string(); }); }
    std::string look(int l, T &o) const { return pr::guard([&] { return looks[l].second(o); }); }
    const std::string &expected(int start, const std::vector<int> &cs, int l) { // l < 0: what the last change says
        std::string key = std::to_string(start) + ":";
        for (int c : cs) key += std::to_string(c) + ",";
        key += std::to_string(l);
        auto it = cache.find(key);
        if (it != cache.end()) return it->second;
        T o = starts[start].second();
        std::string r;
        for (int c : cs) r = change(c, o);
        if (l >= 0) r = look(l, o);
        return cache[key] = r;
    }
    std::string describe(int start, const std::vector<int> &h) const {
        std::string s = name + " " + starts[start].first + ":";
        for (int x : h) s += "  " + (x < nc() ? changes[x].first : "look at " + looks[x - nc()].first) + ";";
        return s;
    }
    void run(int start, const std::vector<int> &h) {
        if (cache.size() > 2000000) cache.clear();
        T o = starts[start].second();
        std::vector<int> cs;
        for (int x : h) {
            int l = -1;
            std::string got;
            if (x < nc()) { cs.push_back(x); got = change(x, o); } else { l = x - nc(); got = look(l, o); }
            const std::string &want = expected(start, cs, l);
            if (got != want) mc::fail(describe(start, h) + "\n    " + (l < 0 ? changes[x].first : looks[l].first) + " gives " + got + "\n    without the looks before it " + want);
        }
        for (int l = 0; l < nl(); ++l) {
            std::string got = look(l, o);
            const std::string &want = expected(start, cs, l);
            if (got != want) mc::fail(describe(start, h) + "\n    then " + looks[l].first + " gives " + got + "\n    without the looks before it " + want);
        }
        mc::step(h.size() + nl());
        mc::state(expected(start, cs, 0));
    }
};
Kind<Node> &nodes() {
    static Kind<Node> k;
    if (!k.starts.empty()) return k;
    k.name = "expression";
    for (const char *t : {"x", "a+b*c", "x^2*sin(y)-3/x", "-(x+1)", "1/0+y", "2*3+x*0", "log(0-x)", "(x+y)*(x-y)/(y^x)"}) k.starts.push_back({t, [t] { return Parse(t); }});
    auto ch = [&](const char *n, std::function<void(Node &)> f) { k.changes.push_back({n, f}); };
    ch("Simplify", [](Node &n) { Simplify(n); });
    ch("Calc", [](Node &n) { n->Calc(); });
    ch("n = Subs(Move(n), x, 2)", [](Node &n) { n = Subs(Move(n), "x", Num(2)); });
    ch("n = Subs(Move(n), y, q*x)", [](Node &n) { n = Subs(Move(n), "y", Var("q") * Var("x")); });
    ch("n = Subs(Move(n), {b, c, y}, values)", [](Node &n) { n = Subs(Move(n), std::map<std::string, double>{{"b", 2}, {"c", 0.5}, {"y", 3}}); });
    ch("n = Subs(n, {x, a}, {w, 1})", [](Node &n) { n = Subs(n, std::vector<std::string>{"x", "a"}, SymVec{Var("w"), Num(1)}); });
    ch("n = Diff(n, x)", [](Node &n) { n = Diff(n, "x"); });
    ch("n = Diff(Move(n), y)", [](Node &n) { n = Diff(Move(n), "y"); });
    ch("n += z", [](Node &n) { n += Var("z"); });
    ch("n = 2*n", [](Node &n) { n = Num(2) * n; });
    ch("n = -Move(n)", [](Node &n) { n = -Move(n); });
    ch("n ^= n", [](Node &n) { n ^= Clone(n); });
    ch("*n = *other", [](Node &n) { *n = *Parse("u/v+1"); });
    ch("*n = move(*other)", [](Node &n) { *n = std::move(*Parse("u*v-x")); });
    ch("n = Clone(n)", [](Node &n) { n = Clone(n); });
    auto lk = [&](const char *n, std::function<std::string(Node &)> f) { k.looks.push_back({n, f}); };
    lk("the text", [](Node &n) { return n->ToString(); });
    lk("the names", [](Node &n) { std::string s; for (auto &v : n->GetAllVarNames()) s += v + ","; return s; });
    lk("the value", [](Node &n) { return pr::D(n->Vpa()); });
    lk("equality", [](Node &n) { return std::to_string(n->Equal(Clone(n))) + std::to_string(n->Equal(Parse("x"))) + std::to_string(Parse("a+b*c")->Equal(n)); });
    lk("the clone", [](Node &n) { return pr::N(Clone(n)); });
    lk("the derivative", [](Node &n) { return pr::N(Diff(n, "x")); });
    lk("the substitution", [](Node &n) { return pr::D(Subs(n, VarsTable{{"x", 2}, {"y", 3}, {"a", 0.5}, {"b", 1}, {"c", 4}, {"q", 2}, {"z", 1}, {"w", 7}, {"u", 1}, {"v", 2}})->Vpa()); });
    lk("the simplified copy", [](Node &n) { Node m = Clone(n); Simplify(m); return pr::N(m); });
    lk("a use in a sum", [](Node &n) { return pr::N(n + Var("r") * n); });
    return k;
}
Kind<SymMat> &symmats() {
    static Kind<SymMat> k;
    if (!k.starts.empty()) return k;
    k.name = "symbolic matrix";
    k.starts = {{"2x2", [] { return SymMat{{Var("x"), Num(2)}, {Parse("x*y"), Var("y")}}; }}, {"2x1", [] { return SymMat{{Parse("x^2+y^2-5")}, {Parse("x*y-2")}}; }}, {"numbers", [] { return SymMat{{Num(1), Parse("2*3")}, {Parse("1/0"), Num(4)}}; }}, {"1x3", [] { return SymMat{{Parse("a"), Parse("b+x"), Parse("log(0-y)")}}; }}};
    auto ch = [&](const char *n, std::function<void(SymMat &)> f) { k.changes.push_back({n, f}); };
    ch("Value(0, 0) = u+1", [](SymMat &s) { s.Value(0, 0) = Var("u") + Num(1); });
    ch("last value = 7", [](SymMat &s) { s.Value(s.Rows() - 1, s.Cols() - 1) = Num(7); });
    ch("Simplify of a value", [](SymMat &s) { Simplify(s.Value(s.Rows() - 1, 0)); });
    ch("Subs x, y", [](SymMat &s) { s.Subs(VarsTable{{"x", 2}, {"y", 0.5}}); });
    ch("Subs y, u", [](SymMat &s) { s.Subs(std::map<std::string, double>{{"y", 3}, {"u", 1}}); });
    ch("Calc", [](SymMat &s) { s.Calc(); });
    ch("s = s - s", [](SymMat &s) { s = s - s; });
    ch("s = s.Clone()", [](SymMat &s) { s = s.Clone(); });
    ch("s = Jacobian", [](SymMat &s) { s = Jacobian(s, {"x", "y"}); });
    ch("s = s * s", [](SymMat &s) { if (s.Rows() == s.Cols()) s = s * s; });
    ch("swap of values", [](SymMat &s) { std::swap(s.Value(0, 0), s.Value(s.Rows() - 1, s.Cols() - 1)); });
    auto lk = [&](const char *n, std::function<std::string(SymMat &)> f) { k.looks.push_back({n, f}); };
    lk("the text", [](SymMat &s) { return s.ToString() + std::to_string(s.Rows()) + std::to_string(s.Cols()) + std::to_string(s.Empty()); });
    lk("the names", [](SymMat &s) { std::string r; for (auto &v : s.GetAllVarNames()) r += v + ","; return r; });
    lk("the numbers", [](SymMat &s) { return pr::M(s.ToMat()); });
    lk("equality", [](SymMat &s) { return std::to_string(s == s.Clone()) + std::to_string(s == SymMat{{Num(7)}}); });
    lk("the Jacobian", [](SymMat &s) { return Jacobian(s, {"x", "y"}).ToString(); });
    lk("the values with x and y", [](SymMat &s) { SymMat c = s.Clone(); c.Subs(VarsTable{{"x", 1.5}, {"y", -2}}); return c.ToString() + pr::guard([&] { return pr::M(c.Calc().ToMat()); }); });
    lk("one by one", [](SymMat &s) { return s.ToSymVecOneByOne().ToString(); });
    lk("the solution", [](SymMat &s) { return pr::T(Solve(s.ToSymVec(), VarsTable{{"x", 1}, {"y", 2.5}})); });
    lk("the product", [](SymMat &s) { return s.Rows() == s.Cols() ? (s * s).ToString() : std::string("-"); });
    return k;
}
Kind<Mat> &mats() {
    static Kind<Mat> k;
    if (!k.starts.empty()) return k;
    k.name = "matrix";
    k.starts = {{"2x2", [] { return Mat{{2, 1}, {1, 3}}; }}, {"3x3", [] { return Mat{{0, 2, 1}, {1, 0, 3}, {2, 5, 4}}; }}, {"singular", [] { return Mat{{1, 2}, {2, 4}}; }}, {"2x3", [] { return Mat{{1, 2, 3}, {-4, 5, 6}}; }}, {"zero", [] { return Mat(2, 2); }}};
    auto ch = [&](const char *n, std::function<void(Mat &)> f) { k.changes.push_back({n, f}); };
    ch("Value(0, 0) = 5", [](Mat &a) { a.Value(0, 0) = 5; });
    ch("Value(1, 0) *= 3", [](Mat &a) { a.Value(1, 0) *= 3; });
    ch("Row(0) = 4", [](Mat &a) { a.Row(0) = 4; });
    ch("Col(1) = -1", [](Mat &a) { a.Col(1) = -1; });
    ch("SwapRow", [](Mat &a) { a.SwapRow(0, 1); });
    ch("SwapCol", [](Mat &a) { a.SwapCol(0, 1); });
    ch("Resize(2, 2)", [](Mat &a) { a.Resize(2, 2); });
    ch("Zero", [](Mat &a) { a.Zero(); });
    ch("SetValue(2)", [](Mat &a) { a.SetValue(2); });
    ch("a += a", [](Mat &a) { a += a; });
    ch("a = -a", [](Mat &a) { a = -a; });
    ch("a = a.Transpose()", [](Mat &a) { a = a.Transpose(); });
    ch("a = a.Inverse()", [](Mat &a) { if (a.Rows() == a.Cols()) a = a.Inverse(); });
    ch("a = a * 0.5 - 1", [](Mat &a) { a = a * 0.5 - Mat(a.Rows(), a.Cols(), 1); });
    auto lk = [&](const char *n, std::function<std::string(Mat &)> f) { k.looks.push_back({n, f}); };
    lk("the values", [](Mat &a) { return pr::M(a); });
    lk("the text", [](Mat &a) { return a.ToString(); });
    lk("the norms", [](Mat &a) { return pr::D(a.Norm2()) + " " + pr::D(a.NormInfinity()) + " " + pr::D(a.NormNegInfinity()) + " " + pr::D(a.Min()); });
    lk("definiteness", [](Mat &a) { return a.Rows() == a.Cols() ? std::to_string(a.PositiveDetermine()) : std::string("-"); });
    lk("the transpose", [](Mat &a) { return pr::M(a.Transpose()); });
    lk("the inverse", [](Mat &a) { return a.Rows() == a.Cols() ? pr::M(a.Inverse()) : std::string("-"); });
    lk("the determinant", [](Mat &a) { return a.Rows() == a.Cols() ? pr::D(Det(a, a.Rows())) : std::string("-"); });
    lk("comparisons", [](Mat &a) { return std::to_string(IsZero(a)) + std::to_string(a == 2.0) + std::to_string(a == a.Transpose().Transpose()) + std::to_string(AllIsLessThan(a, Mat(a.Rows(), a.Cols(), 3))); });
    lk("the solution", [](Mat &a) { return pr::M(SolveLinear(a, Vec(a.Rows(), 1))); });
    lk("the product", [](Mat &a) { return pr::M(a * a.Transpose()); });
    return k;
}
template <class T> void oneObject(Kind<T> &(*kind)(), int len) {
    Kind<T> &k = kind();
    int A = k.nc() + k.nl();
    auto get = [kind, A, len](uint64_t i, int &start) {
        mc::Dec d(i);
        std::vector<int> h(len);
        for (int j = len; j--;) h[j] = (int)d.take(A);
        start = (int)d.take(kind().starts.size());
        return h;
    };
    uint64_t n = k.starts.size();
    for (int j = 0; j < len; ++j) n *= A;
    mc::add("one object/" + k.name + "/" + std::to_string(len), "every sequence of " + std::to_string(len) + " changes and looks on one " + k.name + ", then every look: each look as on an object that went through the same changes only", n,
        [kind, get](uint64_t i) { ConfigGuard cg; Config::Get().logLevel = LogLevel::OFF; int s; auto h = get(i, s); kind().run(s, h); },
        [kind, get](uint64_t i) { int s; auto h = get(i, s); return kind().describe(s, h); }, 256);
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    for (int len = 1; len <= (th ? 4 : 3); ++len) { oneObject(nodes, len); oneObject(symmats, len); oneObject(mats, len); }
    std::vector<int> all;
    for (int i = 0; i < nP(); ++i) all.push_back(i);
    std::vector<int> rev(all.rbegin(), all.rend());
    mc::add("initialisation", "every probe run while global variables are being initialised, compared with the same call in main", nP() + 2, [](uint64_t i) {
        std::string want = (int)i < nP() ? expected(Cfg(), (int)i) : (int)i == nP() ? Cfg().str() : expected(Cfg(), -1);
        mc::step();
        if (early.out[i] != want) mc::failf("during the initialisation of global variables:\n    ", early.out[i], "\n  in main:\n    ", want);
        if (want.compare(0, 16, "the process died") == 0) mc::fail(want);
    }, [](uint64_t i) { return (int)i < nP() ? pr::probes()[i].name : std::string((int)i == nP() ? "the default configuration" : "objects"); }, 4);
    mc::add("pairs", "one operation, then one probe, in a fresh process: every pair", (uint64_t)nS() * nP(), [](uint64_t i) {
        mc::Dec d(i); int p = (int)d.take(nP()), h = (int)d.take(nS());
        history({h}, {p}, false);
    }, [](uint64_t i) { mc::Dec d(i); int p = (int)d.take(nP()), h = (int)d.take(nS()); return describe({h, p}); }, 32);
    {
        static const Flat sq([](uint64_t n) { return n * n; }), one([](uint64_t n) { return n; });
        auto pair = [](uint64_t i, int &k) { k = sq.kind(i); uint64_t n = pr::kinds()[k].calls.size(); return std::vector<KStep>{{-1, (int)(i / n)}, {-1, (int)(i % n)}}; };
        mc::add("arguments", "for every kind of call: every ordered pair of its arguments, in a fresh process", sq.n(), [pair](uint64_t i) { int k; auto h = pair(i, k); khistory(k, h); },
            [pair](uint64_t i) { int k; auto h = pair(i, k); return kdescribe(k, h); }, 64);
        auto cfg = [](uint64_t i, int &k) {
            mc::Dec d(i); int o = (int)d.take(2), c = (int)d.take(cops().size()); uint64_t v = d.v; k = one.kind(v); int a = (int)v;
            return o ? std::vector<KStep>{{-1, a}, {c, a}, {9, a}} : std::vector<KStep>{{c, a}, {9, a}, {c, a}};
        };
        mc::add("arguments and configuration", "every call of every kind before, during and after every change of the configuration", one.n() * 2 * cops().size(), [cfg](uint64_t i) { int k; auto h = cfg(i, k); khistory(k, h); },
            [cfg](uint64_t i) { int k; auto h = cfg(i, k); return kdescribe(k, h); }, 64);
        auto run = [th](uint64_t i, int &k) {
            mc::Dec d(i); k = (int)d.take(pr::kinds().size()); int o = (int)d.v, n = (int)pr::kinds()[k].calls.size();
            std::vector<KStep> h;
            if (o == 0) { for (int r = 0; r < 2; ++r) for (int a = 0; a < n; ++a) h.push_back({-1, a}); for (int a = n; a--;) h.push_back({-1, a}); }
            else { int s = 1 + o; for (int a = 0; a < n * s; ++a) h.push_back({-1, a * s % n}); for (int a = 0; a + s < n; ++a) { h.push_back({-1, a + s}); h.push_back({-1, a}); h.push_back({-1, a + s}); } }
            return h;
        };
        mc::add("argument sequences", "for every kind of call: all its arguments in turn, forwards, backwards, with strides, and returning to earlier ones", pr::kinds().size() * (th ? 24 : 8), [run](uint64_t i) { int k; auto h = run(i, k); khistory(k, h); },
            [run](uint64_t i) { int k; run(i, k); return pr::kinds()[k].name; }, 1);
        mc::spaces.back().hang = 120;
    }
    mc::add("repeat/kinds", "a call of each kind " + std::to_string(th ? 300000 : 70000) + " times in one process", pr::kinds().size(), [th](uint64_t i) { khistory((int)i, std::vector<KStep>(th ? 300000 : 70000, KStep{-1, (int)(i % pr::kinds()[i].calls.size())})); }, [](uint64_t i) { return pr::kinds()[i].name; }, 1);
    mc::spaces.back().hang = 300;
    mc::add("repeat", "each probe " + std::to_string(th ? 70000 : 4000) + " times in one process", nP(), [th](uint64_t i) { history(std::vector<int>(th ? 70000 : 4000, (int)i), {}, true); }, [](uint64_t i) { return describe({(int)i}); }, 1);
    mc::spaces.back().hang = 300;
    mc::add("operation, then all", "one operation, then all probes in both orders and objects made before it", nH(), [all, rev](uint64_t i) {
        history({(int)i}, all, true); history({(int)i}, rev, false);
    }, [](uint64_t i) { return describe({(int)i}); }, 1);
    mc::add("reset", "every set of changed configuration fields (first or last value of each), then Reset: all defaults, and every probe as in a fresh process", 1 << 9, [all](uint64_t i) {
        std::vector<int> hs;
        for (int k = 0; k < 9; ++k) if (i >> k & 1) hs.push_back(nP() + k);
        hs.push_back(nP() + 9);
        history(hs, i % 8 == 0 ? all : std::vector<int>(), false);
    }, nullptr, 4);
    mc::add("two operations, then all", "every pair of operations, then all probes and objects made before it", (uint64_t)nS() * nS(), [all](uint64_t i) {
        mc::Dec d(i); int a = (int)d.take(nS()), b = (int)d.take(nS());
        history({a, b}, all, true);
    }, [](uint64_t i) { mc::Dec d(i); int a = (int)d.take(nS()), b = (int)d.take(nS()); return describe({a, b}); }, 8);
    mc::add("probe twice around", "operation a, probe p, operation b, probe p: every a and b among the configuration changes and probes that throw, every p", 20ull * 20 * nP(), [](uint64_t i) {
        static std::vector<int> ops;
        if (ops.empty()) {
            for (int h = nP(); h < nS(); ++h) ops.push_back(h);
            for (int h = 0; h < nP() && ops.size() < 20; ++h) if (expected(Cfg(), h).find("Error") != std::string::npos && h % 2) ops.push_back(h);
        }
        mc::Dec d(i); int a = (int)d.take(20), b = (int)d.take(20), p = (int)d.take(nP());
        if (a < (int)ops.size() && b < (int)ops.size()) history({ops[a], p, ops[b], p}, {}, false);
    }, nullptr, 64);
    if (th) {
        mc::add("long, short, all", "every long sequence of calls and every operation in both orders, then all probes", (uint64_t)bulk().size() * nS() * 2, [all](uint64_t i) {
            mc::Dec d(i); int o = (int)d.take(2), a = (int)d.take(nS()), b = nS() + (int)d.take(bulk().size());
            if (o) history({a, b}, all, true); else history({b, a}, all, true);
        }, nullptr, 1);
        mc::spaces.back().hang = 120;
        mc::add("three operations, then all", "every triple of operations, then all probes and objects made before it", (uint64_t)nS() * nS() * nS(), [all](uint64_t i) {
            mc::Dec d(i); int a = (int)d.take(nS()), b = (int)d.take(nS()), c = (int)d.take(nS());
            history({a, b, c}, all, true);
        }, [](uint64_t i) { mc::Dec d(i); int a = (int)d.take(nS()), b = (int)d.take(nS()), c = (int)d.take(nS()); return describe({a, b, c}); }, 8);
    }
}
