// Systems, starts and outcomes shared by the checks of nonlinear solving.
#pragma once
#include "lib.h"
#include <iostream>
namespace sv {
using namespace br;
struct Quiet { // keeps log output away and counts it
    std::ostringstream sink;
    std::streambuf *old;
    Quiet() { old = std::cout.rdbuf(sink.rdbuf()); }
    ~Quiet() { std::cout.rdbuf(old); }
};
typedef std::vector<std::pair<std::string, double>> Start;
inline std::string text(const Start &s) { std::ostringstream o; o.precision(17); for (auto &p : s) o << p.first << "=" << p.second << " "; return o.str(); }
struct Out {
    enum K { OK, MATH, OTHER } k = OK;
    ErrorType e{};
    std::string what;
    std::vector<std::string> names;
    std::vector<double> v;
    double at(const std::string &n) const { for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) return v[i]; return NAN; }
    std::string text() const { std::ostringstream o; o.precision(17); if (k == OK) for (size_t i = 0; i < v.size(); ++i) o << names[i] << "=" << v[i] << " "; else o << (k == MATH ? "MathError " : "error ") << what; return o.str(); }
    bool same(const Out &b) const {
        if (k != b.k) return false;
        if (k == MATH) return e == b.e;
        if (k == OTHER) return true;
        return names == b.names && v.size() == b.v.size() && memcmp(v.data(), b.v.data(), v.size() * 8) == 0;
    }
};
inline bool sameCfg(const Config &a, const Config &b) {
    return a.throwOnInvalidValue == b.throwOnInvalidValue && a.epsilon == b.epsilon && a.logLevel == b.logLevel && a.maxIterations == b.maxIterations &&
           a.nonlinearMethod == b.nonlinearMethod && a.initialValue == b.initialValue && a.allowIndeterminateEquation == b.allowIndeterminateEquation;
}
struct Sys {
    std::vector<std::string> eq;
    mutable std::shared_ptr<Arena> A;
    mutable std::vector<int> t;
    Sys() {}
    Sys(std::initializer_list<std::string> l) : eq(l) {}
    Sys(std::vector<std::string> l) : eq(std::move(l)) {}
    void read() const {
        if (A) return;
        A = std::make_shared<Arena>();
        for (auto &s : eq) { bool u; int k = ref::Reader::parse(s, *A, u); if (k < 0) mc::fail("bad system text " + s); t.push_back(k); }
    }
    SymVec lib() const { SymVec v((int)eq.size()); for (size_t i = 0; i < eq.size(); ++i) v[i] = Parse(eq[i]); return v; }
    std::string text() const { std::string s; for (auto &e : eq) s += (s.empty() ? "" : ", ") + e; return "{" + s + "}"; }
    std::set<std::string> names() const { read(); std::set<std::string> r; for (int k : t) A->names(k, r); return r; }
};
inline VarsTable table(const Start &s) {
    std::vector<std::string> n;
    Vec v((int)s.size());
    for (size_t i = 0; i < s.size(); ++i) { n.push_back(s[i].first); v[i] = s[i].second; }
    VarsTable t(n, 0);
    t.SetValues(v);
    return t;
}
inline Out outcome(std::function<VarsTable()> f) {
    Out o;
    mc::step();
    try {
        VarsTable r = f();
        for (auto &n : r.Vars()) { o.names.push_back(n); o.v.push_back(r[n]); }
        if (r.VarNums() != (int)o.names.size() || r.Values().Rows() != r.VarNums()) mc::fail("the returned table is inconsistent");
    } catch (const MathError &e) { o.k = Out::MATH; o.e = e.GetErrorType(); o.what = e.what(); }
    catch (const std::exception &e) { o.k = Out::OTHER; o.what = e.what(); }
    return o;
}
// entry: 0 Solve(eqs, table) by configuration, 1 direct call of the method's function, 2 Solve(eqs) from the configured initial value
inline Out call(const Sys &s, const Start &st, NonlinearMethod m, int entry) {
    Config::Get().nonlinearMethod = entry == 1 ? (m == NonlinearMethod::LM ? NonlinearMethod::NEWTON_RAPHSON : NonlinearMethod::LM) : m;
    SymVec f = s.lib(), f0 = s.lib();
    VarsTable t = entry == 2 ? VarsTable({"q"}, 0.0) : table(st);
    Config cfg = Config::Get();
    Quiet q;
    Out o = outcome([&] { return entry == 2 ? Solve(f) : entry == 0 ? Solve(f, t) : m == NonlinearMethod::LM ? SolveByLM(f, t) : SolveByNewtonRaphson(f, t); });
    if (!sameCfg(cfg, Config::Get())) mc::fail("solving changed the configuration");
    if (!(f == f0)) mc::fail("solving changed the equations");
    if (entry != 2) {
        if (t.VarNums() != (int)st.size()) mc::fail("solving changed the initial table");
        for (size_t i = 0; i < st.size(); ++i) { double a = t[st[i].first], b = t.Values()[i]; if (t.Vars()[i] != st[i].first || memcmp(&a, &st[i].second, 8) || memcmp(&b, &st[i].second, 8)) mc::fail("solving changed the initial table"); }
    }
    // the returned table
    if (o.k == Out::OK) {
        std::set<std::string> want, got(o.names.begin(), o.names.end());
        if (entry == 2) want = s.names(); else for (auto &p : st) want.insert(p.first);
        if (want != got || got.size() != o.names.size()) mc::failf("the returned table has other variables: ", o.text());
        s.read();
        Env env;
        for (size_t i = 0; i < o.v.size(); ++i) env[o.names[i]] = o.v[i];
        for (size_t i = 0; i < s.t.size(); ++i) {
            ref::Val v = s.A->eval(s.t[i], env);
            if (v.skip && v.valid) continue;
            if (!v.valid) mc::failf("equation ", s.eq[i], " has no valid value at the returned ", o.text());
            if (!(std::fabs(v.v) <= Config::Get().epsilon * 1.000001 + 200 * v.err)) mc::failf("equation ", s.eq[i], " is ", v.v, " at the returned ", o.text(), ", epsilon ", Config::Get().epsilon);
        }
    }
    mc::state(mc::hash(o.text()));
    return o;
}
inline NonlinearMethod method(uint64_t i) { return i ? NonlinearMethod::LM : NonlinearMethod::NEWTON_RAPHSON; }
inline const char *mname(uint64_t i) { return i ? "LM" : "Newton-Raphson"; }
} // namespace sv
