// C24: line searches return the step their rule demands.
#include "lib.h"
#include <iostream>
using namespace br;

namespace {
typedef std::vector<double> D;
typedef std::vector<long double> L;
// components of the functions searched along: value and gradient
struct Fn { const char *name; int n; std::function<L(const L &)> f; std::function<std::vector<L>(const L &)> g; };
const std::vector<Fn> &fns() {
    static const std::vector<Fn> r = {
        {"x-1", 1, [](const L &x) { return L{x[0] - 1}; }, [](const L &) { return std::vector<L>{{1}}; }},
        {"2x+3", 1, [](const L &x) { return L{2 * x[0] + 3}; }, [](const L &) { return std::vector<L>{{2}}; }},
        {"-x/4", 1, [](const L &x) { return L{-x[0] / 4}; }, [](const L &) { return std::vector<L>{{-0.25L}}; }},
        {"5", 1, [](const L &) { return L{5}; }, [](const L &) { return std::vector<L>{{0}}; }},
        {"x^2-2", 1, [](const L &x) { return L{x[0] * x[0] - 2}; }, [](const L &x) { return std::vector<L>{{2 * x[0]}}; }},
        {"x^2+1", 1, [](const L &x) { return L{x[0] * x[0] + 1}; }, [](const L &x) { return std::vector<L>{{2 * x[0]}}; }},
        {"x^3-x", 1, [](const L &x) { return L{x[0] * x[0] * x[0] - x[0]}; }, [](const L &x) { return std::vector<L>{{3 * x[0] * x[0] - 1}}; }},
        {"(x-4)^4", 1, [](const L &x) { return L{powl(x[0] - 4, 4)}; }, [](const L &x) { return std::vector<L>{{4 * powl(x[0] - 4, 3)}}; }},
        {"sin x", 1, [](const L &x) { return L{sinl(x[0])}; }, [](const L &x) { return std::vector<L>{{cosl(x[0])}}; }},
        {"exp x - 3", 1, [](const L &x) { return L{expl(x[0]) - 3}; }, [](const L &x) { return std::vector<L>{{expl(x[0])}}; }},
        {"log x", 1, [](const L &x) { return L{logl(x[0])}; }, [](const L &x) { return std::vector<L>{{1 / x[0]}}; }},
        {"1/x", 1, [](const L &x) { return L{1 / x[0]}; }, [](const L &x) { return std::vector<L>{{-1 / x[0] / x[0]}}; }},
        {"1000000x-3", 1, [](const L &x) { return L{1000000 * x[0] - 3}; }, [](const L &) { return std::vector<L>{{1000000}}; }},
        {"x-1, 2x+1", 1, [](const L &x) { return L{x[0] - 1, 2 * x[0] + 1}; }, [](const L &) { return std::vector<L>{{1}, {2}}; }},
        {"x^2, x-3, 7-x", 1, [](const L &x) { return L{x[0] * x[0], x[0] - 3, 7 - x[0]}; }, [](const L &x) { return std::vector<L>{{2 * x[0]}, {1}, {-1}}; }},
        {"x+y-3, x-y-1", 2, [](const L &x) { return L{x[0] + x[1] - 3, x[0] - x[1] - 1}; }, [](const L &) { return std::vector<L>{{1, 1}, {1, -1}}; }},
        {"x^2+y^2-5, xy-2", 2, [](const L &x) { return L{x[0] * x[0] + x[1] * x[1] - 5, x[0] * x[1] - 2}; }, [](const L &x) { return std::vector<L>{{2 * x[0], 2 * x[1]}, {x[1], x[0]}}; }},
        {"x^2+y^2+1", 2, [](const L &x) { return L{x[0] * x[0] + x[1] * x[1] + 1}; }, [](const L &x) { return std::vector<L>{{2 * x[0], 2 * x[1]}}; }},
        {"x, y, x+y, xy", 2, [](const L &x) { return L{x[0], x[1], x[0] + x[1], x[0] * x[1]}; }, [](const L &x) { return std::vector<L>{{1, 0}, {0, 1}, {1, 1}, {x[1], x[0]}}; }},
        {"exp x - y, y", 2, [](const L &x) { return L{expl(x[0]) - x[1], x[1]}; }, [](const L &x) { return std::vector<L>{{expl(x[0]), -1}, {0, 1}}; }},
        {"(x-4)^4, (y-3)^2, 4(z+5)^4", 3, [](const L &x) { return L{powl(x[0] - 4, 4), powl(x[1] - 3, 2), 4 * powl(x[2] + 5, 4)}; }, [](const L &x) { return std::vector<L>{{4 * powl(x[0] - 4, 3), 0, 0}, {0, 2 * (x[1] - 3), 0}, {0, 0, 16 * powl(x[2] + 5, 3)}}; }},
        {"x+2y-z, yz, x-1", 3, [](const L &x) { return L{x[0] + 2 * x[1] - x[2], x[1] * x[2], x[0] - 1}; }, [](const L &x) { return std::vector<L>{{1, 2, -1}, {0, x[2], x[1]}, {1, 0, 0}}; }},
    };
    return r;
}
Vec lib(const D &v) { Vec r((int)v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
D plain(const L &v) { return D(v.begin(), v.end()); }
L wide(const Vec &v) { L r; for (int i = 0; i < v.Rows(); ++i) r.push_back(v[i]); return r; }
std::string text(const D &v) { std::ostringstream o; o.precision(17); for (double x : v) o << x << " "; return o.str(); }
struct Case { const Fn *f; D x, d; };
const std::vector<double> &xs() { static const std::vector<double> s = {0, 1, -2, 0.5, 3, 1.5, 4, -1e-3, 10, 1e-9, 1e8}; return s; }
const std::vector<double> &ds() { static const std::vector<double> s = {1, -1, 0, 0.25, -3, 100, -1000, 1e-6, 1e6, -1e150, 2.75}; return s; }
int nx(int n, bool w) { return n == 1 ? 11 : w ? 8 : 4; }
int nd(int n, bool w) { return n == 1 ? 11 : w ? 8 : 5; }
uint64_t perFn(int n, bool w) { uint64_t r = 1; for (int i = 0; i < n && i < 2; ++i) r *= nx(n, w) * nd(n, w); return r; }
uint64_t total(bool w) { uint64_t r = 0; for (auto &f : fns()) r += perFn(f.n, w); return r; }
Case make(uint64_t i, bool w) {
    Case c;
    for (auto &f : fns()) { uint64_t k = perFn(f.n, w); if (i < k) { c.f = &f; break; } i -= k; }
    mc::Dec d(i);
    for (int k = 0; k < c.f->n; ++k) {
        if (k < 2) { c.x.push_back(xs()[d.take(nx(c.f->n, w))]); c.d.push_back(ds()[d.take(nd(c.f->n, w))]); }
        else { c.x.push_back(c.x[0] - 1); c.d.push_back(c.d[1] * -2 + 1); }
    }
    return c;
}
std::string text(const Case &c) { return std::string("f = (") + c.f->name + ") from " + text(c.x) + "along " + text(c.d); }
struct Quiet { std::ostringstream s; std::streambuf *o; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
struct Stop : std::runtime_error { Stop() : std::runtime_error("stop") {} };

// ---- Armijo
void armijo(const Case &c, int kind) {
    int n = c.f->n, m = (int)c.f->f(L(c.x.begin(), c.x.end())).size();
    // kind: 0 the true derivative, 1 zero, 2 its negative, 3 a thousand times it, 4 NaN
    auto jac = [&](const L &x) { auto g = c.f->g(x); for (auto &r : g) for (auto &v : r) v = kind == 0 ? v : kind == 1 ? 0 : kind == 2 ? -v : kind == 3 ? v * 1000 : NAN; return g; };
    Vec x = lib(c.x), d = lib(c.d);
    uint64_t calls = 0;
    auto onLine = [&](const Vec &v) {
        if (++calls > 20000) mc::failf("Armijo does not end: ", text(c));
        if (v.Rows() != n) mc::failf("Armijo calls f with ", v.Rows(), " components: ", text(c));
    };
    mc::step();
    double a = Armijo(x, d, [&](Vec v) { onLine(v); return lib(plain(c.f->f(wide(v)))); },
                      [&](Vec v) -> Mat { onLine(v); if (!(v == x)) mc::failf("Armijo takes the derivative elsewhere than at x: ", text(c)); auto g = jac(wide(v)); Mat r(n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) r.Value(i, j) = (double)g[j][i]; return r; });
    if (!(x == lib(c.x)) || !(d == lib(c.d))) mc::failf("Armijo changed its arguments: ", text(c));
    mc::state(mc::hash(&a, 8));
    // the rule, with a margin for rounding
    L x0(c.x.begin(), c.x.end());
    auto f0 = plain(c.f->f(x0)); auto g = jac(x0);
    double want = 0;
    D may;
    for (double al = 1;; al *= 0.5) {
        L xn; for (int i = 0; i < n; ++i) xn.push_back(c.x[i] + al * c.d[i]);
        auto f = plain(c.f->f(xn));
        long double l = 0, r = 0, mag = 0;
        for (int j = 0; j < m; ++j) { long double s = f0[j], t = std::fabs((long double)f0[j]); for (int i = 0; i < n; ++i) { long double q = 0.4L * al * g[j][i] * c.d[i]; s += q; t += std::fabs(q); } l += (long double)f[j] * f[j]; r += s * s; mag += t * t; }
        // near the limits of double the two sides overflow or lose digits: either answer
        bool out = l > 1e300L || mag > 1e300L || (l < 1e-290L && mag < 1e-290L);
        long double tol = 1e-13L * (l + mag);
        if (al == 0) { want = 0; break; }
        if (!std::isnan((double)l) && !std::isnan((double)r) && !std::isnan((double)mag) && (out || std::fabs(l - r) <= tol)) { may.push_back(al); continue; }
        if (l <= r) { want = al; break; }
    }
    bool ok = a == want;
    for (double q : may) ok = ok || (a == q);
    if (!ok) mc::failf("Armijo returns ", a, ", the rule demands ", want, may.empty() ? "" : " (or a step where the two sides are equal up to rounding)", ", derivative kind ", kind, ": ", text(c));
}

// ---- secant search
struct Model { double r; enum { LESS, SETTLED, LIMIT } end; bool bad; int n; };
Model secant(const Case &c, double uncert, int pattern) {
    int n = c.f->n;
    Model m{1, Model::SETTLED, false, 0};
    // disturbances of 1e-13 in a pattern of signs
    uint64_t state = pattern * 0x9e3779b97f4a7c15ull;
    auto noise = [&] { if (!pattern) return 0.0L; state = state * 6364136223846793005ull + 1442695040888963407ull; return state >> 62 & 1 ? 1e-13L : -1e-13L; };
    auto f = [&](double al) { L x; for (int i = 0; i < n; ++i) x.push_back(c.x[i] + al * c.d[i]); L v = c.f->f(x); for (auto &q : v) { q = (double)q; q *= 1 + noise(); if (!std::isfinite((double)q)) m.bad = true; } return v; };
    double cur = 0;
    L gc = f(0);
    while (std::fabs(m.r - cur) > cur * uncert) {
        double old = cur; cur = m.r;
        L go = gc; gc = f(cur);
        if (m.bad) return m;
        bool less = true; long double best = INFINITY;
        for (size_t j = 0; j < gc.size(); ++j) {
            less = less && gc[j] < go[j];
        }
        if (less) { m.end = Model::LESS; return m; }
        for (size_t j = 0; j < gc.size(); ++j) { long double q = (gc[j] * old - go[j] * cur) / (gc[j] - go[j]); if (!std::isfinite((double)q)) { m.bad = true; return m; } best = std::min(best, std::fabs(q)); }
        m.r = (double)best;
        if (++m.n > 101) { m.end = Model::LIMIT; return m; }
    }
    return m;
}
void find(const Case &c, double uncert, bool byDefault, int log) {
    Vec x = lib(c.x), d = lib(c.d);
    uint64_t calls = 0;
    ConfigGuard cg;
    Config::Get().logLevel = (LogLevel)log;
    Quiet q;
    auto f = [&](Vec v) { if (++calls > 20000) mc::failf("FindAlpha does not end: ", text(c)); if (v.Rows() != c.f->n) mc::failf("FindAlpha calls f with ", v.Rows(), " components: ", text(c)); return lib(plain(c.f->f(wide(v)))); };
    mc::step();
    double a = byDefault ? FindAlpha(x, d, f) : FindAlpha(x, d, f, uncert);
    if (!(x == lib(c.x)) || !(d == lib(c.d))) mc::failf("FindAlpha changed its arguments: ", text(c));
    mc::state(mc::hash(&a, 8));
    // the rule in exact steps and with five patterns of disturbances: where these differ, rounding decides
    Model m = secant(c, uncert, 0);
    double s = 0;
    for (int k = 1; k <= 5 && !m.bad; ++k) { Model u = secant(c, uncert, k); if (u.bad || u.end != m.end || u.n != m.n) m.bad = true; s = std::max(s, std::fabs(u.r - m.r)); }
    if (m.bad) return;
    mc::state(mc::hash(&m.r, 8));
    if (s > 1e-5 * m.r + 1e-300) return;
    if (!(std::fabs(a - m.r) <= 100 * s + 1e-12 * m.r)) mc::failf("FindAlpha returns ", a, ", the rule gives ", m.r, " after ", m.n, " secant steps, accuracy ", uncert, ": ", text(c));
    bool warned = !q.s.str().empty();
    if (warned != (m.end == Model::LIMIT && log >= (int)LogLevel::WARN)) mc::failf("FindAlpha", warned ? " prints \"" + q.s.str() + "\"" : " prints nothing", " at log level ", log, " after ", m.n, " secant steps: ", text(c));
}
} // namespace
void mc::harness() {
    bool th = opt.thorough;
    uint64_t T = total(th), n = T * 5;
    mc::add("armijo", "22 functions of 1 to 3 unknowns and 1 to 4 components x every start and direction over telling values x the true derivative, none, its negative, a thousand times it and NaN", n, [th](uint64_t i) { armijo(make(i / 5, th), (int)(i % 5)); }, [th](uint64_t i) { return text(make(i / 5, th)); }, 64);
    mc::spaces.back().hang = 15;
    static const double un[] = {1e-5, 1e-2, 1e-9, 0.5, 1e-14};
    mc::add("secant", "the same functions, starts and directions x 5 accuracies and the default one", T * 6, [th](uint64_t i) { int k = (int)(i % 6); find(make(i / 6, th), k == 5 ? 1e-5 : un[k], k == 5, (int)LogLevel::OFF); }, [th](uint64_t i) { return text(make(i / 6, th)); }, 64);
    mc::spaces.back().hang = 15;
    mc::add("secant/log", "the same functions, starts and directions at every log level: a warning exactly when the steps are used up, from WARN on", T * 8, [th](uint64_t i) { find(make(i / 8, th), 1e-5, true, (int)(i % 8)); }, [th](uint64_t i) { return text(make(i / 8, th)); }, 64);
    mc::spaces.back().hang = 15;
    // a function that throws at its k-th call: the exception comes through, the arguments stay
    mc::add("exceptions", "the function or the derivative throws one of 9 exceptions at its k-th call, k from 1 to 8: this exception comes through both searches, the arguments stay", fns().size() * 8 * 3 * 4 * 9, [](uint64_t i) {
        mc::Dec d(i);
        auto &F = fns()[d.take(fns().size())];
        int k = (int)d.take(8) + 1, who = (int)d.take(3), sgn = (int)d.take(4), what = (int)d.take(9);
        auto raise = [what] {
            switch (what) {
            case 0: throw Stop();
            case 1: throw MathError(ErrorType::ERROR_INVALID_NUMBER, "mine");
            case 2: throw MathError(ErrorType::ERROR_SINGULAR_MATRIX, "mine");
            case 3: throw std::runtime_error("mine");
            case 4: throw std::bad_alloc();
            case 5: throw std::out_of_range("mine");
            case 6: throw 17;
            case 7: throw std::string("mine");
            default: throw std::logic_error("mine");
            }
        };
        auto name = [](auto &&run) -> std::string {
            try { run(); }
            catch (const Stop &) { return "Stop"; }
            catch (const MathError &e) { return "MathError " + std::to_string((int)e.GetErrorType()) + e.what(); }
            catch (const std::bad_alloc &) { return "bad_alloc"; }
            catch (const std::out_of_range &e) { return std::string("out_of_range ") + e.what(); }
            catch (const std::logic_error &e) { return std::string("logic_error ") + e.what(); }
            catch (const std::runtime_error &e) { return std::string("runtime_error ") + e.what(); }
            catch (int v) { return "int " + std::to_string(v); }
            catch (const std::string &v) { return "string " + v; }
            catch (...) { return "another exception"; }
            return "";
        };
        D x0, d0;
        for (int j = 0; j < F.n; ++j) { x0.push_back(1.5 + j); d0.push_back(sgn == 0 ? 1 : sgn == 1 ? -1 : sgn == 2 ? 100 : 1e-3); }
        Vec x = lib(x0), dd = lib(d0);
        int m = (int)F.f(L(x0.begin(), x0.end())).size(), nf = 0, ng = 0;
        bool due = false;
        auto f = [&](Vec v) { if (who != 1 && ++nf == k) { due = true; raise(); } return lib(plain(F.f(wide(v)))); };
        auto g = [&](Vec v) -> Mat { if (who == 1 && ++ng == k) { due = true; raise(); } auto q = F.g(wide(v)); Mat r(F.n, m); for (int a = 0; a < F.n; ++a) for (int b = 0; b < m; ++b) r.Value(a, b) = (double)q[b][a]; return r; };
        Quiet q;
        mc::step();
        std::string got = name([&] { who == 2 ? FindAlpha(x, dd, f) : Armijo(x, dd, f, g); }), want = due ? name(raise) : "";
        if (got != want) mc::failf(F.name, ": call ", k, " of ", who == 1 ? "the derivative" : "the function", " throws ", want.empty() ? "nothing" : want, ", the search throws ", got.empty() ? "nothing" : got);
        if (!(x == lib(x0)) || !(dd == lib(d0))) mc::failf("an exception left the arguments changed: ", F.name);
    }, nullptr, 64);
}
