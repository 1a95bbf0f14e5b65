// C22: every build of the library behaves the same: compilers, optimisation levels, assertions on or off.
#include "mc.h"
#include "c19.h"
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
// New and returned memory is filled with a byte that differs from build to build,
// so that a value read before it was set (or after it was given back) shows as a difference.
namespace {
const unsigned char fills[] = {0x00, 0xAA, 0xFF, 0x7F};
unsigned char fill = 0x55;
void *get(size_t n) { void *p = std::malloc(n ? n : 1); if (p) memset(p, fill, malloc_usable_size(p)); return p; }
void put(void *p) {
    if (!p) return;
    memset(p, fill, malloc_usable_size(p));
    asm volatile("" : : "r"(p) : "memory"); // the filling must not be dropped as useless
    std::free(p);
}
}
void *operator new(size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
#ifdef C22_ZERO
extern const C19Api c22_base, c22_gcc_zero;
namespace {
const struct { const char *name; const C19Api *api; } builds[] = {{"clang, -O1, with assertions", &c22_base}, {"gcc, -O0, with assertions", &c22_gcc_zero}};
}
#else
extern const C19Api c22_base, c22_gcc_plain, c22_gcc_release, c22_clang_release;
namespace {
const struct { const char *name; const C19Api *api; } builds[] = {{"clang, -O1, with assertions", &c22_base}, {"gcc, -O1, with assertions", &c22_gcc_plain}, {"gcc, -O3, without assertions", &c22_gcc_release}, {"clang, -O3, without assertions", &c22_clang_release}};
}
#endif
static const int NB = sizeof builds / sizeof *builds;
void mc::harness() {
    static std::vector<C19Space> a[NB];
    for (int k = 0; k < NB; ++k) { a[k] = builds[k].api->spaces(opt.thorough); if (a[k].size() != a[0].size()) mc::fail("the builds enumerate different spaces"); }
    for (size_t s = 0; s < a[0].size(); ++s) {
        mc::add(a[0][s].name, a[0][s].what, a[0][s].n, [s](uint64_t i) {
            fill = fills[0];
            std::string x = a[0][s].run(i);
            mc::state(x);
            mc::step();
            for (int k = 1; k < NB; ++k) {
                fill = fills[k];
                std::string y = a[k][s].run(i);
                mc::step();
                if (x == y) continue;
                size_t at = 0;
                while (at < x.size() && at < y.size() && x[at] == y[at]) ++at;
                size_t from = at > 60 ? at - 60 : 0;
                mc::failf("built with ", builds[0].name, "   ..", x.substr(from, 300), "\n  built with ", builds[k].name, "   ..", y.substr(from, 300));
            }
        }, a[0][s].describe ? std::function<std::string(uint64_t)>(a[0][s].describe) : nullptr, a[0][s].chunk);
    }
}
