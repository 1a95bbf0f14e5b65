// C18: the call stack used by an operation does not grow with the depth or size of the expression, and results on deep
// expressions are right. Every operation runs in a thread whose stack is painted beforehand; the deepest touched word is
// compared between a shallow and a deep expression of the same shape. Shapes: every periodic sequence of levels.
#include "shapes.h"
#include <pthread.h>
namespace {
constexpr size_t SZ = 1 << 20;           // stack of the measured thread
constexpr size_t SLACK = 8 << 10;        // growth that is not counted (a level needs at least 16 bytes, the depths differ by > 2000)
struct Painted {
    char *p = nullptr;
    size_t dirty = SZ;
    std::string err; bool bad = false;
    std::function<void()> f;
    static void *entry(void *q) {
        Painted *s = (Painted *)q;
        try { s->f(); }
        catch (const mc::Violation &v) { s->bad = true; s->err = v.msg; }
        catch (const std::exception &e) { s->bad = true; s->err = std::string("unexpected exception: ") + e.what(); }
        return nullptr;
    }
    size_t run(std::function<void()> g) { // bytes of stack used
        if (!p) { p = (char *)mmap(nullptr, SZ + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p, 65536, PROT_NONE); p += 65536; }
        memset(p + SZ - dirty, 0xA5, dirty);
        f = std::move(g); bad = false;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, p, SZ);
        pthread_t t;
        if (pthread_create(&t, &at, entry, this)) mc::fail("pthread_create");
        pthread_join(t, nullptr);
        size_t i = 0;
        while (i < SZ && (unsigned char)p[i] == 0xA5) ++i;
        dirty = SZ - i;
        f = nullptr;
        if (bad) mc::fail(err);
        return dirty;
    }
} painted;
size_t measured(std::function<void()> f) { return painted.run(std::move(f)); }

void compareStack(const Shape &s, int op, int small, int large, bool cmp) {
    size_t a = use(s, small, op, cmp), b = use(s, large, op, cmp);
    mc::state(mc::hash(sname(s), op * 31 + large));
    if (b > a + SLACK) mc::failf("stack used by ", oname[op], " grows with the depth: ", a, " bytes at depth ", small, ", ", b, " bytes at depth ", large, " for levels ", sname(s));
}
void addShapes(const std::string &name, std::vector<Shape> v, int small, int large, bool cmp, int chunk) {
    auto p = std::make_shared<std::vector<Shape>>(std::move(v));
    mc::add(name, "every shape of the list x every operation but differentiation; depths " + std::to_string(small) + " and " + std::to_string(large), p->size() * NOPS, [=](uint64_t i) {
        compareStack((*p)[i / NOPS], (int)(i % NOPS), small, large, cmp);
    }, [=](uint64_t i) { return std::string(oname[i % NOPS]) + " at levels " + sname((*p)[i / NOPS]); }, chunk);
    mc::spaces.back().hang = 60;
}
void addDiff(const std::string &name, std::vector<Shape> v, int small, int large) {
    auto p = std::make_shared<std::vector<Shape>>(std::move(v));
    mc::add(name, "differentiation of every shape of the list; depths " + std::to_string(small) + " and " + std::to_string(large), p->size(), [=](uint64_t i) { compareStack((*p)[i], DIFF, small, large, true); }, [=](uint64_t i) { return "Diff at levels " + sname((*p)[i]); }, 1);
    mc::spaces.back().hang = 60;
}
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    addShapes("all levels, period 1", shapes(true, 1, {0, 1, 2, 3, 4}), 300, 3000, true, 4);
#ifndef C18_UNOPTIMISED
    addShapes("13 levels, period 2", shapes(false, 2, {0, 1, 2}), 300, 3000, true, 16);
#endif
    int F = (int)flat().size();
    mc::add("flat texts", "texts of 27 kinds x 9 operations; sizes 300 and 6000", F * 9, [](uint64_t i) {
        size_t a = 0, b = 0; flatText((int)(i / 9), (int)(i % 9), 300, false, a); flatText((int)(i / 9), (int)(i % 9), 6000, false, b);
        mc::state(mc::hash(flat()[i / 9].first, i % 9));
        static const char *o[] = {"Parse", "ToString", "Clone", "Equal", "GetAllVarNames", "Subs", "Simplify", "Vpa and Calc", "destruction"};
        if (b > a + SLACK) mc::failf("stack used by ", o[i % 9], " grows: ", a, " bytes at size 300, ", b, " bytes at size 6000");
    }, [](uint64_t i) { return std::string("text ") + flat()[i / 9].first + " operation " + std::to_string(i % 9); }, 1);
    mc::add("malformed texts", "17 kinds of malformed text; sizes 300 and 5000", broken().size(), [](uint64_t i) {
        size_t a = 0, b = 0; flatText((int)i, 0, 300, true, a); flatText((int)i, 0, 5000, true, b);
        if (b > a + SLACK) mc::failf("stack used by Parse of malformed text grows: ", a, " bytes at size 300, ", b, " bytes at size 5000");
    }, [](uint64_t i) { return std::string(broken()[i].first); }, 1);
    // texts several times as long as the measured stack: a crash is the violation
    static const int hugeKinds[] = {0, 4, 9, 11, 12, 18, 19, 21, 22};
    mc::add("huge texts", "texts of 9 kinds and 17 kinds of malformed texts of 1 to 4 MB: Parse in a stack of 1 MB", (9 + broken().size()) * 1, [](uint64_t i) {
        size_t used = 0;
        int n = 1200000;
        if (i < 9) { int k = hugeKinds[i]; flatText(k, 0, k == 0 || k == 4 || k == 12 ? 800000 : n * 3, false, used); }
        else { std::string b = broken()[i - 9].first; flatText((int)i - 9, 0, b == "blanks only" || b == "####" || b == "))))" ? n * 3 : b == "x x x x" || b == "sin sin sin" ? 3000 : b == "x+1#" || b == "x+x+..+" || b == "1..1.." ? 500000 : 1000000, true, used); }
        mc::state(mc::hash("huge", i));
        if (used > 200000) mc::failf("Parse of a text of megabytes uses ", used, " bytes of stack");
    }, [](uint64_t i) { return std::string("huge text ") + (i < 9 ? flat()[hugeKinds[i]].first : broken()[i - 9].first); }, 1);
    mc::spaces.back().hang = 60;
#ifndef C18_UNOPTIMISED
    addDiff("derivatives, period 1", shapes(true, 1, {0, 1, 2, 4}), 100, th ? 800 : 400);
    addDiff("derivatives, period 2", shapes(false, 2, th ? std::vector<int>{0, 1} : std::vector<int>{0}), 100, th ? 400 : 250);
    addShapes("all levels, period 2", shapes(true, 2, th ? std::vector<int>{0, 1} : std::vector<int>{1}), 300, 2000, true, 16);
    addShapes("very deep, period 1", shapes(true, 1, th ? std::vector<int>{0, 1} : std::vector<int>{1}), 300, th ? 200000 : 30000, true, 1);
    if (th) {
        addShapes("13 levels, period 3", shapes(false, 3, {1}), 300, 3000, true, 16);
    }
#endif
}
