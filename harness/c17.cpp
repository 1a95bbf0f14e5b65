// C17: threads working on separate objects (or reading shared ones) do not disturb each other, in any interleaving.
// Every case: one combination of operations, one per thread, under a scheduler that lets one thread run at a time. All
// memory accesses of the library are recorded. Two interleavings that differ only in the order of accesses that do not
// conflict are equivalent, and conflicting accesses without synchronisation are reported, so the schedules that remain to
// be told apart differ in the order of synchronisation operations; these are enumerated up to a number of preemptions.
#include "mc.h"
#include "c17ops.h"
#include "c17rt.h"
#include <map>
namespace {
constexpr size_t BUF = 1 << 18;
char *box() { static char *p = nullptr; static int owner = 0; if (owner != (int)getpid()) { p = (char *)mmap(nullptr, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner = (int)getpid(); } return p; }
struct Result { int status = 0; rt::Outcome o; std::string out[rt::MAXT]; };
struct Arg { bool ro; int op; void *objs; std::string out; };
void body(void *a) { Arg *q = (Arg *)a; if (q->ro) c17::roRun(q->op, q->objs, q->out); else c17::opRun(q->op, q->out); }
std::string pack(const Result &r, int n) { std::string s; auto put = [&](const std::string &x) { uint32_t k = (uint32_t)x.size(); s.append((char *)&k, 4); s += x; }; put(std::to_string(r.o.points)); put(r.o.race); put(r.o.deadlock); put(std::to_string(r.o.accesses)); for (int i = 0; i < n; ++i) put(r.out[i].substr(0, 60000)); return s; }
Result run(const std::vector<int> &ops, int roSet, bool warm, int first, const std::vector<std::pair<int, int>> &plan) {
    char *b = box();
    uint32_t z = 0; memcpy(b, &z, 4);
    fflush(nullptr);
    int n = (int)ops.size();
    pid_t c = fork();
    if (c == 0) {
        alarm(60);
        if (warm) c17::warm();
        void *objs = roSet >= 0 ? c17::roObjects(roSet) : nullptr;
        static Arg a[rt::MAXT]; rt::Body bo[rt::MAXT]; void *ar[rt::MAXT];
        for (int i = 0; i < n; ++i) { a[i].ro = roSet >= 0; a[i].op = ops[i]; a[i].objs = objs; bo[i] = body; ar[i] = &a[i]; }
        Result r;
        r.o = rt::run(n, bo, ar, first, plan);
        if (r.o.deadlock.empty()) for (int i = 0; i < n; ++i) r.out[i] = a[i].out;
        std::string s = pack(r, n);
        uint32_t k = (uint32_t)s.size(); memcpy(b, &k, 4); memcpy(b + 4, s.data(), k);
        _exit(0);
    }
    Result r;
    waitpid(c, &r.status, 0);
    if (r.status) return r;
    const char *p = b + 4;
    auto get = [&] { uint32_t k; memcpy(&k, p, 4); std::string s(p + 4, k); p += 4 + k; return s; };
    r.o.points = atoi(get().c_str()); r.o.race = get(); r.o.deadlock = get(); r.o.accesses = strtoull(get().c_str(), 0, 10);
    for (int i = 0; i < n; ++i) r.out[i] = get();
    return r;
}
std::map<std::string, std::string> soloCache;
const std::string &solo(int op, int roSet) {
    std::string key = std::to_string(op) + "|" + std::to_string(roSet);
    auto it = soloCache.find(key);
    if (it != soloCache.end()) return it->second;
    Result r = run({op}, roSet, false, 0, {});
    if (r.status) mc::failf(roSet < 0 ? c17::opName(op) : c17::roName(op), " run alone in a thread: the process died, wait status ", r.status);
    return soloCache[key] = r.out[0];
}
std::string names(const std::vector<int> &ops, int roSet) { std::string s; for (int o : ops) s += (s.empty() ? "" : "  ||  ") + std::string(roSet < 0 ? c17::opName(o) : c17::roName(o)); return s + (roSet < 0 ? "" : "  on shared objects, set " + std::to_string(roSet)); }
std::string where(const std::string &race) { // addresses to source lines
    std::string r = race;
    char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (k <= 0) return r;
    exe[k] = 0;
    size_t p = 0;
    while ((p = r.find("0x", p)) != std::string::npos) {
        size_t e = r.find_first_not_of("0123456789abcdefx", p);
        std::string a = r.substr(p, e == std::string::npos ? e : e - p), cmd = "addr2line -f -C -i -e '" + std::string(exe) + "' " + a + " 2>/dev/null | head -8 | tr '\\n' ' '";
        std::string res; if (FILE *f = popen(cmd.c_str(), "r")) { char buf[900]; size_t n = fread(buf, 1, sizeof buf, f); res.assign(buf, n); pclose(f); }
        r.insert(e == std::string::npos ? r.size() : e, " (" + res + ")");
        p += a.size() + res.size() + 3;
    }
    return r;
}
void judge(const Result &r, const std::vector<int> &ops, int roSet, const std::string &sched) {
    mc::step();
    if (r.status) mc::failf(names(ops, roSet), ", ", sched, ": the process died, wait status ", r.status);
    if (!r.o.deadlock.empty()) mc::failf(names(ops, roSet), ", ", sched, ": deadlock, ", r.o.deadlock);
    if (!r.o.race.empty()) mc::failf(names(ops, roSet), ", ", sched, ": data race, ", where(r.o.race));
    for (size_t i = 0; i < ops.size(); ++i) if (r.out[i] != solo(ops[i], roSet)) mc::failf(names(ops, roSet), ", ", sched, ": thread ", i, " gets\n    ", r.out[i], "\n  alone it gets\n    ", solo(ops[i], roSet));
}
// all schedules with at most `bound` preemptions at synchronisation operations, fewest preemptions first
void explore(const std::vector<int> &ops, int roSet, bool warm, int bound, int cap) {
    int n = (int)ops.size(), runs = 0;
    struct Todo { int first; std::vector<std::pair<int, int>> plan; int points; };
    std::vector<Todo> level;
    for (int first = 0; first < n; ++first) level.push_back({first, {}, 0});
    for (int b = 0; b <= bound && !level.empty(); ++b) {
        std::vector<Todo> next;
        for (auto &t : level) {
            if (runs >= cap) { mc::cutShort(); return; }
            ++runs;
            Result r = run(ops, roSet, warm, t.first, t.plan);
            std::string s = (warm ? std::string("warm") : std::string("fresh")) + ", thread " + std::to_string(t.first) + " first";
            for (auto &p : t.plan) s += ", preempted at synchronisation operation " + std::to_string(p.first);
            judge(r, ops, roSet, s);
            mc::state(mc::hash(names(ops, roSet) + s, t.plan.empty() ? 0 : t.plan.back().second));
            if (b < bound)
                for (int i = t.plan.empty() ? 0 : t.plan.back().first + 1; i < r.o.points; ++i)
                    for (int to = 0; to < n - 1; ++to) { auto p = t.plan; p.push_back({i, to}); if ((int)next.size() < cap) next.push_back({t.first, p, 0}); }
        }
        level = std::move(next);
    }
}
std::vector<int> pick(uint64_t i, int n, int k) { std::vector<int> r; mc::Dec d(i); for (int t = 0; t < k; ++t) r.push_back((int)d.take(n)); return r; }
} // namespace

void mc::harness() {
    bool th = opt.thorough;
    static const int n = c17::opCount(), m = c17::roCount();
    mc::add("separate objects, warm", "every pair of operations on objects of their own, local statics already initialised", (uint64_t)n * n, [](uint64_t i) {
        auto o = pick(i, n, 2); if (o[0] <= o[1]) explore(o, -1, true, 2, opt.thorough ? 400 : 40);
    }, [](uint64_t i) { return names(pick(i, n, 2), -1); }, 16);
    mc::add("separate objects, first calls", "every pair of operations on objects of their own as the first calls of the process", (uint64_t)n * n, [th](uint64_t i) {
        auto o = pick(i, n, 2); if (o[0] <= o[1]) explore(o, -1, false, th ? 2 : 1, th ? 400 : 60);
    }, [](uint64_t i) { return names(pick(i, n, 2), -1); }, 16);
    mc::add("shared objects", "every pair of read-only operations on shared objects", (uint64_t)m * m * c17::roSets(), [](uint64_t i) {
        mc::Dec d(i); int s = (int)d.take(c17::roSets()); auto o = pick(d.v, m, 2); if (o[0] <= o[1]) explore(o, s, true, 2, opt.thorough ? 400 : 100);
    }, [](uint64_t i) { mc::Dec d(i); int s = (int)d.take(c17::roSets()); return names(pick(d.v, m, 2), s); }, 16);
    if (th) {
        mc::add("three threads, shared objects", "every triple of read-only operations on shared objects", (uint64_t)m * m * m, [](uint64_t i) {
            auto o = pick(i, m, 3); if (o[0] <= o[1] && o[1] <= o[2]) explore(o, 0, true, 2, 100);
        }, [](uint64_t i) { return names(pick(i, m, 3), 0); }, 16);
        mc::add("three threads, separate objects", "every triple of operations on objects of their own", (uint64_t)n * n * n, [](uint64_t i) {
            auto o = pick(i, n, 3); if (o[0] <= o[1] && o[1] <= o[2]) explore(o, -1, true, 1, 30);
        }, [](uint64_t i) { return names(pick(i, n, 3), -1); }, 16);
    }
}
