// Exhaustive bounded exploration runtime.
//
// A harness registers "spaces". A space is a finite set of cases 0..N-1 together with a function that runs one case
// on the real library and compares what it observes with a reference model (throwing mc::Violation on a mismatch).
// The runtime enumerates every case of every space, in forked worker processes, so that a crash, an abort, a sanitizer
// report or a hang of the code under test is attributed to the case that was running. A failing case is replayed alone in
// a fresh process before it is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc {

struct Violation {
    std::string msg;
};

[[noreturn]] inline void fail(const std::string &m) {
    throw Violation{m};
}

template <typename... A>
[[noreturn]] inline void failf(const A &...a) {
    std::ostringstream ss;
    ss.precision(17);
    int dummy[] = {0, ((void)(ss << a), 0)...};
    (void)dummy;
    throw Violation{ss.str()};
}

inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) {
    return hash(s.data(), s.size(), h);
}
inline uint64_t mix(uint64_t h) {
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
    return h;
}

enum { MAXW = 64, MAXS = 64, MSG = 16000 };
constexpr uint64_t TAB = 1ull << 23;

struct Slot {
    std::atomic<uint64_t> seq;
    std::atomic<uint64_t> idx;
    std::atomic<uint64_t> chunk;
    std::atomic<int> state; // 0 idle, 1 running, 2 violation recorded
    char msg[MSG];
};
struct Shared {
    std::atomic<uint64_t> next;                  // next case of the current space
    std::atomic<uint64_t> transitions, states, tabfull, done, stop, known, cut;
    Slot slot[MAXW];
    std::atomic<uint64_t> tab[TAB];
};
extern Shared *g;

// one operation of the real code whose result was compared with the model
inline void step(uint64_t n = 1) {
    static uint64_t local = 0;
    local += n;
    if (local >= 256) { g->transitions.fetch_add(local, std::memory_order_relaxed); local = 0; }
}
// an observed canonical state (counted if not seen before)
inline bool state(uint64_t h) {
    h = mix(h);
    if (!h) h = 1;
    uint64_t i = h & (TAB - 1);
    for (int k = 0; k < 64; ++k, i = (i + 1) & (TAB - 1)) {
        uint64_t v = g->tab[i].load(std::memory_order_relaxed);
        if (v == h) return false;
        if (v == 0) {
            uint64_t e = 0;
            if (g->tab[i].compare_exchange_strong(e, h)) { g->states.fetch_add(1, std::memory_order_relaxed); return true; }
            if (e == h) return false;
        }
    }
    g->tabfull.store(1);
    return false;
}
inline bool state(const std::string &s) { return state(hash(s)); }

struct Space {
    std::string name, what;
    uint64_t n;
    std::function<void(uint64_t)> run;
    std::function<std::string(uint64_t)> describe;
    uint64_t chunk = 64;
    double hang = 20; // seconds without progress on one case before it is replayed alone
};

struct Options {
    bool thorough = false;
    int jobs = 8;
    double deadline = 1e9;
    std::string tmp = "."; // a directory of this run
    std::string known; // sites of the known findings, ",a,b,"
};
extern Options opt;
extern std::vector<Space> spaces;

inline void add(const std::string &name, const std::string &what, uint64_t n, std::function<void(uint64_t)> run,
                std::function<std::string(uint64_t)> describe = nullptr, uint64_t chunk = 64) {
    Space s;
    s.name = name; s.what = what; s.n = n; s.run = std::move(run); s.describe = std::move(describe); s.chunk = chunk;
    spaces.push_back(std::move(s));
}
// mixed radix decoding helper
struct Dec {
    uint64_t v;
    explicit Dec(uint64_t v) : v(v) {}
    uint64_t take(uint64_t n) { uint64_t r = v % n; v /= n; return r; }
};

// a case was not explored up to its bound
inline void cutShort() { g->cut.fetch_add(1); }
// true (and counted) if site names a listed known finding
inline bool known(const std::string &site) {
    if (opt.known.find("," + site + ",") == std::string::npos) return false;
    g->known.fetch_add(1);
    return true;
}

void harness(); // registers the spaces; defined by each harness
} // namespace mc

#ifdef MC_MAIN
namespace mc {
Shared *g;
Options opt;
std::vector<Space> spaces;

inline double now() {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9;
}
inline std::string jesc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
inline void setmsg(Slot &s, const std::string &m) {
    size_t n = m.size() < MSG - 1 ? m.size() : MSG - 1;
    memcpy(s.msg, m.data(), n); s.msg[n] = 0;
}
inline bool runCase(const Space &sp, uint64_t i, std::string &msg) {
    try {
        sp.run(i);
        return true;
    } catch (const Violation &v) { msg = v.msg; }
    catch (const std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { msg = "unexpected exception of unknown type"; }
    if (sp.describe) { try { msg += "\n  case: " + sp.describe(i); } catch (...) {} }
    return false;
}
// memory of one worker is bounded (under AddressSanitizer by its option hard_rss_limit_mb): code that eats memory
// without end is reported, and does not take the machine down
inline void limitMemory() {
#if !__has_feature(address_sanitizer) // clang
    rlimit r; r.rlim_cur = r.rlim_max = 3500ull << 20;
    setrlimit(RLIMIT_DATA, &r);
#endif
}
// run cases [a,b] in a fresh process; true if it fails; fills msg
inline bool replay(const Space &sp, uint64_t a, uint64_t b, double limit, std::string &msg, const std::string &err) {
    fflush(nullptr);
    Slot &s = g->slot[MAXW - 1];
    s.state = 0; s.msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        limitMemory();
        for (uint64_t i = a; i <= b; ++i) {
            s.idx = i;
            std::string m;
            if (!runCase(sp, i, m)) { setmsg(s, m); s.state = 2; _exit(10); }
        }
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    bool hung = false;
    while (true) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        usleep(2000);
    }
    if (hung) { msg = "no answer within " + std::to_string((int)limit) + " s (does not terminate)"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    else if (s.state == 2) { msg = s.msg; return true; }
    else {
        std::string e;
        if (FILE *f = fopen(err.c_str(), "r")) {
            char buf[6000]; size_t n = fread(buf, 1, sizeof buf, f); e.assign(buf, n); fclose(f);
        }
        msg = "the process died (" + (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit code " + std::to_string(WEXITSTATUS(st))) + ")\n" + e;
    }
    if (sp.describe) { try { msg += "\n  case: " + sp.describe(s.idx); } catch (...) {} }
    return true;
}

struct Found { bool yes = false; std::string space, msg; uint64_t idx = 0, from = 0; };

inline Found runSpace(const Space &sp, double tEnd, uint64_t &covered, const std::string &tmp, bool again) {
    Found found;
    g->next = 0; g->done = 0; g->stop = 0;
    int J = again ? (opt.jobs + 1) / 2 : opt.jobs; // once more: with less load and more patience
    const double hang = again ? sp.hang * 4 : sp.hang;
    uint64_t chunk = sp.chunk;
    if (sp.n / (uint64_t)(J * 4) + 1 < chunk) chunk = sp.n / (J * 4) + 1;
    struct W { pid_t pid; uint64_t lastSeq; double lastT; bool alive; };
    std::vector<W> ws(J);
    auto spawn = [&](int w) {
        Slot &s = g->slot[w];
        s.state = 0; s.msg[0] = 0;
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            std::string err = tmp + "/w" + std::to_string(w) + ".err";
            int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); }
            int nul = open("/dev/null", O_WRONLY);
            if (nul >= 0) dup2(nul, 1);
            limitMemory();
            while (!g->stop) {
                uint64_t a = g->next.fetch_add(chunk);
                if (a >= sp.n) break;
                uint64_t b = a + chunk < sp.n ? a + chunk : sp.n;
                s.chunk = a;
                for (uint64_t i = a; i < b; ++i) {
                    s.idx = i; s.seq.fetch_add(1, std::memory_order_relaxed);
                    s.state = 1;
                    std::string m;
                    if (!runCase(sp, i, m)) { setmsg(s, m); s.state = 2; _exit(10); }
                    s.state = 0;
                }
                g->done.fetch_add(b - a);
                if (now() > tEnd) break;
            }
            step(256); g->transitions.fetch_sub(256);
            _exit(0);
        }
        ws[w] = {p, 0, now(), true};
    };
    for (int w = 0; w < J; ++w) spawn(w);
    struct Bad { uint64_t idx, chunk; bool killed; std::string msg; bool operator<(const Bad &o) const { return idx < o.idx; } };
    std::vector<Bad> bad;
    auto note = [&](int w, bool killed, int st) {
        Slot &s = g->slot[w];
        std::string m = s.state == 2 ? std::string(s.msg) : "the process died, wait status " + std::to_string(st);
        bad.push_back({s.idx.load(), s.chunk.load(), killed || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL), m});
        g->stop = 1;
    };
    int alive = J;
    while (alive) {
        bool any = false;
        for (int w = 0; w < J; ++w) {
            if (!ws[w].alive) continue;
            int st;
            pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
            Slot &s = g->slot[w];
            if (r == ws[w].pid) {
                any = true;
                ws[w].alive = false; --alive;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) note(w, false, st);
                continue;
            }
            uint64_t q = s.seq.load();
            double t = now();
            if (q != ws[w].lastSeq || s.state != 1) { ws[w].lastSeq = q; ws[w].lastT = t; }
            else if (t - ws[w].lastT > hang) {
                kill(ws[w].pid, SIGKILL); waitpid(ws[w].pid, &st, 0);
                ws[w].alive = false; --alive; any = true;
                note(w, true, st);
            }
        }
        if (!any) usleep(3000);
    }
    covered = g->done.load();
    std::sort(bad.begin(), bad.end());
    auto tryReplay = [&](const Bad &b, uint64_t from, double limit, const std::string &note) {
        std::string msg;
        if (!replay(sp, from, b.idx, limit, msg, tmp + "/replay.err")) return false;
        found.yes = true; found.idx = g->slot[MAXW - 1].idx; found.from = from; found.space = sp.name; found.msg = msg + note;
        return true;
    };
    for (auto &b : bad)
        if (tryReplay(b, b.idx, sp.hang * 3, "")) return found;
    // depends on what ran before it in the same process: replay its chunk, then everything before it
    for (auto &b : bad)
        if (!b.killed && tryReplay(b, b.chunk, sp.hang * 6, "\n  (fails only after the earlier cases of the replayed range ran in the same process)")) return found;
    for (auto &b : bad)
        if (!b.killed && tryReplay(b, 0, 300, "\n  (fails only after the earlier cases of the replayed range ran in the same process)")) return found;
    if (again)
        for (auto &b : bad)
            if (!b.killed) { // an oracle mismatch or sanitizer report in two independent runs of the space
                found.yes = true; found.idx = b.idx; found.from = 0; found.space = sp.name;
                found.msg = b.msg + "\n  (seen in two runs of this space; depends on the history of the process)";
                return found;
            }
    if (!bad.empty()) { covered = ~0ull; }
    return found;
}
} // namespace mc

int main(int argc, char **argv) {
    using namespace mc;
    std::string out, tmp = ".", rspace, only;
    uint64_t ra = 0, rb = 0;
    bool doReplay = false, list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--tier") opt.thorough = nx() == "thorough";
        else if (a == "--jobs") opt.jobs = atoi(nx().c_str());
        else if (a == "--deadline") opt.deadline = atof(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--tmp") opt.tmp = tmp = nx();
        else if (a == "--only") only = nx();
        else if (a == "--known") opt.known = "," + nx() + ",";
        else if (a == "--list") list = true;
        else if (a == "--replay") { doReplay = true; rspace = nx(); ra = strtoull(nx().c_str(), 0, 10); rb = strtoull(nx().c_str(), 0, 10); }
    }
    g = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g == MAP_FAILED) { perror("mmap"); return 2; }
    harness();
    if (list) { for (auto &s : spaces) printf("%s %llu %s\n", s.name.c_str(), (unsigned long long)s.n, s.what.c_str()); return 0; }
    if (doReplay) {
        for (auto &s : spaces)
            if (s.name == rspace) {
                std::string msg;
                bool bad = replay(s, ra, rb, s.hang * 6, msg, tmp + "/replay.err");
                if (bad) { printf("REPRODUCED %s %llu: %s\n", rspace.c_str(), (unsigned long long)g->slot[MAXW - 1].idx.load(), msg.c_str()); return 1; }
                printf("not reproduced: %s %llu..%llu hold\n", rspace.c_str(), (unsigned long long)ra, (unsigned long long)rb);
                return 0;
            }
        fprintf(stderr, "no such space\n");
        return 2;
    }
    double t0 = now(), tEnd = t0 + opt.deadline;
    Found found;
    std::ostringstream js, samples;
    js << "{\"spaces\":[";
    uint64_t cases = 0;
    bool exhaustive = true, unstable = false, firstS = true, firstK = true;
    for (size_t k = 0; k < spaces.size(); ++k) {
        auto &s = spaces[k];
        if (!only.empty() && s.name.find(only) == std::string::npos) continue;
        uint64_t cov = 0;
        double ts = now();
        uint64_t st0 = g->states, tr0 = g->transitions;
        Found f = runSpace(s, tEnd, cov, tmp, false);
        if (cov == ~0ull && !f.yes) { // a worker died but the case does not fail when replayed: run the space once more
            f = runSpace(s, tEnd, cov, tmp, true);
            if (cov == ~0ull && !f.yes) { unstable = true; cov = 0; }
        }
        cases += cov;
        if (cov < s.n && !f.yes) exhaustive = false;
        js << (firstK ? "" : ",") << "{\"name\":" << jesc(s.name) << ",\"what\":" << jesc(s.what) << ",\"cases\":" << s.n
           << ",\"covered\":" << cov << ",\"new_states\":" << g->states - st0 << ",\"transitions\":" << g->transitions - tr0
           << ",\"wall_s\":" << now() - ts << "}";
        firstK = false;
        if (s.describe)
            for (uint64_t i : {s.n / 3, s.n - 1}) {
                std::string d;
                try { d = s.describe(i); } catch (...) { continue; }
                if (d.size() > 400) d = d.substr(0, 400) + "...";
                samples << (firstS ? "" : ",") << jesc(s.name + "[" + std::to_string(i) + "] " + d);
                firstS = false;
            }
        fprintf(stderr, "  space %-28s %12llu/%llu cases  %8.2f s\n", s.name.c_str(), (unsigned long long)cov, (unsigned long long)s.n, now() - ts);
        if (f.yes) { found = f; break; }
    }
    js << "],\"samples\":[" << samples.str() << "],\"cases\":" << cases << ",\"states\":" << g->states << ",\"transitions\":" << g->transitions
       << ",\"state_table_full\":" << (g->tabfull ? "true" : "false") << ",\"exhaustive\":" << (exhaustive && !g->cut ? "true" : "false")
       << ",\"cases_cut_short\":" << g->cut
       << ",\"known_finding_cases\":" << g->known << ",\"unstable\":" << (unstable ? "true" : "false") << ",\"wall_s\":" << now() - t0 << ",\"violation\":";
    if (found.yes)
        js << "{\"space\":" << jesc(found.space) << ",\"from\":" << found.from << ",\"index\":" << found.idx << ",\"message\":" << jesc(found.msg) << "}";
    else js << "null";
    js << "}\n";
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (!f) return 2; fputs(js.str().c_str(), f); fclose(f); }
    else fputs(js.str().c_str(), stdout);
    if (found.yes) return 1;
    return unstable ? 2 : 0;
}
#endif
