// C19: the single header behaves exactly like the library.
#include "mc.h"
#include "c19.h"
std::string c19_first_tu(int op, const std::string &arg);
void mc::harness() {
    static std::vector<C19Space> a = c19_src.spaces(opt.thorough), b = c19_single.spaces(opt.thorough);
    mc::add("two translation units", "the configuration and results seen from two translation units that include the single header", 7 * 7 * 7, [](uint64_t i) {
        static const char *arg[7][2] = {{"x+1", "2*(3-y)"}, {"0", "1"}, {"2^10", "7/2"}, {"", ""}, {"", ""}, {"x^2", "x*sin(x)"}, {"5", "77"}};
        std::string r[3];
        for (int w = 0; w < 3; ++w) { // 0: all calls in one unit, 1 and 2: alternating
            c19_first_tu(3, "");
            mc::Dec d(i);
            for (int k = 0; k < 3; ++k) {
                int op = (int)d.take(7);
                bool first = w == 0 || (k + w) % 2;
                r[w] += (first ? c19_first_tu : c19_second_tu)(op, arg[op][k % 2]) + "|" + c19_first_tu(4, "") + "|" + c19_second_tu(4, "") + ";";
                if (c19_first_tu(4, "") != c19_second_tu(4, "")) mc::failf("two translation units see different configurations: ", c19_first_tu(4, ""), " and ", c19_second_tu(4, ""));
                mc::step(2);
            }
        }
        c19_first_tu(3, "");
        if (r[0] != r[1] || r[0] != r[2]) mc::failf("in one translation unit: ", r[0], "\n  in two: ", r[1], "\n  or: ", r[2]);
    });
    for (size_t k = 0; k < a.size(); ++k) {
        auto &s = a[k];
        auto *q = &b[k];
        if (s.n != q->n) mc::fail("the two flavours enumerate different spaces");
        auto *p = &a[k];
        mc::add(s.name, s.what, s.n, [p, q](uint64_t i) {
            std::string x = p->run(i), y = q->run(i);
            mc::step(2);
            mc::state(x);
            if (x == y) return;
            size_t at = 0;
            while (at < x.size() && at < y.size() && x[at] == y[at]) ++at;
            size_t from = at > 60 ? at - 60 : 0;
            mc::failf("the library shows    ..", x.substr(from, 300), "\n  the single header  ..", y.substr(from, 300));
        }, s.describe ? std::function<std::string(uint64_t)>(s.describe) : nullptr, s.chunk);
    }
}
