// C34: concurrent allocations are all accounted for: every schedule of the threads' synchronisation operations.
#include "schedx.hpp"
#include <sdsl/memory_management.hpp>
#include <sdsl/int_vector.hpp>
#include <memory>
#include <sstream>
using namespace std;
using namespace sdsl;
struct St { bit_vector v[4]; bit_vector w[4]; };
static int64_t usage_now()
{
    { auto e = memory_monitor::event("probe"); }
    memory_monitor::stop();
    stringstream ss;
    memory_monitor::write_memory_log<JSON_FORMAT>(ss);
    string s = ss.str();
    size_t p = s.find("\"probe\"");
    if (p == string::npos) throw mc::Fail{"probe event not reported"};
    size_t e = s.find("]\n\t}", p);
    size_t c = s.rfind(',', s.rfind(']', s.find("\n\t\t]", p)));
    (void)e;
    return atoll(s.c_str() + c + 1);
}
static schedx::Scenario mk(int nt, int ops, int ev)
{
    auto st = make_shared<St>();
    memory_monitor::granularity(chrono::milliseconds(0));
    memory_monitor::start();
    schedx::Scenario sc;
    for (int t = 0; t < nt; ++t)
        sc.threads.push_back([st, t, ops, ev] {
            if (t == ev) {
                auto e = memory_monitor::event("ev");
                st->v[t].resize(100);
            } else {
                st->v[t] = bit_vector(1000 * (t + 1), 1);
                if (ops > 1) st->w[t].resize(64);
                if (ops > 2) st->v[t].resize(64 * (t + 3));
                if (ops > 3) st->w[t] = bit_vector();
            }
        });
    sc.check = [st] {
        int64_t m = 0;
        for (auto& x : st->v) m += ((x.bit_size() + 63) / 64) * 8;
        for (auto& x : st->w) m += ((x.bit_size() + 63) / 64) * 8;
        int64_t u = usage_now();
        if (u != m) throw mc::Fail{mc::cat("recorded usage ", u, " but ", m, " bytes are live")};
        int64_t p = memory_monitor::peak();
        if (p < m) throw mc::Fail{mc::cat("peak ", p, " below the current usage ", m)};
    };
    return sc;
}
MC_TASK(threads, "2 threads with up to 4 recorded changes each, 3 threads with 2, with and without an event opened by one of them: all schedules (no preemption bound for 2 threads with <=2 changes, else at most 2 to 4 preemptions; thorough up to 5 or no bound)")
{
    struct C { int nt, ops, ev, bound; } cs[] = {{2, 1, -1, 99}, {2, 2, -1, 99}, {2, 3, -1, R.thorough ? 6 : 4}, {2, 4, -1, R.thorough ? 5 : 3}, {3, 1, -1, R.thorough ? 99 : 3}, {3, 2, -1, R.thorough ? 4 : 2}, {2, 2, 0, R.thorough ? 99 : 4}, {2, 3, 1, R.thorough ? 5 : 3}, {3, 1, 2, R.thorough ? 4 : 3}};
    for (auto c : cs) for (size_t part = 0; part < 32; ++part)
        R.run([&] { return mc::cat(c.nt, " threads, ", c.ops, " changes, event in thread ", c.ev, ", preemption bound ", c.bound, ", part ", part, " of 32"); },
              [&] { schedx::explore(R, c.bound, [&] { return mk(c.nt, c.ops, c.ev); }, part, 32); });
}
