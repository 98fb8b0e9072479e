// Depth-first enumeration of all schedules of a scenario up to a preemption bound.
#pragma once
#include "mc.hpp"
#include "sched.hpp"
namespace schedx
{
struct Scenario {
    std::vector<std::function<void()>> threads;
    std::function<void()> check; // after all threads have ended
};
inline std::string show(const sched::Outcome& o)
{
    std::string s;
    int last = -1;
    size_t n = 0;
    for (size_t i = 0; i < o.tids.size(); ++i) {
        if (o.tids[i] != last) {
            if (last >= 0) s += mc::cat("*", n, " ");
            s += mc::cat("T", (int)o.tids[i]);
            last = o.tids[i];
            n = 0;
        }
        ++n;
    }
    if (last >= 0) s += mc::cat("*", n);
    if (s.size() > 1500) s = s.substr(0, 1500) + "...";
    return s;
}
// part of parts: schedules whose first deviation is at a scheduling point congruent to part
template<class Mk>
size_t explore(mc::Run& R, int bound, Mk mk, size_t part = 0, size_t parts = 1, size_t maxsched = ~0ULL)
{
    std::vector<uint8_t> prefix;
    size_t n = 0;
    for (;;) {
        Scenario sc = mk();
        sched::Outcome o = sched::run(sc.threads, prefix, bound);
        ++n;
        R.transitions += o.tids.size();
        auto bad = [&](const std::string& m) { R.fail(mc::cat(m, "; schedule (steps between synchronisation operations): ", show(o))); };
        if (!o.race.empty()) bad(o.race);
        if (o.deadlock) bad("deadlock");
        if (o.livelock) bad("no progress (livelock)");
        if (!o.exc.empty()) bad(o.exc);
        try { sc.check(); }
        catch (mc::Fail& f) { bad(f.msg); }
        R.obs(mc::hashv(1, show(o)));
        if (sched::grew()) { prefix.clear(); continue; }
        if (n >= maxsched) { R.obs(-1); return n; }
        size_t i = o.choices.size();
        bool more = false;
        size_t first = 0;
        while (first < o.choices.size() && o.choices[first] == 0) ++first;
        while (i-- > 0) {
            if (o.choices[i] + 1 >= o.width[i]) continue;
            if (parts > 1 && i < first && i % parts != part) continue;
            if (parts > 1 && i == first && i % parts != part) continue;
            more = true;
            break;
        }
        if (!more) return n;
        prefix.assign(o.choices.begin(), o.choices.begin() + i + 1);
        ++prefix[i];
    }
}
}
#define SCHED_LINK "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release"
