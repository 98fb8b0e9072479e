// Controlled scheduler + happens-before race detector for code compiled with -fsanitize=thread
// (the instrumentation calls end in mc/schedrt.cpp, not in libtsan).
//
// Exactly one thread runs at any time.  Scheduling points are the synchronisation operations (mutex
// lock, atomic access, thread start/end); between two of them a thread runs undisturbed.  Because every
// pair of conflicting plain accesses that is not ordered by happens-before is reported as a race, it
// suffices to enumerate the interleavings of the synchronisation operations.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace sched
{
struct Outcome {
    bool deadlock = false, livelock = false;
    std::string race;              // first data race, with the code positions of both accesses
    std::vector<uint8_t> choices;  // choice taken at each scheduling point
    std::vector<uint8_t> width;    // number of choices there (within the preemption bound)
    std::vector<uint8_t> tids;     // thread chosen at each scheduling point
    uint64_t accesses = 0;         // instrumented plain accesses
    std::string exc;               // exception that left a thread
};
// Runs the threads under the schedule given by prefix (choice indices; 0 = do not preempt) and then without preemptions.
bool grew(); // true once after an execution in which a static atomic was written for the first time: start over
Outcome run(const std::vector<std::function<void()>>& threads, const std::vector<uint8_t>& prefix, int bound);
}
