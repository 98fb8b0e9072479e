// Bounded-exhaustive exploration runtime.
//
// A harness registers tasks.  A task enumerates, in a fixed order that depends on nothing but the
// tier, every member of a finite space (inputs, operation histories, fault positions, ...) and calls
// Run::run() for each: the body executes the real code and compares everything observable with a
// reference model through eq()/ck().  Cases are numbered; `--task T --case N` re-executes one.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace mc
{

struct Fail {
    std::string msg;
};

struct Status { // shared with the driver through a file
    volatile uint64_t task;
    volatile uint64_t kase;
    volatile uint64_t running;
};

inline uint64_t mix(uint64_t h, uint64_t x)
{
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}

template<class T>
struct is_pairlike : std::false_type {};
template<class A, class B>
struct is_pairlike<std::pair<A, B>> : std::true_type {};

// --- printing and hashing of observed values -------------------------------------------------
inline void put(std::ostream& o, const std::string& s)
{
    o << '"';
    size_t n = 0;
    for (unsigned char c : s) {
        if (++n > 400) { o << "..."; break; }
        if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o << b; }
        else o << c;
    }
    o << '"';
}
inline void put(std::ostream& o, const char* s) { o << s; }
inline void put(std::ostream& o, bool b) { o << (b ? "true" : "false"); }
template<class T>
typename std::enable_if<std::is_integral<T>::value>::type put(std::ostream& o, T v)
{
    if (sizeof(T) == 1) o << (int)v;
    else o << v;
}
template<class T>
typename std::enable_if<std::is_enum<T>::value>::type put(std::ostream& o, T v) { o << (long long)v; }
template<class T>
typename std::enable_if<std::is_floating_point<T>::value>::type put(std::ostream& o, T v) { o << v; }
template<class A, class B>
void put(std::ostream& o, const std::pair<A, B>& p);
template<class C>
auto put(std::ostream& o, const C& c) -> decltype(c.begin() != c.end(), void());
template<class A, class B>
void put(std::ostream& o, const std::pair<A, B>& p)
{
    o << '<';
    put(o, p.first);
    o << ',';
    put(o, p.second);
    o << '>';
}
template<class C>
auto put(std::ostream& o, const C& c) -> decltype(c.begin() != c.end(), void())
{
    o << '[';
    size_t n = 0;
    for (auto it = c.begin(); it != c.end(); ++it) {
        if (n++) o << ',';
        if (n > 200) {
            o << "...";
            break;
        }
        put(o, *it);
    }
    o << ']';
}
template<class T>
std::string str(const T& v)
{
    std::ostringstream o;
    put(o, v);
    return o.str();
}
inline void cat_(std::ostream&) {}
template<class T, class... R>
void cat_(std::ostream& o, const T& t, const R&... r)
{
    put(o, t);
    cat_(o, r...);
}
inline void put_raw(std::ostream& o, const std::string& s) { o << s; }
template<class... A>
std::string cat(const A&... a)
{
    std::ostringstream o;
    cat_(o, a...);
    return o.str();
}

inline uint64_t hashv(uint64_t h, const std::string& s)
{
    for (unsigned char c : s) h = mix(h, c);
    return mix(h, s.size());
}
template<class T>
typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value, uint64_t>::type hashv(uint64_t h, T v)
{
    return mix(h, (uint64_t)v);
}
template<class T>
typename std::enable_if<std::is_floating_point<T>::value, uint64_t>::type hashv(uint64_t h, T v)
{
    return mix(h, (uint64_t)(v * 1000003));
}
template<class A, class B>
uint64_t hashv(uint64_t h, const std::pair<A, B>& p);
template<class C>
auto hashv(uint64_t h, const C& c) -> decltype(c.begin() != c.end(), uint64_t());
template<class A, class B>
uint64_t hashv(uint64_t h, const std::pair<A, B>& p)
{
    return hashv(hashv(h, p.first), p.second);
}
template<class C>
auto hashv(uint64_t h, const C& c) -> decltype(c.begin() != c.end(), uint64_t())
{
    uint64_t n = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++n) h = hashv(h, *it);
    return mix(h, n);
}

// --- the run ---------------------------------------------------------------------------------
class Run
{
public:
    bool thorough = false;
    uint64_t shard = 0, nshards = 1;
    int64_t only_case = -1;
    double deadline = 0; // seconds, 0: none
    std::vector<std::string> known;

    // result counters of the current task
    uint64_t idx = 0, executed = 0, transitions = 0;
    std::vector<uint64_t> states;
    std::vector<std::string> samples;
    bool capped = false;
    uint64_t h = 0;

    std::string fail_msg, fail_desc;
    int64_t fail_case = -1;
    std::map<std::string, std::string> known_hits;
    Status* st = nullptr;
    double t0 = 0;
    std::function<std::string()> cur_desc;

    static double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    bool stop() const { return fail_case >= 0 || capped; }

    // Executes one member of the space.  desc() must rebuild the description of the case.
    template<class D, class B>
    void run(D desc, B body)
    {
        uint64_t i = idx++;
        if (stop()) return;
        if (only_case >= 0) {
            if ((uint64_t)only_case != i) return;
        } else if (nshards > 1) {
            uint64_t z = i * 0x9e3779b97f4a7c15ULL;
            z ^= z >> 29;
            z *= 0xbf58476d1ce4e5b9ULL;
            z ^= z >> 32;
            if (z % nshards != shard) return;
        }
        if (deadline > 0 && (executed & 15) == 0 && now() - t0 > deadline) {
            capped = true;
            return;
        }
        st->kase = i;
        h = 0x1234567;
        if (only_case >= 0) {
            fprintf(stderr, "CASE %llu: %s\n", (unsigned long long)i, desc().c_str());
            fflush(stderr);
        }
        try {
            body();
        } catch (const Fail& f) {
            fail_msg = f.msg;
            fail_case = i;
            fail_desc = desc();
        } catch (const std::exception& e) {
            fail_msg = std::string("unexpected exception: ") + e.what();
            fail_case = i;
            fail_desc = desc();
        } catch (...) {
            fail_msg = "unexpected exception of unknown type";
            fail_case = i;
            fail_desc = desc();
        }
        ++executed;
        states.push_back(h);
        // a few samples, spread: the 1st, 10th, 100th, ... executed case
        if (executed == 3 || executed == 40 || executed == 1000 || executed == 20000)
            samples.push_back(desc());
        if (states.size() > (1u << 22)) compact();
    }

    void compact()
    {
        std::sort(states.begin(), states.end());
        states.erase(std::unique(states.begin(), states.end()), states.end());
    }

    // Records an observed value (part of the state reached).
    template<class T>
    void obs(const T& v) { h = hashv(h, v); }

    template<class A, class B, class W>
    void eq(const A& actual, const B& expected, W what)
    {
        ++transitions;
        h = hashv(h, actual);
        if (!(actual == expected)) {
            std::ostringstream o;
            o << "expected ";
            put(o, expected);
            o << " got ";
            put(o, actual);
            throw Fail{to_s(what) + ": " + o.str()};
        }
    }
    template<class A, class B>
    void eqi(const A& actual, const B& expected, const char* name)
    {
        ++transitions;
        h = hashv(h, (uint64_t)actual);
        if ((uint64_t)actual != (uint64_t)expected) fail_eq((uint64_t)actual, (uint64_t)expected, name, {});
    }
    template<class A, class B>
    void eqi(const A& actual, const B& expected, const char* name, uint64_t a1)
    {
        ++transitions;
        h = hashv(h, (uint64_t)actual);
        if ((uint64_t)actual != (uint64_t)expected) fail_eq((uint64_t)actual, (uint64_t)expected, name, {a1});
    }
    template<class A, class B>
    void eqi(const A& actual, const B& expected, const char* name, uint64_t a1, uint64_t a2)
    {
        ++transitions;
        h = hashv(h, (uint64_t)actual);
        if ((uint64_t)actual != (uint64_t)expected) fail_eq((uint64_t)actual, (uint64_t)expected, name, {a1, a2});
    }
    template<class A, class B>
    void eqi(const A& actual, const B& expected, const char* name, uint64_t a1, uint64_t a2, uint64_t a3)
    {
        ++transitions;
        h = hashv(h, (uint64_t)actual);
        if ((uint64_t)actual != (uint64_t)expected) fail_eq((uint64_t)actual, (uint64_t)expected, name, {a1, a2, a3});
    }
    [[noreturn]] void fail_eq(uint64_t a, uint64_t e, const char* name, std::vector<uint64_t> args)
    {
        std::ostringstream o;
        o << name << "(";
        for (size_t i = 0; i < args.size(); ++i) o << (i ? "," : "") << args[i];
        o << "): expected " << e << " got " << a;
        throw Fail{o.str()};
    }
    template<class W>
    void ck(bool cond, W what)
    {
        ++transitions;
        h = mix(h, cond);
        if (!cond) throw Fail{to_s(what)};
    }
    template<class W>
    [[noreturn]] void fail(W what) { throw Fail{to_s(what)}; }

    // A comparison that is a recorded finding: `key` names the exact input/call that fails.
    template<class W>
    void ck_known(const std::string& key, bool cond, W what)
    {
        ++transitions;
        h = mix(h, cond);
        if (!cond) {
            for (auto& k : known)
                if (k == key) {
                    if (!known_hits.count(key)) known_hits[key] = to_s(what);
                    return;
                }
            throw Fail{"[" + key + "] " + to_s(what)};
        }
    }

private:
    static std::string to_s(const char* s) { return s; }
    static std::string to_s(const std::string& s) { return s; }
    template<class F>
    static auto to_s(F f) -> decltype(std::string(f())) { return f(); }
};

struct Task {
    std::string name, space;
    int tiers; // 1 quick, 2 thorough, 3 both
    std::function<void(Run&)> fn;
};

inline std::vector<Task>& tasks()
{
    static std::vector<Task> t;
    return t;
}
struct Reg {
    Reg(const char* n, const char* space, int tiers, std::function<void(Run&)> f)
    {
        tasks().push_back(Task{n, space, tiers, f});
    }
};
#define MC_TASK(NAME, SPACE) \
    static void NAME(mc::Run& R); \
    static mc::Reg reg_##NAME(#NAME, SPACE, 3, NAME); \
    static void NAME(mc::Run& R)
#define MC_TASK_T(NAME, SPACE) \
    static void NAME(mc::Run& R); \
    static mc::Reg reg_##NAME(#NAME, SPACE, 2, NAME); \
    static void NAME(mc::Run& R)

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s.substr(0, 4000)) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

extern Status* g_st;
extern int g_limit;
#ifdef MC_MAIN
Status* g_st = nullptr;
int g_limit = 60;
__attribute__((no_sanitize("thread"))) static void on_tick(int) // runs on whatever thread the signal hits: no part of the explored program
{
    static uint64_t last = ~0ULL, lastt = ~0ULL;
    static int n = 0;
    if (g_st->kase == last && g_st->task == lastt) {
        if (++n >= g_limit) {
            static const char m[] = "MC-HANG: case exceeded its CPU limit\n";
            if (write(2, m, sizeof m - 1)) {}
            _exit(43);
        }
    } else {
        n = 0;
        last = g_st->kase;
        lastt = g_st->task;
    }
}

int main(int argc, char** argv)
{
    Run R;
    std::string status, out, only_task;
    bool list = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--list") list = true;
        else if (a == "--tier") R.thorough = val() == "thorough";
        else if (a == "--shard") R.shard = std::stoull(val());
        else if (a == "--nshards") R.nshards = std::stoull(val());
        else if (a == "--task") only_task = val();
        else if (a == "--case") R.only_case = std::stoll(val());
        else if (a == "--status") status = val();
        else if (a == "--out") out = val();
        else if (a == "--limit") g_limit = std::stoi(val());
        else if (a == "--deadline") R.deadline = std::stod(val());
        else if (a == "--known") R.known.push_back(val());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (list) {
        for (auto& t : tasks()) printf("%s\t%d\t%s\n", t.name.c_str(), t.tiers, t.space.c_str());
        return 0;
    }
    static Status local;
    g_st = &local;
    if (!status.empty()) {
        int fd = open(status.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Status))) { perror("status"); return 2; }
        void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) { perror("status"); return 2; }
        close(fd);
        g_st = (Status*)p;
    }
    R.st = g_st;
    g_st->task = ~0ULL;
    g_st->kase = ~0ULL;
    g_st->running = 1;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval iv = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &iv, nullptr);
    R.t0 = Run::now();
    std::ostringstream js;
    std::vector<uint64_t> all_states;
    js << "{\"tasks\":[";
    bool first = true, failed = false;
    for (size_t ti = 0; ti < tasks().size() && !failed; ++ti) {
        auto& t = tasks()[ti];
        if (!only_task.empty()) {
            if (t.name != only_task) continue;
        } else if (!(t.tiers & (R.thorough ? 2 : 1))) continue;
        g_st->task = ti;
        g_st->kase = ~0ULL;
        R.idx = R.executed = R.transitions = 0;
        R.samples.clear();
        R.states.clear();
        R.capped = false;
        double tt = Run::now();
        R.h = ti;
        uint64_t salt = ti + 1;
        try {
            t.fn(R);
        } catch (const Fail& f) {
            R.fail_msg = "(outside a case) " + f.msg; R.fail_case = R.idx;
        } catch (const std::exception& e) {
            R.fail_msg = std::string("(outside a case) ") + e.what(); R.fail_case = R.idx;
        }
        R.compact();
        for (auto s : R.states) all_states.push_back(mix(salt, s));
        if (!first) js << ",";
        first = false;
        js << "{\"task\":\"" << t.name << "\",\"space\":\"" << jesc(t.space) << "\",\"cases\":" << R.idx << ",\"executed\":" << R.executed
           << ",\"transitions\":" << R.transitions << ",\"capped\":" << (R.capped ? "true" : "false")
           << ",\"wall\":" << (Run::now() - tt) << ",\"nstates\":" << R.states.size() << ",\"samples\":[";
        for (size_t i = 0; i < R.samples.size(); ++i) js << (i ? "," : "") << "\"" << jesc(R.samples[i]) << "\"";
        js << "]";
        if (R.fail_case >= 0) {
            failed = true;
            js << ",\"fail\":{\"case\":" << R.fail_case << ",\"msg\":\"" << jesc(R.fail_msg) << "\",\"desc\":\"" << jesc(R.fail_desc) << "\"}";
            fprintf(stderr, "MC-FAIL task=%s case=%lld\n  input: %s\n  %s\n", t.name.c_str(), (long long)R.fail_case, R.fail_desc.c_str(), R.fail_msg.c_str());
        }
        js << "}";
    }
    js << "],\"known\":{";
    {
        size_t i = 0;
        for (auto& k : R.known_hits) js << (i++ ? "," : "") << "\"" << jesc(k.first) << "\":\"" << jesc(k.second) << "\"";
    }
    js << "}}\n";
    g_st->running = 0;
    if (!out.empty()) {
        FILE* f = fopen((out + ".json").c_str(), "w");
        if (!f) { perror("out"); return 2; }
        std::string s = js.str();
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
        f = fopen((out + ".states").c_str(), "w");
        if (!f) { perror("out"); return 2; }
        fwrite(all_states.data(), 8, all_states.size(), f);
        fclose(f);
    } else fputs(js.str().c_str(), stdout);
    fflush(stdout);
    _exit(failed ? 42 : 0); // no static destruction: harness threads/mappings may outlive main
}
#endif

} // namespace mc

#ifdef MC_MAIN
int main(int argc, char** argv) { return mc::main(argc, argv); }
#endif
