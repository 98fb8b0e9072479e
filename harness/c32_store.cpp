// C32: a store that reports success has stored everything.  The device below the library is a model that lives at the
// system-call boundary of this executable (open, write, writev, close of the files the library opens): every call the
// library makes is a fault point, and every fault point x fault kind (single and pairs) is explored.
#include "mc.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/construct.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/rmq_support.hpp>
#include <sstream>
#include <dlfcn.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
using namespace sdsl;
using namespace std;

// ---------------------------------------------------------------- the device
enum Kind { none, eio, enospc, full_from_here, eio_from_here, half_then_full, one_byte, eintr, kinds };
static const char* kname[] = {"no fault", "EIO", "ENOSPC once", "full from here on", "EIO from here on", "half written, then full", "short write", "EINTR"};
static bool benign(int k) { return k == none || k == one_byte || k == eintr; }
namespace dev {
static bool armed = false;
static long writes = 0, opens = 0, closes = 0; // calls so far
static long at1 = -1, at2 = -1;                // fault points among the writes
static int k1 = none, k2 = none;
static long fail_open = -1, fail_close = -1;
static int sticky = 0;          // errno of a persistent fault
static long room = -1;          // bytes left on the device (-1: unlimited)
static long allocs = 0, fail_alloc = -1;
static bool track_alloc = false;
static void reset() { armed = false; writes = opens = closes = 0; at1 = at2 = -1; k1 = k2 = none; fail_open = fail_close = -1; sticky = 0; room = -1; allocs = 0; fail_alloc = -1; track_alloc = false; }
static ssize_t raw(int fd, const char* b, size_t n)
{
    static ssize_t (*f)(int, const void*, size_t) = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
    size_t done = 0;
    while (done < n) {
        ssize_t r = f(fd, b + done, n - done);
        if (r < 0) { if (errno == EINTR) continue; return done ? (ssize_t)done : r; }
        done += r;
    }
    return n;
}
static ssize_t put(int fd, const char* b, size_t n)
{
    long me = writes++;
    int k = me == at1 ? k1 : me == at2 ? k2 : (int)none;
    if (sticky) { errno = sticky; return -1; }
    switch (k) {
        case eio: errno = EIO; return -1;
        case enospc: errno = ENOSPC; return -1;
        case full_from_here: sticky = ENOSPC; errno = ENOSPC; return -1;
        case eio_from_here: sticky = EIO; errno = EIO; return -1;
        case eintr: errno = EINTR; return -1;
        case half_then_full:
            sticky = ENOSPC;
            if (n < 2) { errno = ENOSPC; return -1; }
            return raw(fd, b, n / 2);
        case one_byte: if (n > 1) n = 1; break;
    }
    if (room >= 0) {
        if (room == 0 && n) { errno = ENOSPC; return -1; }
        if ((long)n > room) n = room;
        ssize_t r = raw(fd, b, n);
        if (r > 0) room -= r;
        return r;
    }
    return raw(fd, b, n);
}
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    if (dev::armed && fd > 2) return dev::put(fd, (const char*)b, n);
    return dev::raw(fd, (const char*)b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    string all;
    for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
    return write(fd, all.data(), all.size());
}
extern "C" int fclose(FILE* f)
{
    static int (*r)(FILE*) = (int(*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    if (dev::armed && dev::closes++ == dev::fail_close) { r(f); errno = EIO; return EOF; }
    return r(f);
}
static FILE* opened(const char* which, const char* p, const char* m)
{
    typedef FILE* (*F)(const char*, const char*);
    F r = (F)dlsym(RTLD_NEXT, which);
    if (dev::armed && strpbrk(m, "wa+") && dev::opens++ == dev::fail_open) { errno = EACCES; return nullptr; }
    return r(p, m);
}
extern "C" FILE* fopen(const char* p, const char* m) { return opened("fopen", p, m); }
extern "C" FILE* fopen64(const char* p, const char* m) { return opened("fopen64", p, m); }
void* operator new(size_t n)
{
    if (dev::track_alloc && dev::allocs++ == dev::fail_alloc) throw bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- the stores
struct Store {
    string n;                                      // what is stored and by which function
    vector<pair<string, string>> want;             // suffix of the file name, bytes
    function<bool(const string&, cache_config*)> f; // target file
    bool cache;
};
static string dir;
static string slurp(const string& f)
{
    if (is_ram_file(f)) {
        if (!ram_fs::exists(f)) return "<no such file>";
        isfstream i(f, ios::binary | ios::in);
        ostringstream o;
        o << i.rdbuf();
        return o.str();
    }
    ifstream i(f, ios::binary);
    if (!i) return "<no such file>";
    ostringstream o;
    o << i.rdbuf();
    return o.str();
}
template<class T> static string ser(const T& t) { ostringstream o; sdsl::serialize(t, o); return o.str(); }
static string le(uint64_t x, int n) { string s; for (int i = 0; i < n; ++i) s += (char)(x >> (8 * i)); return s; }
template<class T> static string hashbytes(const T& t) { return le(util::hashvalue_of_classname(t), 8); }
template<class T> static void generic(vector<Store>& s, string n, shared_ptr<T> t)
{
    string b = ser(*t), h = hashbytes(*t);
    s.push_back({"store_to_file(" + n + ")", {{"", b}}, [=](const string& f, cache_config*) { return store_to_file(*t, f); }, false});
    s.push_back({"store_to_checked_file(" + n + ")", {{"_check", h}, {"", b}}, [=](const string& f, cache_config*) { return store_to_checked_file(*t, f); }, false});
    s.push_back({"store_to_cache(" + n + ")", {{"", b}}, [=](const string&, cache_config* c) { return store_to_cache(*t, "key", *c); }, true});
}
static void iv_stores(vector<Store>& s, vector<size_t> lens)
{
    for (size_t n : lens) {
        auto v = make_shared<int_vector<>>(n, 0, 13);
        for (size_t i = 0; i < n; ++i) (*v)[i] = i * 37 + 5;
        generic(s, mc::cat("int_vector<> of ", n), v);
        s.push_back({mc::cat("store_to_plain_array<uint32_t>(int_vector<> of ", n, ")"), {{"", [&] { string b; for (auto x : *v) b += le(x, 4); return b; }()}}, [=](const string& f, cache_config*) { return store_to_plain_array<uint32_t>(*v, f); }, false});
        s.push_back({mc::cat("store_to_plain_array<uint8_t>(int_vector<> of ", n, ")"), {{"", [&] { string b; for (auto x : *v) b += (char)(uint8_t)x; return b; }()}}, [=](const string& f, cache_config*) { return store_to_plain_array<uint8_t>(*v, f); }, false});
        auto b8 = make_shared<int_vector<8>>(n, 0);
        for (size_t i = 0; i < n; ++i) (*b8)[i] = i * 7 + 1;
        for (bool var : {false, true}) {
            ostringstream o;
            b8->serialize(o, nullptr, "", var);
            string bb = o.str();
            s.push_back({mc::cat("store_to_file(int_vector<8> of ", n, var ? ", variable)" : ", fixed)"), {{"", bb}}, [=](const string& f, cache_config*) { return store_to_file(*b8, f, var); }, false});
            s.push_back({mc::cat("store_to_checked_file(int_vector<8> of ", n, var ? ", variable)" : ", fixed)"), {{"_check", hashbytes(*b8)}, {"", bb}}, [=](const string& f, cache_config*) { return store_to_checked_file(*b8, f, var); }, false});
        }
    }
}
static void str_stores(vector<Store>& s, vector<size_t> lens)
{
    for (size_t n : lens) {
        string t;
        for (size_t i = 0; i < n; ++i) t += (char)(1 + i % 250);
        s.push_back({mc::cat("store_to_file(std::string of ", n, ")"), {{"", t}}, [=](const string& f, cache_config*) { return store_to_file(t, f); }, false});
        s.push_back({mc::cat("store_to_file(const char* of ", n, ")"), {{"", t}}, [=](const string& f, cache_config*) { return store_to_file(t.c_str(), f); }, false});
        s.push_back({mc::cat("store_to_checked_file(const char* of ", n, ")"), {{"_check", hashbytes((const char*)0)}, {"", t}}, [=](const string& f, cache_config*) { return store_to_checked_file(t.c_str(), f); }, false});
    }
}
static string text(size_t n) { string t; for (size_t i = 0; i < n; ++i) t += (char)('a' + (i * i + i / 3) % 5); return t; }
static void big_stores(vector<Store>& s)
{
    auto w = make_shared<wt_huff<>>();
    construct_im(*w, text(300), 1);
    generic(s, "wt_huff<>", w);
    auto c = make_shared<csa_wt<>>();
    construct_im(*c, text(300), 1);
    generic(s, "csa_wt<>", c);
    auto t = make_shared<cst_sct3<>>();
    construct_im(*t, text(2000), 1);
    generic(s, "cst_sct3<>", t);
    auto r = make_shared<rrr_vector<63>>(bit_vector(20000, 1));
    generic(s, "rrr_vector<63>", r);
    auto d = make_shared<sd_vector<>>(bit_vector(20000, 1));
    generic(s, "sd_vector<>", d);
    auto vv = make_shared<vector<int_vector<>>>();
    for (size_t i = 0; i < 40; ++i) vv->push_back(int_vector<>(i * 9, i, 11));
    s.push_back({"store_to_file(std::vector<int_vector<>>)", {{"", ser(*vv)}}, [=](const string& f, cache_config*) { return store_to_file(*vv, f); }, false});
    s.push_back({"store_to_file(uint64_t)", {{"", le(0x1234567890abcdefULL, 8)}}, [=](const string& f, cache_config*) { return store_to_file((uint64_t)0x1234567890abcdefULL, f); }, false});
}
static vector<Store> stores(bool big)
{
    vector<Store> s;
    // 8191 is the size of the put area of a std::filebuf
    iv_stores(s, {0, 1, 20, 5030, 5040, 13000});
    str_stores(s, {0, 1, 8, 8182, 8183, 8190, 8191, 8192, 8193, 9000, 20000});
    if (big) big_stores(s);
    return s;
}

// ---------------------------------------------------------------- one execution
enum Target { absent, longer_file, ram_absent, ram_longer, targets };
static const char* tgname[] = {"absent file", "existing longer file", "absent RAM file", "existing longer RAM file"};
struct Exec { int r; long writes, opens, closes, allocs; string what; };
static string where(const Store& s, int tg, cache_config& cc)
{
    string d = tg >= ram_absent ? string("@") : dir;
    cc = cache_config(false, d, "id");
    return s.cache ? d + "/key_id.sdsl" : d + "/target";
}
static Exec exec(const Store& s, int tg, function<void()> arm)
{
    cache_config cc;
    string f = where(s, tg, cc);
    for (auto& w : s.want) {
        sdsl::remove(f + w.first);
        if (tg == longer_file) { ofstream o(f + w.first, ios::binary); o << string(w.second.size() + 100, 'x'); }
        if (tg == ram_longer) { ram_fs::content_type c(w.second.size() + 100, 'x'); ram_fs::store(f + w.first, c); }
    }
    Exec e;
    dev::reset();
    arm();
    dev::armed = true;
    dev::track_alloc = tg >= ram_absent;
    try {
        e.r = s.f(f, &cc);
        dev::armed = dev::track_alloc = false;
    } catch (const std::exception& x) {
        dev::armed = dev::track_alloc = false;
        e.r = -1;
        e.what = x.what();
    }
    e.writes = dev::writes; e.opens = dev::opens; e.closes = dev::closes; e.allocs = dev::allocs;
    dev::reset();
    if (e.r == 1) {
        for (auto& w : s.want) {
            string got = slurp(f + w.first);
            if (got != w.second) throw mc::Fail{mc::cat("reported success, but ", w.first.empty() ? "the file" : "the check file", " holds ", got.size(), " bytes ", got.size() == w.second.size() ? "(different ones)" : "", " instead of the ", w.second.size(), " of the object")};
        }
        if (s.cache && (!cc.file_map.count("key") || cc.file_map["key"] != f)) throw mc::Fail{"reported success, but the file is not registered in the cache"};
    } else if (s.cache && cc.file_map.count("key")) throw mc::Fail{"reported failure, but registered the file in the cache"};
    for (auto& w : s.want) sdsl::remove(f + w.first);
    return e;
}
static void mkdirs()
{
    if (dir.empty()) {
        const char* e = getenv("MC_SCRATCH");
        dir = string(e ? e : "/tmp") + "/c32." + to_string(getpid());
        mkdir(dir.c_str(), 0777);
        cerr.rdbuf(nullptr);
    }
}
static void one(mc::Run& R, const Store& s, int tg, string what, bool must_succeed, bool must_fail, function<void()> arm)
{
    R.run([&] { return s.n + " to an " + tgname[tg] + ": " + what; }, [&] {
        Exec e = exec(s, tg, arm);
        if (must_succeed) R.ck(e.r == 1, e.r == 0 ? "reported failure although every byte could be written" : ("threw " + e.what).c_str());
        if (must_fail) R.ck(e.r != 1, "reported success although the device failed");
        Exec a = exec(s, tg, [] {}); // the object is still whole and a retry succeeds
        R.ck(a.r == 1, "a retry without faults failed");
        R.obs(e.r * 1000 + e.writes);
        R.transitions += 2;
    });
}
MC_TASK(faults, "store function x object x start state of the file x every write call the store makes x fault kind (EIO, ENOSPC, transient or lasting, short write, EINTR); every open and every close failing; success => the file is exactly the object, no lasting fault => success")
{
    mkdirs();
    for (auto& s : stores(true))
        for (int tg : {absent, longer_file}) {
            Exec base = exec(s, tg, [] {});
            one(R, s, tg, "no fault", true, false, [] {});
            for (long w = 0; w < base.writes; ++w)
                for (int k = 1; k < kinds; ++k) {
                    one(R, s, tg, mc::cat("write ", w, " of ", base.writes, ": ", kname[k]), benign(k), !benign(k), [&] { dev::at1 = w; dev::k1 = k; });
                    if (R.stop()) return;
                }
            for (long o = 0; o < base.opens; ++o) one(R, s, tg, mc::cat("open ", o, " fails"), false, true, [&] { dev::fail_open = o; });
            for (long c = 0; c < base.closes; ++c) one(R, s, tg, mc::cat("close ", c, " fails"), false, true, [&] { dev::fail_close = c; });
            if (R.stop()) return;
        }
}
MC_TASK(pairs, "the same with every pair of fault points (w1 < w2) and kinds; a retrying store may only succeed with the complete file")
{
    mkdirs();
    for (auto& s : stores(R.thorough)) {
        Exec base = exec(s, absent, [] {});
        for (long w1 = 0; w1 < base.writes && w1 < 8; ++w1)
            for (int k1 : {(int)eio, (int)enospc, (int)one_byte, (int)eintr})
                for (long w2 = w1 + 1; w2 <= base.writes && w2 < 10; ++w2)
                    for (int k2 = 1; k2 < kinds; ++k2) {
                        one(R, s, absent, mc::cat("write ", w1, ": ", kname[k1], ", write ", w2, ": ", kname[k2]), benign(k1) && benign(k2), !benign(k1), [&] { dev::at1 = w1; dev::k1 = k1; dev::at2 = w2; dev::k2 = k2; });
                        if (R.stop()) return;
                    }
    }
}
MC_TASK(capacity, "store function x object x every capacity of the device from 0 bytes to the size of the file (all for small files, around the buffer borders and at the ends for large ones): success exactly if everything fits")
{
    mkdirs();
    for (auto& s : stores(true)) {
        size_t total = 0;
        for (auto& w : s.want) total += w.second.size();
        for (size_t b = 0; b <= total; ++b) {
            if (!R.thorough && total > 300 && b > 40 && b + 40 < total && !(b % 8191 < 3 || b % 8191 > 8188 || b % 8192 < 2 || b % 509 == 0)) continue;
            if (R.thorough && total > 9100 && b > 100 && b + 100 < total && b % 13 && !(b % 8191 < 30 || b % 8191 > 8160)) continue;
            one(R, s, b % 2 ? longer_file : absent, mc::cat("device with ", b, " of ", total, " bytes"), b == total, b < total, [&] { dev::room = b; });
            if (R.stop()) return;
        }
    }
}
MC_TASK(ram, "store function x object x RAM file, every memory allocation of the store failing: success => the RAM file is exactly the object, and the RAM file system stays usable")
{
    mkdirs();
    for (auto& s : stores(true))
        for (int tg : {ram_absent, ram_longer}) {
            Exec base = exec(s, tg, [] {});
            one(R, s, tg, "no fault", true, false, [] {});
            for (long a = 0; a < base.allocs; ++a) {
                if (base.allocs > 400 && a > 100 && a + 100 < base.allocs && a % 17) continue;
                one(R, s, tg, mc::cat("allocation ", a, " of ", base.allocs, " fails"), false, false, [&] { dev::fail_alloc = a; });
                if (R.stop()) return;
            }
        }
}
MC_TASK(full, "store function x object to the real /dev/full, into a missing directory, onto a directory: success only for nothing to write")
{
    mkdirs();
    for (auto& s : stores(true)) {
        if (s.cache) continue;
        R.run([&] { return s.n + " to unusable targets"; }, [&] {
            if (s.want.size() == 1) {
                bool r = false;
                try { r = s.f("/dev/full", nullptr); } catch (const std::exception&) {}
                R.ck(!r || s.want[0].second.empty(), "store to /dev/full reported success");
            }
            bool r = false;
            try { r = s.f(dir + "/no/such/dir", nullptr); } catch (const std::exception&) {}
            R.ck(!r, "store into a missing directory reported success");
            r = false;
            mkdir((dir + "/sub").c_str(), 0777);
            try { r = s.f(dir + "/sub", nullptr); } catch (const std::exception&) {}
            rmdir((dir + "/sub").c_str());
            R.ck(!r, "store onto a directory reported success");
            unlink((dir + "/sub_check").c_str());
            R.transitions += 3;
        });
        if (R.stop()) return;
    }
}
