// C33: explicit-state exploration of the huge-page allocator over a small arena between two guard pages.
#include "gen.hpp"
#include <sdsl/memory_management.hpp>
#include <sdsl/int_vector.hpp>
#include <sys/mman.h>
#include <deque>
using namespace std;
using namespace sdsl;
// ---- the arena: [page boundary ...) so that the last byte is followed by an unmapped page
static const size_t PAGE = 4096;
static uint8_t* g_map = nullptr;
static size_t g_pages = 64;
static uint8_t* g_base = nullptr;
static size_t g_len = 0;
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off)
{
    if (!(flags & MAP_HUGETLB)) return __real_mmap(a, len, prot, flags, fd, off);
    if (!g_map) {
        g_map = (uint8_t*)__real_mmap(nullptr, (g_pages + 2) * PAGE, PROT_NONE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
        mprotect(g_map + PAGE, g_pages * PAGE, PROT_READ | PROT_WRITE);
    }
    if (len > g_pages * PAGE) return MAP_FAILED;
    g_len = len;
    g_base = g_map + PAGE + g_pages * PAGE - ((len + 7) & ~7ULL);
    memset(g_map + PAGE, 0, g_pages * PAGE);
    return g_base;
}
struct Live { uint8_t* p; size_t n; };
static uint8_t pat(const uint8_t* p, size_t n, size_t i) { return (uint8_t)((p - g_base) * 7 + n * 13 + i * 31 + 5); }
static void fill(const Live& l) { for (size_t i = 0; i < l.n; ++i) l.p[i] = pat(l.p, l.n, i); }
static string show(const vector<Live>& L)
{
    string s = "{";
    for (auto& l : L) s += mc::cat(" +", l.p - g_base, ":", l.n);
    return s + " }";
}
struct World {
    hugepage_allocator a;
    vector<uint8_t> mem;
    vector<Live> live; // in order of address
};
static void snap(World& w) { w.mem.assign(g_base, g_base + g_len); }
static void back(const World& w) { memcpy(g_base, w.mem.data(), g_len); }
static void intact(mc::Run& R, const vector<Live>& L, const char* when)
{
    for (auto& l : L) {
        for (size_t i = 0; i < l.n; ++i)
            if (l.p[i] != pat(l.p, l.n, i)) R.fail(mc::cat(when, ": byte ", i, " of the live block at +", l.p - g_base, " (", l.n, " bytes) has changed; live ", show(L)));
        ++R.transitions;
    }
}
static void place(mc::Run& R, vector<Live>& L, void* vp, size_t n, const char* op)
{
    uint8_t* p = (uint8_t*)vp;
    if (!p) R.fail(mc::cat(op, "(", n, ") returned nullptr"));
    if (((uintptr_t)p & 7) != 0) R.fail(mc::cat(op, "(", n, ") returned an unaligned block"));
    if (p < g_base || p + n > g_base + g_len) R.fail(mc::cat(op, "(", n, ") returned a block outside of the arena: +", (int64_t)(p - g_base)));
    for (auto& l : L)
        if (p < l.p + max<size_t>(l.n, 1) && l.p < p + max<size_t>(n, 1)) R.fail(mc::cat(op, "(", n, ") returned +", p - g_base, " overlapping the live block +", l.p - g_base, ":", l.n));
    Live x{p, n};
    L.insert(upper_bound(L.begin(), L.end(), x, [](const Live& a, const Live& b) { return a.p < b.p; }), x);
    fill(x);
}
// the heap as the allocator will see it later: everything observable in the future depends only on this
static string key(World& w, const vector<uint8_t*>& order)
{
    // block headers (walk), the live blocks, and the order of equal-sized free blocks
    string k;
    auto num = [&](uint64_t x) { k += to_string(x); k += ','; };
    for (auto& l : w.live) { num(l.p - g_base); num(l.n); }
    k += '|';
    size_t off = 0;
    // headers of live blocks and of the gaps; block sizes are word 0 of every block
    uint8_t* p = g_base;
    for (size_t guard = 0; p < g_base + g_len && guard < 10000; ++guard) {
        uint64_t s;
        memcpy(&s, p, 8);
        if ((s & ~1ULL) == 0 || (s & ~1ULL) > (uint64_t)(g_base + g_len - p)) break;
        num(s);
        p += s & ~1ULL;
    }
    (void)off; (void)order;
    return k;
}
static bool try_alloc(mc::Run& R, World& w, size_t n)
{
    void* p = nullptr;
    try { p = w.a.mm_alloc(n); }
    catch (const system_error&) { intact(R, w.live, "after a refused allocation"); return false; }
    catch (const bad_alloc&) { intact(R, w.live, "after a refused allocation"); return false; }
    place(R, w.live, p, n, "mm_alloc");
    intact(R, w.live, "after mm_alloc");
    return true;
}
static bool try_realloc(mc::Run& R, World& w, size_t i, size_t n)
{
    Live o = w.live[i];
    void* p = nullptr;
    try { p = w.a.mm_realloc(o.p, n); }
    catch (const system_error&) { intact(R, w.live, "after a refused reallocation"); return false; }
    catch (const bad_alloc&) { intact(R, w.live, "after a refused reallocation"); return false; }
    w.live.erase(w.live.begin() + i);
    if (n == 0) { if (p) R.fail("mm_realloc(p,0) does not return nullptr"); }
    else {
        uint8_t* q = (uint8_t*)p;
        if (q >= g_base && q + n <= g_base + g_len)
            for (size_t j = 0; j < min(n, o.n); ++j)
                if (q[j] != pat(o.p, o.n, j)) R.fail(mc::cat("mm_realloc(+", o.p - g_base, ":", o.n, " -> ", n, ") changed byte ", j, " of the common prefix"));
        place(R, w.live, p, n, "mm_realloc");
    }
    intact(R, w.live, "after mm_realloc");
    return true;
}
static void do_free(mc::Run& R, World& w, size_t i)
{
    w.a.mm_free(w.live[i].p);
    w.live.erase(w.live.begin() + i);
    intact(R, w.live, "after mm_free");
}
// after everything has been freed, an arena-sized block can be handed out again
static void drain(mc::Run& R, World w, size_t arena, bool fwd)
{
    while (!w.live.empty()) do_free(R, w, fwd ? 0 : w.live.size() - 1);
    size_t big = (arena & ~7ULL) - 16;
    if (!try_alloc(R, w, big)) R.fail(mc::cat("after freeing everything (", fwd ? "ascending" : "descending", ") an allocation of ", big, " of ", arena, " bytes is refused"));
}
static void explore(mc::Run& R, size_t arena, const vector<size_t>& S, size_t maxlive, size_t maxstates, bool realloc0)
{
    R.run([&] { return mc::cat("arena of ", arena, " bytes, sizes ", mc::str(S), ", at most ", maxlive, " live blocks: every reachable heap, every operation"); },
          [&] {
              unordered_map<string, uint32_t> seen;
              deque<World> q;
              auto hist = make_shared<vector<pair<uint32_t, string>>>();
              World z;
              z.a.init(arena);
              snap(z);
              seen[key(z, {})] = 0;
              hist->push_back({0, ""});
              q.push_back(z);
              deque<uint32_t> qi = {0};
              uint32_t cur = 0;
              string op;
              auto trace = [&] {
                  vector<string> t = {op};
                  for (uint32_t i = cur; i; i = (*hist)[i].first) t.push_back((*hist)[i].second);
                  string s = " history:";
                  for (size_t i = t.size(); i-- > 0;) s += " " + t[i];
                  return s;
              };
              bool complete = true;
              auto go = [&](const World& w, const string& name, function<void(World&)> f) {
                  World x = w;
                  back(w);
                  op = name;
                  try { f(x); snap(x); }
                  catch (mc::Fail& e) { throw mc::Fail{e.msg + trace()}; }
                  ++R.transitions;
                  string k = key(x, {});
                  if (!seen.count(k)) {
                      if (seen.size() >= maxstates) { complete = false; return; }
                      seen[k] = hist->size();
                      qi.push_back(hist->size());
                      hist->push_back({cur, name});
                      q.push_back(x);
                  }
              };
              while (!q.empty() && !R.stop()) {
                  World w = q.front();
                  q.pop_front();
                  cur = qi.front();
                  qi.pop_front();
                  for (int d = 0; d < 2; ++d) {
                      back(w);
                      op = d ? "free all ascending" : "free all descending";
                      World x = w;
                      try { drain(R, x, arena, d); } catch (mc::Fail& e) { throw mc::Fail{e.msg + trace()}; }
                  }
                  for (auto n : S) {
                      if (w.live.size() < maxlive) go(w, mc::cat("alloc(", n, ")"), [&](World& x) { try_alloc(R, x, n); });
                      for (size_t i = 0; i < w.live.size(); ++i) go(w, mc::cat("realloc(+", w.live[i].p - g_base, ",", n, ")"), [&](World& x) { try_realloc(R, x, i, n); });
                  }
                  for (size_t i = 0; i < w.live.size(); ++i) {
                      go(w, mc::cat("free(+", w.live[i].p - g_base, ")"), [&](World& x) { do_free(R, x, i); });
                      if (realloc0) go(w, mc::cat("realloc(+", w.live[i].p - g_base, ",0)"), [&](World& x) { try_realloc(R, x, i, 0); });
                  }
                  if (realloc0) go(w, "realloc(nullptr,8)", [&](World& x) {
                      void* p = nullptr;
                      try { p = x.a.mm_realloc(nullptr, 8); } catch (const system_error&) { return; }
                      place(R, x.live, p, 8, "mm_realloc(nullptr)");
                      intact(R, x.live, "after mm_realloc(nullptr)");
                  });
                  go(w, "free(nullptr)", [&](World& x) { x.a.mm_free(nullptr); intact(R, x.live, "after mm_free(nullptr)"); });
                  // requests nothing can satisfy
                  for (size_t n : {arena, (size_t)1 << 40, (size_t)1 << 63, (size_t)-1, (size_t)-8, (size_t)-16, (size_t)-17, (size_t)-32}) {
                      go(w, mc::cat("alloc(", n, ")"), [&](World& x) { if (try_alloc(R, x, n)) R.fail("impossible request granted"); });
                      if (!w.live.empty()) go(w, mc::cat("realloc(+", w.live[0].p - g_base, ",", n, ")"), [&](World& x) { if (try_realloc(R, x, 0, n)) R.fail("impossible request granted"); });
                  }
              }
              R.obs(seen.size());
              R.obs(complete);
          });
}
MC_TASK(words, "request sizes that are multiples of 8 (what vectors ask for): all heaps reachable over arenas of 128..256 bytes with all of {8,16,24,32,48,64,...}")
{
    explore(R, 128, {8, 16, 24, 32, 40, 48, 64, 112}, 8, 200000, true);
    explore(R, 160, {8, 16, 24, 32, 40, 56, 72, 144}, 8, 200000, true);
    explore(R, 192, {8, 16, 24, 32, 48, 64, 176}, 8, R.thorough ? 2000000 : 60000, false);
    explore(R, 256, {8, 24, 40, 64, 128}, 8, R.thorough ? 2000000 : 60000, false);
    explore(R, 512, {16, 40, 104, 240}, 6, R.thorough ? 2000000 : 60000, false);
}
MC_TASK(bytes, "any request size: all heaps reachable over arenas of 96..192 bytes with sizes around multiples of 8")
{
    explore(R, 96, {0, 1, 7, 8, 9, 15, 16, 17, 23, 25, 33, 41}, 6, 100000, true);
    explore(R, 128, {1, 8, 15, 17, 31, 33, 47, 65}, 6, R.thorough ? 1000000 : 60000, false);
    explore(R, 192, {1, 9, 20, 39, 63}, 6, R.thorough ? 1000000 : 60000, false);
}
MC_TASK(page, "arena of 64 pages and of sizes that are no multiple of 8: large and small requests mixed")
{
    explore(R, 64 * PAGE, {8, 4096, 16384, 65536, 131072}, 4, R.thorough ? 200000 : 1500, false);
    explore(R, 101, {8, 16, 24, 40}, 6, 60000, false);
    explore(R, 4097, {8, 1000, 2048, 4064}, 5, R.thorough ? 500000 : 10000, false);
}
// ---- vectors on huge pages: every history of resize/assign/copy/destroy equals the same history on the C heap
MC_TASK(vectors, "memory_manager on huge pages: every history of depth 4 (thorough 5) over 3 int_vectors x {resize to 0,1,64,65,200; copy from next; move from next; clear; push of all ones}, contents compared with a model")
{
    size_t D = R.thorough ? 5 : 4;
    static bool on = false;
    static size_t peak = 0;
    if (!on) { memory_manager::use_hugepages(g_pages * PAGE); on = true; }
    const size_t sz[] = {0, 1, 64, 65, 200};
    const size_t OPS = 3 * 8;
    size_t tot = 1;
    for (size_t i = 0; i < D; ++i) tot *= OPS;
    for (size_t h = 0; h < tot; ++h) {
        if (R.stop()) return;
        R.run([&] { string s; for (size_t i = 0, x = h; i < D; ++i, x /= OPS) s += mc::cat(" v", x % OPS / 8, ":", x % OPS % 8); return "history (ops 0..4 resize to 0,1,64,65,200; 5 copy next; 6 move next; 7 assign vector of 70):" + s; },
              [&] {
                  {
                  int_vector<> v[3] = {int_vector<>(3, 1, 7), int_vector<>(64, 2, 7), int_vector<>(10, 3, 7)};
                  vector<uint64_t> m[3] = {vector<uint64_t>(3, 1), vector<uint64_t>(64, 2), vector<uint64_t>(10, 3)};
                  bool full[3] = {true, true, true};
                  for (size_t i = 0, x = h; i < D; ++i, x /= OPS) {
                      size_t a = x % OPS / 8, o = x % OPS % 8, b = (a + 1) % 3;
                      if (o < 5) {
                          size_t old = m[a].size();
                          v[a].resize(sz[o]);
                          for (size_t j = old; j < sz[o]; ++j) v[a][j] = j % 128; // contents behind the old end are unspecified
                          m[a].resize(sz[o]);
                          for (size_t j = old; j < sz[o]; ++j) m[a][j] = j % 128;
                      } else if (o == 5) { v[a] = v[b]; m[a] = m[b]; }
                      else if (o == 6) { v[a] = std::move(v[b]); m[a] = m[b]; v[b] = int_vector<>(2, 9, 7); m[b].assign(2, 9); }
                      else { v[a] = int_vector<>(70, 100 + a, 7); m[a].assign(70, 100 + a); }
                      for (int k = 0; k < 3; ++k) {
                          R.eqi((size_t)v[k].size(), m[k].size(), "size", k);
                          for (size_t j = 0; j < m[k].size(); ++j) R.eqi((uint64_t)v[k][j], m[k][j], "vector element", k, j);
                          if (v[k].size() && !hugepage_allocator::the_allocator().in_address_space((void*)v[k].data())) R.fail("vector not on the huge pages");
                      }
                  }
                  (void)full;
                  }
                  uint64_t w0;
                  memcpy(&w0, g_base, 8);
                  R.ck((w0 & 1) && (peak = max<size_t>(peak, w0 & ~1ULL)) <= 4096, "memory of destroyed vectors is not reused: the heap does not consist of one free block of moderate size");
              });
    }
}
