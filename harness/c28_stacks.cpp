// C28: sorted stacks behave as stacks for every history of pushes and pops.
#include "gen.hpp"
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <deque>
#include <sstream>
using namespace std;
using namespace sdsl;
typedef vector<uint64_t> Stk;
template<class S> static string ser(const S& s) { stringstream o; s.serialize(o); return o.str(); }
template<class S> static void verify(mc::Run& R, const S& s, const Stk& m)
{
    R.eq((size_t)s.size(), m.size(), "size()");
    R.eq((bool)s.empty(), m.empty(), "empty()");
    if (!m.empty()) R.eq((uint64_t)s.top(), m.back(), "top()");
}
// drain a copy and compare every top on the way down
template<class S> static void drain(mc::Run& R, S s, Stk m)
{
    while (!m.empty()) { s.pop(); m.pop_back(); verify(R, s, m); }
    s.pop(); // no effect on an empty stack
    verify(R, s, m);
}
static void push(mc::Run& R, sorted_stack_support& s, Stk& m, uint64_t x) { s.push(x); m.push_back(x); }
static void pop(mc::Run& R, sorted_stack_support& s, Stk& m) { s.pop(); if (!m.empty()) m.pop_back(); }
static void push(mc::Run& R, sorted_multi_stack_support& s, Stk& m, uint64_t x)
{
    bool e = m.empty() || m.back() != x;
    R.eqi((bool)s.push(x), e, "push", x);
    m.push_back(x);
}
static void pop(mc::Run& R, sorted_multi_stack_support& s, Stk& m)
{
    bool e = false;
    if (!m.empty()) {
        uint64_t t = m.back();
        m.pop_back();
        e = m.empty() || m.back() != t;
    }
    R.eqi((bool)s.pop(), e, "pop");
}
template<class S, bool MULTI> static void explore(mc::Run& R, const char* nm, uint64_t n, const vector<uint64_t>& V, size_t mult)
{
    R.run([&] { return mc::cat(nm, "(", n, "): every reachable stack over values ", mc::str(V), " with multiplicity <= ", mult); },
          [&] {
              map<string, Stk> seen;
              deque<pair<S, Stk>> q;
              S z(n);
              seen[ser(z)] = {};
              q.push_back({z, {}});
              while (!q.empty() && !R.stop()) {
                  auto cur = q.front();
                  q.pop_front();
                  verify(R, cur.first, cur.second);
                  drain(R, cur.first, cur.second);
                  auto go = [&](function<void(S&, Stk&)> op) {
                      S t(cur.first);
                      Stk m = cur.second;
                      op(t, m);
                      ++R.transitions;
                      verify(R, t, m);
                      string k = ser(t);
                      if (!seen.count(k)) { seen[k] = m; q.push_back({t, m}); }
                      else if (seen[k] != m) R.fail(mc::cat("stacks ", mc::str(seen[k]), " and ", mc::str(m), " have the same state"));
                  };
                  if (cur.second.empty() == false) go([&](S& t, Stk& m) { pop(R, t, m); });
                  for (auto v : V) {
                      size_t c = 0;
                      for (auto y : cur.second) c += y == v;
                      bool ok = cur.second.empty() || v > cur.second.back() || (MULTI && v == cur.second.back() && c < mult);
                      if (ok && cur.second.size() < max<uint64_t>(n, 1)) go([&](S& t, Stk& m) { push(R, t, m, v); });
                  }
                  // save and restore between any two operations
                  S l(0);
                  stringstream o;
                  cur.first.serialize(o);
                  l.load(o);
                  verify(R, l, cur.second);
              }
              R.obs(seen.size());
          });
}
MC_TASK(set_small, "sorted_stack_support(n), n = 0..12 (thorough 14): every reachable stack, every push and pop from it, drained to empty")
{
    for (uint64_t n = 0; n <= (R.thorough ? 14 : 12); ++n) {
        vector<uint64_t> V;
        for (uint64_t i = 0; i <= n; ++i) V.push_back(i);
        explore<sorted_stack_support, false>(R, "sorted_stack_support", n, V, 1);
    }
}
static vector<vector<uint64_t>> borders()
{
    return {{0, 1, 61, 62, 63, 64, 124, 125, 126, 127, 130}, {0, 62, 125, 188, 251, 314, 377, 440}, {61, 62, 63, 200, 250, 251, 252, 1000, 1007}, {5, 300, 600, 900, 1200, 1201, 5000, 100000}, {62, 63, 64, 65, 126, 127, 128, 4000, 4031, 4032, 4033}};
}
MC_TASK(set_borders, "sorted_stack_support over value sets at the borders of the 63-bit blocks and far apart: every reachable stack and transition")
{
    for (auto& V : borders()) explore<sorted_stack_support, false>(R, "sorted_stack_support", V.back(), V, 1);
}
MC_TASK(multi_small, "sorted_multi_stack_support(n), n = 0..8 (thorough 9): every reachable stack of at most max(n,1) elements with every multiplicity")
{
    for (uint64_t n = 0; n <= (R.thorough ? 9 : 8); ++n) {
        vector<uint64_t> V;
        for (uint64_t i = 0; i <= n; ++i) V.push_back(i);
        explore<sorted_multi_stack_support, true>(R, "sorted_multi_stack_support", n, V, 99);
    }
}
MC_TASK(multi_borders, "sorted_multi_stack_support over value sets at block borders, multiplicity <= 2 (thorough 3)")
{
    for (auto V : borders()) {
        if (V.size() > 8 && !R.thorough) V.resize(8);
        explore<sorted_multi_stack_support, true>(R, "sorted_multi_stack_support", V.back(), V, R.thorough ? 3 : 2);
    }
}
template<class S> static void deep(mc::Run& R, const char* nm, uint64_t n, uint64_t stride, uint64_t dup, uint64_t back)
{
    // pushes stride, 2*stride, ... (each dup times); after every `back` pushes pops half of them
    R.run([&] { return mc::cat(nm, "(", n, ") stride ", stride, " dup ", dup, " pop period ", back); },
          [&] {
              S s(n);
              Stk m;
              uint64_t x = 0, k = 0;
              while (x <= n && m.size() + dup <= n) {
                  for (uint64_t d = 0; d < dup; ++d) { push(R, s, m, x); verify(R, s, m); }
                  x += stride;
                  if (++k % back == 0) for (size_t i = m.size() / 2; i > 0; --i) { pop(R, s, m); verify(R, s, m); }
              }
              drain(R, s, m);
              R.obs(k);
          });
}
MC_TASK(deep_histories, "long push/pop histories with strides 1..130 over n up to 5000, duplicates crossing the 64-bit border of the duplication stack")
{
    for (uint64_t n : {1, 62, 63, 64, 65, 125, 126, 127, 500, 5000})
        for (uint64_t st : {1, 2, 31, 62, 63, 64, 65, 126, 130})
            for (uint64_t back : {1000000, 2, 3, 7, 64, 65}) {
                deep<sorted_stack_support>(R, "sorted_stack_support", n, st, 1, back);
                for (uint64_t dup : {1, 2, 3, 63, 64, 65}) deep<sorted_multi_stack_support>(R, "sorted_multi_stack_support", n, st, dup, back);
                if (R.stop()) return;
            }
}
