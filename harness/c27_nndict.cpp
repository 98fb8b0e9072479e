// C27: static and dynamic nearest-neighbour dictionaries.
#include "gen.hpp"
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <deque>
#include <sstream>
#include <unordered_set>
using namespace std;
using namespace sdsl;
template<int T> static void run_static(mc::Run& R, const gen::Bits& b, int life)
{
    R.run([&] { return mc::cat("nearest_neighbour_dictionary<", T, "> life ", life, " ", gen::show(b)); },
          [&] {
              typedef nearest_neighbour_dictionary<T> D;
              bit_vector v = gen::mk(b);
              unique_ptr<D> d(new D(v));
              if (life == 1) { unique_ptr<D> t(new D(*d)); d = move(t); }
              if (life == 2) { unique_ptr<D> t(new D); t->swap(*d); d = move(t); }
              if (life == 3) { unique_ptr<D> t(new D(bit_vector(7, 1))); stringstream o; d->serialize(o); t->load(o); d = move(t); }
              if (life == 4) { unique_ptr<D> t(new D(bit_vector(70, 1))); *t = move(*d); d = move(t); }
              size_t n = b.size(), ones = 0;
              vector<size_t> pos;
              for (size_t i = 0; i < n; ++i) if (b[i]) pos.push_back(i);
              R.eq((size_t)d->size(), n, "size()");
              R.eq((size_t)d->ones(), pos.size(), "ones()");
              size_t last = 0;
              for (size_t i = 0; i <= n; ++i) {
                  R.eqi((size_t)d->rank(i), ones, "rank", i);
                  if (i == n) break;
                  if (ones < pos.size()) R.eqi((size_t)d->next(i), pos[ones], "next", i);
                  if (b[i]) { R.eqi((size_t)d->select(ones + 1), i, "select", ones + 1); ++ones; last = i; }
                  if (ones) R.eqi((size_t)d->prev(i), last, "prev", i);
              }
              R.obs(ones);
          });
}
static void run_all(mc::Run& R, const gen::Bits& b, int life)
{
    run_static<1>(R, b, life); run_static<2>(R, b, life); run_static<3>(R, b, life); run_static<4>(R, b, life);
    run_static<7>(R, b, life); run_static<16>(R, b, life); run_static<30>(R, b, life); run_static<64>(R, b, life);
}
MC_TASK(static_small, "8 sample densities x every bit vector of length 0..14 (thorough 17) x lifecycle in turn")
{
    size_t c = 0;
    gen::all_bits(0, R.thorough ? 17 : 14, [&](const gen::Bits& b) { if (!R.stop()) run_all(R, b, c++ % 5); });
}
MC_TASK(static_long, "8 sample densities x backgrounds of length 63..5000 x one flipped bit around block borders")
{
    for (size_t n : {63, 64, 65, 127, 128, 200, 513, 4096, 5000})
        for (int k = 0; k < gen::BG_COUNT; ++k)
            for (size_t f : {(size_t)0, (size_t)1, (size_t)29, (size_t)31, (size_t)62, n / 2, n - 2, n - 1, n}) {
                gen::Bits b(n);
                for (size_t i = 0; i < n; ++i) b[i] = gen::bg(k, i, n);
                if (f < n) b[f] ^= 1;
                run_all(R, b, (n + f) % 5);
                if (R.stop()) return;
            }
}
// ---- dynamic: explicit exploration of every state reachable by inserting and deleting the positions P
static void verify(mc::Run& R, nn_dict_dynamic& d, size_t n, const vector<uint64_t>& P, uint64_t set, const vector<uint64_t>& Q)
{
    R.eq((size_t)d.size(), n, "size()");
    const nn_dict_dynamic& c = d;
    for (auto q : Q) {
        size_t nx = n, pv = n;
        bool in = false;
        for (size_t i = 0; i < P.size(); ++i)
            if (set >> i & 1) {
                if (P[i] >= q && nx == n) nx = P[i];
                if (P[i] <= q) pv = P[i];
                if (P[i] == q) in = true;
            }
        R.eqi((size_t)c.next(q), nx, "next", q);
        R.eqi((size_t)c.prev(q), pv, "prev", q);
        R.eqi((bool)c[q], in, "[]", q);
        R.eqi((bool)d[q], in, "[] (reference)", q);
    }
}
static string ser(const nn_dict_dynamic& d) { stringstream o; d.serialize(o); return o.str(); }
static void explore(mc::Run& R, size_t n, const vector<uint64_t>& P, const vector<uint64_t>& Q)
{
    R.run([&] { return mc::cat("nn_dict_dynamic(", n, "): all states over positions ", mc::str(P)); },
          [&] {
              struct St { nn_dict_dynamic d; uint64_t set; };
              deque<St> q;
              unordered_map<string, uint64_t> seen;
              nn_dict_dynamic z(n);
              seen[ser(z)] = 0;
              q.push_back({z, 0});
              while (!q.empty() && !R.stop()) {
                  St s = q.front();
                  q.pop_front();
                  verify(R, s.d, n, P, s.set, Q);
                  for (size_t i = 0; i < P.size(); ++i)
                      for (int v = 0; v < 3; ++v) {
                          nn_dict_dynamic t(s.d);
                          uint64_t ns = s.set;
                          if (v == 2) { // assignment through a second reference
                              size_t j = (i + 1) % P.size();
                              t[P[i]] = t[P[j]];
                              ns = (ns & ~(1ULL << i)) | ((s.set >> j & 1) << i);
                          } else {
                              t[P[i]] = v;
                              ns = v ? ns | 1ULL << i : ns & ~(1ULL << i);
                          }
                          ++R.transitions;
                          string k = ser(t);
                          auto it = seen.find(k);
                          if (it == seen.end()) { seen[k] = ns; q.push_back({t, ns}); }
                          else if (it->second != ns) R.fail(mc::cat("two different sets have the same state: ", it->second, " and ", ns, " after writing ", v, " at ", P[i]));
                      }
              }
              // every state was checked; the empty dictionary is reachable again
              nn_dict_dynamic e(n);
              for (auto p : P) e[p] = 1;
              util::set_zero_bits(e);
              verify(R, e, n, P, 0, Q);
              R.obs(seen.size());
          });
}
MC_TASK(dynamic_small, "nn_dict_dynamic of 1..11 (thorough 14) bits: every reachable state, every insertion, deletion and reference assignment from it, every query")
{
    for (size_t n = 1; n <= (R.thorough ? 14 : 11); ++n) {
        vector<uint64_t> P;
        for (size_t i = 0; i < n; ++i) P.push_back(i);
        explore(R, n, P, P);
    }
}
MC_TASK(dynamic_large, "nn_dict_dynamic of n bits, n around powers of 64: every reachable state over 8 (thorough 10) positions at word and level borders, queries at all borders +-1")
{
    for (size_t n : {63, 64, 65, 127, 128, 129, 4032, 4033, 4095, 4096, 4097, 4160, 8192, 100000, 262143, 262144, 262145, 300000}) {
        set<uint64_t> c;
        for (uint64_t p : {0ul, 63ul, 64ul, 127ul, 4031ul, 4032ul, 4095ul, 4096ul, 8191ul, 262143ul, 262144ul, n / 2, n - 65, n - 64, n - 2, n - 1}) if (p < n) c.insert(p);
        vector<uint64_t> all(c.begin(), c.end());
        set<uint64_t> qs;
        for (auto p : all) for (uint64_t x : {p - 1, p, p + 1}) if (x < n) qs.insert(x);
        vector<uint64_t> Q(qs.begin(), qs.end());
        size_t K = n > 10000 ? (R.thorough ? 9 : 6) : R.thorough ? 10 : 8;
        // two selections: spread over the range and the last ones
        vector<uint64_t> A, B;
        for (size_t i = 0; i < all.size() && A.size() < K; i += max<size_t>(1, all.size() / K)) A.push_back(all[i]);
        for (size_t i = all.size() > K ? all.size() - K : 0; i < all.size(); ++i) B.push_back(all[i]);
        explore(R, n, A, Q);
        if (B != A) explore(R, n, B, Q);
        if (R.stop()) return;
    }
}
MC_TASK(dynamic_dense, "nn_dict_dynamic of n bits filled ascending/descending/strided, then emptied in 4 orders; all neighbour queries after every 7th step")
{
    for (size_t n : {1, 64, 65, 200, 4097, 5000})
        for (int o1 = 0; o1 < 4; ++o1)
            for (int o2 = 0; o2 < 4; ++o2)
                R.run([&] { return mc::cat("nn_dict_dynamic(", n, ") fill order ", o1, " empty order ", o2); },
                      [&] {
                          nn_dict_dynamic d(n);
                          vector<uint8_t> m(n, 0);
                          auto idx = [&](int o, size_t i) -> size_t { return o == 0 ? i : o == 1 ? n - 1 - i : o == 2 ? (i * 4099) % n : (i % 2 ? n - 1 - i / 2 : i / 2); };
                          auto ver = [&] {
                              vector<size_t> nx(n + 1, n);
                              for (size_t i = n; i-- > 0;) nx[i] = m[i] ? i : nx[i + 1];
                              size_t pv = n, st = n > 1000 ? 61 : 1;
                              for (size_t i = 0; i < n; ++i) {
                                  if (m[i]) pv = i;
                                  if (i % st == 0 || i % 64 == 63 || i % 64 == 0) {
                                      R.eqi((size_t)d.next(i), nx[i], "next", i);
                                      R.eqi((size_t)d.prev(i), pv, "prev", i);
                                      R.eqi((bool)d[i], (bool)m[i], "[]", i);
                                  }
                              }
                          };
                          size_t step = n > 1000 ? 401 : n > 100 ? 7 : 1;
                          for (size_t i = 0; i < n; ++i) { d[idx(o1, i)] = 1; m[idx(o1, i)] = 1; if (i % step == 0) ver(); }
                          ver();
                          for (size_t i = 0; i < n; ++i) { d[idx(o2, i)] = 0; m[idx(o2, i)] = 0; if (i % step == 0) ver(); }
                          ver();
                      });
}
