// C14: wavelet trees answer access/rank/inverse_select/select exactly like the sequence.
#include "wtgen.hpp"
using namespace std;

template<class V, class = void> struct has_it : false_type {};
template<class V> struct has_it<V, typename void_<decltype(declval<const V&>().begin())>::type> : true_type {};
template<class V> static typename enable_if<has_it<V>::value>::type iter(mc::Run& R, const V& wt, const VV& v)
{
    size_t i = 0;
    for (auto it = wt.begin(); it != wt.end(); ++it, ++i) if ((uint64_t)*it != v.at(i)) R.eqi((uint64_t)*it, v[i], "iterator", i);
    R.eqi(i, v.size(), "iterated length");
}
template<class V> static typename enable_if<!has_it<V>::value>::type iter(mc::Run&, const V&, const VV&) {}

template<class V>
static void check(mc::Run& R, const V& wt, const VV& v, uint64_t cap)
{
    size_t n = v.size();
    R.eqi(wt.size(), n, "size");
    R.eqi(wt.empty(), n == 0, "empty");
    map<uint64_t, vector<size_t>> occ;
    for (size_t i = 0; i < n; ++i) {
        auto& o = occ[v[i]];
        uint64_t x = wt[i];
        if (x != v[i]) R.eqi(x, v[i], "[]", i);
        auto is = wt.inverse_select(i);
        if (is.first != o.size() || is.second != v[i]) {
            R.eqi(is.second, v[i], "inverse_select symbol", i);
            R.eqi(is.first, o.size(), "inverse_select rank", i);
        }
        o.push_back(i);
        R.obs(x);
    }
    R.transitions += 2 * n;
    R.eqi(wt.sigma, occ.size(), "sigma");
    iter(R, wt, v);
    for (auto& kv : occ)
        for (size_t k = 0; k < kv.second.size(); ++k) {
            uint64_t p = wt.select(k + 1, kv.first);
            if (p != kv.second[k]) R.eqi(p, kv.second[k], "select", k + 1, kv.first);
        }
    R.transitions += n;
    set<uint64_t> cs;
    for (auto& kv : occ) {
        cs.insert(kv.first);
        if (kv.first) cs.insert(kv.first - 1);
        if (kv.first < cap) cs.insert(kv.first + 1);
    }
    cs.insert(0);
    cs.insert(cap);
    cs.insert(cap / 2);
    cs.insert(64);
    cs.insert(255);
    for (int k = 1; k < 64 && (cap >> k); ++k) R.eqi(wt.rank(n, 1ULL << k), occ.count(1ULL << k) ? occ[1ULL << k].size() : 0, "rank", n, 1ULL << k);
    if (n * cs.size() <= 30000) {
        for (uint64_t c : cs) {
            size_t r = 0;
            for (size_t i = 0;; ++i) {
                uint64_t y = wt.rank(i, c);
                if (y != r) R.eqi(y, r, "rank", i, c);
                if (i == n) break;
                r += v[i] == c;
            }
        }
        R.transitions += n * cs.size();
    } else { // every (i, v[i]), (i+1, v[i]) and every symbol at the ends
        map<uint64_t, size_t> r;
        uint64_t prev = v[0];
        for (size_t i = 0; i < n; ++i) {
            uint64_t y = wt.rank(i, v[i]);
            if (y != r[v[i]]) R.eqi(y, r[v[i]], "rank", i, v[i]);
            y = wt.rank(i, prev);
            if (y != r[prev]) R.eqi(y, r[prev], "rank", i, prev);
            prev = v[i];
            ++r[v[i]];
        }
        for (uint64_t c : cs) {
            R.eqi(wt.rank(n, c), r.count(c) ? r[c] : 0, "rank", n, c);
            R.eqi(wt.rank(0, c), 0, "rank", 0, c);
        }
        R.transitions += 2 * n;
    }
}
#define SLOW (GROUP == 8 || GROUP == 9 || GROUP == 10 || GROUP == 11)
template<class V> static uint64_t capq() { return V::alphabet_category::WIDTH == 8 ? 255 : ~0ULL; }

MC_TASK(small, "type x every sequence over small alphabets (placed at 0.., 127/128/255, around powers of two) of bounded length; every query, every position, present and absent symbols")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        small_seqs(R.thorough, SLOW, CAP, [&](const VV& v) {
            R.run([&] { return tname<V>::get() + " " + gen::shows(v); },
                  [&] {
                      V wt;
                      build(wt, v);
                      check(R, wt, v, capq<V>());
                  });
        });
    });
}
MC_TASK(runs, "type x three runs with lengths around 64/128 x symbol patterns; every query at every position")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        run_seqs(R.thorough, SLOW, [&](const VV& v) {
            R.run([&] { return tname<V>::get() + " " + gen::shows(v); },
                  [&] {
                      V wt;
                      build(wt, v);
                      check(R, wt, v, capq<V>());
                  });
        });
    });
}
MC_TASK(shapes, "type x length (up to 4500/9000) x alphabet size (1..1000) x seven orders; every access, inverse_select and select, ranks at every position")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        long_seqs(R.thorough, V::alphabet_category::WIDTH == 8 ? 255 : CAP, [&](size_t n, uint64_t s, int sh) {
            R.run([&] { return mc::cat(tname<V>::get(), " n=", n, " sigma=", s, " order=", shape_names[sh]); },
                  [&] {
                      VV v = shaped(n, s, sh);
                      V wt;
                      build(wt, v);
                      check(R, wt, v, capq<V>());
                  });
        });
    });
}
MC_TASK(prefix, "type x every sequence over {0,1,2} x every prefix length: built from the first `size` entries of a longer buffer")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        gen::all_seqs(1, R.thorough ? 5 : SLOW ? 3 : 4, gen::iota_alpha(0, 2), [&](const VV& v) {
            for (size_t k = 0; k <= v.size(); ++k)
                R.run([&] { return mc::cat(tname<V>::get(), " ", gen::shows(v), " prefix ", k); },
                      [&] {
                          const uint8_t W = V::alphabet_category::WIDTH;
                          string f = ram_file_name("c14p");
                          {
                              int_vector<W> iv(v.size(), 0, W ? W : 8);
                              for (size_t i = 0; i < v.size(); ++i) iv[i] = v[i];
                              store_to_file(iv, f);
                          }
                          {
                              int_vector_buffer<W> buf(f, ios::in, 1024);
                              V wt(buf, k);
                              check(R, wt, VV(v.begin(), v.begin() + k), capq<V>());
                          }
                          sdsl::remove(f);
                      });
        });
    });
}
