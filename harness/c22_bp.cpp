// C22: balanced-parentheses supports answer every query as the definition over the sequence says.
#include "bpgen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/rmq_support.hpp>
using namespace std;
using namespace sdsl;
using namespace bpg;
template<class T> struct tname;
#define T(N, ...) struct N : __VA_ARGS__ { using base = __VA_ARGS__; using base::base; N() {} }; template<> struct tname<N> { static string get() { return #__VA_ARGS__; } };
#if GROUP == 1
T(A1, bp_support_sada<1, 1>)
T(A2, bp_support_sada<2, 2>)
T(A3, bp_support_sada<8, 2>)
T(A4, bp_support_sada<7, 3>)
typedef tuple<A1*, A2*, A3*, A4*> Ty;
#elif GROUP == 2
T(A1, bp_support_sada<64, 2>)
T(A2, bp_support_sada<16, 4>)
T(A3, bp_support_sada<>)
T(A4, bp_support_sada<33, 1, rank_support_v<>, select_support_scan<>>)
typedef tuple<A1*, A2*, A3*, A4*> Ty;
#elif GROUP == 3
T(A1, bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 3>)
T(A2, bp_support_g<nearest_neighbour_dictionary<4>, rank_support_v<>, select_support_scan<>, range_maximum_support_sparse_table<>, 8>)
T(A3, bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 17>)
T(A4, bp_support_g<>)
typedef tuple<A1*, A2*, A3*, A4*> Ty;
#elif GROUP == 4
T(A1, bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, 7>)
T(A2, bp_support_gg<nearest_neighbour_dictionary<4>, rank_support_v<>, select_support_scan<>, 8>)
T(A3, bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, 33>)
T(A4, bp_support_gg<>)
typedef tuple<A1*, A2*, A3*, A4*> Ty;
#endif
template<class F, size_t... I> static void each_(F f, index_sequence<I...>) { (void)initializer_list<int>{(f((typename tuple_element<I, Ty>::type) nullptr), 0)...}; }
template<class F> static void each(F f) { each_(f, make_index_sequence<tuple_size<Ty>::value>()); }
template<class V> static auto lvl(const V& s, const Ref& f, mc::Run& R, size_t st, int) -> decltype(s.level_anc(0, 0), void())
{
    for (size_t i = 0; i < f.n; i += 1) if (f.b[i]) {
        size_t d = 0, a = i;
        for (; a != f.n; a = f.encl[a], ++d) if (d < 3 || d % st == 0 || f.encl[a] == f.n) R.eqi(s.level_anc(i, d), a, "level_anc", i, d);
        R.eqi(s.level_anc(i, d), f.n, "level_anc", i, d);
        R.eqi(s.level_anc(i, d + 1), f.n, "level_anc", i, d + 1);
        R.eqi(s.level_anc(i, d + 70), f.n, "level_anc", i, d + 70);
        if (st > 1) i += st / 2;
    }
}
template<class V> static void lvl(const V&, const Ref&, mc::Run&, size_t, ...) {}
template<class V> static void check(mc::Run& R, const V& s, const Ref& f, size_t st)
{
    size_t n = f.n, ones = 0;
    R.eq(s.size(), n, "size()");
    for (size_t i = 0; i < n; ++i) {
        if (f.b[i]) {
            ++ones;
            R.eqi(s.select(ones), i, "select", ones);
        }
        R.eqi(s.rank(i), ones, "rank", i);
        R.eqi((long)s.excess(i), f.ex[i], "excess", i);
        R.eqi(s.find_close(i), f.b[i] ? f.match[i] : i, "find_close", i);
        R.eqi(s.find_open(i), f.b[i] ? i : f.match[i], "find_open", i);
        R.eqi(s.enclose(i), f.encl[i], "enclose", i);
        size_t p = 0;
        while (p < i && !f.b[i - 1 - p]) ++p;
        R.eqi(s.preceding_closing_parentheses(i), p, "preceding_closing_parentheses", i);
    }
    auto pts = [&](size_t i) { return st == 1 || i % st < 2 || i + 3 > n || i % 64 == 63 || i % 840 < 1; };
    for (size_t i = 0; i < n; ++i) if (pts(i)) {
        // running minimum and leftmost unmatched opening
        long mn = f.ex[i];
        for (size_t j = i; j < n; ++j) {
            mn = min(mn, f.ex[j]);
            if (!pts(j)) continue;
            size_t m = s.rmq(i, j);
            if (m < i || m > j || f.ex[m] != mn) R.fail(mc::cat("rmq(", i, ",", j, ") = ", m, " has excess ", m < n ? f.ex[m] : -1, ", the minimum is ", mn));
            ++R.transitions;
            R.eqi(s.rmq_open(i, j), f.rmq_open(i, j), "rmq_open", i, j);
            if (f.b[i] && f.b[j] && f.match[i] < j) {
                R.eqi(s.rr_enclose(i, j), f.rr_enclose(i, j), "rr_enclose", i, j);
                R.eqi(s.rr_enclose_naive(i, j), f.rr_enclose(i, j), "rr_enclose_naive", i, j);
                R.eqi(s.double_enclose(i, j), f.double_enclose(i, j), "double_enclose", i, j);
            }
        }
    }
    lvl(s, f, R, st, 0);
    R.obs(ones);
}
static void one(mc::Run& R, const Bits& b, size_t st, const string& nm = "")
{
    Ref f;
    f.build(b);
    bit_vector bv = gen::mk(b);
    each([&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        R.run([&] { return tname<V>::get() + " " + nm + gen::show(b); },
              [&] {
                  try {
                      V s(&bv);
                      check(R, s, f, st);
                  } catch (const logic_error& e) {
                      R.ck(string(e.what()).find("recursion in the construction does not terminate") != string::npos && b.size() <= 16, string("exception ") + e.what());
                  }
              });
    });
}
MC_TASK(small, "support x every balanced sequence (forests included) up to a number of pairs; every operation on every (pair of) positions")
{
    for (size_t n = 0; n <= (R.thorough ? 11 : 9); ++n) dyck(n, [&](const Bits& b) { one(R, b, 1); });
}
MC_TASK(prefixed, "support x every balanced sequence of 5 pairs placed inside / behind a longer frame, so that it crosses block and byte borders; every operation")
{
    vector<size_t> at = R.thorough ? vector<size_t>{0, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 20, 27, 28, 31, 32, 33, 60, 61, 64} : vector<size_t>{3, 6, 13, 28, 30};
    for (size_t k : at)
        for (int fr = 0; fr < 3; ++fr)
            dyck(5, [&](const Bits& m) {
                Bits b;
                if (fr == 0) b.insert(b.end(), k, 1);                                                  // inside k nested pairs
                if (fr == 1) for (size_t i = 0; i < k; ++i) b.push_back(i & 1 ^ 1), k % 2 && i + 1 == k ? b.push_back(0) : void(); // behind k/2 siblings
                if (fr == 2) { b.insert(b.end(), (k + 1) / 2, 1); b.insert(b.end(), k / 2, 0); }
                b.insert(b.end(), m.begin(), m.end());
                long e = 0;
                for (auto x : b) e += x ? 1 : -1;
                b.insert(b.end(), e, 0);
                one(R, b, 1, mc::cat("frame ", fr, " "));
            });
}
MC_TASK(shapes, "support x eleven tree shapes x sizes around byte, word and block borders; every operation on all positions, all pairs up to 300 positions, else pairs on a grid")
{
    vector<size_t> ns{12, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129};
    vector<size_t> big{255, 256, 257, 420, 421, 700, 1024, 2100};
    if (R.thorough) { for (size_t n = 9; n < 160; ++n) ns.push_back(n); big = {255, 256, 257, 419, 420, 421, 512, 840, 841, 1260, 2100, 4095, 4096, 4097, 8192, 9000, 20000}; }
    for (int k = 0; k < S_COUNT; ++k) {
        for (size_t n : ns) one(R, shape(k, n), n <= 65 ? 1 : n / 12, shape_name(k) + " ");
        for (size_t n : big) one(R, shape(k, n), n / 8, shape_name(k) + " ");
    }
}
MC_TASK(pioneers, "pioneer bitmaps of both algorithms agree, matches and enclose arrays, for every balanced sequence up to a size and the tree shapes x block size")
{
    auto f = [&](const Bits& b) {
        Ref r;
        r.build(b);
        bit_vector bv = gen::mk(b);
        R.run([&] { return gen::show(b); },
              [&] {
                  for (uint64_t bs : {1, 2, 3, 4, 5, 8, 9, 16, 64, 840}) {
                      bit_vector p = calculate_pioneers_bitmap(bv, bs), q = calculate_pioneers_bitmap_succinct(bv, bs);
                      R.eq(p.size(), b.size(), "pioneer bitmap size");
                      for (size_t i = 0; i < b.size(); ++i) R.eqi((int)p[i], (int)q[i], "pioneer bitmaps", bs, i);
                      // reference: opening i is a pioneer iff its match lies in another block and the previous far opening of i's block has its match in another block than match[i]
                      vector<int> w(b.size(), 0);
                      size_t cb = ~0ULL, mb = ~0ULL;
                      // definition: of the far openings of one block whose matches lie in one other block, the first (outermost)
                      for (size_t i = 0; i < b.size(); ++i) if (b[i] && r.match[i] / bs != i / bs) {
                          if (cb != i / bs || mb != r.match[i] / bs) w[i] = w[r.match[i]] = 1;
                          cb = i / bs, mb = r.match[i] / bs;
                      }
                      for (size_t i = 0; i < b.size(); ++i) R.eqi((int)p[i], w[i], "pioneer", bs, i);
                  }
                  int_vector<> m, e;
                  calculate_matches(bv, m);
                  calculate_enclose(bv, e);
                  for (size_t i = 0; i < b.size(); ++i) {
                      R.eqi((size_t)m[i], r.match[i], "calculate_matches", i);
                      R.eqi((size_t)e[i], r.encl[i], "calculate_enclose", i);
                  }
              });
    };
    for (size_t n = 0; n <= (R.thorough ? 10 : 7); ++n) dyck(n, f);
    for (int k = 0; k < S_COUNT; ++k) for (size_t n : {16, 33, 64, 65, 129, 300, 1000}) f(shape(k, n));
}
