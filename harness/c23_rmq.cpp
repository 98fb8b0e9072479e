// C23: range minimum/maximum structures return the leftmost position of an extreme value.
#include "gen.hpp"
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <tuple>
using namespace std;
using namespace sdsl;
typedef vector<uint64_t> Seq;
template<class T> struct tname;
#define NAME(N, ...) typedef __VA_ARGS__ N; struct Tag##N { typedef N type; static const char* name() { return #__VA_ARGS__; } };
template<bool MIN, class Rac> struct SP { typedef rmq_support_sparse_table<Rac, MIN> type; };
// kind of container the structure is built from
template<class Rac> static Rac mkrac(const Seq& s);
template<> int_vector<> mkrac(const Seq& s) { int_vector<> v(s.size(), 0, 64); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; return v; }
template<> vector<int64_t> mkrac(const Seq& s) { vector<int64_t> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = (int64_t)s[i] - 2; return v; }
template<> int_vector<8> mkrac(const Seq& s) { int_vector<8> v(s.size(), 0); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; return v; }
template<class R> struct Signed { static const bool value = false; };
template<> struct Signed<vector<int64_t>> { static const bool value = true; };

struct Ref {
    Seq s;
    size_t query(bool mn, size_t l, size_t r) const
    {
        size_t b = l;
        for (size_t i = l + 1; i <= r; ++i) if (mn ? s[i] < s[b] : s[i] > s[b]) b = i;
        return b;
    }
};
template<class V> static void check(mc::Run& R, const V& v, const Ref& f, bool mn, size_t st)
{
    size_t n = f.s.size();
    R.eq((size_t)v.size(), n, "size()");
    for (size_t l = 0; l < n; ++l) {
        if (st > 1 && l % st > 1 && l % 64 != 63 && l + 2 < n) continue;
        size_t b = l;
        for (size_t r = l; r < n; ++r) {
            if (mn ? f.s[r] < f.s[b] : f.s[r] > f.s[b]) b = r;
            R.eqi((size_t)v(l, r), b, "rmq", l, r);
        }
        R.obs(b);
    }
}
template<class Rac> struct Sub {};
template<class V, class Rac> static void run1(mc::Run& R, const char* nm, bool mn, const Seq& s, size_t st, bool keep)
{
    R.run([&] { return string(nm) + (mn ? " min " : " max ") + gen::shows(s); },
          [&] {
              Ref f{s};
              Rac* c = new Rac(mkrac<Rac>(s));
              unique_ptr<V> v(new V(c));
              if (!keep) { delete c; c = nullptr; } // the succinct structures do not need the container for queries
              check(R, *v, f, mn, st);
              delete c;
          });
}
#if GROUP == 1
#define STRUCTS(F)                                                                                           \
    F(rmq_succinct_sct<>, true, int_vector<>, false)                                                         \
    F(range_maximum_sct<>::type, false, int_vector<>, false)                                                 \
    F(rmq_succinct_sct<true COMMA bp_support_g<>>, true, int_vector<8>, false)                               \
    F(rmq_succinct_sct<true COMMA bp_support_gg<nearest_neighbour_dictionary<30> COMMA rank_support_v<> COMMA select_support_mcl<> COMMA 16>>, true, int_vector<>, false) \
    F(rmq_succinct_sct<false COMMA bp_support_sada<16 COMMA 2>>, false, int_vector<>, false)                 \
    F(rmq_succinct_sct<>, true, vector<int64_t>, false)
#else
#define STRUCTS(F)                                                                                           \
    F(rmq_succinct_sada<>, true, int_vector<>, false)                                                        \
    F(range_maximum_support_sada<>::type, false, int_vector<>, false)                                        \
    F(rmq_succinct_sada<true COMMA bp_support_sada<16 COMMA 2>>, true, int_vector<8>, false)                 \
    F(rmq_support_sparse_table<>, true, int_vector<>, true)                                                  \
    F(range_maximum_support_sparse_table<>, false, int_vector<>, true)                                 \
    F(rmq_support_sparse_table<vector<int64_t> COMMA true>, true, vector<int64_t>, true)                     \
    F(rmq_support_sparse_table<int_vector<8> COMMA false>, false, int_vector<8>, true)
#endif
#define COMMA ,
static void one(mc::Run& R, const Seq& s, size_t st = 1, bool small = true)
{
#define RUN(V, MN, RAC, KEEP)                                                          \
    if (small || !is_same<RAC, int_vector<8>>::value) run1<V, RAC>(R, #V " over " #RAC, MN, s, st, KEEP);
    STRUCTS(RUN)
}
MC_TASK(small, "structure x every sequence over {0,1,2,..} up to a length (every weak ordering occurs); every range")
{
    auto f = [&](const Seq& s) { one(R, s); };
    gen::all_seqs(0, R.thorough ? 12 : 9, {0, 1}, f);
    gen::all_seqs(1, R.thorough ? 9 : 7, {0, 1, 2}, f);
    gen::all_seqs(3, R.thorough ? 7 : 5, {0, 1, 2, 3, 4}, f);
}
MC_TASK(permutations, "structure x every permutation of up to 7 (thorough 8) values; every range")
{
    for (size_t n = 2; n <= (R.thorough ? 8 : 7); ++n) {
        Seq s(n);
        for (size_t i = 0; i < n; ++i) s[i] = i;
        do one(R, s); while (next_permutation(s.begin(), s.end()));
    }
}
MC_TASK(values, "structure x every sequence of extreme 64-bit values up to length 4; every range")
{
    gen::all_seqs(1, R.thorough ? 6 : 4, {0, 1, 0x7fffffffffffffffULL, 0x8000000000000001ULL, ~0ULL}, [&](const Seq& s) {
#define RUN64(V, MN, RAC, KEEP) if (is_same<RAC, int_vector<>>::value) run1<V, RAC>(R, #V " over " #RAC, MN, s, 1, KEEP);
        STRUCTS(RUN64)
    });
}
MC_TASK(shapes, "structure x shapes (constant, ascending, descending, peaks, valleys, saw, blocks, pseudo-random, lcp-like) x lengths around powers of two and block borders; every range from every (or every few) left border")
{
    vector<size_t> ns{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600};
    if (R.thorough) { for (size_t n = 10; n < 300; ++n) ns.push_back(n); ns.push_back(1023); ns.push_back(1024); ns.push_back(1025); ns.push_back(2100); ns.push_back(4096); ns.push_back(4100); ns.push_back(8200); }
    for (size_t n : ns)
        for (int k = 0; k < 11; ++k) {
            Seq s(n);
            uint64_t st = 88172645463325252ULL;
            for (size_t i = 0; i < n; ++i) {
                st ^= st << 13; st ^= st >> 7; st ^= st << 17;
                switch (k) {
                    case 0: s[i] = 2; break;
                    case 1: s[i] = i; break;
                    case 2: s[i] = n - i; break;
                    case 3: s[i] = i < n / 2 ? i : n - i; break;
                    case 4: s[i] = i < n / 2 ? n - i : i; break;
                    case 5: s[i] = i % 5; break;
                    case 6: s[i] = (i / 17) % 3; break;
                    case 7: s[i] = st % n; break;
                    case 8: s[i] = __builtin_ctzll(i + 1); break;
                    case 9: s[i] = 63 - __builtin_clzll(i + 1); break;
                    case 10: s[i] = st % 3; break;
                }
            }
            one(R, s, n <= 130 ? 1 : n / 40, n <= 200);
        }
}
MC_TASK(default_built, "structure built from nothing / default-constructed")
{
#define RUNE(V, MN, RAC, KEEP) R.run([&] { return string(#V); }, [&] { V v; R.eq((size_t)v.size(), (size_t)0, "size()"); });
    STRUCTS(RUNE)
}
