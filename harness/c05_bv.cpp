// C05: compressed bit vectors against the plain bit string.  -DGROUP selects the types.
#include "bvgen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/rrr_vector.hpp>
#include <sdsl/sd_vector.hpp>
#include <sdsl/wavelet_trees.hpp>
using namespace sdsl;
using namespace std;
using gen::Bits;

struct Exp {
    vector<uint32_t> r1, s1, s0;
    explicit Exp(const Bits& b) : r1(b.size() + 1)
    {
        for (size_t i = 0; i < b.size(); ++i) {
            r1[i + 1] = r1[i] + b[i];
            (b[i] ? s1 : s0).push_back(i);
        }
    }
};
static uint64_t win(const Bits& b, size_t i, unsigned len)
{
    uint64_t x = 0;
    for (unsigned j = 0; j < len; ++j) x |= (uint64_t)b[i + j] << j;
    return x;
}
template<class V> struct has_select : true_type {};
template<uint32_t k> struct has_select<hyb_vector<k>> : false_type {};

template<class V>
static typename enable_if<has_select<V>::value>::type sel(mc::Run& R, const V& v, const Exp& e, const char* n, size_t step)
{
    typename V::select_1_type s1(&v);
    typename V::select_0_type s0(&v);
    uint64_t h = 0;
    for (size_t i = 0; i < e.s1.size(); i += step) {
        uint64_t a = s1(i + 1);
        h = h * 31 + a;
        if (a != e.s1[i]) R.eqi(a, e.s1[i], (string(n) + " select1").c_str(), i + 1);
    }
    for (size_t i = 0; i < e.s0.size(); i += step) {
        uint64_t a = s0(i + 1);
        h = h * 31 + a;
        if (a != e.s0[i]) R.eqi(a, e.s0[i], (string(n) + " select0").c_str(), i + 1);
    }
    if (e.s1.size()) R.eqi(s1.select(e.s1.size()), e.s1.back(), n, e.s1.size());
    if (e.s0.size()) R.eqi(s0.select(e.s0.size()), e.s0.back(), n, e.s0.size());
    R.transitions += (e.s1.size() + e.s0.size()) / step;
    R.h = mc::mix(R.h, h);
    R.eqi(s1.size(), v.size(), "select size");
}
template<class V>
static typename enable_if<!has_select<V>::value>::type sel(mc::Run&, const V&, const Exp&, const char*, size_t) {}

// lens: 0 all lengths at all positions; otherwise a selected set
template<class V>
static void query(mc::Run& R, const V& v, const Bits& b, const Exp& e, const char* n, int level, size_t step)
{
    R.eqi(v.size(), b.size(), "size");
    uint64_t h = 0;
    for (size_t i = 0; i < b.size(); i += step) {
        bool a = v[i];
        h = h * 3 + a;
        if (a != (bool)b[i]) R.eqi(a, b[i], (string(n) + " access").c_str(), i);
    }
    typename V::rank_1_type r1(&v);
    typename V::rank_0_type r0(&v);
    for (size_t i = 0; i <= b.size(); i += (i + step > b.size() && i < b.size() ? b.size() - i : step)) {
        uint64_t a = r1(i), z = r0(i);
        h = h * 31 + a;
        if (a != e.r1[i]) R.eqi(a, e.r1[i], (string(n) + " rank1").c_str(), i);
        if (z != i - e.r1[i]) R.eqi(z, i - e.r1[i], (string(n) + " rank0").c_str(), i);
    }
    R.eqi(r1.rank(b.size()), e.r1.back(), "rank1 of size");
    R.eqi(r1.size(), b.size(), "rank size");
    sel(R, v, e, n, step);
    static const vector<unsigned> some = {1, 2, 14, 15, 16, 31, 33, 62, 63, 64};
    auto gi = [&](size_t i, unsigned len) {
        uint64_t x = v.get_int(i, len), w = win(b, i, len);
        h = h * 31 + x;
        ++R.transitions;
        if (x != w) R.eqi(x, w, (string(n) + " get_int").c_str(), i, len);
    };
    if (level == 0) {
        for (size_t i = 0; i < b.size(); ++i)
            for (unsigned len = 1; len <= 64 && i + len <= b.size(); ++len) gi(i, len);
    } else if (level == 1) {
        for (size_t i = 0; i < b.size(); ++i)
            for (unsigned len : some) if (i + len <= b.size()) gi(i, len);
    } else {
        for (size_t i = 0; i < b.size(); i += 61)
            for (unsigned len : {17u, 63u, 64u}) if (i + len <= b.size()) gi(i, len);
    }
    if (level <= 1) {
        size_t i = 0;
        for (auto it = v.begin(); it != v.end(); ++it, ++i)
            if ((bool)*it != (bool)b[i]) R.eqi(*it, b[i], "iterator", i);
        R.eqi(i, b.size(), "iterator length");
        R.eqi(v.end() - v.begin(), b.size(), "iterator distance");
    }
    R.transitions += 3 * (b.size() / step);
    R.h = mc::mix(R.h, h);
}
template<class V>
static void one(mc::Run& R, const Bits& b, const bit_vector* pl, const Exp& e, const char* n, int level, size_t step)
{
    {
        V v(pl[0]);
        query(R, v, b, e, n, level, step);
    }
    V v(pl[1]);
    query(R, v, b, e, n, max(level, 1), step);
    V d;                      // default constructed, then assigned
    R.eqi(d.size(), 0, "default size");
    d = V(pl[0]);
    query(R, d, b, e, n, 2, step + 2);
}
template<class... V> struct Types {};
template<class F> static void each(Types<>, F) {}
template<class V, class... W, class F> static void each(Types<V, W...>, F f)
{
    f((V*)0);
    each(Types<W...>(), f);
}
#if GROUP == 1
typedef Types<bit_vector_il<64>, bit_vector_il<128>, bit_vector_il<256>, bit_vector_il<512>, bit_vector_il<1024>> Ty;
static const vector<size_t> bnd = {64, 128, 256, 512, 1024};
#elif GROUP == 2
typedef Types<rrr_vector<15>, rrr_vector<15, int_vector<>, 2>, rrr_vector<15, int_vector<>, 3>, rrr_vector<15, int_vector<>, 5>, rrr_vector<15, int_vector<>, 8>, rrr_vector<15, int_vector<>, 41>> Ty;
static const vector<size_t> bnd = {15, 30, 45, 60, 75, 120, 480, 615};
#elif GROUP == 3
typedef Types<rrr_vector<3, int_vector<>, 2>, rrr_vector<7, int_vector<>, 4>, rrr_vector<8, int_vector<>, 3>, rrr_vector<16, int_vector<>, 3>, rrr_vector<31, int_vector<>, 4>> Ty;
static const vector<size_t> bnd = {6, 28, 24, 48, 93, 124};
#elif GROUP == 4
typedef Types<rrr_vector<32, int_vector<>, 2>, rrr_vector<33, int_vector<>, 3>, rrr_vector<62, int_vector<>, 3>, rrr_vector<63>, rrr_vector<63, int_vector<>, 2>> Ty;
static const vector<size_t> bnd = {33, 63, 64, 99, 126, 186, 2016};
#elif GROUP == 5
typedef Types<rrr_vector<64, int_vector<>, 3>, rrr_vector<65, int_vector<>, 2>, rrr_vector<127, int_vector<>, 3>, rrr_vector<128, int_vector<>, 2>, rrr_vector<129, int_vector<>, 2>> Ty;
static const vector<size_t> bnd = {64, 65, 127, 128, 129, 192, 256};
#elif GROUP == 6
typedef Types<rrr_vector<192, int_vector<>, 2>, rrr_vector<193, int_vector<>, 2>, rrr_vector<255, int_vector<>, 2>, rrr_vector<256, int_vector<>, 2>, rrr_vector<256, int_vector<>, 3>> Ty;
static const vector<size_t> bnd = {192, 193, 255, 256, 384, 510, 512};
#elif GROUP == 7
typedef Types<sd_vector<>, sd_vector<rrr_vector<63>>, sd_vector<bit_vector_il<64>>, sd_vector<bit_vector, select_support_scan<1>, select_support_scan<0>>> Ty;
static const vector<size_t> bnd = {16, 63, 64, 65, 128, 255, 256};
#elif GROUP == 8
typedef Types<hyb_vector<1>, hyb_vector<2>, hyb_vector<3>, hyb_vector<16>, hyb_vector<64>> Ty;
static const vector<size_t> bnd = {256, 512, 768, 4096};
#elif GROUP == 9
typedef Types<rrr_vector<63, vlc_vector<>, 4>, rrr_vector<8, vlc_vector<>, 3>, rrr_vector<31, dac_vector<>, 2>, rrr_vector<4, int_vector<>, 2>, rrr_vector<5, int_vector<>, 7>> Ty;
static const vector<size_t> bnd = {62, 63, 64, 126, 252};
#endif
static const char* names(size_t i)
{
    static string s;
    s = "type" + to_string(i);
    return s.c_str();
}
static void all(mc::Run& R, const Bits& b, int level, size_t step = 1)
{
    R.run([&] { return gen::show(b); }, [&] {
        Exp e(b);
        bit_vector pl[2] = {bit_vector(b.size(), 0), bit_vector(b.size(), 1)};
        for (size_t i = 0; i < b.size(); ++i) pl[0][i] = pl[1][i] = b[i];
        each(Ty(), [&](auto* p) {
            typedef typename remove_pointer<decltype(p)>::type V;
            one<V>(R, b, pl, e, __PRETTY_FUNCTION__, level, step);
        });
    });
}
MC_TASK(small, "every bit vector of length 0..11 (14 thorough): every query, every argument, clean and dirty padding")
{
    gen::all_bits(0, R.thorough ? 14 : 11, [&](const Bits& b) { all(R, b, 0); });
}
MC_TASK(window, "background x 5-bit (8 thorough) window straddling the block and superblock boundaries of the types")
{
    vector<size_t> lens;
    for (size_t x : bnd)
        if (x <= 1024) for (size_t y : {x - 1, x, x + 1, 2 * x, 2 * x + 1}) lens.push_back(y);
    sort(lens.begin(), lens.end());
    lens.erase(unique(lens.begin(), lens.end()), lens.end());
    auto bounds = bnd;
    for (auto x : bnd) bounds.push_back(2 * x);
    vector<int> bgs = {gen::BG_ZERO, gen::BG_ONE, gen::BG_ALT, gen::BG_P3, gen::BG_P63, gen::BG_LFSR, gen::BG_RUNS};
    unsigned wb = R.thorough ? 6 : 3;
    if (!R.thorough && GROUP >= 4 && GROUP <= 7) {   // slow decoders: fewer backgrounds in the quick tier
        wb = GROUP == 6 ? 1 : 2;
        bgs = {gen::BG_ZERO, gen::BG_ONE, gen::BG_P3, gen::BG_P63, gen::BG_LFSR};
    }
    gen::BVFamily f{0, lens, bgs, wb, bounds};
    gen::family(f, [&](const Bits& b) { all(R, b, b.size() <= (R.thorough ? 200 : 70) ? 1 : 2, b.size() > 400 && GROUP != 1 ? 3 : 1); });
}
MC_TASK(weight, "every number of ones in a block: k ones spread evenly / packed left / packed right / every single hole, lengths around the block sizes")
{
    for (size_t n : bnd) {
        if (n > 520) continue;
        for (size_t k = 0; k <= n; k += (n > 130 && !R.thorough ? (k < 3 || k > n - 4 || (k > n / 2 - 2 && k < n / 2 + 2) ? 1 : min(n - 3 - k, size_t(17))) : 1))
            for (int m = 0; m < 4; ++m) {
                Bits b(2 * n + 3, m == 3);
                for (size_t i = 0; i < k; ++i)
                    for (int half = 0; half < 2; ++half) {
                        size_t p = m == 0 ? i * n / k : m == 1 ? i : n - 1 - i;
                        if (m == 3) p = k - 1;
                        b[half * n + p] = m != 3;
                    }
                all(R, b, 2, 1);
            }
    }
}
MC_TASK(gap, "ones spaced by a gap, leads, tails, complemented and mixed; up to 20000 bits (il: above 2^16 words)")
{
    vector<size_t> args = {1, 2, 63, 64, 65, 130}, gp = {1, 2, 3, 40, 150}, ld = {0, 1, 300}, tl = {0, 5, 300};
    gen::gaps(args, gp, ld, tl, R.thorough ? 20000 : GROUP == 6 ? 3000 : 10000, [&](const gen::Gap& g) { auto b = gen::mk_gap(g); all(R, b, 2, b.size() > 1000 ? 7 : 1); });
}
#if GROUP == 7
MC_TASK(dense, "sd_vector densities: every pair (n,m) up to n=70 with m ones packed left, packed right, spread")
{
    for (size_t n = 0; n <= (R.thorough ? 140 : 70); ++n)
        for (size_t m = 0; m <= n; ++m)
            for (int k = 0; k < 3; ++k) {
                Bits b(n, 0);
                for (size_t i = 0; i < m; ++i) b[k == 0 ? i : k == 1 ? n - 1 - i : i * n / m] = 1;
                all(R, b, 1);
            }
}
#endif
#if GROUP == 1
MC_TASK(big, "interleaved vectors with more than 2^16 words, i.e. with rank samples for select")
{
    for (size_t n : {size_t(64) * 1024 * 64 + 7, size_t(64) * 1024 * 40 + 64})
        for (int k : {gen::BG_ONE, gen::BG_P64, gen::BG_HALF, gen::BG_DENSE_SPARSE, gen::BG_LFSR, gen::BG_SPARSE}) {
            R.run([&] { return "n=" + to_string(n) + " " + gen::bg_name(k); }, [&] {
                Bits b(n);
                for (size_t i = 0; i < n; ++i) b[i] = gen::bg(k, i, n);
                Exp e(b);
                bit_vector v = gen::mk(b);
                { bit_vector_il<64> x(v); query(R, x, b, e, "il64", 3, 1009); }
                { bit_vector_il<128> x(v); query(R, x, b, e, "il128", 3, 1013); }
                { bit_vector_il<512> x(v); query(R, x, b, e, "il512", 3, 1019); }
                { bit_vector_il<1024> x(v); query(R, x, b, e, "il1024", 3, 1021); }
            });
        }
}
#endif
#if GROUP == 2 || GROUP == 4 || GROUP == 6 || GROUP == 8
MC_TASK(dense15, "three blocks of the largest block size, every fill word from a 16-bit set repeated (patterns of period 16)")
{
    size_t n = GROUP == 2 ? 50 : GROUP == 8 ? 513 : GROUP == 4 ? 130 : 513;
    for (uint64_t x = 0; x < 65536; x += (R.thorough ? 1 : GROUP == 2 ? 5 : GROUP == 6 ? 331 : 61)) {
        Bits b(n);
        for (size_t i = 0; i < n; ++i) b[i] = (x >> (i % 16)) & 1;
        all(R, b, 2, 1);
    }
}
#endif
#if GROUP == 8
MC_TASK(hybblock, "hybrid block: a prefix of one value, then every alternation of run lengths (few runs, run/minority/plain encodings) and positions of up to 3 minority bits")
{
    // up to 4 runs of given lengths filling a 256-bit block, both polarities, 2 blocks
    vector<size_t> L = {1, 2, 3, 31, 32, 63, 64, 65, 100, 127, 128, 200};
    for (int pol = 0; pol < 2; ++pol)
        for (size_t a : L) for (size_t c : L) for (size_t d : L) {
            if (a + c + d > 256) continue;
            Bits b(512 + 17, pol);
            for (size_t i = a; i < a + c; ++i) b[i] = !pol;
            for (size_t i = a + c + d; i < 256; ++i) b[i] = !pol;
            for (size_t i = 0; i < 256; ++i) b[256 + i] = b[255 - i];
            all(R, b, 2, 1);
        }
    // run-length encoded blocks with r alternating runs of lengths l1,l2
    for (int pol = 0; pol < 2; ++pol)
        for (size_t l1 = 1; l1 <= (R.thorough ? 130 : 40); ++l1)
            for (size_t l2 = 1; l2 <= (R.thorough ? 130 : 40); ++l2) {
                Bits b(256 + 256 + 3);
                for (size_t i = 0; i < b.size(); ++i) b[i] = pol ^ (i % (l1 + l2) >= l1);
                all(R, b, 2, 1);
            }
}
#endif
