// Wavelet tree subjects and sequence families shared by C14 and C15.  -DGROUP selects the types.
#pragma once
#include "gen.hpp"
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/construct.hpp>
using namespace sdsl;
typedef std::vector<uint64_t> VV;
template<class... V> struct Types {};
template<class F> static void each(Types<>, F) {}
template<class V, class... W, class F> static void each(Types<V, W...>, F f)
{
    f((V*)0);
    each(Types<W...>(), f);
}
template<class B = bit_vector> using BlI = wt_blcd<B, typename B::rank_1_type, typename B::select_1_type, typename B::select_0_type, int_tree<>>;
template<class B = bit_vector> using HuI = wt_huff<B, typename B::rank_1_type, typename B::select_1_type, typename B::select_0_type, int_tree<>>;
template<class B = bit_vector> using HtI = wt_hutu<B, typename B::rank_1_type, typename B::select_1_type, typename B::select_0_type, int_tree<>>;
typedef wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<1>, wt_int<>> RlI;
// CAP: largest symbol the type is given (types whose tables are indexed by the symbol get a small cap)
#ifdef NODES
#if GROUP == 1
typedef Types<wt_blcd<>, wt_huff<>, wt_hutu<>> Ty;
#define CAP 255
#elif GROUP == 2
typedef Types<wt_blcd<rrr_vector<63>>, wt_huff<bit_vector_il<>>, wt_hutu<sd_vector<>>> Ty;
#define CAP 255
#elif GROUP == 5
typedef Types<BlI<>, HuI<bit_vector_il<>>, HtI<>> Ty;
#define CAP 5000
#elif GROUP == 9
typedef Types<wt_int<>> Ty;
#define CAP (~0ULL)
#elif GROUP == 10
typedef Types<wm_int<>> Ty;
#define CAP (~0ULL)
#elif GROUP == 11
typedef Types<wt_int<rrr_vector<63>>, wm_int<sd_vector<>>> Ty;
#define CAP (~0ULL)
#endif
#elif GROUP == 1
typedef Types<wt_blcd<>, wt_huff<>, wt_hutu<>, wt_rlmn<>> Ty;
#define CAP 255
#elif GROUP == 2
typedef Types<wt_blcd<rrr_vector<63>>, wt_huff<rrr_vector<15>>, wt_hutu<rrr_vector<63>>, wt_rlmn<bit_vector>> Ty;
#define CAP 255
#elif GROUP == 3
typedef Types<wt_blcd<bit_vector_il<>>, wt_huff<bit_vector_il<128>>, wt_hutu<bit_vector_il<>>, wt_huff<bit_vector, rank_support_v5<>, select_support_scan<1>, select_support_scan<0>>> Ty;
#define CAP 255
#elif GROUP == 4
typedef Types<wt_blcd<sd_vector<>>, wt_hutu<sd_vector<>>, wt_rlmn<rrr_vector<63>, rrr_vector<63>::rank_1_type, rrr_vector<63>::select_1_type, wt_blcd<>>> Ty;
#define CAP 255
#elif GROUP == 5
typedef Types<BlI<>, HuI<>, HtI<>, RlI> Ty;
#define CAP 5000
#elif GROUP == 6
typedef Types<BlI<rrr_vector<63>>, HuI<rrr_vector<63>>, HtI<bit_vector_il<>>> Ty;
#define CAP 5000
#elif GROUP == 7
typedef Types<wt_gmr<>, wt_gmr_rs<>, wt_gmr<enc_vector<>>> Ty;
#define CAP 5000
#elif GROUP == 8
typedef Types<wt_ap<>, wt_ap<wt_blcd<>, wt_int<>>> Ty;
#define CAP 5000
#elif GROUP == 9
typedef Types<wt_int<>, wt_int<rrr_vector<63>>> Ty;
#define CAP (~0ULL)
#elif GROUP == 10
typedef Types<wm_int<>, wm_int<rrr_vector<15>>> Ty;
#define CAP (~0ULL)
#elif GROUP == 11
typedef Types<wt_int<sd_vector<>>, wm_int<bit_vector_il<>>> Ty;
#define CAP (~0ULL)
#endif

template<class V>
struct tname {
    static std::string get()
    {
        std::string s = __PRETTY_FUNCTION__;
        size_t a = s.find("V = ");
        s = s.substr(a + 4);
        size_t b = s.find(';');
        if (b == std::string::npos) b = s.find(']');
        s = s.substr(0, std::min<size_t>(b, 160));
        std::string o;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s.compare(i, 6, "sdsl::") == 0) { i += 5; continue; }
            o += s[i];
        }
        return o;
    }
};

template<class V>
static void build(V& wt, const VV& v)
{
    const uint8_t W = V::alphabet_category::WIDTH;
    uint64_t mx = 1;
    for (auto x : v) mx = std::max(mx, x);
    int_vector<W> iv(v.size(), 0, W ? W : bits::hi(mx) + 1);
    for (size_t i = 0; i < v.size(); ++i) iv[i] = v[i];
    uint64_t key = v.size();
    for (auto x : v) key = key * 5 + x;
    if (key % 8 == 0) { // through construct_im ...
        construct_im(wt, iv);
        return;
    }
    std::string f = ram_file_name("wtgen"); // ... or the semi-external constructor with a small buffer
    store_to_file(iv, f);
    {
        int_vector_buffer<W> buf(f, std::ios::in, 512);
        V x(buf, v.size());
        wt = std::move(x);
    }
    sdsl::remove(f);
}

// (A) every sequence over small alphabets
template<class F>
static void small_seqs(bool th, bool slow, uint64_t cap, F f)
{
    gen::all_seqs(0, th ? 7 : slow ? 4 : 5, gen::iota_alpha(0, 2), f);
    gen::all_seqs(1, th ? 5 : 3, gen::iota_alpha(0, 4), f);
    gen::all_seqs(1, th ? 6 : slow ? 3 : 4, {1, 127, 128, 255}, f);
    gen::all_seqs(1, th ? 6 : 4, {7}, f);
    if (cap > 255) {
        gen::all_seqs(1, th ? 5 : slow ? 3 : 4, {0, 255, 256}, f);
        gen::all_seqs(1, th ? 4 : 2, {0, 4095, 4096}, f);
    }
    if (cap == ~0ULL) {
        std::vector<unsigned> ks = {31, 32, 62, 63};
        for (unsigned k : ks) gen::all_seqs(1, th ? 4 : 2, {0, (1ULL << k) - 1, 1ULL << k, (1ULL << k) + 1}, f);
        gen::all_seqs(1, th ? 5 : 3, {0, ~0ULL >> 1, ~0ULL, ~0ULL - 1}, f);
        for (unsigned k = 0; k < 64; ++k) for (uint64_t a : {1ULL << k, (1ULL << k) - 1}) for (uint64_t b : {1ULL << k, (1ULL << k) - 1}) f(VV{a, b});
    }
}
// (B) up to three runs whose lengths straddle 64 (construction packs runs 64 at a time)
template<class F>
static void run_seqs(bool th, bool slow, F f)
{
    VV L = th ? VV{1, 2, 62, 63, 64, 65, 127, 128, 129, 200} : slow ? VV{1, 64, 129} : VV{1, 63, 64, 65, 128};
    std::vector<VV> pat = {{0, 1, 0}, {2, 1, 0}, {0, 1, 2}, {5, 200, 9}};
    for (auto& p : pat)
        for (auto a : L) for (auto b : L) for (auto c : L) {
            VV v;
            v.insert(v.end(), a, p[0]);
            v.insert(v.end(), b, p[1]);
            v.insert(v.end(), c, p[2]);
            f(v);
        }
}
// (C) structured longer sequences: n x sigma x shape
static const char* shape_names[] = {"i mod s", "blocks", "reversed blocks", "mixed", "skewed", "one rare", "strided permutation"};
static inline VV shaped(size_t n, uint64_t s, int shape)
{
    VV v(n);
    uint64_t z = 12345 + n * 7 + s;
    for (size_t i = 0; i < n; ++i) {
        switch (shape) {
            case 0: v[i] = i % s; break;
            case 1: v[i] = i * s / n; break;
            case 2: v[i] = s - 1 - i * s / n; break;
            case 3: z = z * 6364136223846793005ULL + 1442695040888963407ULL; v[i] = (z >> 33) % s; break;
            case 4: { z = z * 6364136223846793005ULL + 1442695040888963407ULL; uint64_t k = __builtin_ctzll((z >> 20) | (1ULL << 40)); v[i] = k % s; break; }
            case 5: v[i] = (i == n / 2 || i + 1 == n) ? s - 1 : 0; break;
            default: v[i] = (i * 7 + 3) % s; break;
        }
    }
    return v;
}
template<class F>
static void long_seqs(bool th, uint64_t cap, F f)
{
    std::vector<size_t> ns = th ? std::vector<size_t>{65, 100, 257, 600, 1025, 4097, 9000} : std::vector<size_t>{65, 300, 1100, 4500};
    std::vector<uint64_t> ss = {1, 2, 3, 17, 64, 100, 256};
    if (cap > 255) ss.push_back(1000);
    for (auto n : ns)
        for (auto s : ss)
            for (int sh = 0; sh < 7; ++sh) {
                if (!th && n > 2000 && (sh == 2 || sh == 6)) continue;
                f(n, s, sh);
            }
}
