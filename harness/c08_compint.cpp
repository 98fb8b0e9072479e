// C08: compressed integer vectors return every stored value.  -DGROUP selects the types.
#include "gen.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/coder.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <list>
using namespace sdsl;
using namespace std;
typedef vector<uint64_t> VV;
template<class... V> struct Types {};
template<class F> static void each(Types<>, F) {}
template<class V, class... W, class F> static void each(Types<V, W...>, F f)
{
    f((V*)0);
    each(Types<W...>(), f);
}
using namespace sdsl::coder;
#if GROUP == 1
typedef Types<enc_vector<elias_delta, 2>, enc_vector<elias_delta, 3>, enc_vector<elias_delta, 128>, enc_vector<elias_delta, 64, 32>, enc_vector<elias_delta, 5, 64>> Ty;
#elif GROUP == 2
typedef Types<enc_vector<elias_gamma, 2>, enc_vector<elias_gamma, 16>, enc_vector<elias_gamma, 128, 64>, enc_vector<fibonacci, 2>, enc_vector<fibonacci, 128>> Ty;
#elif GROUP == 3
typedef Types<enc_vector<comma<2>, 2>, enc_vector<comma<4>, 16>, enc_vector<comma<8>, 128>, enc_vector<fibonacci, 7, 64>, enc_vector<comma<2>, 64, 32>> Ty;
#elif GROUP == 4
typedef Types<vlc_vector<elias_delta, 5>, vlc_vector<elias_delta, 2>, vlc_vector<elias_delta, 128>, vlc_vector<elias_delta, 64, 64>, vlc_vector<elias_gamma, 3>> Ty;
#elif GROUP == 5
typedef Types<vlc_vector<elias_gamma, 128>, vlc_vector<fibonacci, 2>, vlc_vector<fibonacci, 128>, vlc_vector<comma<2>, 4>, vlc_vector<comma<4>, 128>> Ty;
#elif GROUP == 6
typedef Types<dac_vector<1>, dac_vector<2>, dac_vector<4>, dac_vector<8, rank_support_v<>>, dac_vector<13>> Ty;
#elif GROUP == 7
typedef Types<dac_vector<16>, dac_vector<31>, dac_vector<32>, dac_vector<63>, dac_vector<7, rank_support_scan<>>> Ty;
#elif GROUP == 8
typedef Types<dac_vector_dp<>, dac_vector_dp<bit_vector>, dac_vector_dp<rrr_vector<15>, 2>, dac_vector_dp<sd_vector<>>, dac_vector_dp<bit_vector, 1>> Ty;
#endif
template<class V>
struct Tr {
    static const bool is_enc = false, is_vlc = false, is_dp = false;
    static const unsigned w = 64;
};
template<class C, uint32_t d, uint8_t w_> struct Tr<enc_vector<C, d, w_>> { static const bool is_enc = true, is_vlc = false, is_dp = false; static const unsigned w = w_ ? w_ : 64; };
template<class C, uint32_t d, uint8_t w_> struct Tr<vlc_vector<C, d, w_>> { static const bool is_enc = false, is_vlc = true, is_dp = false; static const unsigned w = w_ ? w_ : 64; };
template<class B, int l> struct Tr<dac_vector_dp<B, l>> { static const bool is_enc = false, is_vlc = false, is_dp = true; static const unsigned w = 64; };

template<class V>
static void same(mc::Run& R, const V& x, const VV& v, const char* how)
{
    R.eqi(x.size(), v.size(), "size");
    R.eqi(x.empty(), v.empty(), "empty");
    for (size_t i = 0; i < v.size(); ++i) if (x[i] != v[i]) R.eqi(x[i], v[i], (string(how) + " [] of " + __PRETTY_FUNCTION__).c_str(), i);
    for (size_t i = v.size(); i-- > 0;) if (x[i] != v[i]) R.eqi(x[i], v[i], how, i);
    size_t i = 0;
    for (auto it = x.begin(); it != x.end(); ++it, ++i) {
        uint64_t y = *it;
        R.obs(y);
        if (y != v.at(i)) R.eqi(y, v[i], "iterator", i);
    }
    R.eqi(i, v.size(), "iterator length");
    R.eqi(x.end() - x.begin(), v.size(), "distance");
    R.transitions += 3 * v.size();
}
template<class V>
static typename enable_if<Tr<V>::is_enc>::type extra(mc::Run& R, const V& x, const VV& v)
{
    size_t d = x.get_sample_dens();
    for (size_t i = 0; i * d < v.size(); ++i) {
        R.eqi(x.sample(i), v[i * d], "sample", i);
        VV o(d + 1, 0);
        x.get_inter_sampled_values(i, o.data());
        for (size_t j = 0; j < d && i * d + j < v.size(); ++j) R.eqi(v[i * d] + o[j], v[i * d + j], "get_inter_sampled_values", i, j);
        R.eqi(o[d], 0, "value behind the output");
    }
}
template<class V>
static typename enable_if<!Tr<V>::is_enc>::type extra(mc::Run&, const V&, const VV&) {}
template<class V, class T>
static void from_std(mc::Run& R, const VV& v, const char* how)
{
    for (auto x : v) if (x > (uint64_t)numeric_limits<T>::max() - (Tr<V>::is_vlc ? 1 : 0)) return;
    vector<T> c(v.begin(), v.end());
    V x(c);
    same(R, x, v, how);
}
template<class V>
static typename enable_if<!Tr<V>::is_dp>::type from_buf(mc::Run& R, int_vector<>& iv, const VV& v)
{
    string f = "@c08";
    store_to_file(iv, f);
    {
        int_vector_buffer<> b(f, ios::in, 1024);
        V y(b);
        same(R, y, v, "int_vector_buffer");
        extra(R, y, v);
    }
    ram_fs::remove(f);
}
template<class V>
static typename enable_if<Tr<V>::is_dp>::type from_buf(mc::Run& R, int_vector<>& iv, const VV& v) {}
template<class V>
static auto lev_(mc::Run& R, const V& d, int) -> decltype(d.levels(), void()) { R.eqi(d.levels(), 0, "levels of a default constructed vector"); }
template<class V>
static void lev_(mc::Run& R, const V& d, long) {}
template<class V>
static void lev(mc::Run& R, const V& d) { lev_(R, d, 0); }
template<class V>
static void one(mc::Run& R, const VV& v, bool deep)
{
    for (auto x : v) if (Tr<V>::w < 64 && (x >> Tr<V>::w)) return; // outside the declared sample width
    if (Tr<V>::is_vlc)
        for (auto x : v)
            if (x == ~0ULL) { // documented limit: refused
                bool t = false;
                try { V y(v); } catch (const std::logic_error&) { t = true; }
                R.ck(t, "value without a code word is refused");
                return;
            }
    uint64_t m = 0;
    for (auto x : v) m |= x;
    int_vector<> iv(v.size(), 0, bits::hi(m) + 1);
    for (size_t i = 0; i < v.size(); ++i) iv[i] = v[i];
    V x(iv);
    same(R, x, v, "int_vector");
    extra(R, x, v);
    if (!deep) return;
    from_std<V, uint64_t>(R, v, "std::vector<uint64_t>");
    from_std<V, uint32_t>(R, v, "std::vector<uint32_t>");
    from_std<V, uint16_t>(R, v, "std::vector<uint16_t>");
    from_std<V, uint8_t>(R, v, "std::vector<uint8_t>");
    int_vector<64> i64(v.size());
    for (size_t i = 0; i < v.size(); ++i) i64[i] = v[i];
    { V y(i64); same(R, y, v, "int_vector<64>"); }
    from_buf<V>(R, iv, v);
    V d;
    R.eqi(d.size(), 0, "default size");
    R.ck(d.empty(), "default empty");
    lev(R, d);
    d = V(iv);
    same(R, d, v, "assigned");
}
static void all(mc::Run& R, const VV& v, bool deep)
{
    R.run([&] { return gen::shows(v); }, [&] {
        each(Ty(), [&](auto* p) { one<typename remove_pointer<decltype(p)>::type>(R, v, deep); });
    });
}
MC_TASK(seqs, "every sequence of length 0..4 (5 thorough) over {0,1,2,5,255,256,2^31,2^32-1,2^32,2^63,2^64-2,2^64-1}, built from every container type, a buffer, and by assignment")
{
    VV al = {0, 1, 2, 5, 255, 256, 1ULL << 31, (1ULL << 32) - 1, 1ULL << 32, 1ULL << 63, ~0ULL - 1, ~0ULL};
    gen::all_seqs(0, R.thorough ? 4 : 3, al, [&](const VV& v) { all(R, v, true); });
    VV a2 = {0, 1, 3, 255, 256, (1ULL << 32) - 1};
    gen::all_seqs(4, R.thorough ? 6 : 5, a2, [&](const VV& v) { all(R, v, v.size() == 4); });
}
MC_TASK(single, "single values 0..70000 step 1 below 2000 then every 97th, and every 2^k+-1, as [x], [x,0,x], [0,x]")
{
    set<uint64_t> s;
    for (uint64_t i = 0; i < 70000; i += (i < 2000 ? 1 : 97)) s.insert(i);
    for (int k = 0; k < 64; ++k) for (int d = -1; d <= 1; ++d) s.insert((1ULL << k) + d);
    for (auto x : s) {
        all(R, {x}, x < 300 || x > 70000);
        all(R, {x, 0, x}, false);
        all(R, {0, x, x + 1 ? x + 1 : 0, 3}, false);
    }
}
MC_TASK(shapes, "lengths around the sampling densities x shapes (constant, increasing, decreasing, sawtooth, jumps, one large value at every position, powers)")
{
    for (size_t n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 130, 192, 193, 255, 256, 257, 385, 1000})
        for (int sh = 0; sh < 12; ++sh) {
            VV v(n);
            for (size_t i = 0; i < n; ++i) switch (sh) {
                case 0: v[i] = 7; break;
                case 1: v[i] = i; break;
                case 2: v[i] = n - i; break;
                case 3: v[i] = i % 5; break;
                case 4: v[i] = i * i * 77777; break;
                case 5: v[i] = i & 1 ? 0 : (1ULL << 40); break;
                case 6: v[i] = 1ULL << (i % 63); break;
                case 7: v[i] = (1ULL << (i % 64)) - 1; break;
                case 8: v[i] = 0; break;
                case 9: v[i] = i % 130 == 129 ? 1ULL << 62 : 1; break;
                case 10: v[i] = i * 0x9e3779b97f4a7c15ULL >> (i % 60); break;
                case 11: v[i] = (1ULL << 31) + i; break;
            }
            all(R, v, true);
        }
    for (size_t n : {129, 257})
        for (size_t p = 0; p < n; ++p)
            for (uint64_t big : {255ULL, 256ULL, (1ULL << 33)}) {
                VV v(n, 1);
                v[p] = big;
                all(R, v, false);
            }
}
MC_TASK(runs, "runs of increments: a^i then one jump then a^j (prefix-sum fast paths across a sample)")
{
    for (uint64_t a : {0, 1, 2, 3})
        for (size_t i = 0; i <= 140; i += R.thorough ? 1 : 3)
            for (uint64_t jump : {1ULL, 5ULL, 1ULL << 20, 1ULL << 45, 1ULL << 63})
                for (size_t j : {0, 1, 60, 130}) {
                    VV v;
                    uint64_t s = 3;
                    for (size_t t = 0; t <= i; ++t) { v.push_back(s); s += a; }
                    s += jump;
                    for (size_t t = 0; t < j; ++t) { v.push_back(s); s += a; }
                    all(R, v, false);
                }
}
