// C16: SA, ISA, BWT and LCP construction algorithms against sorted suffixes.
#include "textgen.hpp"
#include <sdsl/construct_config.hpp>
using namespace std;
using namespace sdsl;

struct Cfg {
    cache_config c;
    Cfg() : c(true, "@", "c16") {}
    ~Cfg()
    {
        for (auto& f : c.file_map) sdsl::remove(f.second);
        for (const char* k : {"lcp_sml", "lcp_big", "lcp", "sa", "isa", "bwt", "bwt_int", "text", "text_int"}) sdsl::remove(cache_file_name(k, c));
    }
};
template<uint8_t W> static void put(Cfg& c, const Ref& r)
{
    uint64_t mx = 1;
    for (auto x : r.t) mx = max(mx, x);
    int_vector<W> t(r.n, 0, W ? W : bits::hi(mx) + 1);
    for (size_t i = 0; i < r.n; ++i) t[i] = r.t[i];
    store_to_cache(t, key_text_trait<W>::KEY_TEXT, c.c);
}
template<uint8_t W> static void expect(mc::Run& R, Cfg& c, const char* key, const char* algo, const vector<uint64_t>& e)
{
    int_vector<W> v;
    R.ck(load_from_cache(v, key, c.c), mc::cat(algo, ": result is in the cache"));
    R.eq((uint64_t)v.size(), (uint64_t)e.size(), mc::cat(algo, ": size"));
    for (size_t i = 0; i < e.size(); ++i) {
        if (v[i] != e[i]) R.fail(mc::cat(algo, " [", i, "]: got ", (uint64_t)v[i], " expected ", e[i]));
        R.obs((uint64_t)v[i]);
    }
    ++R.transitions;
}
static void drop(Cfg& c, const char* key)
{
    sdsl::remove(cache_file_name(key, c.c));
    c.c.file_map.erase(key);
}
// the direct interface, with a result vector of any width
template<uint8_t F> static void direct(mc::Run& R, const Ref& r, const vector<unsigned char>& s, uint8_t w)
{
    int_vector<F> sa(r.n, 0, w);
    algorithm::calculate_sa<F>(s.data(), s.size(), sa);
    R.eq((uint64_t)sa.size(), (uint64_t)r.n, "calculate_sa: size");
    R.eq((int)sa.width(), (int)(r.n > 1 || F ? w : sa.width()), "calculate_sa: width");
    for (size_t i = 0; i < r.n; ++i) if (sa[i] != r.sa[i]) R.fail(mc::cat("calculate_sa, width ", (int)w, " [", i, "]: got ", (uint64_t)sa[i], " expected ", r.sa[i]));
    ++R.transitions;
}
static void check8(mc::Run& R, const Ref& r)
{
    {
        vector<unsigned char> s(r.t.begin(), r.t.end());
        uint8_t need = bits::hi(r.n) + 1;
        for (uint8_t w : {need, (uint8_t)(need + 1), (uint8_t)17, (uint8_t)31, (uint8_t)32, (uint8_t)33, (uint8_t)40, (uint8_t)64}) if (w >= need) direct<0>(R, r, s, w);
        direct<32>(R, r, s, 32);
        direct<64>(R, r, s, 64);
        if (need <= 16) direct<16>(R, r, s, 16);
    }
    {
        Cfg c;
        put<8>(c, r);
        construct_config::byte_algo_sa = SE_SAIS;
        construct_sa<8>(c.c);
        expect<0>(R, c, conf::KEY_SA, "semi-external SAIS", r.sa);
    }
    Cfg c;
    put<8>(c, r);
    construct_config::byte_algo_sa = LIBDIVSUFSORT;
    construct_sa<8>(c.c);
    expect<0>(R, c, conf::KEY_SA, "divsufsort", r.sa);
    construct_isa(c.c);
    expect<0>(R, c, conf::KEY_ISA, "isa", r.isa);
    construct_bwt<8>(c.c);
    expect<8>(R, c, conf::KEY_BWT, "bwt", r.bwt);
    struct { const char* n; void (*f)(cache_config&); } a[] = {
        {"kasai", construct_lcp_kasai<8>}, {"PHI", construct_lcp_PHI<8>}, {"semi-external PHI", construct_lcp_semi_extern_PHI},
        {"go", construct_lcp_go}, {"goPHI", construct_lcp_goPHI}, {"bwt based", construct_lcp_bwt_based}, {"bwt based 2", construct_lcp_bwt_based2}
    };
    for (auto& x : a) {
        drop(c, conf::KEY_LCP);
        x.f(c.c);
        expect<0>(R, c, conf::KEY_LCP, x.n, r.lcp);
    }
}
static void check0(mc::Run& R, const Ref& r)
{
    Cfg c;
    put<0>(c, r);
    construct_sa<0>(c.c);
    expect<0>(R, c, conf::KEY_SA, "qsufsort", r.sa);
    construct_isa(c.c);
    expect<0>(R, c, conf::KEY_ISA, "isa", r.isa);
    construct_bwt<0>(c.c);
    expect<0>(R, c, conf::KEY_BWT_INT, "bwt", r.bwt);
    construct_lcp_kasai<0>(c.c);
    expect<0>(R, c, conf::KEY_LCP, "kasai", r.lcp);
    drop(c, conf::KEY_LCP);
    construct_lcp_PHI<0>(c.c);
    expect<0>(R, c, conf::KEY_LCP, "PHI", r.lcp);
}
static void both(mc::Run& R, const Text& t, bool b, bool i)
{
    Ref r;
    r.make(t);
    if (b) check8(R, r);
    if (i) check0(R, r);
}
#define CASE(T, B, I) R.run([&] { return mc::cat((B) ? "byte " : "int ", gen::shows(T)); }, [&] { both(R, T, B, I); })

MC_TASK(bytes, "every byte text up to a length over small alphabets (codes 1.., 'a'.., 127/128/255): 2 SA algorithms, ISA, BWT, 7 LCP algorithms")
{
    bool th = R.thorough;
    auto f = [&](const Text& t) { CASE(t, true, false); };
    texts(0, th ? 15 : 12, {1, 2}, f);
    texts(1, th ? 11 : 8, {1, 128, 255}, f);
    texts(1, th ? 8 : 6, {'a', 'b', 'c', 'd'}, f);
    texts(1, th ? 300 : 140, {255}, f);
}
MC_TASK(ints, "every integer text up to a length over small alphabets (codes 1.., around 2^8, 2^16, 2^32, 2^63): qsufsort, ISA, BWT, Kasai, PHI")
{
    bool th = R.thorough;
    auto f = [&](const Text& t) { CASE(t, false, true); };
    texts(0, th ? 14 : 12, {1, 2}, f);
    texts(1, th ? 10 : 8, {1, 2, 3}, f);
    texts(1, th ? 9 : 7, {255, 256, 65536}, f);
    texts(1, th ? 9 : 7, {1, (1ULL << 32) - 1, 1ULL << 32}, f);
    texts(1, th ? 8 : 6, {1, 1ULL << 40, (1ULL << 62) - 1, 1ULL << 61}, f);
    texts(1, th ? 7 : 5, {1, 2, 1000000, 1000001, 1ULL << 50}, f);
    texts(1, th ? 300 : 80, {77}, f);
    texts(1, 4, {1ULL << 62, (1ULL << 63) - 1, 1ULL << 63, ~0ULL}, f);
    for (unsigned k = 1; k <= 62; ++k) texts(1, th ? 4 : 3, {1ULL << k, (1ULL << k) - 1}, f);
}
MC_TASK(structured, "18 text families x lengths straddling 64, 256, 2048, 4096 (LCP values around 63..66 and 253..257): every algorithm")
{
    vector<size_t> ns = R.thorough ? vector<size_t>{2, 3, 33, 63, 64, 65, 66, 127, 128, 129, 130, 191, 254, 255, 256, 257, 258, 259, 300, 509, 510, 511, 512, 513, 514, 600, 767, 1000, 1001, 1025, 2047, 2048, 2049, 4096, 4097, 6000, 9000, 20000}
                                : vector<size_t>{63, 64, 65, 66, 127, 128, 129, 192, 254, 255, 256, 257, 258, 300, 511, 513, 600, 770, 1001, 1025, 2047, 2048, 2049, 4097, 4500};
    for (auto n : ns)
        for (int f = 0; f < FAM_COUNT; ++f)
            R.run([&] { return mc::cat(fam_names[f], " n=", n); }, [&] { both(R, family(f, n), true, true); });
}
MC_TASK(large, "families long enough for the switches at 10000 entries and queue/bit-vector mode changes: every algorithm")
{
    vector<size_t> ns = R.thorough ? vector<size_t>{12000, 30000, 70000} : vector<size_t>{12000};
    for (auto n : ns)
        for (int f : {0, 1, 2, 3, 5, 7, 8, 10, 13, 15})
            R.run([&] { return mc::cat(fam_names[f], " n=", n); }, [&] { both(R, family(f, n), true, true); });
}
MC_TASK(many_ranks, "texts with more than 2^16 different LMS substrings (period-free byte texts of 230000 to 300000 symbols): semi-external SAIS and divsufsort against the order of the suffixes")
{
    for (size_t n : {230000, 260001, 300000})
        for (int k = 0; k < (R.thorough ? 4 : 2); ++k)
            R.run([&] { return mc::cat("text[i] = 1 + (a multiplicative hash of i) mod 255, n=", n, " variant ", k); }, [&] {
                Text t(n);
                uint64_t x = 88172645463325252ULL + k;
                for (auto& c : t) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = 1 + (x >> 20) % (k % 2 ? 60 : 255); }
                Ref r;
                r.make(t);
                for (auto a : {SE_SAIS, LIBDIVSUFSORT}) {
                    Cfg c;
                    put<8>(c, r);
                    construct_config::byte_algo_sa = a;
                    construct_sa<8>(c.c);
                    expect<0>(R, c, conf::KEY_SA, a == SE_SAIS ? "semi-external SAIS" : "divsufsort", r.sa);
                }
            });
}
