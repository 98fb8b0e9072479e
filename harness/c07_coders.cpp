// C07: self-delimiting codes round-trip.  -DCODER selects the code.
#include "gen.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/coder.hpp>
using namespace sdsl;
using namespace std;
typedef vector<uint64_t> VV;
#if CODER == 0
typedef coder::elias_delta C;
#elif CODER == 1
typedef coder::elias_gamma C;
#elif CODER == 2
typedef coder::fibonacci C;
#else
typedef coder::comma<CODER - 10> C;
#endif
// reference code word, as a bit string (independent of the library)
static void ref(uint64_t x0, vector<uint8_t>& o)
{
    auto low = [&](unsigned __int128 v, unsigned k) { for (unsigned i = 0; i < k; ++i) o.push_back((v >> i) & 1); };
    unsigned __int128 x = x0;
#if CODER < 10
    if (x == 0) x = (unsigned __int128)1 << 64;   // zero stands for 2^64
#endif
    auto blen = [](unsigned __int128 v) { unsigned l = 0; while (v) { ++l; v >>= 1; } return l; };
#if CODER == 0
    unsigned len = blen(x), ll = blen(len) - 1;
    for (unsigned i = 0; i < ll; ++i) o.push_back(0);
    o.push_back(1);
    low(len, ll);
    low(x, len - 1);
#elif CODER == 1
    unsigned len = blen(x);
    for (unsigned i = 0; i + 1 < len; ++i) o.push_back(0);
    o.push_back(1);
    low(x, len - 1);
#elif CODER == 2
    vector<unsigned __int128> f = {1, 2};
    while (f.back() <= x) f.push_back(f[f.size() - 1] + f[f.size() - 2]);
    vector<uint8_t> w;
    bool on = false;
    for (size_t i = f.size(); i-- > 0;) {
        if (f[i] <= x) { x -= f[i]; on = true; w.push_back(1); }
        else if (on) w.push_back(0);
    }
    o.insert(o.end(), w.rbegin(), w.rend());
    o.push_back(1);
#else
    const unsigned W = CODER - 10;
    uint64_t base = (1ULL << W) - 1;
    VV d;
    for (uint64_t y = x0; y; y /= base) d.push_back(y % base);
    for (size_t i = d.size(); i-- > 0;) low(d[i], W);
    low(base, W);
#endif
}
static VV values(bool thorough)
{
    set<uint64_t> s;
    for (uint64_t i = 0; i < (thorough ? 70000 : 5000); ++i) s.insert(i);
    for (int k = 0; k < 64; ++k)
        for (int d = -2; d <= 2; ++d) s.insert((1ULL << k) + d);
    uint64_t a = 1, b = 2;
    for (int i = 0; i < 92; ++i) {
        for (int d = -2; d <= 2; ++d) s.insert(a + d);
        uint64_t c = a + b;
        a = b;
        b = c;
    }
    for (int w = 2; w <= 32; ++w) {
        unsigned __int128 p = 1;
        while (p < ((unsigned __int128)1 << 64)) {
            for (int d = -1; d <= 1; ++d) s.insert((uint64_t)p + d);
            p *= (1ULL << w) - 1;
        }
    }
    for (int d = 0; d < 3; ++d) s.insert(~0ULL - d);
    for (uint64_t x : {0x5555555555555555ULL, 0xaaaaaaaaaaaaaaaaULL, 0x8000000000000001ULL, 0x123456789abcdef0ULL}) s.insert(x);
    return VV(s.begin(), s.end());
}
struct Buf {
    bit_vector z;
    vector<uint8_t> bits;
    size_t end;
};
// encodes v at bit position off into a vector with background bit bg; verifies every bit
static void enc(mc::Run& R, const VV& v, size_t off, int bg, Buf& B)
{
    vector<uint8_t> code;
    for (auto x : v) {
        size_t l = code.size();
        ref(x, code);
        R.eqi(C::encoding_length(x), code.size() - l, "encoding_length", x);
    }
    size_t n = off + code.size() + 130;
    B.z = bit_vector(n, bg);
    uint64_t* p = B.z.data() ;
    uint64_t* q = p + off / 64;
    uint8_t o = off % 64;
    for (auto x : v) C::encode(x, q, o);
    R.eqi((q - p) * 64 + o, off + code.size(), "end position of encode", off);
    for (size_t i = 0; i < n; ++i) {
        uint8_t e = (i < off || i >= off + code.size()) ? bg : code[i - off];
        if (B.z[i] != e) R.eqi(B.z[i], e, "bit of the encoded stream", i, off, bg);
    }
    R.transitions += n;
    B.end = off + code.size();
}
static void dec(mc::Run& R, const VV& v, size_t off, const Buf& B, bool all_n)
{
    size_t n = v.size();
    VV out(n + 1, 77), sums(n + 1, 77);
    const uint64_t* d = B.z.data();
    uint64_t last = C::template decode<false, true>(d, off, n, out.begin());
    uint64_t tot = C::template decode<true, true>(d, off, n, sums.begin());
    uint64_t s = 0;
    for (size_t i = 0; i < n; ++i) {
        s += v[i];
        if (out[i] != v[i]) R.eqi(out[i], v[i], "decode<0,1>", i, off);
        if (sums[i] != s) R.eqi(sums[i], s, "decode<1,1>", i, off);
    }
    R.transitions += 2 * n;
    R.eqi(out[n], 77, "value behind the output");
    R.eqi(sums[n], 77, "value behind the output");
    if (n) R.eqi(last, v.back(), "last value");
    R.eqi(tot, s, "sum");
    R.eqi((C::template decode<true, false, int*>(d, off, n)), s, "decode<1,0>", n, off);
    s = 0;
    for (size_t k = 0; k <= n; ++k) {
        if (all_n || k + 3 > n) {
            R.eqi(C::decode_prefix_sum(d, off, k), s, "decode_prefix_sum(d,start,n)", k, off);
            R.eqi(C::decode_prefix_sum(d, off, B.end, k), s, "decode_prefix_sum(d,start,end,n)", k, off);
            if (k) R.eqi((C::template decode<false, false, int*>(d, off, k)), v[k - 1], "decode<0,0>", k, off);
        }
        if (k < n) s += v[k];
    }
}
static void vec(mc::Run& R, const VV& v, unsigned w)
{
    int_vector<> x(v.size(), 0, w), z(3, 1, 7), y(5, 2, 9);
    for (size_t i = 0; i < v.size(); ++i) x[i] = v[i];
    R.ck(C::encode(x, z), "encode vector");
    vector<uint8_t> code;
    for (size_t i = 0; i < v.size(); ++i) {
        uint64_t e = x[i];
#if CODER < 10
        if (e == 0 && w < 64) e = 1ULL << w;
#endif
        ref(e, code);
    }
    R.eqi(z.bit_size(), code.size(), "size of the encoded vector", w);
    bit_vector zz(code.size());
    for (size_t i = 0; i < code.size(); ++i)
        if (((z.data()[i / 64] >> (i % 64)) & 1) != code[i]) R.eqi(!code[i], code[i], "bit of the encoded vector", i, w);
    R.ck(C::decode(z, y), "decode vector");
    R.eqi(y.size(), x.size(), "decoded size", w);
    R.eqi(y.width(), w, "decoded width");
    for (size_t i = 0; i < v.size(); ++i)
        if (y[i] != x[i]) R.eqi(y[i], x[i], "decoded vector", i, w);
    R.transitions += v.size();
    // a second use of the same targets
    int_vector<> x2(1, 1, w);
    C::encode(x2, z);
    C::decode(z, y);
    R.eqi(y.size(), 1, "second decode size");
    R.eqi(y[0], 1, "second decode");
}
static uint64_t code_len(uint64_t x) { vector<uint8_t> c; ref(x, c); return c.size(); }

MC_TASK(single, "every value below 5000 (70000 thorough), powers of two, Fibonacci numbers, powers of comma bases +-2, at every bit offset 0..63, on zero and one background")
{
    for (auto x : values(R.thorough))
        R.run([&] { return "x=" + to_string(x); }, [&] {
            Buf b;
            for (size_t off = 0; off < 64; off += (x < 300 || x > 5000 || R.thorough ? 1 : 13))
                for (int bg = 0; bg < 2; ++bg) {
                    enc(R, {x}, off, bg, b);
                    dec(R, {x}, off, b, true);
                }
        });
}
MC_TASK(seqs, "every sequence of length 0..3 (4 thorough) over 10 values, at offsets 0,1,63,64,100, decoded for every count; vector form in widths 1..64")
{
    VV al = {1, 2, 3, 12, 255, 70000, (1ULL << 32) + 5, 1ULL << 63, ~0ULL, 0};
    gen::all_seqs(0, R.thorough ? 4 : 3, al, [&](const VV& v) {
        R.run([&] { return gen::shows(v); }, [&] {
            Buf b;
            for (size_t off : {0, 1, 63, 64, 100}) {
                enc(R, v, off, (off & 1), b);
                dec(R, v, off, b, true);
            }
            for (unsigned w : {1u, 2u, 7u, 8u, 31u, 32u, 33u, 63u, 64u}) vec(R, v, w);
        });
    });
}
MC_TASK(compositions, "every sequence of small values whose code fits 14 bits (18 thorough), followed by each of {nothing,1,2^40,2^63} and preceded by 0..2 large values")
{
    size_t lim = R.thorough ? 18 : 14;
    VV v;
    VV lens;
    uint64_t maxv = 1;
    while (maxv < 200 && code_len(maxv) <= lim) ++maxv;
    function<void(size_t)> rec = [&](size_t used) {
        R.run([&] { return gen::shows(v); }, [&] {
            for (int pre = 0; pre < 2; ++pre)
                for (uint64_t post : {0ULL, 1ULL, 1ULL << 40}) {
                    VV s(pre, 1ULL << 50);
                    s.insert(s.end(), v.begin(), v.end());
                    if (post) s.push_back(post);
                    Buf b;
                    for (size_t off : {0, 57}) {
                        enc(R, s, off, 1, b);
                        dec(R, s, off, b, true);
                    }
                }
        });
        for (uint64_t x = 1; x < maxv; ++x) {
            size_t l = code_len(x);
            if (used + l > lim) continue;
            v.push_back(x);
            rec(used + l);
            v.pop_back();
        }
    };
    rec(0);
}
MC_TASK(runs, "runs a^i b^j c^k: i over 0..140, j,k over run lengths, values small and large (fast paths for runs of ones and table decoding)")
{
    VV A = {1, 2, 3, 5, 100}, Bv = {1, 4, 9, 1ULL << 20, ~0ULL, 1ULL << 63};
    for (auto a : A)
        for (size_t i = 0; i <= (R.thorough ? 200 : 140); ++i)
            for (auto b : Bv)
                for (size_t j : {1, 2, 30, 65}) {
                    R.run([&] { return mc::cat("a=", a, "^", i, " b=", b, "^", j, " a^70"); }, [&] {
                        VV v(i, a);
                        v.insert(v.end(), j, b);
                        v.insert(v.end(), 70, a);
                        Buf B;
                        size_t off = i % 64;
                        enc(R, v, off, 0, B);
                        dec(R, v, off, B, false);
                        size_t k = i + j;
                        uint64_t s = 0;
                        for (size_t t = 0; t < k; ++t) s += v[t];
                        R.eqi(C::decode_prefix_sum(B.z.data(), off, k), s, "prefix sum", k);
                        R.eqi(C::decode_prefix_sum(B.z.data(), off, B.end, k), s, "prefix sum", k);
                        for (size_t off2 : {0, 1, 63}) {
                            enc(R, v, off2, 1, B);
                            dec(R, v, off2, B, false);
                        }
                        if (i % 10 == 3) { vec(R, v, 64); vec(R, v, 7); }
                    });
                }
}
MC_TASK(longs, "long streams of large values: counts up to 1500")
{
    for (uint64_t x : {1ULL, 2ULL, 3ULL, 1ULL << 20, 1ULL << 62, ~0ULL})
        for (size_t n : {100, 356, 357, 358, 500, 712, 1500})
            R.run([&] { return mc::cat(x, "^", n); }, [&] {
                VV v(n, x);
                Buf B;
                enc(R, v, 5, 0, B);
                dec(R, v, 5, B, n <= 500 && R.thorough);
                vec(R, v, 64);
            });
}

