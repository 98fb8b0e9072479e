// C02: word-level primitives against bit-by-bit definitions.
#include "gen.hpp"
#include <sdsl/bits.hpp>
#include <sdsl/bit_vectors.hpp>
using namespace sdsl;
using namespace std;

#ifdef NATIVE
static bool supported() { return __builtin_cpu_supports("sse4.2") && __builtin_cpu_supports("popcnt")
#ifdef __BMI2__
    && __builtin_cpu_supports("bmi2")
#endif
    ; }
#else
static bool supported() { return true; }
#endif

#define CHK(expr, ref, name) do { ++nt; uint64_t a_ = (uint64_t)(expr), e_ = (uint64_t)(ref); hh = hh * 31 + a_; if (a_ != e_) { R.transitions += nt; R.eqi(a_, e_, name, x); } } while (0)

// everything that takes a single word
static void word(mc::Run& R, uint64_t x, bool full)
{
    uint64_t nt = 0, hh = 0;
    unsigned c = 0, hi = 0, lo = 0;
    uint64_t rev = 0;
    unsigned posn[64];
    for (unsigned i = 0; i < 64; ++i)
        if (x >> i & 1) {
            if (!c) lo = i;
            posn[c++] = i;
            hi = i;
            rev |= 1ULL << (63 - i);
        }
    CHK(bits::cnt(x), c, "cnt");
    CHK(bits::hi(x), hi, "hi");
    CHK(bits::lo(x), lo, "lo");
    CHK(bits::rev(x), rev, "rev");
    CHK(bits::cnt32((uint32_t)x), __builtin_popcount((uint32_t)x), "cnt32");
    for (unsigned i = 0; i < c; ++i) {
        CHK(bits::sel(x, i + 1), posn[i], "sel");
        CHK(bits::_sel(x, i + 1), posn[i], "_sel");
    }
    for (uint64_t cin = 0; cin < 2; ++cin) {
        uint64_t m10 = 0, m01 = 0, prev = cin;
        for (unsigned i = 0; i < 64; ++i) {
            uint64_t b = x >> i & 1;
            if (prev && !b) m10 |= 1ULL << i;
            if (!prev && b) m01 |= 1ULL << i;
            prev = b;
        }
        CHK(bits::map10(x, cin), m10, "map10");
        CHK(bits::map01(x, cin), m01, "map01");
        uint64_t k = cin;
        CHK(bits::cnt10(x, k), __builtin_popcountll(m10), "cnt10");
        CHK(k, x >> 63, "cnt10 carry");
        k = cin;
        CHK(bits::cnt01(x, k), __builtin_popcountll(m01), "cnt01");
        CHK(k, x >> 63, "cnt01 carry");
        // Fibonacci terminators: greedy non-overlapping 11 from the low end
        unsigned n11 = 0, st = cin, p11[40];
        for (unsigned i = 0; i < 64; ++i) {
            unsigned b = x >> i & 1;
            if (b && st) { p11[n11++] = i; st = 0; }
            else st = b;
        }
        k = cin;
        CHK(bits::cnt11(x, k), n11, "cnt11 with carry");
        CHK(k, st, "cnt11 carry out");
        if (!cin) {
            CHK(bits::cnt11(x), n11, "cnt11");
            CHK(bits::hi11(x), n11 ? p11[n11 - 1] : 0, "hi11");
        }
        for (unsigned i = 0; i < n11; ++i) CHK(bits::sel11(x, i + 1, cin), p11[i], "sel11");
    }
    R.transitions += nt;
    R.h = mc::mix(R.h, hh);
}

MC_TASK(bytes, "all words with any 16-bit pattern at byte offsets 0,1,..,6 over zero/one/alternating backgrounds, all 64-bit words with at most 4 runs, boundary words")
{
    if (!supported()) return;
    for (int bg = 0; bg < 3; ++bg)
        for (int sh = 0; sh <= 48; sh += 8)
            for (int hi = 0; hi < 256; ++hi)
                R.run([&] { return mc::cat("words with 16-bit window at bit ", sh, " high byte ", hi, " background ", bg); }, [&] {
                    uint64_t base = bg == 0 ? 0 : bg == 1 ? ~0ULL : 0x5555555555555555ULL;
                    for (int lo = 0; lo < 256; ++lo)
                        word(R, (base & ~(0xFFFFULL << sh)) | ((uint64_t)(hi << 8 | lo) << sh), false);
                });
    for (int a = 0; a <= 64; ++a)
        R.run([&] { return mc::cat("words with at most 4 runs, first boundary ", a); }, [&] {
            auto m = [](int k) { return k >= 64 ? ~0ULL : (1ULL << k) - 1; };
            for (int b = a; b <= 64; ++b)
                for (int c = b; c <= 64; ++c) {
                    uint64_t x = m(a) ^ m(b) ^ m(c);
                    word(R, x, false);
                    word(R, ~x, false);
                }
        });
    // two independent bytes at every pair of byte positions
    if (R.thorough)
        for (int i = 0; i < 8; ++i)
            for (int j = i + 2; j < 8; ++j)
                for (int bg = 0; bg < 2; ++bg)
                    for (int p = 0; p < 256; ++p)
                        R.run([&] { return mc::cat("bytes ", i, ",", j, " bg ", bg, " first ", p); }, [&] {
                            uint64_t base = (bg ? ~0ULL : 0) & ~(0xFFULL << 8 * i) & ~(0xFFULL << 8 * j);
                            for (uint64_t q = 0; q < 256; ++q) word(R, base | (uint64_t)p << 8 * i | q << 8 * j, false);
                        });
}
#ifndef NATIVE
MC_TASK(rw, "read/write/unary/move primitives: every offset 0..63 x every length 0..64 x 6 values x 3 memory backgrounds over 4 words")
{
    for (unsigned off = 0; off < 64; ++off)
        R.run([&] { return mc::cat("read_int/write_int offset ", off); }, [&] {
            for (unsigned len = 0; len <= 64; ++len)
                for (int bg = 0; bg < 3; ++bg)
                    for (uint64_t val : vector<uint64_t>{0, ~0ULL, 1, 0x8000000000000000ULL, 0xA5C3F00F12345678ULL, 0x5555555555555555ULL}) {
                        uint64_t w[4], o[4];
                        for (int i = 0; i < 4; ++i) w[i] = o[i] = bg == 0 ? 0 : bg == 1 ? ~0ULL : 0x9e3779b97f4a7c15ULL * (i + 3);
                        for (unsigned j = 0; j < len; ++j) {
                            unsigned b = 64 + off + j;
                            o[b / 64] = (o[b / 64] & ~(1ULL << b % 64)) | ((val >> j & 1) << b % 64);
                        }
                        uint64_t e = len == 0 ? 0 : len == 64 ? val : val & ((1ULL << len) - 1);
                        uint64_t w2[4];
                        memcpy(w2, w, sizeof w);
                        if (len > 0) {
                            bits::write_int(w + 1, val, off, len);
                            for (int i = 0; i < 4; ++i) R.eqi(w[i], o[i], "memory after write_int", off, len, i);
                            R.eqi(bits::read_int(w + 1, off, len), e, "read_int", off, len);
                            uint64_t* p = w2 + 1;
                            uint8_t k = off;
                            bits::write_int_and_move(p, val, k, len);
                            for (int i = 0; i < 4; ++i) R.eqi(w2[i], o[i], "memory after write_int_and_move", off, len, i);
                            R.eqi((p - w2) * 64 + k, 64 + off + len, "write_int_and_move position", off, len);
                            R.ck(k < 64, "offset in range");
                        }
                        const uint64_t* q = o + 1;
                        uint8_t k = off;
                        R.eqi(bits::read_int_and_move(q, k, len), e, "read_int_and_move", off, len);
                        R.eqi((q - o) * 64 + k, 64 + off + len, "read_int_and_move position", off, len);
                        q = o + 1; k = off;
                        bits::move_right(q, k, len);
                        R.eqi((q - o) * 64 + k, 64 + off + len, "move_right", off, len);
                        bits::move_left(q, k, len);
                        R.eqi((q - o) * 64 + k, 64 + off, "move_left", off, len);
                    }
        });
    for (unsigned off = 0; off < 64; ++off)
        R.run([&] { return mc::cat("read_unary offset ", off); }, [&] {
            for (unsigned z = 0; z < 300; ++z)
                for (int after = 0; after < 2; ++after)
                    for (int before = 0; before < 2; ++before) {
                        uint64_t w[8] = {0};
                        auto set = [&](unsigned b) { w[b / 64] |= 1ULL << b % 64; };
                        if (before) for (unsigned b = 0; b < 64 + off; ++b) set(b);
                        set(64 + off + z);
                        if (after) for (unsigned b = 64 + off + z; b < 512; ++b) set(b);
                        R.eqi(bits::read_unary(w + 1, off), z, "read_unary", off, z);
                        const uint64_t* p = w + 1;
                        uint8_t k = off;
                        R.eqi(bits::read_unary_and_move(p, k), z, "read_unary_and_move", off, z);
                        R.eqi((p - w) * 64 + k, 64 + off + z + 1, "read_unary_and_move position", off, z);
                        R.eqi(bits::next(w, 64 + off), 64 + off + z, "next", off, z);
                        for (unsigned from = 64 + off; from <= 64 + off + z; from += 1 + z / 5) R.eqi(bits::next(w, from), 64 + off + z, "next", from);
                        // the mirrored scan
                        uint64_t v[8] = {0};
                        unsigned target = 512 - 1 - (64 + off + z);
                        auto setv = [&](unsigned b) { v[b / 64] |= 1ULL << b % 64; };
                        setv(target);
                        if (after) for (unsigned b = 0; b < target; ++b) setv(b);
                        if (before) for (unsigned b = target + z + 1; b < 512; ++b) setv(b);
                        R.eqi(bits::prev(v, target + z), target, "prev", off, z);
                        for (unsigned from = target; from <= target + z; from += 1 + z / 5) R.eqi(bits::prev(v, from), target, "prev", from);
                    }
        });
}
MC_TASK(vecfn, "util bit functions on every bit vector up to 12 bits and windows around word boundaries, with clean and dirty bits behind the end")
{
    auto chk = [&](const gen::Bits& b) {
        R.run([&] { return "util bit functions " + gen::show(b); }, [&] {
            size_t n = b.size();
            for (int dirty = 0; dirty < 3; ++dirty) {
                bit_vector v(n, 0);
                if (dirty == 1) util::_set_one_bits(v);
                if (dirty == 2 && n) { v.data()[n / 64] = 0xAAAAAAAAAAAAAAAAULL << (n & 1); }
                for (size_t i = 0; i < n; ++i) v[i] = b[i];
                size_t c1 = 0, c10 = 0, c01 = 0;
                for (size_t i = 0; i < n; ++i) {
                    c1 += b[i];
                    if (i && b[i - 1] && !b[i]) ++c10;
                    if (i && !b[i - 1] && b[i]) ++c01;
                }
                R.eqi(util::cnt_one_bits(v), c1, "cnt_one_bits");
                R.eqi(util::cnt_onezero_bits(v), c10, "cnt_onezero_bits");
                R.eqi(util::cnt_zeroone_bits(v), c01, "cnt_zeroone_bits");
                size_t nx = n;
                for (size_t i = n; i-- > 0;) {
                    if (b[i]) nx = i;
                    R.eqi(util::next_bit(v, i), nx, "next_bit", i, dirty);
                }
                size_t pv = n;
                for (size_t i = 0; i < n; ++i) {
                    if (b[i]) pv = i;
                    R.eqi(util::prev_bit(v, i), pv, "prev_bit", i, dirty);
                }
            }
        });
    };
    gen::all_bits(0, R.thorough ? 16 : 12, chk);
    for (size_t n : {63, 64, 65, 127, 128, 129, 192, 200})
        for (int bg = 0; bg < 8; ++bg)
            for (size_t pos : {0, 58, 60, 122, 124, 188})
                gen::windows(n, bg, pos, 8, [&](const gen::Bits& b, int, size_t, uint64_t) { chk(b); });
}
MC_TASK(tables, "published lookup tables: lo_set, lo_unset, lt_cnt, lt_hi, lt_lo, lt_sel, lt_fib, ps_overflow")
{
    R.run([&] { return string("lookup tables"); }, [&] {
        for (unsigned i = 0; i <= 64; ++i) {
            uint64_t m = i == 64 ? ~0ULL : (1ULL << i) - 1;
            R.eqi(bits::lo_set[i], m, "lo_set", i);
            R.eqi(bits::lo_unset[i], ~m, "lo_unset", i);
        }
        for (unsigned i = 0; i < 256; ++i) {
            R.eqi(bits::lt_cnt[i], __builtin_popcount(i), "lt_cnt", i);
            if (i) { R.eqi(bits::lt_hi[i], 31 - __builtin_clz(i), "lt_hi", i); R.eqi(bits::lt_lo[i], __builtin_ctz(i), "lt_lo", i); }
            unsigned k = 0;
            for (unsigned j = 0; j < 8; ++j) if (i >> j & 1) R.eqi(bits::lt_sel[(k++ << 8) + i], j, "lt_sel", k, i);
        }
        uint64_t a = 1, b = 2;
        for (unsigned i = 0; i < 92; ++i) { R.eqi(bits::lt_fib[i], a, "lt_fib", i); uint64_t t = a + b; a = b; b = t; }
    });
}
#endif
