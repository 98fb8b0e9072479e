// Enumerators of finite input spaces shared by the harnesses.
#pragma once
#include "mc.hpp"
#include <sdsl/int_vector.hpp>
#include <string>
#include <vector>

namespace gen
{
typedef std::vector<uint8_t> Bits;

inline std::string show(const Bits& b)
{
    // run-length form for long vectors
    std::ostringstream o;
    o << "n=" << b.size() << " bits=";
    if (b.size() <= 160) {
        for (auto x : b) o << (int)x;
    } else {
        size_t i = 0, parts = 0;
        while (i < b.size() && parts++ < 60) {
            size_t j = i;
            while (j < b.size() && b[j] == b[i]) ++j;
            o << (int)b[i] << "x" << (j - i) << " ";
            i = j;
        }
        if (i < b.size()) o << "...";
    }
    return o.str();
}

inline sdsl::bit_vector mk(const Bits& b)
{
    sdsl::bit_vector v(b.size(), 0);
    for (size_t i = 0; i < b.size(); ++i) v[i] = b[i];
    return v;
}

// every bit string of every length lo..hi
template<class F>
void all_bits(size_t lo, size_t hi, F f)
{
    for (size_t n = lo; n <= hi; ++n)
        for (uint64_t x = 0; x < (1ULL << n); ++x) {
            Bits b(n);
            for (size_t i = 0; i < n; ++i) b[i] = (x >> i) & 1;
            f(b);
        }
}

// Named background fills.
enum { BG_ZERO, BG_ONE, BG_ALT, BG_P3, BG_P64, BG_P63, BG_W64, BG_HALF, BG_SPARSE, BG_DENSE_SPARSE, BG_LFSR, BG_RUNS, BG_COUNT };
inline const char* bg_name(int k)
{
    static const char* n[] = {"zeros", "ones", "alt", "every3rd", "every64th", "all-but-every-63rd", "64-blocks", "first-half", "every1000th", "dense-then-sparse", "lfsr", "growing-runs"};
    return n[k];
}
inline uint8_t bg(int k, uint64_t i, uint64_t n)
{
    switch (k) {
        case BG_ZERO: return 0;
        case BG_ONE: return 1;
        case BG_ALT: return i & 1;
        case BG_P3: return i % 3 == 0;
        case BG_P64: return i % 64 == 0;
        case BG_P63: return i % 63 != 62;
        case BG_W64: return (i / 64) & 1;
        case BG_HALF: return i < n / 2;
        case BG_SPARSE: return i % 1000 == 999;
        case BG_DENSE_SPARSE: return i < n / 4 ? 1 : (i % 71 == 0);
        case BG_LFSR: {
            uint64_t z = (i / 64 + 1) * 0x9e3779b97f4a7c15ULL;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
            z ^= z >> 31;
            return (z >> (i % 64)) & 1;
        }
        case BG_RUNS: {
            uint64_t j = i, len = 1, b = 0;
            while (j >= len) { j -= len; len = len < 700 ? len + 1 + len / 4 : 1; b ^= 1; }
            return b;
        }
    }
    return 0;
}

// background fill of length n overwritten at [pos, pos+k) by every k-bit pattern
template<class F>
void windows(size_t n, int bgk, size_t pos, unsigned k, F f)
{
    Bits b(n);
    for (size_t i = 0; i < n; ++i) b[i] = bg(bgk, i, n);
    if (pos >= n) return;
    if (pos + k > n) k = n - pos;
    for (uint64_t x = 0; x < (1ULL << k); ++x) {
        for (unsigned j = 0; j < k; ++j) b[pos + j] = (x >> j) & 1;
        f(b, bgk, pos, x);
    }
}

// every sequence over {0..sigma-1} of length lo..hi mapped through `map`
template<class F>
void all_seqs(size_t lo, size_t hi, const std::vector<uint64_t>& alphabet, F f)
{
    size_t s = alphabet.size();
    for (size_t n = lo; n <= hi; ++n) {
        std::vector<uint64_t> v(n);
        std::vector<size_t> d(n, 0);
        while (true) {
            for (size_t i = 0; i < n; ++i) v[i] = alphabet[d[i]];
            f(v);
            size_t i = 0;
            while (i < n && ++d[i] == s) d[i++] = 0;
            if (i == n) break;
        }
    }
}
inline std::vector<uint64_t> iota_alpha(uint64_t lo, uint64_t hi)
{
    std::vector<uint64_t> v;
    for (uint64_t i = lo; i <= hi; ++i) v.push_back(i);
    return v;
}
// every sequence in canonical (restricted growth) form: first occurrences are 0,1,2,...
template<class F>
void canonical_seqs(size_t lo, size_t hi, size_t maxsym, F f)
{
    for (size_t n = lo; n <= hi; ++n) {
        std::vector<uint64_t> v(n);
        std::function<void(size_t, uint64_t)> rec = [&](size_t i, uint64_t m) {
            if (i == n) { f(v); return; }
            for (uint64_t c = 0; c <= m && c < maxsym; ++c) {
                v[i] = c;
                rec(i + 1, std::max(m, c + 1));
            }
        };
        rec(0, 0);
    }
}
inline std::string shows(const std::vector<uint64_t>& v)
{
    std::ostringstream o;
    o << "n=" << v.size() << " [";
    for (size_t i = 0; i < v.size() && i < 120; ++i) o << (i ? "," : "") << v[i];
    if (v.size() > 120) o << ",...";
    o << "]";
    return o.str();
}

inline std::string scratch(const std::string& name)
{
    const char* s = getenv("MC_SCRATCH");
    std::string d = s ? s : "/tmp";
    static std::string pid = std::to_string(getpid());
    return d + "/" + pid + "_" + name;
}
} // namespace gen
