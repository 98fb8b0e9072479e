// Text families and a reference suffix array shared by C16..C21, C31, C36.
#pragma once
#include "gen.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
typedef std::vector<uint64_t> Text; // without the sentinel

struct Ref { // reference structures of text+0, computed without the library
    std::vector<uint64_t> t, sa, isa, lcp, bwt;
    size_t n;
    void make(const Text& x)
    {
        t = x;
        t.push_back(0);
        n = t.size();
        sa.resize(n);
        isa.resize(n);
        for (size_t i = 0; i < n; ++i) sa[i] = i;
        if (n <= 40) {
            std::sort(sa.begin(), sa.end(), [&](uint64_t a, uint64_t b) { return std::lexicographical_compare(t.begin() + a, t.end(), t.begin() + b, t.end()); });
        } else { // prefix doubling
            std::vector<uint64_t> r(t), s(n);
            for (size_t k = 0;; k = k ? 2 * k : 1) {
                auto key2 = [&](uint64_t a) -> uint64_t { return k && a + k < n ? r[a + k] + 1 : 0; };
                auto less = [&](uint64_t a, uint64_t b) { return r[a] != r[b] ? r[a] < r[b] : key2(a) < key2(b); };
                std::sort(sa.begin(), sa.end(), less);
                s[sa[0]] = 0;
                for (size_t i = 1; i < n; ++i) s[sa[i]] = s[sa[i - 1]] + (less(sa[i - 1], sa[i]) ? 1 : 0);
                r = s;
                if (r[sa[n - 1]] == n - 1) break;
            }
        }
        for (size_t i = 0; i < n; ++i) isa[sa[i]] = i;
        lcp.assign(n, 0);
        for (size_t i = 0, l = 0; i < n; ++i) { // text order
            if (isa[i] == 0) { l = 0; continue; }
            size_t j = sa[isa[i] - 1];
            while (i + l < n && j + l < n && t[i + l] == t[j + l]) ++l;
            lcp[isa[i]] = l;
            if (l) --l;
        }
        bwt.resize(n);
        for (size_t i = 0; i < n; ++i) bwt[i] = t[(sa[i] + n - 1) % n];
    }
};

// structured texts; every family is a function of (length, variant)
static const char* fam_names[] = {"a^n", "(ab)^k", "fibonacci", "thue-morse", "period 3 + break", "a^k b a^k", "all symbols cyclic", "lcg sigma 2", "lcg sigma 4", "lcg sigma 60", "lcg sigma 255", "reversed ramp", "blocks a^k b^k c^k", "long repeat w x w y w", "period 64", "period 65 + break", "a^n b", "b a^n"};
enum { FAM_COUNT = 18 };
static inline Text family(int f, size_t n)
{
    Text v(n);
    uint64_t z = 88172645463325252ULL + n;
    auto rnd = [&](uint64_t s) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; return (z >> 20) % s; };
    switch (f) {
        case 0: for (auto& x : v) x = 1; break;
        case 1: for (size_t i = 0; i < n; ++i) v[i] = 1 + i % 2; break;
        case 2: {
            std::string a = "b", b = "a";
            while (b.size() < n) { std::string c = b + a; a = b; b = c; }
            for (size_t i = 0; i < n; ++i) v[i] = b[i] - 'a' + 1;
            break;
        }
        case 3: for (size_t i = 0; i < n; ++i) v[i] = 1 + __builtin_parityll(i); break;
        case 4: for (size_t i = 0; i < n; ++i) v[i] = 1 + i % 3; if (n) v[n / 2] = 3; break;
        case 5: for (size_t i = 0; i < n; ++i) v[i] = 1; if (n) v[n / 2] = 2; break;
        case 6: for (size_t i = 0; i < n; ++i) v[i] = 1 + i % 255; break;
        case 7: for (auto& x : v) x = 1 + rnd(2); break;
        case 8: for (auto& x : v) x = 1 + rnd(4); break;
        case 9: for (auto& x : v) x = 1 + rnd(60); break;
        case 10: for (auto& x : v) x = 1 + rnd(255); break;
        case 11: for (size_t i = 0; i < n; ++i) v[i] = 255 - i % 255; break;
        case 12: for (size_t i = 0; i < n; ++i) v[i] = 1 + i * 3 / n; break;
        case 13: {
            size_t w = n / 3;
            for (size_t i = 0; i < n; ++i) v[i] = 1 + rnd(3);
            for (size_t i = 0; i < w; ++i) { if (w + 1 + i < n) v[w + 1 + i] = v[i]; if (2 * w + 2 + i < n) v[2 * w + 2 + i] = v[i]; }
            break;
        }
        case 14: { Text p(64); for (auto& x : p) x = 1 + rnd(3); for (size_t i = 0; i < n; ++i) v[i] = p[i % 64]; break; }
        case 15: { Text p(65); for (auto& x : p) x = 1 + rnd(2); for (size_t i = 0; i < n; ++i) v[i] = p[i % 65]; if (n) v[2 * n / 3] = 3; break; }
        case 16: for (auto& x : v) x = 1; if (n) v[n - 1] = 2; break;
        default: for (auto& x : v) x = 1; if (n) v[0] = 2; break;
    }
    return v;
}
// order-preserving relabelling of symbols 1..k
static inline Text relabel(const Text& v, const std::vector<uint64_t>& codes)
{
    Text r(v);
    for (auto& x : r) x = codes[x - 1];
    return r;
}
// all texts over k symbols, lengths lo..hi, relabelled by codes
template<class F>
static void texts(size_t lo, size_t hi, const std::vector<uint64_t>& codes, F f) { gen::all_seqs(lo, hi, codes, f); }
