// Balanced parentheses sequences: exhaustive and structured families, and a direct reference.
#pragma once
#include "gen.hpp"
#include <sdsl/bp_support.hpp>
#include <functional>
namespace bpg
{
using namespace std;
typedef gen::Bits Bits;
template<class F> void dyck(size_t n, F f) // every balanced sequence (forests) of n pairs
{
    Bits b(2 * n);
    function<void(size_t, size_t, size_t)> rec = [&](size_t i, size_t open, size_t ex) {
        if (i == 2 * n) { f(b); return; }
        if (open < n) { b[i] = 1; rec(i + 1, open + 1, ex + 1); }
        if (ex) { b[i] = 0; rec(i + 1, open, ex - 1); }
    };
    rec(0, 0, 0);
}
enum { S_PATH, S_FLAT, S_STAR, S_COMBL, S_COMBR, S_BIN, S_ZIG, S_SAW, S_SQRT, S_HASH, S_CLIMB, S_COUNT };
inline string shape_name(int k)
{
    static const char* n[] = {"path", "forest of single nodes", "star", "left comb", "right comb", "complete binary", "zigzag", "saw", "paths of sqrt length", "pseudo-random", "hill of flats"};
    return n[k];
}
// balanced sequence of n pairs
inline Bits shape(int k, size_t n)
{
    Bits b;
    b.reserve(2 * n);
    size_t open = 0, ex = 0, i = 0;
    auto go = [&](int x) { if (x) { ++open; ++ex; } else --ex; b.push_back(x); ++i; };
    size_t sq = 1;
    while (sq * sq < n) ++sq;
    uint64_t st = 88172645463325252ULL + n;
    function<void(size_t)> bin = [&](size_t m) {
        if (!m) return;
        go(1);
        --m;
        bin(m - m / 2);
        bin(m / 2);
        go(0);
    };
    if (k == S_BIN) { bin(n); return b; }
    while (b.size() < 2 * n) {
        int want;
        switch (k) {
            case S_PATH: want = 1; break;
            case S_FLAT: want = ex == 0; break;
            case S_STAR: want = ex < 2; break;
            case S_COMBL: want = open < n / 2 ? 1 : (i & 1) ^ (n / 2 & 1) ? 0 : 1; break;
            case S_COMBR: want = ex < 2 || b.size() % 3 != 2; break;
            case S_ZIG: want = b.size() % 4 < 2 || ex < 3 || b.size() % 16 == 2; break;
            case S_SAW: want = (b.size() / 5) % 2 == 0; break;
            case S_SQRT: want = (b.size() / sq) % 2 == 0; break;
            case S_CLIMB: want = b.size() < n ? b.size() % 3 != 2 : b.size() % 3 == 2; break;
            default: st ^= st << 13; st ^= st >> 7; st ^= st << 17; want = st >> 33 & 1; break;
        }
        if (open == n) want = 0;
        else if (ex == 0) want = 1;
        else if (n - open == 0) want = 0;
        go(want);
    }
    return b;
}
struct Ref {
    Bits b;
    size_t n;
    vector<size_t> match, encl, lvl;   // match: partner; encl of an opening: enclosing opening or n; of a closing: its opening
    vector<long> ex;
    void build(const Bits& x)
    {
        b = x;
        n = b.size();
        match.assign(n, n);
        encl.assign(n, n);
        ex.assign(n, 0);
        vector<size_t> st;
        long e = 0;
        for (size_t i = 0; i < n; ++i) {
            if (b[i]) {
                encl[i] = st.empty() ? n : st.back();
                st.push_back(i);
                ++e;
            } else {
                match[i] = st.back();
                match[st.back()] = i;
                encl[i] = st.back();
                st.pop_back();
                --e;
            }
            ex[i] = e;
        }
    }
    size_t rmq_open(size_t l, size_t r) const { for (size_t i = l; i < r; ++i) if (b[i] && match[i] >= r) return i; return n; }
    size_t rr_enclose(size_t i, size_t j) const { for (size_t k = match[i] + 1; k < j; ++k) if (b[k] && match[k] > match[j]) return k; return n; }
    size_t double_enclose(size_t i, size_t j) const { for (size_t k = encl[i]; k != n; k = encl[k]) if (match[k] > match[j]) return k; return n; }
    long minex(size_t l, size_t r) const { return *min_element(ex.begin() + l, ex.begin() + r + 1); }
};
} // namespace bpg
