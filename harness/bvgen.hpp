// Families of bit vectors used by the rank/select/compressed-bit-vector harnesses.
#pragma once
#include "gen.hpp"
namespace gen
{
// (1) every bit vector of length 0..L
// (2) windows: background x window position x every window pattern, lengths around the block sizes in the code
// (3) gap vectors: `args` ones separated by `gap`, then a tail; and complements
struct BVFamily {
    size_t L;                    // exhaustive length
    std::vector<size_t> lens;    // window lengths
    std::vector<int> bgs;
    unsigned wbits;              // window width
    std::vector<size_t> bounds;  // boundaries the windows straddle (also n itself)
};
template<class F>
void family(const BVFamily& fam, F f)
{
    all_bits(0, fam.L, [&](const Bits& b) { f(b); });
    for (size_t n : fam.lens)
        for (int k : fam.bgs) {
            std::set<size_t> pos;
            auto add = [&](size_t b) { if (b <= n + fam.wbits / 2) pos.insert(b >= fam.wbits / 2 ? std::min(b - fam.wbits / 2, n >= fam.wbits ? n - fam.wbits : 0) : 0); };
            for (size_t b : fam.bounds) add(b);
            add(n);
            add(0);
            for (size_t p : pos) windows(n, k, p, fam.wbits, [&](const Bits& b, int, size_t, uint64_t) { f(b); });
        }
}
struct Gap {
    size_t lead, args, gap, tail;
    int mode; // 0 ones in zeros, 1 zeros in ones, 2 second half of the ones dense, 3 = mode 2 complemented
};
inline Bits mk_gap(const Gap& g)
{
    Bits b(g.lead, 0);
    for (size_t i = 0; i < g.args; ++i) {
        b.push_back(1);
        size_t gp = (g.mode >= 2 && i >= g.args / 2) ? 1 : g.gap;
        for (size_t j = 1; j < gp; ++j) b.push_back(0);
    }
    b.insert(b.end(), g.tail, 0);
    if (g.mode & 1) for (auto& x : b) x ^= 1;
    return b;
}
inline std::string show_gap(const Gap& g)
{
    std::ostringstream o;
    o << "lead=" << g.lead << " args=" << g.args << " gap=" << g.gap << " tail=" << g.tail << " mode=" << g.mode;
    return o.str();
}
template<class F>
void gaps(const std::vector<size_t>& args, const std::vector<size_t>& gp, const std::vector<size_t>& leads, const std::vector<size_t>& tails, size_t maxn, F f)
{
    for (size_t a : args)
        for (size_t g : gp)
            for (size_t l : leads)
                for (size_t t : tails)
                    for (int m = 0; m < 4; ++m) {
                        if (m >= 2 && g == 1) continue;
                        if (l + a * g + t > maxn) continue;
                        f(Gap{l, a, g, t, m});
                    }
}
} // namespace gen
