// C19: every LCP representation returns the LCP array.
#include "cstgen.hpp"
#if GROUP == 10
typedef Types<lcp_bitcompressed<>, lcp_bitcompressed<64>, lcp_byte<>, lcp_dac<>, lcp_dac<2>, lcp_dac<8>, lcp_dac_dp<>, lcp_vlc<>, lcp_vlc<vlc_vector<coder::fibonacci, 4>>, lcp_vlc<enc_vector<>>, lcp_wt<>> LTy;
#endif
template<class L> static void check(mc::Run& R, const L& l, const Ref& r)
{
    size_t n = r.n;
    R.eqi(l.size(), n, "size");
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = l[i];
        if (x != r.lcp[i]) R.eqi(x, r.lcp[i], "lcp[]", i);
        R.obs(x);
    }
    for (size_t i = n; i-- > 0;) if (l[i] != r.lcp[i]) R.eqi(l[i], r.lcp[i], "lcp[] (descending)", i);
    R.transitions += 3 * n;
    size_t i = 0;
    for (auto it = l.begin(); it != l.end(); ++it, ++i) {
        if (i >= n) R.fail("iterator passes the end");
        uint64_t x = *it;
        if (x != r.lcp[i]) R.eqi(x, r.lcp[i], "iterator", i);
    }
    R.eqi(i, n, "values iterated");
}
static void all(mc::Run& R, const Text& t)
{
#if GROUP == 10
    // LCP array computed once, by the library (its construction is decided in C16)
    Cache<8> c(t);
    { lcp_bitcompressed<> l; construct(l, c.file, c.c, 1); }
    each(LTy(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type L;
        R.run([&] { return tname<L>::get() + " text " + gen::shows(t); },
              [&] {
                  L l;
                  c.build(l);
                  check(R, l, c.r);
              });
    });
#else
    Cache<W> c(t);
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        R.run([&] { return tname<V>::get() + " text " + gen::shows(t); },
              [&] {
                  V v;
                  c.build(v);
                  check(R, v.lcp, c.r);
              });
    });
#endif
}
MC_TASK(small, "LCP type / suffix tree type x every text up to a length over small alphabets: every index and the iterator")
{
    bool th = R.thorough;
    auto f = [&](const Text& t) { all(R, t); };
#ifdef BYTE
    texts(0, th ? 12 : 9, {1, 2}, f);
    texts(1, th ? 8 : 6, {'a', 'b', 'c'}, f);
    texts(1, th ? 5 : 3, {1, 127, 128, 255}, f);
#else
    texts(0, th ? 12 : 9, {1, 2}, f);
    texts(1, th ? 8 : 5, {1, 2, 3}, f);
    texts(1, th ? 5 : 3, {1, 255, 256, 4000}, f);
#endif
}
static Text one(size_t n) { return Text(n, 1); }
MC_TASK(large_values, "texts whose LCP values pass 255 and the code, level and byte boundaries: runs, repeated blocks and families around the boundary lengths")
{
    bool th = R.thorough;
    vector<size_t> ns{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513};
    if (th) { ns.push_back(1023); ns.push_back(1025); ns.push_back(4097); }
    for (auto n : ns) all(R, one(n));
    // w # w $ w: several equal escaped values
    for (size_t k : {60, 253, 254, 255, 256, 257}) {
        Text t;
        uint64_t z = 12345;
        Text w(k);
        for (auto& x : w) { z = z * 6364136223846793005ULL + 1; x = 1 + (z >> 60) % 4; }
        for (uint64_t s : {6, 7, 8, 9}) { t.insert(t.end(), w.begin(), w.end()); t.push_back(s); }
        all(R, t);
        Text u(t);
        u.insert(u.end(), t.begin(), t.end());
        all(R, u);
    }
    for (size_t n : th ? vector<size_t>{100, 300, 520, 600, 1500} : vector<size_t>{100, 520})
        for (int f = 0; f < FAM_COUNT; ++f) all(R, family(f, n));
#ifndef BYTE
    for (int f = 0; f < FAM_COUNT; ++f) { Text t = family(f, 100); for (auto& x : t) x = x * 91 + 7; all(R, t); }
#endif
}
