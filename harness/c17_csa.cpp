// C17: every CSA gives the exact SA, ISA, psi, LF, BWT, F, text, rank/select on BWT and alphabet mapping.
#include "csagroups.hpp"
template<class V>
static void check(mc::Run& R, const V& csa, const Ref& r)
{
    size_t n = r.n;
    R.eqi(csa.size(), n, "size");
    R.eqi(csa.empty(), 0, "empty");
    // alphabet
    map<uint64_t, vector<size_t>> occ; // positions in the BWT
    for (size_t i = 0; i < n; ++i) occ[r.bwt[i]].push_back(i);
    R.eqi(csa.sigma, occ.size(), "sigma");
    size_t cc = 0, sum = 0;
    set<uint64_t> absent = {1, 255};
    for (auto& kv : occ) {
        R.eqi(csa.comp2char[cc], kv.first, "comp2char", cc);
        R.eqi(csa.char2comp[kv.first], cc, "char2comp", kv.first);
        R.eqi(csa.C[cc], sum, "C", cc);
        sum += kv.second.size();
        ++cc;
        absent.insert(kv.first + 1);
        if (kv.first) absent.insert(kv.first - 1);
    }
    R.eqi(csa.C[cc], n, "C", cc);
    for (size_t i = 0; i < n; ++i) {
        uint64_t x;
        if ((x = csa[i]) != r.sa[i]) R.eqi(x, r.sa[i], "csa[]", i);
        if ((x = csa.isa[i]) != r.isa[i]) R.eqi(x, r.isa[i], "isa[]", i);
        if ((x = csa.psi[i]) != r.isa[(r.sa[i] + 1) % n]) R.eqi(x, r.isa[(r.sa[i] + 1) % n], "psi[]", i);
        if ((x = csa.lf[i]) != r.isa[(r.sa[i] + n - 1) % n]) R.eqi(x, r.isa[(r.sa[i] + n - 1) % n], "lf[]", i);
        if ((x = csa.bwt[i]) != r.bwt[i]) R.eqi(x, r.bwt[i], "bwt[]", i);
        if ((x = csa.L[i]) != r.bwt[i]) R.eqi(x, r.bwt[i], "L[]", i);
        if ((x = csa.F[i]) != r.t[r.sa[i]]) R.eqi(x, r.t[r.sa[i]], "F[]", i);
        if ((x = csa.text[i]) != r.t[i]) R.eqi(x, r.t[i], "text[]", i);
        R.obs(x);
    }
    R.transitions += 8 * n;
    R.eqi(csa.isa.size(), n, "isa.size");
    R.eqi(csa.psi.size(), n, "psi.size");
    R.eqi(csa.lf.size(), n, "lf.size");
    R.eqi(csa.bwt.size(), n, "bwt.size");
    R.eqi(csa.F.size(), n, "F.size");
    R.eqi(csa.text.size(), n, "text.size");
    R.ck(!csa.isa.empty() && !csa.psi.empty() && !csa.lf.empty() && !csa.bwt.empty() && !csa.F.empty() && !csa.text.empty(), "views are not empty");
    {
        size_t i = 0;
        for (auto it = csa.begin(); it != csa.end(); ++it, ++i) if (*it != r.sa[i]) R.eqi(*it, r.sa[i], "iterator", i);
        R.eqi(i, n, "iterated");
        i = 0;
        for (auto it = csa.text.begin(); it != csa.text.end(); ++it, ++i) if (*it != r.t[i]) R.eqi(*it, r.t[i], "text iterator", i);
        R.eqi(i, n, "iterated text");
        i = 0;
        for (auto it = csa.bwt.begin(); it != csa.bwt.end(); ++it, ++i) if (*it != r.bwt[i]) R.eqi(*it, r.bwt[i], "bwt iterator", i);
        i = 0;
        for (auto it = csa.isa.begin(); it != csa.isa.end(); ++it, ++i) if (*it != r.isa[i]) R.eqi(*it, r.isa[i], "isa iterator", i);
    }
    bool full = n * occ.size() <= 20000;
    for (auto& kv : occ) {
        for (size_t k = 0; k < kv.second.size(); ++k) {
            uint64_t x = csa.bwt.select(k + 1, kv.first);
            if (x != kv.second[k]) R.eqi(x, kv.second[k], "bwt.select", k + 1, kv.first);
        }
        if (!full && kv.second.size() * 4 < n && kv.second.size() > 3 && kv.first % 16) continue;
        size_t cnt = 0;
        for (size_t i = 0;; ++i) {
            uint64_t x = csa.bwt.rank(i, kv.first);
            if (x != cnt) R.eqi(x, cnt, "bwt.rank", i, kv.first);
            if (i == n) break;
            cnt += r.bwt[i] == kv.first;
        }
        R.transitions += n;
    }
#ifdef BYTE
    uint64_t cap = 255;
#else
    uint64_t cap = ~0ULL;
#endif
    for (uint64_t c : absent) {
        if (c > cap || occ.count(c)) continue;
        R.eqi(csa.char2comp[c], 0, "char2comp of absent symbol", c);
        for (size_t i : {(size_t)0, n / 2, n}) R.eqi(csa.bwt.rank(i, c), 0, "bwt.rank of absent symbol", i, c);
    }
}
template<class V> static void subject(mc::Run& R, Cache<W>& c, const Text& t)
{
    R.run([&] { return tname<V>::get() + " text " + gen::shows(t); },
          [&] {
              V v;
              c.build(v);
              check(R, v, c.r);
          });
}
static void all(mc::Run& R, const Text& t)
{
    Cache<W> c(t);
    each(Ty(), [&](auto* p) { subject<typename remove_pointer<decltype(p)>::type>(R, c, t); });
}
MC_TASK(small, "CSA type x every text up to a length over small alphabets (several symbol codes): every member for every index")
{
    bool th = R.thorough;
    auto f = [&](const Text& t) { all(R, t); };
#ifdef BYTE
    texts(0, th ? 12 : 9, {1, 2}, f);
    texts(1, th ? 8 : 6, {'a', 'b', 'c'}, f);
    texts(1, th ? 6 : 4, {1, 127, 128, 255}, f);
    texts(1, th ? 40 : 24, {255}, f);
#else
    texts(0, th ? 12 : 9, {1, 2}, f);
    texts(1, th ? 8 : 6, {1, 2, 3}, f);
    texts(1, th ? 6 : 4, {1, 255, 256, 4000}, f);
    texts(1, th ? 40 : 24, {7}, f);
    texts(1, th ? 3 : 2, {1000, 1001, 100000}, f);
#endif
}
MC_TASK(structured, "CSA type x 18 text families x lengths around sampling boundaries and up to 2000: every member for every index")
{
    vector<size_t> ns = R.thorough ? vector<size_t>{15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 2049, 5000} : vector<size_t>{31, 32, 33, 63, 64, 65, 128, 300, 1500};
    for (auto n : ns)
        for (int f = 0; f < FAM_COUNT; ++f) {
            Text t = family(f, n);
            if (n == 1500 && !R.thorough && f % 3) continue;
            all(R, t);
#ifndef BYTE
            if (n < 400) { for (auto& x : t) x = x * 37 + 5; all(R, t); }
#endif
        }
}
#if GROUP == 2
MC_TASK(bwt_sampling_chars, "sa_bwt_sampling with every subset of the alphabet as extra sample characters x every text over {1,2,3} up to a length")
{
    texts(1, R.thorough ? 7 : 5, {1, 2, 3}, [&](const Text& t) {
        for (unsigned m = 0; m < 8; ++m)
            R.run([&] { return mc::cat("sample chars mask ", m, " text ", gen::shows(t)); },
                  [&] {
                      Cache<8> c(t);
                      int_vector<> sc;
                      for (int k = 0; k < 3; ++k) if (m >> k & 1) { sc.resize(sc.size() + 1); sc[sc.size() - 1] = k + 1; }
                      if (m) store_to_cache(sc, conf::KEY_SAMPLE_CHAR, c.c);
                      csa_wt<Huff, 4, 8, sa_bwt_sampling<>> v;
                      c.build(v);
                      check(R, v, c.r);
                      csa_sada<enc_vector<>, 4, 8, sa_bwt_sampling<>> s;
                      c.build(s);
                      check(R, s, c.r);
                  });
    });
}
#endif
MC_TASK(default_constructed, "default-constructed CSA")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        R.run([&] { return tname<V>::get() + " default"; },
              [&] {
                  V v;
                  R.eqi(v.size(), 0, "size");
                  R.eqi(v.empty(), 1, "empty");
                  R.ck(v.begin() == v.end(), "nothing to iterate");
              });
    });
}
