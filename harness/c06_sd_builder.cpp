// C06: all ways to build an sd_vector; the builder as a state machine.
#include "bvgen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <list>
using namespace sdsl;
using namespace std;
typedef vector<uint64_t> VV;

// sparse oracle, positions P (strictly increasing) in [0,n)
template<class V>
static void verify(mc::Run& R, const V& v, const VV& P, uint64_t n, bool dense, const char* how)
{
    string H = how;
    R.eqi(v.size(), n, (H + " size").c_str());
    typename V::rank_1_type r1(&v);
    typename V::rank_0_type r0(&v);
    typename V::select_1_type s1(&v);
    typename V::select_0_type s0(&v);
    for (size_t i = 0; i < P.size(); ++i) R.eqi(s1(i + 1), P[i], (H + " select1").c_str(), i + 1);
    auto rk = [&](uint64_t x) { return (uint64_t)(lower_bound(P.begin(), P.end(), x) - P.begin()); };
    auto at = [&](uint64_t x) {
        bool in = binary_search(P.begin(), P.end(), x);
        if (x < n) R.eqi(v[x], in, (H + " access").c_str(), x);
        if (x <= n) {
            R.eqi(r1(x), rk(x), (H + " rank1").c_str(), x);
            R.eqi(r0(x), x - rk(x), (H + " rank0").c_str(), x);
            if (x < n && !in) R.eqi(s0(x - rk(x) + 1), x, (H + " select0").c_str(), x);
        }
    };
    if (dense) for (uint64_t x = 0; x <= n; ++x) at(x);
    else {
        for (auto p : P) { if (p) at(p - 1); at(p); at(p + 1); }
        at(0); at(n); if (n) at(n - 1);
    }
}
template<class V>
static void ways(mc::Run& R, const VV& P, uint64_t n, bool dense)
{
    bit_vector bv;
    vector<V*> made;
    {
        sd_vector_builder b(n, P.size());
        R.eqi(b.size(), n, "builder size");
        R.eqi(b.capacity(), P.size(), "builder capacity");
        for (size_t i = 0; i < P.size(); ++i) {
            R.eqi(b.items(), i, "builder items");
            R.eqi(b.tail(), i ? P[i - 1] + 1 : 0, "builder tail");
            // a premature build is refused and leaves the builder as it was
            bool thrown = false;
            try { V x(b); } catch (const std::runtime_error&) { thrown = true; }
            R.ck(thrown, "an unfinished builder is refused");
            R.eqi(b.items(), i, "items after the refusal");
            b.set(P[i]);
        }
        sd_vector_builder c(b), d;        // copies are independent
        d.swap(c);
        R.eqi(c.items(), 0, "swapped builder");
        V x(b);
        verify(R, x, P, n, dense, "builder");
        R.eqi(b.items(), 0, "builder is cleared");
        R.eqi(b.size(), 0, "builder is cleared");
        R.eqi(b.capacity(), 0, "builder is cleared");
        V y(d);
        verify(R, y, P, n, dense, "copied builder");
        b = sd_vector_builder(n, P.size()); // reuse
        for (auto p : P) b.set(p);
        V z(b);
        verify(R, z, P, n, dense, "reused builder");
    }
    if (P.size()) {
        V x(P.begin(), P.end());
        verify(R, x, P, P.back() + 1, dense, "range");
        list<uint64_t> L(P.begin(), P.end());
        vector<uint32_t> P32(P.begin(), P.end());
        if (P.back() < (1ULL << 32)) {
            V y(P32.begin(), P32.end());
            verify(R, y, P, P.back() + 1, false, "32-bit range");
        }
        int_vector<> iv(P.size(), 0, bits::hi(P.back() | 1) + 1);
        for (size_t i = 0; i < P.size(); ++i) iv[i] = P[i];
        V w(iv.begin(), iv.end());
        verify(R, w, P, P.back() + 1, false, "int_vector range");
    } else {
        V x(P.begin(), P.end());
        R.eqi(x.size(), 0, "empty range");
    }
    if (n <= 4096) {
        bv = bit_vector(n, 0);
        for (auto p : P) bv[p] = 1;
        V x(bv);
        verify(R, x, P, n, dense, "bit_vector");
        bit_vector dirty(n, 1);
        for (size_t i = 0; i < n; ++i) dirty[i] = bv[i];
        V y(dirty);
        verify(R, y, P, n, dense, "bit_vector with non-zero padding");
    }
}
typedef sd_vector<rrr_vector<15>> SR;
MC_TASK(small, "every set of positions below every length 0..10 (14 thorough), each way of construction")
{
    gen::all_bits(0, R.thorough ? 14 : 10, [&](const gen::Bits& b) {
        R.run([&] { return gen::show(b); }, [&] {
            VV P;
            for (size_t i = 0; i < b.size(); ++i) if (b[i]) P.push_back(i);
            ways<sd_vector<>>(R, P, b.size(), true);
            ways<SR>(R, P, b.size(), true);
        });
    });
}
MC_TASK(universe, "lengths 2^k-1, 2^k, 2^k+1 (k up to 62) x counts 0..9 and 2^j+-1 x placements (packed low, packed high, spread, doubling, ends)")
{
    for (int k = 3; k <= 62; ++k)
        for (int d = -1; d <= 1; ++d)
            for (size_t m : {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 64, 65, 130})
                for (int pl = 0; pl < 5; ++pl) {
                    uint64_t n = (1ULL << k) + d;
                    if (m > n) continue;
                    R.run([&] { return mc::cat("n=2^", k, "+", d, " m=", m, " placement ", pl); }, [&] {
                        set<uint64_t> S;
                        for (size_t i = 0; S.size() < m && i < 4 * m + 4; ++i) {
                            uint64_t p = 0;
                            switch (pl) {
                                case 0: p = i; break;
                                case 1: p = n - 1 - i; break;
                                case 2: p = (uint64_t)((unsigned __int128)n * (i % m) / m); break;
                                case 3: p = (i < 62 ? (1ULL << i) - 1 : n - i); break;
                                case 4: p = i & 1 ? n - 1 - i / 2 : i / 2; break;
                            }
                            if (p < n) S.insert(p);
                        }
                        VV P(S.begin(), S.end());
                        ways<sd_vector<>>(R, P, n, n <= 300);
                        if (n < 5000) ways<SR>(R, P, n, n <= 300);
                    });
                }
}
MC_TASK(select0, "select_0_support_sd (word-based select for zeros) against brute force: sets of length 0..12 and packed/spread sets up to 20000")
{
    auto chk = [&](const gen::Bits& b) {
        sd_vector<> v(gen::mk(b));
        select_0_support_sd<sd_vector<>> s(&v);
        size_t k = 0;
        for (size_t i = 0; i < b.size(); ++i)
            if (!b[i]) R.eqi(s(++k), i, "select_0_support_sd", k);
        select_0_support_sd<sd_vector<>> c(s), d;
        sd_vector<> v2(v);
        c.set_vector(&v2);
        d = c;
        if (k) { size_t e = c(k); R.eqi(d(k), e, "copy"); R.eqi(s(k), e, "copy"); }
    };
    gen::all_bits(1, R.thorough ? 15 : 12, [&](const gen::Bits& b) { R.run([&] { return gen::show(b); }, [&] { chk(b); }); });
    gen::BVFamily f{0, {100, 129, 1000, 8200}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, 4, {64, 128, 500, 4096}};
    gen::family(f, [&](const gen::Bits& b) { R.run([&] { return gen::show(b); }, [&] { chk(b); }); });
}
MC_TASK(refusal, "capacity above the length and unsorted ranges are refused; every unsorted sequence of length 2..5 over 0..4")
{
    for (uint64_t n = 0; n < 20; ++n)
        for (uint64_t m = 0; m < 25; ++m)
            R.run([&] { return mc::cat("n=", n, " m=", m); }, [&] {
                bool t = false;
                try { sd_vector_builder b(n, m); } catch (const std::runtime_error&) { t = true; }
                R.eqi(t, m > n, "capacity refused");
            });
    gen::all_seqs(2, 5, gen::iota_alpha(0, 4), [&](const VV& v) {
        if (is_sorted(v.begin(), v.end())) return;
        R.run([&] { return gen::shows(v); }, [&] {
            bool t = false;
            try { sd_vector<> x(v.begin(), v.end()); } catch (const std::runtime_error&) { t = true; }
            R.ck(t, "unsorted range refused");
        });
    });
}
