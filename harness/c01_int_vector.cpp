// C01: every operation history up to the depth bound on int_vector<w> against std::vector<uint64_t> mod 2^w.
#include "gen.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/util.hpp>
#include <sdsl/bit_vectors.hpp>
using namespace sdsl;
using namespace std;

static uint64_t mask(unsigned w) { return w == 64 ? ~0ULL : ((1ULL << w) - 1); }

template<uint8_t W>
struct Sys {
    int_vector<W> v;
    vector<uint64_t> m; // model
    unsigned w;
};

static uint64_t pat(size_t i, unsigned w) { return (0x9e3779b97f4a7c15ULL * (i + 1) >> 3) & mask(w); }

template<uint8_t W>
static void fill_new(Sys<W>& s, size_t from)
{
    for (size_t i = from; i < s.m.size(); ++i) {
        s.m[i] = pat(i, s.w);
        s.v[i] = s.m[i];
    }
}

template<uint8_t W>
static Sys<W> make(unsigned w, size_t n)
{
    Sys<W> s;
    s.w = w;
    s.v = int_vector<W>(n, 0, w);
    s.m.assign(n, 0);
    fill_new(s, 0);
    return s;
}

template<uint8_t W>
static void observe(mc::Run& R, Sys<W>& s)
{
    const int_vector<W>& c = s.v;
    R.eqi(c.size(), s.m.size(), "size");
    R.eqi(c.width(), s.w, "width");
    R.eqi(c.bit_size(), s.m.size() * s.w, "bit_size");
    R.eqi(c.empty(), s.m.empty(), "empty");
    R.ck(c.capacity() >= c.bit_size() && c.capacity() % 64 == 0 && c.capacity() < c.bit_size() + 64, "capacity");
    for (size_t i = 0; i < s.m.size(); ++i) {
        R.eqi((uint64_t)c[i], s.m[i], "const operator[]", i);
        R.eqi((uint64_t)s.v[i], s.m[i], "operator[]", i);
    }
    size_t k = 0;
    for (auto x : c) { R.ck(k < s.m.size(), "const iteration too long"); R.eqi((uint64_t)x, s.m[k], "const_iterator", k); ++k; }
    R.eqi(k, s.m.size(), "const iteration length");
    k = 0;
    for (auto it = s.v.begin(); it != s.v.end(); ++it, ++k) R.eqi((uint64_t)*it, s.m[k], "iterator", k);
    R.eqi(k, s.m.size(), "iteration length");
    // a vector built afresh with the same content is equal
    int_vector<W> f(s.m.size(), 0, s.w);
    for (size_t i = 0; i < s.m.size(); ++i) f[i] = s.m[i];
    R.ck(f == c && c == f && !(f != c) && f <= c && f >= c && !(f < c) && !(f > c), "equality with a fresh vector of the same content");
    // arbitrary bit ranges
    if (W <= 1 || W == 64) {
        auto bit = [&](size_t b) { return (s.m[b / s.w] >> (b % s.w)) & 1; };
        size_t nb = s.m.size() * s.w;
        for (size_t b = 0; b < nb; b += (nb > 100 ? 7 : 3))
            for (unsigned len : {1u, 2u, 31u, 63u, 64u}) {
                if (b + len > nb) continue;
                uint64_t e = 0;
                if (W != 1) for (unsigned j = 0; j < len; ++j) e |= bit(b + j) << j;
                else for (unsigned j = 0; j < len; ++j) e |= s.m[b + j] << j;
                R.eqi(c.get_int(b, len), e, "get_int", b, len);
            }
    }
}

typedef pair<const char*, int> OpName;
enum { SET, INC, PINC, DEC, PDEC, ADD, SUB, SETINT, RESIZE, COPYC, COPYA, MOVEC, MOVEA, SWAP, ANDEQ, OREQ, XOREQ, ITWRITE, REFSWAP, REFASSIGN, SELFASSIGN, REVERSE, SORT, SETVAL, WIDTHUP, COMPRESS, REWIDTH, MODOP, SETID, ROUNDTRIP };
struct Op { int k; uint64_t a, b; };
static const char* opn[] = {"set", "++ref", "ref++", "--ref", "ref--", "ref+=", "ref-=", "set_int", "resize", "copy-construct", "copy-assign-over-nonempty", "move-construct", "move-assign-over-nonempty", "swap", "&=", "|=", "^=", "iterator-write", "swap(refs)", "ref=ref", "self-assign", "reverse", "sort", "set_to_value", "expand_width", "bit_compress", "width()", "mod", "set_to_id", "serialize-load"};
static string show(const Op& o) { return string(opn[o.k]) + "(" + to_string(o.a) + "," + to_string(o.b) + ")"; }

template<uint8_t W>
static vector<Op> alphabet(unsigned w, size_t n, bool full)
{
    vector<Op> r;
    vector<uint64_t> pos = {0};
    if (n > 1) pos.push_back(n - 1);
    if (n > 2) pos.push_back((63 / w) < n ? 63 / w : n / 2); // the element reaching into the second word
    vector<uint64_t> val = {0, ~0ULL, 1, 0xA5A5A5A5A5A5A5A5ULL};
    for (auto p : pos) for (auto x : val) r.push_back({SET, p, x});
    for (auto p : pos) {
        r.push_back({ADD, p, 3}); r.push_back({SUB, p, 5}); r.push_back({INC, p, 0}); r.push_back({DEC, p, 0}); r.push_back({PINC, p, 0}); r.push_back({PDEC, p, 0});
    }
    if (w * n >= 8) for (uint64_t b : vector<uint64_t>{(uint64_t)0, (uint64_t)5, (uint64_t)60}) for (uint64_t l : vector<uint64_t>{1, 8, 33, 64}) if (b + l <= w * n) r.push_back({SETINT, b, l});
    vector<uint64_t> sz = {0, 1, n + 1, n + 70, 64 / w, 64 / w + 1, 63, 64};
    if (n) sz.push_back(n - 1);
    for (auto z : sz) r.push_back({RESIZE, z, 0});
    for (int k : {COPYC, COPYA, MOVEC, MOVEA, SWAP, ANDEQ, OREQ, XOREQ, ITWRITE, REVERSE, SORT, SELFASSIGN, SETID, ROUNDTRIP}) r.push_back({k, 0, 0});
    if (n > 1) { r.push_back({REFSWAP, 0, n - 1}); r.push_back({REFASSIGN, n - 1, 0}); }
    for (uint64_t x : vector<uint64_t>{(uint64_t)0, (uint64_t)1, ~0ULL, (uint64_t)2}) r.push_back({SETVAL, x & mask(w), 0});
    r.push_back({MODOP, 3, 0});
    if (W == 0) {
        r.push_back({COMPRESS, 0, 0});
        for (uint64_t nw : vector<uint64_t>{1, 7, 33, 64}) { r.push_back({WIDTHUP, nw, 0}); r.push_back({REWIDTH, nw, 0}); }
    }
    return r;
}

template<uint8_t W>
struct BitCombine {
    static void doit(Sys<W>& s, int k)
    {
        Sys<W> o;
        o.w = s.w;
        o.v = int_vector<W>(s.m.size(), 0, s.w);
        o.m.assign(s.m.size(), 0);
        for (size_t i = 0; i < o.m.size(); ++i) { o.m[i] = pat(i * 5 + 2, s.w); o.v[i] = o.m[i]; }
        for (size_t i = 0; i < s.m.size(); ++i)
            s.m[i] = k == ANDEQ ? (s.m[i] & o.m[i]) : k == OREQ ? (s.m[i] | o.m[i]) : (s.m[i] ^ o.m[i]);
        if (k == ANDEQ) s.v &= o.v;
        else if (k == OREQ) s.v |= o.v;
        else s.v ^= o.v;
    }
};
template<uint8_t W, bool B = (W == 1)>
struct RefArith { // proxy references of bit_vector have no arithmetic
    static void doit(mc::Run& R, Sys<W>& s, const Op& o)
    {
        uint64_t M = mask(s.w), old = s.m[o.a];
        switch (o.k) {
            case INC: ++s.v[o.a]; s.m[o.a] = (old + 1) & M; break;
            case DEC: --s.v[o.a]; s.m[o.a] = (old - 1) & M; break;
            case PINC: R.eqi((uint64_t)(s.v[o.a]++), old, "value of ref++"); s.m[o.a] = (old + 1) & M; break;
            case PDEC: R.eqi((uint64_t)(s.v[o.a]--), old, "value of ref--"); s.m[o.a] = (old - 1) & M; break;
            case ADD: s.v[o.a] += o.b; s.m[o.a] = (old + o.b) & M; break;
            case SUB: s.v[o.a] -= o.b; s.m[o.a] = (old - o.b) & M; break;
        }
    }
};
template<uint8_t W>
struct RefArith<W, true> {
    static void doit(mc::Run&, Sys<W>&, const Op&) {}
};

template<uint8_t W>
static void apply(mc::Run& R, Sys<W>& s, const Op& o)
{
    uint64_t M = mask(s.w);
    size_t n = s.m.size();
    switch (o.k) {
        case SET: if (o.a < n) { s.v[o.a] = W == 1 ? (o.b & 1) : o.b; s.m[o.a] = o.b & M; } break;
        case INC: case DEC: case PINC: case PDEC: case ADD: case SUB:
            if (o.a < n) RefArith<W>::doit(R, s, o);
            break;
        case SETINT: {
            size_t nb = n * s.w;
            if (o.a + o.b > nb || (W > 1 && W < 64)) break;
            uint64_t x = 0xC3A5F00F12345677ULL;
            s.v.set_int(o.a, x, o.b);
            for (size_t j = 0; j < o.b; ++j) {
                size_t b = o.a + j;
                uint64_t& e = s.m[b / s.w];
                e = (e & ~(1ULL << (b % s.w))) | (((x >> j) & 1) << (b % s.w));
            }
            break;
        }
        case RESIZE: {
            s.v.resize(o.a);
            size_t keep = min<size_t>(n, o.a);
            s.m.resize(o.a);
            for (size_t i = 0; i < keep; ++i) R.eqi((uint64_t)s.v[i], s.m[i], "kept element after resize", i);
            fill_new(s, keep);
            break;
        }
        case COPYC: {
            int_vector<W> t(s.v);
            if (n) s.v[0] = (uint64_t)(s.m[0] ^ 1); // the copy must not see this
            s.v.swap(t);
            break;
        }
        case COPYA: {
            int_vector<W> t(7, 1, s.w);
            t = s.v;
            if (n) s.v[n - 1] = (uint64_t)(s.m[n - 1] ^ 1);
            s.v.swap(t);
            break;
        }
        case MOVEC: { int_vector<W> t(std::move(s.v)); s.v = int_vector<W>(3, 1, s.w); s.v.swap(t); break; }
        case MOVEA: { int_vector<W> t(70, 1, s.w); t = std::move(s.v); s.v = int_vector<W>(); s.v = std::move(t); break; }
        case SWAP: { int_vector<W> t(5, 1, s.w); t.swap(s.v); R.eqi(s.v.size(), 5, "size after swap"); for (size_t i = 0; i < 5; ++i) R.eqi((uint64_t)s.v[i], 1, "swapped-in value"); s.v.swap(t); s.v.swap(s.v); break; }
        case ANDEQ: case OREQ: case XOREQ: BitCombine<W>::doit(s, o.k); break;
        case ITWRITE: {
            size_t i = 0;
            for (auto it = s.v.begin(); it != s.v.end(); ++it, ++i) { *it = (s.m[i] ^ M) & M; s.m[i] ^= M; s.m[i] &= M; }
            break;
        }
        case REFSWAP: if (o.a < n && o.b < n) { auto&& x = s.v[o.a]; auto&& y = s.v[o.b]; using std::swap; swap(x, y); std::swap(s.m[o.a], s.m[o.b]); } break;
        case REFASSIGN: if (o.a < n && o.b < n) { s.v[o.a] = s.v[o.b]; s.m[o.a] = s.m[o.b]; } break;
        case SELFASSIGN: { auto& a = s.v; s.v = a; break; }
        case REVERSE: std::reverse(s.v.begin(), s.v.end()); std::reverse(s.m.begin(), s.m.end()); break;
        case SORT: std::sort(s.v.begin(), s.v.end()); std::sort(s.m.begin(), s.m.end()); break;
        case SETVAL: util::set_to_value(s.v, o.a); std::fill(s.m.begin(), s.m.end(), o.a & M); break;
        case SETID: util::set_to_id(s.v); for (size_t i = 0; i < n; ++i) s.m[i] = i & M; if (W == 1) for (size_t i = 0; i < n; ++i) s.m[i] = i != 0; break;
        case MODOP: util::mod(s.v, o.a); for (auto& x : s.m) x %= o.a; break;
        case WIDTHUP: util::expand_width(s.v, o.a); s.w = max<unsigned>(s.w, o.a); break;
        case COMPRESS: {
            util::bit_compress(s.v);
            uint64_t mx = 0;
            for (auto x : s.m) mx = max(mx, x);
            unsigned nw = 1;
            while (nw < 64 && (mx >> nw)) ++nw;
            s.w = min(s.w, nw);
            break;
        }
        case REWIDTH: {
            // reinterpretation of the same bits; only for whole numbers of elements
            size_t nb = n * s.w;
            if (W != 0 || nb % o.a) break;
            vector<uint64_t> nm(nb / o.a, 0);
            for (size_t b = 0; b < nb; ++b) nm[b / o.a] |= ((s.m[b / s.w] >> (b % s.w)) & 1) << (b % o.a);
            s.m = nm;
            s.w = o.a;
            s.v.width(o.a);
            break;
        }
        case ROUNDTRIP: {
            stringstream ss;
            s.v.serialize(ss);
            int_vector<W> t(3, 1, s.w);
            t.load(ss);
            s.v.swap(t);
            break;
        }
    }
}

template<uint8_t W>
static void histories(mc::Run& R, unsigned w, size_t n, size_t depth)
{
    auto A = alphabet<W>(w, n, true);
    vector<size_t> d(depth, 0);
    while (!R.stop()) {
        R.run([&] { string s = "int_vector<" + to_string(W) + "> width=" + to_string(w) + " n=" + to_string(n) + ":"; for (auto x : d) s += " " + show(A[x]); return s; },
        [&] {
            auto s = make<W>(w, n);
            for (auto x : d) {
                apply(R, s, A[x]);
                observe(R, s);
            }
        });
        size_t i = depth;
        while (i > 0 && ++d[i - 1] == A.size()) d[--i] = 0;
        if (i == 0) break;
    }
}

MC_TASK(hist_dyn, "int_vector<0>: all operation histories (length 2; 3 in thorough) over ~55 operations from start shapes width x size")
{
    for (unsigned w : {1u, 2u, 5u, 7u, 8u, 13u, 31u, 32u, 33u, 48u, 63u, 64u})
        for (size_t n : {(size_t)0, (size_t)1, (size_t)(64 / w), (size_t)(64 / w + 1), (size_t)(128 / w + 1)})
            histories<0>(R, w, n, 2);
    for (unsigned w : {7u, 33u, 64u})
        histories<0>(R, w, 64 / w + 1, 3);
    if (R.thorough) {
        for (unsigned w : {1u, 2u, 5u, 8u, 13u, 31u, 32u, 48u, 63u})
            for (size_t n : {(size_t)1, (size_t)(64 / w + 1), (size_t)(128 / w + 1)}) histories<0>(R, w, n, 3);
        histories<0>(R, 13, 5, 4);
        histories<0>(R, 64, 2, 4);
    }
}
MC_TASK(hist_bit, "bit_vector histories")
{
    for (size_t n : {0, 1, 3, 63, 64, 65, 127, 128, 129}) histories<1>(R, 1, n, R.thorough || n == 64 || n == 3 ? 3 : 2);
}
MC_TASK(hist_fixed, "int_vector<8,16,32,64> and odd static width histories")
{
    for (size_t n : {0, 1, 7, 8, 9, 17}) histories<8>(R, 8, n, 2);
    for (size_t n : {0, 1, 4, 5}) histories<16>(R, 16, n, 2);
    for (size_t n : {0, 1, 2, 3}) histories<32>(R, 32, n, 2);
    for (size_t n : {0, 1, 2}) histories<64>(R, 64, n, 2);
    for (size_t n : {0, 1, 3, 9, 22}) histories<7>(R, 7, n, 2);
}

template<uint8_t W>
static void iters(mc::Run& R, unsigned w, size_t n)
{
    R.run([&] { return mc::cat("iterator arithmetic W=", (unsigned)W, " w=", w, " n=", n); }, [&] {
        auto s = make<W>(w, n);
        const int_vector<W>& c = s.v;
        auto b = s.v.begin();
        auto cb = c.begin();
        auto e = s.v.end();
        R.eqi(e - b, n, "end-begin");
        R.eqi(c.end() - cb, n, "cend-cbegin");
        for (size_t i = 0; i <= n; ++i) {
            auto it = b + i;
            auto ct = cb + i;
            if (i < n) {
                R.eqi((uint64_t)*it, s.m[i], "*(b+i)", i);
                R.eqi((uint64_t)*ct, s.m[i], "*(cb+i)", i);
                R.eqi((uint64_t)b[i], s.m[i], "b[i]", i);
                R.eqi((uint64_t)cb[i], s.m[i], "cb[i]", i);
            }
            for (size_t j = 0; j <= n; ++j) {
                auto jt = b + j;
                auto cj = cb + j;
                long dd = (long)j - (long)i;
                R.eqi((uint64_t)(long)(jt - it), (uint64_t)dd, "it-it", j, i);
                R.eqi((uint64_t)(long)(cj - ct), (uint64_t)dd, "cit-cit", j, i);
                R.ck((it < jt) == (i < j) && (it > jt) == (i > j) && (it <= jt) == (i <= j) && (it >= jt) == (i >= j) && (it == jt) == (i == j) && (it != jt) == (i != j), [&] { return mc::cat("iterator order ", i, " ", j); });
                R.ck((ct < cj) == (i < j) && (ct > cj) == (i > j) && (ct <= cj) == (i <= j) && (ct >= cj) == (i >= j) && (ct == cj) == (i == j) && (ct != cj) == (i != j), [&] { return mc::cat("const_iterator order ", i, " ", j); });
                R.ck(it + dd == jt && jt - dd == it && ct + dd == cj && cj - dd == ct, [&] { return mc::cat("iterator jump ", i, " ", dd); });
                auto x = it; x += dd; R.ck(x == jt, "+=");
                x -= dd; R.ck(x == it, "-=");
                auto y = ct; y += dd; R.ck(y == cj, "c+=");
                y -= dd; R.ck(y == ct, "c-=");
            }
            if (i < n) {
                auto x = it; R.ck(x++ == it && x == b + (i + 1), "post++");
                R.ck(x-- == b + (i + 1) && x == it, "post--");
                auto y = ct; R.ck(y++ == ct && y == cb + (i + 1), "c post++");
                R.ck(y-- == cb + (i + 1) && y == ct, "c post--");
                ++x; --x; R.ck(x == it, "++--");
                ++y; --y; R.ck(y == ct, "c++--");
            }
        }
        // random access algorithms through the iterators
        auto m2 = s.m;
        std::rotate(m2.begin(), m2.begin() + n / 3, m2.end());
        std::rotate(s.v.begin(), s.v.begin() + n / 3, s.v.end());
        s.m = m2;
        observe(R, s);
        std::sort(s.v.begin(), s.v.end(), [](uint64_t a, uint64_t b) { return a > b; });
        std::sort(s.m.begin(), s.m.end(), [](uint64_t a, uint64_t b) { return a > b; });
        observe(R, s);
    });
}
MC_TASK(iterators, "all pairs of iterator positions, every width 1..64, sizes crossing 0..4 word boundaries")
{
    for (unsigned w = 1; w <= 64; ++w)
        for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)(64 / w + 1), (size_t)(200 / w + 1)}) if (n < 90) iters<0>(R, w, n);
    for (size_t n : {0, 1, 63, 64, 65, 100}) iters<1>(R, 1, n);
    for (size_t n : {0, 1, 9, 20}) { iters<8>(R, 8, n); iters<16>(R, 16, n); iters<32>(R, 32, n); iters<64>(R, 64, n); iters<7>(R, 7, n); }
}

// writes of one element leave all others alone: every width x every position x value set
MC_TASK(writes, "every width 1..64, every element of a 3-word vector, 5 values, over zero/one background; default-value constructor")
{
    for (unsigned w = 1; w <= 64; ++w)
        for (int bgv = 0; bgv < 3; ++bgv)
            R.run([&] { return mc::cat("element writes w=", w, " background=", bgv); }, [&] {
                size_t n = 192 / w + 2;
                uint64_t base = bgv == 0 ? 0 : bgv == 1 ? mask(w) : (0x5555555555555555ULL & mask(w));
                int_vector<> v(n, base, w);
                R.eqi(v.size(), n, "size");
                R.eqi(v.width(), w, "width");
                for (size_t i = 0; i < n; ++i) R.eqi(v[i], base, "default value", i);
                for (size_t i = 0; i < n; ++i)
                    for (uint64_t x : vector<uint64_t>{(uint64_t)0, ~0ULL, (uint64_t)1, (uint64_t)1 << (w - 1), (uint64_t)0xDEADBEEFCAFEF00DULL}) {
                        v[i] = x;
                        for (size_t j = (i > 3 ? i - 3 : 0); j < n && j < i + 4; ++j) R.eqi((uint64_t)v[j], j == i ? x & mask(w) : base, "neighbour", i, j);
                        v[i] = base;
                    }
                for (size_t i = 0; i < n; ++i) R.eqi(v[i], base, "restored", i);
            });
}
template<uint8_t W>
static void cmp_pairs(mc::Run& R, unsigned w, vector<uint64_t> syms, size_t maxn)
{
    vector<vector<uint64_t>> all;
    gen::all_seqs(0, maxn, syms, [&](const vector<uint64_t>& v) { all.push_back(v); });
    for (auto& a : all)
        R.run([&] { return "compare with all: W=" + to_string(W) + " w=" + to_string(w) + " a=" + gen::shows(a); }, [&] {
            for (auto& b : all)
                for (int dirty = 0; dirty < 2; ++dirty) {
                    int_vector<W> x(a.size(), 0, w), y(b.size(), 0, w);
                    if (dirty) { util::_set_one_bits(x); } // bits behind the end must not matter
                    for (size_t i = 0; i < a.size(); ++i) x[i] = a[i];
                    for (size_t i = 0; i < b.size(); ++i) y[i] = b[i];
                    R.eqi(x == y, a == b, "==");
                    R.eqi(x != y, a != b, "!=");
                    R.eqi(x < y, a < b, "<");
                    R.eqi(x > y, a > b, ">");
                    R.eqi(x <= y, a <= b, "<=");
                    R.eqi(x >= y, a >= b, ">=");
                }
        });
}
MC_TASK(compare, "all pairs of sequences over 2-3 symbols up to length 4-6, all six comparison operators, several widths")
{
    cmp_pairs<0>(R, 5, {0, 1, 31}, 3);
    cmp_pairs<0>(R, 64, {0, 1, ~0ULL}, 3);
    cmp_pairs<0>(R, 33, {0, 1, 0x1FFFFFFFFULL}, 4);
    cmp_pairs<1>(R, 1, {0, 1}, 6);
    cmp_pairs<8>(R, 8, {0, 128, 255}, 3);
    cmp_pairs<64>(R, 64, {0, 1ULL << 63, 7}, 3);
    cmp_pairs<32>(R, 32, {0, 1ULL << 31, 7}, 3);
    cmp_pairs<16>(R, 16, {0, 1ULL << 15, 7}, 3);
    // vectors of different width are not equal (documented), even with the same bits
    for (unsigned w1 = 1; w1 <= 64; ++w1)
        for (unsigned w2 = 1; w2 <= 64; ++w2)
            R.run([&] { return mc::cat("equality of widths ", w1, " ", w2); }, [&] {
                int_vector<> a(w2, 1, w1), b(w1, 1, w2);
                for (size_t i = 0; i < a.size(); ++i) a[i] = 0;
                for (size_t i = 0; i < b.size(); ++i) b[i] = 0;
                R.eqi(a == b, w1 == w2, "== across widths");
                R.eqi(a != b, w1 != w2, "!= across widths");
            });
}
MC_TASK(setval, "util::set_to_value for every width and boundary value; bit_compress / expand_width for every width pair; initializer lists; flip; stream output")
{
    for (unsigned w = 1; w <= 64; ++w)
        for (uint64_t k : vector<uint64_t>{(uint64_t)0, (uint64_t)1, (uint64_t)2, mask(w), mask(w) >> 1, (uint64_t)0xDEADBEEFCAFEF00DULL & mask(w), (uint64_t)1 << (w - 1)})
            R.run([&] { return mc::cat("set_to_value w=", w, " k=", k); }, [&] {
                for (size_t n : {(size_t)0, (size_t)1, (size_t)(64 / w), (size_t)70, (size_t)131}) {
                    Sys<0> s; s.w = w; s.v = int_vector<>(n, 0, w); s.m.assign(n, k & mask(w));
                    util::set_to_value(s.v, k);
                    observe(R, s);
                    Sys<0> t; t.w = w; t.v = int_vector<>(n, k & mask(w), w); t.m = s.m;
                    observe(R, t);
                }
            });
    for (unsigned w = 1; w <= 64; ++w)
        for (unsigned x = 1; x <= w; ++x)
            R.run([&] { return mc::cat("bit_compress from ", w, " with max value of ", x, " bits and back"); }, [&] {
                for (size_t n : {(size_t)1, (size_t)2, (size_t)(64 / w + 1), (size_t)67}) {
                    auto s = make<0>(w, n);
                    for (size_t i = 0; i < n; ++i) { s.m[i] &= mask(x); if (i == n / 2) s.m[i] |= 1ULL << (x - 1); s.v[i] = s.m[i]; }
                    util::bit_compress(s.v);
                    s.w = x;
                    observe(R, s);
                    util::expand_width(s.v, w);
                    s.w = w;
                    observe(R, s);
                }
            });
    for (size_t n = 0; n <= 130; ++n)
        R.run([&] { return mc::cat("bit_vector flip/output n=", n); }, [&] {
            auto s = make<1>(1, n);
            s.v.flip();
            for (auto& x : s.m) x ^= 1;
            observe(R, s);
            ostringstream o;
            o << s.v;
            string e;
            for (auto x : s.m) e += char('0' + x);
            R.eq(o.str(), e, "operator<<");
            auto t = make<0>(9, n);
            ostringstream o2, e2;
            o2 << t.v;
            for (size_t i = 0; i < n; ++i) e2 << t.m[i];
            string a = o2.str(), b = e2.str();
            a.erase(remove(a.begin(), a.end(), ' '), a.end());
            R.eq(a, b, "operator<< int");
        });
    R.run([&] { return string("initializer lists"); }, [&] {
        int_vector<> v = {(uint64_t)5, (uint64_t)0, (uint64_t)1 << 40, (uint64_t)7};
        vector<uint64_t> e = {5, 0, (uint64_t)1 << 40, 7};
        R.eqi(v.size(), 4, "size");
        for (size_t i = 0; i < 4; ++i) R.eqi((uint64_t)v[i], e[i], "il", i);
        int_vector<> z(std::initializer_list<int>{});
        R.eqi(z.size(), 0, "empty list");
        bit_vector b = {1, 0, 1};
        R.eqi(b.size(), 3, "size");
        R.ck(b[0] && !b[1] && b[2], "bits");
        int_vector<8> c = {255, 1};
        R.ck(c.size() == 2 && c[0] == 255 && c[1] == 1, "int_vector<8>");
    });
}
// growing by single steps: the buffer (and the padding word behind the last element) is always large enough
MC_TASK(grow, "every pair of sizes (bit_vector 0..200 x 0..200): construct, resize, read at both ends and through a rank support at size()")
{
    for (size_t a = 0; a <= 200; ++a)
        R.run([&] { return mc::cat("resize from ", a, " to every size 0..200"); }, [&] {
            for (size_t b = 0; b <= 200; ++b) {
                Sys<1> s = make<1>(1, a);
                size_t keep = min(a, b);
                s.v.resize(b);
                s.m.resize(b);
                for (size_t i = 0; i < keep; ++i) R.eqi((uint64_t)s.v[i], s.m[i], "kept", a, b, i);
                fill_new(s, keep);
                size_t ones = 0;
                for (auto x : s.m) ones += x;
                R.eqi(util::cnt_one_bits(s.v), ones, "cnt_one_bits");
                rank_support_v<> rs(&s.v);
                R.eqi(rs(b), ones, "rank(size) after resize", a, b);
                rank_support_v5<> r5(&s.v);
                R.eqi(r5(b), ones, "rank5(size) after resize", a, b);
                if (b) { rank_support_scan<> rc(&s.v); R.eqi(rc(b), ones, "rank_scan(size) after resize", a, b); }
            }
        });
}
