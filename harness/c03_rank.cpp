// C03: rank supports on plain bit vectors, every position, every pattern.
#include "bvgen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/rank_support.hpp>
using namespace sdsl;
using namespace std;
using gen::Bits;

static vector<uint32_t> prefix(const Bits& b, unsigned p1, unsigned p0, unsigned len)
{
    // occurrences of the pattern (p1 before p0 when len==2) whose last bit lies before i
    vector<uint32_t> r(b.size() + 1, 0);
    for (size_t j = 0; j < b.size(); ++j) {
        bool m = len == 1 ? b[j] == p0 : (j >= 1 && b[j - 1] == p1 && b[j] == p0);
        r[j + 1] = r[j] + m;
    }
    return r;
}

template<class RS>
static void all_positions(mc::Run& R, const RS& rs, const vector<uint32_t>& e, const char* name, size_t step = 1)
{
    uint64_t hh = 0;
    for (size_t i = 0; i < e.size(); i += step) {
        uint64_t a = rs(i);
        hh = hh * 31 + a;
        if (a != e[i]) R.eqi(a, e[i], name, i);
    }
    R.transitions += (e.size() + step - 1) / step;
    R.eqi(rs.rank(e.size() - 1), e.back(), name, e.size() - 1);
    R.h = mc::mix(R.h, hh);
}

template<class RS>
static void one(mc::Run& R, const Bits& b, const bit_vector& v, unsigned p1, unsigned p0, unsigned len, const char* name, bool lifecycle)
{
    auto e = prefix(b, p1, p0, len);
    RS rs(&v);
    all_positions(R, rs, e, name);
    R.eqi(rs.size(), b.size(), "rank_support::size");
    if (!lifecycle) return;
    {
        bit_vector v2 = v;
        RS c(rs);
        c.set_vector(&v2);
        all_positions(R, c, e, name, 3);
        RS d;
        d = rs;
        d.set_vector(&v2);
        all_positions(R, d, e, name, 5);
        stringstream ss;
        ss << "xx";
        size_t w = rs.serialize(ss);
        R.eqi(ss.str().size() - 2, w, "serialize size");
        ss << "tail";
        ss.seekg(2);
        RS l;
        l.load(ss, &v2);
        string t;
        ss >> t;
        R.eq(t, string("tail"), "bytes after the structure");
        all_positions(R, l, e, name, 1);
        // swap with the support of another vector
        bit_vector o(77, 1);
        RS os(&o);
        util::swap_support(l, os, &o, &v2);
        Bits ob(77, 1);
        all_positions(R, l, prefix(ob, p1, p0, len), name);
        all_positions(R, os, e, name, 1);
        RS m(std::move(os));
        m.set_vector(&v2);
        all_positions(R, m, e, name, 1);
        RS in;
        util::init_support(in, &v2);
        all_positions(R, in, e, name, 7);
    }
}

template<template<uint8_t, uint8_t> class RS>
static void pats(mc::Run& R, const Bits& b, const bit_vector& v, const char* n1, bool lc)
{
    string n = n1;
    one<RS<1, 1>>(R, b, v, 0, 1, 1, (n + "<1>").c_str(), lc);
    one<RS<0, 1>>(R, b, v, 0, 0, 1, (n + "<0>").c_str(), lc);
    one<RS<10, 2>>(R, b, v, 1, 0, 2, (n + "<10,2>").c_str(), lc);
    one<RS<01, 2>>(R, b, v, 0, 1, 2, (n + "<01,2>").c_str(), lc);
    one<RS<00, 2>>(R, b, v, 0, 0, 2, (n + "<00,2>").c_str(), lc);
    one<RS<11, 2>>(R, b, v, 1, 1, 2, (n + "<11,2>").c_str(), lc);
}

static void all(mc::Run& R, const Bits& b, bool lc, bool scan = true)
{
    R.run([&] { return gen::show(b); }, [&] {
        for (int dirty = 0; dirty < 2; ++dirty) {
            bit_vector v(b.size(), dirty); // dirty: ones behind the end of the vector
            for (size_t i = 0; i < b.size(); ++i) v[i] = b[i];
            pats<rank_support_v>(R, b, v, "rank_support_v", lc);
            pats<rank_support_v5>(R, b, v, "rank_support_v5", lc);
            if (scan) pats<rank_support_scan>(R, b, v, "rank_support_scan", lc);
        }
    });
}

MC_TASK(small, "every bit vector of length 0..12 (16 thorough), all supports, patterns and positions, with copy/move/swap/load life cycle up to length 8")
{
    gen::all_bits(0, R.thorough ? 16 : 12, [&](const Bits& b) { all(R, b, b.size() <= 8); });
}
MC_TASK(window, "background x 6-bit window patterns straddling word, block (384), superblock (512/2048) boundaries, lengths around them")
{
    gen::BVFamily f{0, {63, 64, 65, 127, 128, 129, 383, 384, 385, 448, 511, 512, 513, 576, 1023, 1024, 1025}, {0, 1, 2, 5, 6, 10}, 6, {64, 384, 512, 1024}};
    gen::family(f, [&](const Bits& b) { all(R, b, false); });
    gen::BVFamily g{0, {1919, 1920, 1921, 2047, 2048, 2049, 2112, 2113, 4095, 4096, 4097, 4480}, {0, 1, 10}, 4, {1920, 2048, 4096}};
    gen::family(g, [&](const Bits& b) { all(R, b, false, b.size() < 2100); });
}
MC_TASK(lengths, "every length 0..2600 (and around 4096/8192) for backgrounds ones, zeros, lfsr: life cycle and all positions")
{
    for (size_t n = 0; n <= 8200; n += (n < 700 ? 1 : n < 2600 ? 7 : n < 4090 ? 97 : n < 4100 ? 1 : n < 8188 ? 511 : 1))
        for (int k : {0, 1, 10, 11}) {
            Bits b(n);
            for (size_t i = 0; i < n; ++i) b[i] = gen::bg(k, i, n);
            all(R, b, n < 600 || n % 5 == 0, n < 300);
        }
}
MC_TASK(null, "supports without a vector can be copied, assigned, swapped, destroyed")
{
    R.run([&] { return string("null supports"); }, [&] {
        rank_support_v<> a, b(a), c;
        c = a; c.swap(b);
        rank_support_v5<> d, e(d), f;
        f = d; f.swap(e);
        bit_vector empty;
        rank_support_v<> g(&empty);
        rank_support_v5<0, 1> h(&empty);
        rank_support_scan<> s(&empty);
        R.eqi(g(0), 0, "rank(0) on empty");
        R.eqi(h(0), 0, "rank(0) on empty");
        R.eqi(s(0), 0, "rank(0) on empty");
        bit_vector moved(std::move(empty));
        rank_support_v<1, 1> m(&moved);
        R.eqi(m(0), 0, "rank(0) on empty");
    });
}
