// C04: select supports on plain bit vectors, every argument, every pattern.
#include "bvgen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/select_support.hpp>
using namespace sdsl;
using namespace std;
using gen::Bits;

static vector<uint32_t> occ(const Bits& b, unsigned p1, unsigned p0, unsigned len)
{
    vector<uint32_t> r;
    for (size_t j = 0; j < b.size(); ++j)
        if (len == 1 ? b[j] == p0 : (j >= 1 && b[j - 1] == p1 && b[j] == p0)) r.push_back(j);
    return r;
}
template<class SS>
static void args(mc::Run& R, const SS& ss, const vector<uint32_t>& e, const char* name, size_t step = 1)
{
    uint64_t hh = 0;
    for (size_t i = 0; i < e.size(); i += step) {
        uint64_t a = ss(i + 1);
        hh = hh * 31 + a;
        if (a != e[i]) R.eqi(a, e[i], name, i + 1);
    }
    R.transitions += (e.size() + step - 1) / step;
    R.h = mc::mix(R.h, hh);
    if (e.size()) R.eqi(ss.select(e.size()), e.back(), name, e.size());
}
template<class SS>
static void one(mc::Run& R, const Bits& b, const bit_vector& v, unsigned p1, unsigned p0, unsigned len, const char* name, bool lc, size_t step)
{
    auto e = occ(b, p1, p0, len);
    SS s(&v);
    args(R, s, e, name, step);
    if (!lc) return;
    bit_vector v2 = v;
    SS c(s);
    c.set_vector(&v2);
    args(R, c, e, name, step);
    SS d(&v2);
    d = s;
    d.set_vector(&v2);
    args(R, d, e, name, step);
    stringstream st;
    st << "xx";
    size_t w = s.serialize(st);
    R.eqi(st.str().size() - 2, w, "serialize size");
    st << "tail";
    st.seekg(2);
    SS l;
    l.load(st, &v2);
    string t;
    st >> t;
    R.eq(t, string("tail"), "bytes after the structure");
    args(R, l, e, name, step);
    {   // load over a non-empty support
        bit_vector o(77, 1);
        SS os(&o);
        st.clear();
        st.seekg(2);
        os.load(st, &v2);
        args(R, os, e, name, step);
    }
    bit_vector o(77, 1);
    SS os(&o);
    util::swap_support(l, os, &o, &v2);
    args(R, l, occ(Bits(77, 1), p1, p0, len), name);
    args(R, os, e, name, step);
    SS m(std::move(os));
    m.set_vector(&v2);
    args(R, m, e, name, step);
    SS m2(&o);
    m2 = std::move(m);
    m2.set_vector(&v2);
    args(R, m2, e, name, step);
}
template<template<uint8_t, uint8_t> class SS>
static void pats4(mc::Run& R, const Bits& b, const bit_vector& v, const char* n1, bool lc, size_t step = 1)
{
    string n = n1;
    one<SS<1, 1>>(R, b, v, 0, 1, 1, (n + "<1>").c_str(), lc, step);
    one<SS<0, 1>>(R, b, v, 0, 0, 1, (n + "<0>").c_str(), lc, step);
    one<SS<10, 2>>(R, b, v, 1, 0, 2, (n + "<10,2>").c_str(), lc, step);
    one<SS<01, 2>>(R, b, v, 0, 1, 2, (n + "<01,2>").c_str(), lc, step);
}
template<template<uint8_t, uint8_t> class SS>
static void pats(mc::Run& R, const Bits& b, const bit_vector& v, const char* n1, bool lc, size_t step = 1, bool two = true)
{
    string n = n1;
    pats4<SS>(R, b, v, n1, lc, step);
    one<SS<00, 2>>(R, b, v, 0, 0, 2, (n + "<00,2>").c_str(), lc, step);
    one<SS<11, 2>>(R, b, v, 1, 1, 2, (n + "<11,2>").c_str(), lc, step);
}
static void all(mc::Run& R, const Bits& b, bool lc, bool scan)
{
    R.run([&] { return gen::show(b); }, [&] {
        for (int dirty = 0; dirty < 2; ++dirty) {
            bit_vector v(b.size(), dirty);
            for (size_t i = 0; i < b.size(); ++i) v[i] = b[i];
            pats<select_support_mcl>(R, b, v, "select_support_mcl", lc);
            if (scan) pats4<select_support_scan>(R, b, v, "select_support_scan", lc);
        }
    });
}
MC_TASK(small, "every bit vector of length 0..12 (16 thorough), all supports, patterns, arguments; life cycle up to length 7")
{
    gen::all_bits(0, R.thorough ? 16 : 12, [&](const Bits& b) { all(R, b, b.size() <= 7, true); });
}
MC_TASK(window, "background x 6-bit window patterns straddling word boundaries and the 64th/4096th argument")
{
    gen::BVFamily f{0, {63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 513}, {0, 1, 2, 4, 5, 6, 10}, 6, {64, 128, 192}};
    gen::family(f, [&](const Bits& b) { all(R, b, false, true); });
    gen::BVFamily g{0, {4095, 4096, 4097, 4160, 8191, 8192, 8193, 8256}, {0, 1, 2}, 4, {64, 4032, 4096, 8192}};
    gen::family(g, [&](const Bits& b) { all(R, b, false, false); });
}
// number of arguments around multiples of 64 and 4096, spacing that makes short and long superblocks,
// sizes below and above 100000 (two construction algorithms)
static void gaptask(mc::Run& R, const vector<size_t>& ar, const vector<size_t>& gp, const vector<size_t>& ld, const vector<size_t>& tl, size_t maxn, bool lc)
{
    gen::gaps(ar, gp, ld, tl, maxn, [&](const gen::Gap& g) {
        R.run([&] { return gen::show_gap(g); }, [&] {
            auto b = gen::mk_gap(g);
            for (int dirty = 0; dirty < 2; ++dirty) {
                bit_vector v(b.size(), dirty);
                for (size_t i = 0; i < b.size(); ++i) v[i] = b[i];
                size_t step = b.size() > 30000 ? 7 : 1;
                pats<select_support_mcl>(R, b, v, "select_support_mcl", lc && !dirty, step, true);
            }
        });
    });
}
MC_TASK(gap_short, "argument counts around 64k and 4096k x spacing x lead x tail, size < 100000")
{
    gaptask(R, {1, 63, 64, 65, 127, 128, 129, 4031, 4032, 4033, 4095, 4096, 4097, 4160, 8192, 8193}, {1, 2, 3, 23, 24}, {0, 1, 63, 64}, {0, 1, 40, 64}, 99990, true);
    gaptask(R, {2, 3, 64, 65}, {900, 1500, 40000}, {0, 5}, {0, 3}, 99990, true);
}
MC_TASK(gap_long, "the same for sizes of 100000 and more: short and long superblocks, mixed")
{
    gaptask(R, {4095, 4096, 4097, 4160, 8192, 8193}, {1, 2, 21, 26}, {0, 17}, {100000, 100063, 130001}, 330000, false);
    gaptask(R, {4095, 4096, 4097, 8191, 8192, 8193, 8256}, {26, 30, 33}, {0, 1}, {0, 1, 63}, 330000, true);
    if (R.thorough) gaptask(R, {4032, 4033, 4095, 4096, 4097, 8192, 12288, 12289}, {1, 20, 21, 22, 25, 26, 27, 40}, {0, 1, 64, 100000}, {0, 1, 2, 62, 63, 64, 65, 70000}, 700000, true);
}
MC_TASK(null, "supports without a vector or over an empty vector can be copied, assigned, swapped, loaded, destroyed")
{
    R.run([&] { return string("null supports"); }, [&] {
        select_support_mcl<> a, b(a), c;
        c = a; c.swap(b);
        bit_vector empty, one(5, 1);
        select_support_mcl<> g(&empty), h(&one);
        h = g;
        stringstream ss;
        h.serialize(ss);
        select_support_mcl<> l(&one);
        l.load(ss, &empty);
        select_support_scan<> s(&one), t(s);
        t = s; t.swap(s);
        R.eqi(t(5), 4, "select_scan");
    });
}
