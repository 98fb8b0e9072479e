// C15: wavelet tree range queries and node navigation against the plain sequence.
#include "wtgen.hpp"
#include <sdsl/wt_algorithm.hpp>
#include <memory>
using namespace std;
typedef array<uint64_t, 2> Rg;

template<class V> static uint64_t capq() { return V::alphabet_category::WIDTH == 8 ? 255 : ~0ULL; }

template<class V>
struct Ref {
    const VV& v;
    size_t cnt(size_t i, size_t j, uint64_t lo, uint64_t hi) const // symbols in [lo,hi] at [i,j)
    {
        size_t k = 0;
        for (; i < j; ++i) k += v[i] >= lo && v[i] <= hi;
        return k;
    }
};

template<class V> static typename enable_if<V::lex_ordered>::type lex(mc::Run& R, const V& wt, const VV& v, const vector<size_t>& pos, const vector<uint64_t>& cs)
{
    Ref<V> ref{v};
    for (size_t i : pos) {
        for (uint64_t c : cs) {
            auto r = wt.lex_smaller_count(i, c);
            R.eqi(get<0>(r), ref.cnt(0, i, c, c), "lex_smaller_count rank", i, c);
            R.eqi(get<1>(r), c ? ref.cnt(0, i, 0, c - 1) : 0, "lex_smaller_count smaller", i, c);
        }
        for (size_t j : pos) {
            if (j < i) continue;
            for (uint64_t c : cs) {
                auto r = wt.lex_count(i, j, c);
                R.eqi(get<0>(r), ref.cnt(0, i, c, c), "lex_count rank", i, j, c);
                R.eqi(get<1>(r), c ? ref.cnt(i, j, 0, c - 1) : 0, "lex_count smaller", i, j, c);
                R.eqi(get<2>(r), c < ~0ULL ? ref.cnt(i, j, c + 1, ~0ULL) : 0, "lex_count greater", i, j, c);
            }
            if (j > i) {
                VV s(v.begin() + i, v.begin() + j);
                sort(s.begin(), s.end());
                for (size_t q = 0; q < s.size(); q += s.size() > 40 ? 7 : 1) {
                    auto r = quantile_freq(wt, i, j - 1, q);
                    R.eqi(r.first, s[q], "quantile_freq symbol", i, j - 1, q);
                    R.eqi(r.second, ref.cnt(i, j, s[q], s[q]), "quantile_freq freq", i, j - 1, q);
                }
                for (size_t a = 0; a < cs.size(); ++a)
                    for (size_t b = a; b < cs.size(); ++b) {
                        set<uint64_t> e;
                        for (size_t k = i; k < j; ++k) if (v[k] >= cs[a] && v[k] <= cs[b]) e.insert(v[k]);
                        auto r = restricted_unique_range_values(wt, i, j - 1, cs[a], cs[b]);
                        VV rr(r.begin(), r.end()), ee(e.begin(), e.end());
                        R.transitions++;
                        if (rr != ee) R.eq(rr, ee, [&] { return mc::cat("restricted_unique_range_values(", i, ",", j - 1, ",", cs[a], ",", cs[b], ")"); });
                    }
            }
        }
    }
    set<uint64_t> sy(v.begin(), v.end());
    if (!v.empty())
        for (uint64_t c : cs) {
            auto g = symbol_gte(wt, c);
            auto it = sy.lower_bound(c);
            R.eqi(g.first, it != sy.end(), "symbol_gte found", c);
            if (it != sy.end()) R.eqi(g.second, *it, "symbol_gte", c);
            auto l = symbol_lte(wt, c);
            auto jt = sy.upper_bound(c);
            R.eqi(l.first, jt != sy.begin(), "symbol_lte found", c);
            if (jt != sy.begin()) R.eqi(l.second, *prev(jt), "symbol_lte", c);
        }
}
template<class V> static typename enable_if<!V::lex_ordered>::type lex(mc::Run&, const V&, const VV&, const vector<size_t>&, const vector<uint64_t>&) {}

template<class V> static typename enable_if<has_range_search_2d<V>::value>::type r2d(mc::Run& R, const V& wt, const VV& v, const vector<size_t>& pos, const vector<uint64_t>& cs)
{
    for (size_t i : pos)
        for (size_t j : pos) {
            if (j < i || j >= v.size()) continue;
            for (uint64_t a : cs)
                for (uint64_t b : cs) {
                    vector<pair<uint64_t, uint64_t>> e;
                    if (a <= b) for (size_t k = i; k <= j; ++k) if (v[k] >= a && v[k] <= b) e.emplace_back(k, v[k]);
                    auto r = wt.range_search_2d(i, j, a, b);
                    vector<pair<uint64_t, uint64_t>> g(r.second.begin(), r.second.end());
                    sort(g.begin(), g.end());
                    R.transitions += 2;
                    if (r.first != e.size()) R.fail([&] { return mc::cat("range_search_2d(", i, ",", j, ",", a, ",", b, ") count: expected ", e.size(), " got ", r.first); });
                    if (g != e) R.eq(g, e, [&] { return mc::cat("range_search_2d(", i, ",", j, ",", a, ",", b, ") points"); });
                    auto c = wt.range_search_2d(i, j, a, b, false);
                    if (c.first != e.size() || !c.second.empty()) R.fail([&] { return mc::cat("range_search_2d(", i, ",", j, ",", a, ",", b, ",false): ", c.first, " vs ", e.size()); });
                }
        }
}
template<class V> static typename enable_if<!has_range_search_2d<V>::value>::type r2d(mc::Run&, const V&, const VV&, const vector<size_t>&, const vector<uint64_t>&) {}

// node navigation: the sequence of every node is split by its bit vector
template<class V>
static void nodes(mc::Run& R, const V& wt, const typename V::node_type& nd, const vector<size_t>& own, const VV& v, uint64_t depth, uint64_t path, map<uint64_t, size_t>& leaves)
{
    R.eqi(wt.size(nd), own.size(), "node size", depth, path);
    R.eqi(wt.empty(nd), own.empty(), "node empty", depth, path);
    if (wt.is_leaf(nd)) {
        for (size_t x : own) R.eqi(wt.sym(nd), v[x], "leaf symbol", depth, path);
        if (!own.empty()) {
            R.eqi(leaves.count(v[own[0]]), 0, "leaf of a symbol is unique", v[own[0]]);
            leaves[v[own[0]]] = depth;
            auto p = wt.path(v[own[0]]);
            R.eqi(p.first, depth, "path length", v[own[0]]);
            R.eqi(p.second, path, "path", v[own[0]]);
        }
        return;
    }
    auto bv = wt.bit_vec(nd);
    auto sq = wt.seq(typename V::node_type(nd));
    R.eqi(bv.size(), own.size(), "node bit vector size", depth, path);
    R.eqi(sq.size(), own.size(), "node sequence size", depth, path);
    vector<size_t> ch[2];
    vector<uint8_t> bits;
    for (size_t i = 0; i < own.size(); ++i) {
        bool b = bv[i];
        R.eqi(sq[i], v[own[i]], "node sequence", depth, path, i);
        ch[b].push_back(own[i]);
        bits.push_back(b);
    }
    size_t bi = 0;
    for (auto it = bv.begin(); it != bv.end(); ++it, ++bi) if ((bool)*it != bits.at(bi)) R.fail("node bit vector iterator");
    if (V::lex_ordered && !ch[0].empty() && !ch[1].empty()) {
        uint64_t mx = 0, mn = ~0ULL;
        for (size_t x : ch[0]) mx = max(mx, v[x]);
        for (size_t x : ch[1]) mn = min(mn, v[x]);
        R.ck(mx < mn, "left child symbols smaller than right child symbols");
    }
    auto c = wt.expand(nd);
    // ranges
    range_vec_type all;
    vector<size_t> pos;
    for (size_t i = 0; i < own.size(); ++i) if (own.size() <= 8 || i < 2 || i + 2 >= own.size() || i % 64 < 2) pos.push_back(i);
    for (size_t i : pos) for (size_t j : pos) if (i <= j) all.push_back({{i, j}});
    auto er = wt.expand(nd, all);
    R.eqi(er[0].size(), all.size(), "expand(ranges) size");
    R.eqi(er[1].size(), all.size(), "expand(ranges) size");
    for (size_t k = 0; k < all.size(); ++k) {
        size_t o0 = 0, on = 0;
        for (size_t i = 0; i <= all[k][1]; ++i) {
            if (i < all[k][0]) o0 += bits[i];
            else on += bits[i];
        }
        size_t z0 = all[k][0] - o0, zn = all[k][1] - all[k][0] + 1 - on;
        auto one = wt.expand(nd, all[k]);
        const Rg got[2][2] = {{er[0][k], er[1][k]}, {one[0], one[1]}};
        for (auto& g : got) {
            R.eqi(g[0][0], z0, "expand range left begin", all[k][0], all[k][1]);
            R.eqi(g[0][1], z0 + zn - 1, "expand range left end", all[k][0], all[k][1]);
            R.eqi(g[1][0], o0, "expand range right begin", all[k][0], all[k][1]);
            R.eqi(g[1][1], o0 + on - 1, "expand range right end", all[k][0], all[k][1]);
        }
    }
    // empty subtrees of the levelwise trees are not followed further
    for (int b = 0; b < 2; ++b) if (!ch[b].empty()) nodes(R, wt, c[b], ch[b], v, depth + 1, path << 1 | b, leaves);
    for (int b = 0; b < 2; ++b) if (ch[b].empty()) R.eqi(wt.empty(c[b]), 1, "empty child", depth, path);
}

template<class V>
static void check(mc::Run& R, const V& wt, const VV& v, bool deep)
{
    size_t n = v.size();
    vector<size_t> pos;
    if (n <= 8) for (size_t i = 0; i <= n; ++i) pos.push_back(i);
    else {
        set<size_t> s = {0, 1, n - 1, n, n / 2};
        for (size_t b : {63, 64, 65, 128, 192}) if (b <= n) s.insert(b);
        if (!deep) s = {0, 1, n / 2, n - 1, n};
        pos.assign(s.begin(), s.end());
    }
    set<uint64_t> sy(v.begin(), v.end()), s = {0, capq<V>()};
    uint64_t mx = v.empty() ? 0 : *max_element(v.begin(), v.end());
    if (sy.size() <= 6) {
        for (uint64_t x : sy) {
            s.insert(x);
            if (x) s.insert(x - 1);
            if (x < capq<V>()) s.insert(x + 1);
        }
    } else {
        size_t k = 0;
        for (uint64_t x : sy) if (k++ % (sy.size() / 4) == 0) s.insert(x);
        s.insert(mx);
    }
    int hb = bits::hi(mx | 1) + 1; // values just beyond the levels of the tree
    if (hb < 64 && (1ULL << hb) <= capq<V>()) s.insert(1ULL << hb);
    if (hb < 64 && (1ULL << hb) < capq<V>()) s.insert((1ULL << hb) + 1);
    vector<uint64_t> cs(s.begin(), s.end());

    typedef typename V::value_type VT;
    // interval_symbols
    for (size_t i : pos)
        for (size_t j : pos) {
            if (j < i) continue;
            size_t sg = max<size_t>(wt.sigma, 1);
            vector<VT> c(sg);
            vector<int_vector<>::size_type> ri(sg), rj(sg);
            int_vector<>::size_type k = 77;
            interval_symbols(wt, i, j, k, c, ri, rj);
            map<uint64_t, pair<size_t, size_t>> e;
            for (size_t p = i; p < j; ++p) e[v[p]];
            for (size_t p = 0; p < j; ++p) {
                auto it = e.find(v[p]);
                if (it == e.end()) continue;
                it->second.first += p < i;
                it->second.second++;
            }
            R.eqi(k, e.size(), "interval_symbols k", i, j);
            set<uint64_t> seen;
            for (size_t p = 0; p < k; ++p) {
                R.eqi(e.count(c[p]), 1, "interval_symbols symbol occurs", i, j, c[p]);
                R.eqi(seen.insert(c[p]).second, 1, "interval_symbols symbol once", i, j, c[p]);
                R.eqi(ri[p], e[c[p]].first, "interval_symbols rank_i", i, j, c[p]);
                R.eqi(rj[p], e[c[p]].second, "interval_symbols rank_j", i, j, c[p]);
                if (V::lex_ordered && p) R.ck(c[p - 1] < c[p], "interval_symbols ascending");
            }
        }
    lex(R, wt, v, pos, cs);
    r2d(R, wt, v, pos, cs);
    if (n == 0) return;
    // intersect: pairs and triples of ranges, every threshold
    vector<Rg> rg;
    for (size_t i : pos) for (size_t j : pos) if (i < j) rg.push_back({{i, j - 1}});
    auto isect = [&](const vector<Rg>& q, size_t t) {
        range_vec_type rv(q.begin(), q.end());
        auto r = intersect(wt, rv, t);
        size_t tt = t ? t : q.size();
        map<uint64_t, size_t> e;
        for (uint64_t x : sy) {
            size_t in = 0, fr = 0;
            for (auto& g : q) {
                size_t k = 0;
                for (size_t p = g[0]; p <= g[1]; ++p) k += v[p] == x;
                in += k > 0;
                fr += k;
            }
            if (in >= tt) e[x] = fr;
        }
        map<uint64_t, size_t> g;
        uint64_t prev = 0;
        bool asc = true;
        for (auto& p : r) {
            if (g.size() && (uint64_t)p.first <= prev) asc = false;
            prev = p.first;
            g[p.first] = p.second;
        }
        R.transitions++;
        if (g != e || r.size() != e.size()) {
            string d;
            for (auto& x : q) d += mc::cat("[", x[0], ",", x[1], "]");
            R.eq(g, e, mc::cat("intersect(", d, ", t=", t, ")"));
            R.fail("intersect reports a symbol twice");
        }
        if (V::lex_ordered && !asc) R.fail("intersect result not ordered by value");
    };
    for (auto& a : rg) {
        isect({a}, 0);
        isect({a}, 1);
    }
    if (n <= 3) {
        for (auto& a : rg) for (auto& b : rg) for (size_t t = 0; t <= 2; ++t) isect({a, b}, t);
        if (n <= 2) for (auto& a : rg) for (auto& b : rg) for (auto& c : rg) for (size_t t = 0; t <= 3; ++t) isect({a, b, c}, t);
    } else
        for (size_t k = 0; k < rg.size(); ++k)
            for (size_t d : {1, 2, 3, 5})
                for (size_t t = 0; t <= 3; ++t) {
                    auto &a = rg[k], &b = rg[(k + d) % rg.size()], &c = rg[(k * 3 + d) % rg.size()];
                    if (t <= 2) isect({a, b}, t);
                    isect({a, b, c}, t);
                }
    map<uint64_t, size_t> leaves;
    vector<size_t> own(n);
    for (size_t i = 0; i < n; ++i) own[i] = i;
    nodes(R, wt, wt.root(), own, v, 0, 0, leaves);
    R.eqi(leaves.size(), sy.size(), "every symbol has a leaf");
}
#define SLOW (GROUP >= 8)

MC_TASK(small, "type x every sequence over small alphabets of bounded length x every interval x symbols around every occurring one: interval_symbols, lex counts, quantiles, 2d search, unique values, symbol_lte/gte, intersection of up to 3 ranges with every threshold, node expansion")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        small_seqs(R.thorough, SLOW, CAP, [&](const VV& v) {
            R.run([&] { return tname<V>::get() + " " + gen::shows(v); },
                  [&] {
                      unique_ptr<V> wt(new V);
                      build(*wt, v);
                      check(R, *wt, v, true);
                  });
        });
    });
}
MC_TASK(runs, "type x three runs with lengths around 64/128 x symbol patterns; intervals at the word boundaries")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        int k = 0;
        run_seqs(false, true, [&](const VV& v) {
            if (!R.thorough && k++ % 3) return;
            R.run([&] { return tname<V>::get() + " " + gen::shows(v); },
                  [&] {
                      unique_ptr<V> wt(new V);
                      build(*wt, v);
                      check(R, *wt, v, R.thorough);
                  });
        });
    });
}
MC_TASK(shapes, "type x length x alphabet size x seven orders; intervals at the ends, the middle and the word boundaries")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        for (size_t n : R.thorough ? vector<size_t>{30, 65, 129, 300, 1100} : vector<size_t>{30, 129})
            for (uint64_t s : {2, 3, 7, 17, 64, 200})
                for (int sh = 0; sh < 7; ++sh)
                    R.run([&] { return mc::cat(tname<V>::get(), " n=", n, " sigma=", s, " order=", shape_names[sh]); },
                          [&] {
                              VV v = shaped(n, s, sh);
                              unique_ptr<V> wt(new V);
                              build(*wt, v);
                              check(R, *wt, v, false);
                          });
    });
}
