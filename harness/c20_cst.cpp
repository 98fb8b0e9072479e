// C20: suffix tree navigation equals the real suffix tree.
#include "cstgen.hpp"
#include "treeref.hpp"

template<class V> struct Chk {
    typedef typename V::node_type N;
    mc::Run& R;
    const V& v;
    const Ref& r;
    const RTree& T;
    vector<N> node;
    Chk(mc::Run& R, const V& v, const Ref& r, const RTree& T) : R(R), v(v), r(r), T(T), node(T.v.size()) {}
    string nm(size_t x) { return mc::cat("[", T.v[x].lb, ",", T.v[x].rb, "]"); }
    // w has to be node x: bounds, and the operations that use the rest of its representation
    void is(const N& w, size_t x, const char* what, size_t a, size_t b = (size_t)-1)
    {
        ++R.transitions;
        auto bad = [&](const string& how) { R.fail(mc::cat(what, " of node ") + nm(a) + (b != (size_t)-1 ? mc::cat(", ", b) : string()) + ": expected node " + nm(x) + ", " + how); };
        if (v.lb(w) != T.v[x].lb || v.rb(w) != T.v[x].rb) bad(mc::cat("got [", v.lb(w), ",", v.rb(w), "]"));
        if (!(w == node[x]) || w != node[x]) bad("result does not compare equal to the node reached from the root");
        if (v.size(w) != T.v[x].rb - T.v[x].lb + 1) bad("size of the result differs");
        auto bounds = [&](const N& u, size_t y, const char* op) { if (v.lb(u) != T.v[y].lb || v.rb(u) != T.v[y].rb) bad(mc::cat("its ", op, " is [", v.lb(u), ",", v.rb(u), "]")); };
        if (x) bounds(v.parent(w), T.v[x].parent, "parent");
        if (x) bounds(v.sibling(w), T.sibling(x), "sibling");
        if (!T.is_leaf(x)) {
            bounds(v.select_child(w, 1), T.v[x].ch[0], "first child");
            bounds(v.select_child(w, T.v[x].ch.size()), T.v[x].ch.back(), "last child");
        }
    }
    void reach(size_t x, const N& w)
    {
        node[x] = w;
        if (v.lb(w) != T.v[x].lb || v.rb(w) != T.v[x].rb) R.fail("node reached by select_child: expected " + nm(x) + mc::cat(", got [", v.lb(w), ",", v.rb(w), "]"));
        for (size_t i = 0; i < T.v[x].ch.size(); ++i) reach(T.v[x].ch[i], v.select_child(w, i + 1));
    }
    void run(const vector<uint64_t>& absent)
    {
        size_t n = r.n, m = T.v.size();
        R.eqi(v.size(), n, "size()");
        R.eqi(v.empty(), 0, "empty()");
        R.eqi(v.nodes(), m, "nodes()");
        reach(0, v.root());
        vector<uint64_t> syms;
        { set<uint64_t> s(r.t.begin(), r.t.end()); syms.assign(s.begin(), s.end()); }
        set<size_t> ids;
        for (size_t x = 0; x < m; ++x) {
            const auto& t = T.v[x];
            const N& w = node[x];
            is(w, x, "node", x);
            R.eqi(v.is_leaf(w), t.lb == t.rb, "is_leaf", x);
            if (n > 1) R.eqi(v.depth(w), t.depth, "depth", t.lb, t.rb);
            R.eqi(v.node_depth(w), t.ndepth, "node_depth", t.lb, t.rb);
            R.eqi(v.degree(w), t.ch.size(), "degree", t.lb, t.rb);
            is(v.parent(w), t.parent, "parent", x);
            is(v.leftmost_leaf(w), T.leaf[t.lb], "leftmost_leaf", x);
            is(v.rightmost_leaf(w), T.leaf[t.rb], "rightmost_leaf", x);
            is(v.node(t.lb, t.rb), x, "node(lb,rb)", x);
            if (n > 1) is(v.sibling(w), T.sibling(x), "sibling", x);
            for (size_t i = 1; i <= t.ch.size() + 2; ++i)
                is(v.select_child(w, i), i <= t.ch.size() ? t.ch[i - 1] : 0, "select_child", x, i);
            // children by symbol
            auto by = [&](uint64_t c) {
                size_t e = 0;
                for (auto k : t.ch) if (T.label(k, t.depth) == c) e = k;
                is(v.child(w, (typename V::char_type)c), e, "child", x, c);
                size_t cp = 0x1234;
                is(v.child(w, (typename V::char_type)c, cp), e, "child(char_pos)", x, c);
                if (e) {
                    bool ok = cp < n;
                    if (ok) { ok = false; for (size_t k = T.v[e].lb; k <= T.v[e].rb; ++k) if (r.isa[r.sa[k] + t.depth] == cp) ok = true; }
                    if (!ok) R.fail(mc::cat("char_pos of child ", c, " of node ") + nm(x) + mc::cat(": ", cp, " is not the position of a matching symbol"));
                }
                // Weiner link
                if (c == 0) return;
                size_t lo = n, hi = 0;
                for (size_t k = t.lb; k <= t.rb; ++k) if (r.sa[k] && r.t[r.sa[k] - 1] == c) { lo = min<size_t>(lo, r.isa[r.sa[k] - 1]); hi = max<size_t>(hi, r.isa[r.sa[k] - 1]); }
                is(v.wl(w, (typename V::char_type)c), lo == n ? 0 : T.locus(lo, hi), "wl", x, c);
            };
            if (syms.size() <= 20 || x % 37 == 0) for (auto c : syms) by(c);
            else for (auto k : t.ch) by(T.label(k, t.depth));
            for (auto c : absent) by(c);
            // suffix link
            {
                size_t e = 0;
                if (x && n > 1) {
                    size_t a = r.isa[(r.sa[t.lb] + 1) % n], b = r.isa[(r.sa[t.rb] + 1) % n];
                    e = T.is_leaf(x) ? (t.lb == 0 ? 0 : T.leaf[a]) : T.locus(a, b);
                    if (!(T.is_leaf(x) && t.lb == 0)) is(v.sl(w), e, "sl", x); // the suffix link of the leaf "$" is not a node of the tree
                }
                else if (n > 1) is(v.sl(w), 0, "sl", x);
            }
            for (size_t d = 1; d <= t.depth && x; ++d) {
                if (t.depth > 40 && d > 3 && d + 3 < t.depth && d % 16) continue;
                uint64_t c = v.edge(w, d);
                if (c != T.label(x, d - 1)) R.fail(mc::cat("edge of node ") + nm(x) + mc::cat(" at ", d, ": ", c, ", expected ", T.label(x, d - 1)));
            }
            if (T.is_leaf(x)) {
                R.eqi(v.sn(w), r.sa[t.lb], "sn", t.lb);
                is(v.select_leaf(t.lb + 1), x, "select_leaf", x);
            }
            extra(w, x, ids);
            // children proxy
            {
                auto ch = v.children(w);
                size_t i = 0;
                R.eqi(ch.size(), t.ch.size(), "children().size()");
                if (t.ch.size() <= 60 || x % 7 == 0) for (size_t k = 0; k < t.ch.size(); ++k) is(ch[k], t.ch[k], "children()[]", x, k);
                if (n > 1) {
                    for (auto k : ch) {
                        if (i >= t.ch.size()) R.fail("children() has too many elements, node " + nm(x));
                        is(k, t.ch[i++], "children() iteration", x, i);
                    }
                    R.eqi(i, t.ch.size(), "children() iterated");
                }
            }
        }
        if (!ids.empty()) R.ck(ids.size() == m && *ids.rbegin() == m - 1, "ids are a bijection to [0..nodes()-1]");
        // pairs
        size_t step = m <= 90 ? 1 : m / 40;
        for (size_t x = 0; x < m; ++x)
            for (size_t y = 0; y < m; y += (step == 1 || x % step == 0 ? 1 : step)) {
                size_t a = min(T.v[x].lb, T.v[y].lb), b = max(T.v[x].rb, T.v[y].rb);
                is(v.lca(node[x], node[y]), T.locus(a, b), "lca", x, y);
                if (x != y) R.ck(node[x] != node[y], "different nodes compare different");
                pair_extra(x, y);
            }
        entropy();
    }
#ifdef FULLY
    void extra(const N&, size_t, set<size_t>&) {}
    void pair_extra(size_t x, size_t y) { R.eqi(v.ancestor(node[x], node[y]), T.v[x].lb <= T.v[y].lb && T.v[y].rb <= T.v[x].rb, "ancestor", x, y); }
    void entropy() {}
#else
    template<class U> static auto slk(const U& u, const N& w, size_t k, int) -> decltype(u.sl(w, k)) { return u.sl(w, k); }
    template<class U> static N slk(const U& u, const N& w, size_t k, long) { N x = w; for (size_t i = 0; i < k; ++i) x = u.sl(x); return x; }
    void extra(const N& w, size_t x, set<size_t>& ids)
    {
        size_t id = v.id(w);
        if (id >= T.v.size()) R.fail(mc::cat("id of node ") + nm(x) + mc::cat(" is ", id, ", there are ", T.v.size(), " nodes"));
        ids.insert(id);
        is(const_cast<V&>(v).inv_id(id), x, "inv_id(id)", x, id);
        if (r.n > 1)
            for (size_t k = 1; k < 4 && k < T.v[x].depth; ++k) { // k-fold suffix link, defined while a symbol is left
                size_t a = r.isa[r.sa[T.v[x].lb] + k], b = r.isa[r.sa[T.v[x].rb] + k];
                is(slk(v, w, k, 0), x == 0 ? 0 : T.is_leaf(x) ? T.leaf[a] : T.locus(a, b), "sl (several steps)", x, k);
            }
        R.eqi(v.lcp[T.v[x].lb], r.lcp[T.v[x].lb], "lcp", T.v[x].lb);
    }
    void pair_extra(size_t, size_t) {}
    void entropy()
    {
        if (r.n > 300) return;
        for (size_t k = 0; k <= 4; ++k) {
            map<Text, map<uint64_t, size_t>> ctx;
            for (size_t i = 0; i + k <= r.n; ++i) {
                if (k == 0 && i == r.n) break;
                Text w(r.t.begin() + i, r.t.begin() + i + k);
                auto& m = ctx[w];
                if (i + k < r.n) ++m[r.t[i + k]];
            }
            double h = 0;
            for (auto& c : ctx) {
                double tot = 0;
                for (auto& s : c.second) tot += s.second;
                for (auto& s : c.second) h -= s.second * log2(s.second / tot);
            }
            h /= r.n;
            auto got = Hk(v, k);
            if (fabs(got.first - h) > 1e-9) R.fail(mc::cat("H_", k, " = ", got.first, ", expected ", h));
            R.eqi(got.second, ctx.size(), "contexts of H_k", k);
        }
        for (size_t x = 0; x < T.v.size(); ++x) {
            double h = 0, tot = T.v[x].rb - T.v[x].lb + 1;
            if (!T.is_leaf(x)) for (auto c : T.v[x].ch) { double k = T.v[c].rb - T.v[c].lb + 1; h -= k / tot * log2(k / tot); }
            if (fabs(H0(node[x], v) - h) > 1e-9) R.fail("H0 of node " + nm(x));
        }
    }
#endif
};
static void all(mc::Run& R, const Text& t, const vector<uint64_t>& absent)
{
    Cache<W> c(t);
    RTree T;
    T.build(c.r);
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        R.run([&] { return tname<V>::get() + " text " + gen::shows(t); },
              [&] {
                  V v;
                  c.build(v);
                  Chk<V> k(R, v, c.r, T);
                  k.run(absent);
              });
    });
}
MC_TASK(small, "suffix tree type x every text up to a length over small alphabets: every operation on every node, every symbol, every pair of nodes")
{
    bool th = R.thorough;
#ifdef BYTE
    texts(0, th ? 12 : 8, {1, 2}, [&](const Text& t) { all(R, t, {3, 255}); });
    texts(1, th ? 8 : 5, {'a', 'b', 'd'}, [&](const Text& t) { all(R, t, {'A', 'c', 'z'}); });
    texts(1, th ? 5 : 3, {1, 127, 128, 255}, [&](const Text& t) { all(R, t, {2, 126, 129, 254}); });
#else
    texts(0, th ? 12 : 8, {1, 2}, [&](const Text& t) { all(R, t, {3, 300}); });
    texts(1, th ? 8 : 5, {1, 2, 3}, [&](const Text& t) { all(R, t, {4, 1ULL << 40}); });
    texts(1, th ? 5 : 3, {2, 255, 256, 4000}, [&](const Text& t) { all(R, t, {1, 3, 257, 3999, 4001, ~0ULL}); });
#endif
}
MC_TASK(structured, "suffix tree type x 18 text families x lengths, nodes with many children (up to 254 / 700), deep trees: every operation on every node, pairs of nodes")
{
    bool th = R.thorough;
    for (size_t n : th ? vector<size_t>{20, 33, 64, 65, 130, 200, 257, 300, 600} : vector<size_t>{20, 64, 140})
        for (int f = 0; f < FAM_COUNT; ++f) {
            Text t = family(f, n);
            set<uint64_t> s(t.begin(), t.end());
            vector<uint64_t> ab;
            for (uint64_t x = 1; x < 256 && ab.empty(); ++x) if (!s.count(x)) ab.push_back(x);
            all(R, t, ab);
        }
    auto ab = vector<uint64_t>{7};
#ifdef BYTE
    for (size_t k : {3, 62, 63, 64, 65, 66, 120, 130}) all(R, star(k, 1, 10, 1), ab);
    all(R, star(245, 1, 10, 1), ab);
    if (th) { Text t = star(245, 1, 10, 1), u = star(200, 2, 12, 1); t.insert(t.end(), u.begin(), u.end()); all(R, t, ab); }
#else
    for (size_t k : th ? vector<size_t>{64, 128, 200, 319, 320, 321, 322, 383, 385, 450, 700} : vector<size_t>{64, 200, 321, 385, 450}) {
        all(R, star(k, 1, 10, 1), ab);
        Text t = star(k, 1, 10, 1), u = star(5, 2, 10, 3);
        u.insert(u.end(), t.begin(), t.end());
        all(R, u, ab);
    }
    { Text t(500); for (size_t i = 0; i < 500; ++i) t[i] = 10 + i * 7 % 500; all(R, t, ab); } // all symbols distinct
#endif
}
