// C21: suffix tree iterators visit every node the documented number of times in the documented order.
#include "cstgen.hpp"
#include "treeref.hpp"
typedef vector<pair<pair<size_t, size_t>, int>> Seq; // (lb,rb), visit

struct Want { // reference sequences
    const RTree& T;
    Want(const RTree& T) : T(T) {}
    pair<size_t, size_t> iv(size_t x) const { return {T.v[x].lb, T.v[x].rb}; }
    void dfs(size_t x, const set<size_t>& skip, Seq& s) const
    {
        s.push_back({iv(x), 1});
        if (T.is_leaf(x) || skip.count(x)) return;
        for (auto c : T.v[x].ch) dfs(c, skip, s);
        s.push_back({iv(x), 2});
    }
    void post(size_t x, Seq& s) const
    {
        for (auto c : T.v[x].ch) post(c, s);
        s.push_back({iv(x), 0});
    }
    void bfs(size_t x, Seq& s) const
    {
        vector<size_t> q{x};
        for (size_t i = 0; i < q.size(); ++i) {
            s.push_back({iv(q[i]), 0});
            for (auto c : T.v[q[i]].ch) q.push_back(c);
        }
    }
};
template<class V> static void check(mc::Run& R, const V& v, const RTree& T)
{
    Want W(T);
    size_t m = T.v.size(), limit = 4 * m + 4;
    auto same = [&](const Seq& got, const Seq& want, const string& what) {
        for (size_t i = 0; i < max(got.size(), want.size()); ++i)
            if (i >= got.size() || i >= want.size() || got[i] != want[i])
                R.fail(what + mc::cat(": step ", i, " is ") + (i < got.size() ? mc::str(got[i]) : "the end") + ", expected " + (i < want.size() ? mc::str(want[i]) : "the end"));
        R.transitions += want.size();
        R.obs(want.size());
    };
    auto key = [&](typename V::node_type w) { return make_pair(v.lb(w), v.rb(w)); };
    // depth first, with every set of skipped subtrees (all sets for small trees, else every single node and some pairs)
    auto dfs = [&](const set<size_t>& skip, bool copies) {
        Seq want, got;
        W.dfs(0, skip, want);
        size_t steps = 0;
        if (!copies) {
            for (auto it = v.begin(), e = v.end(); it != e; ++it) {
                if (++steps > limit) R.fail("depth-first iteration does not end");
                got.push_back({key(*it), it.visit()});
                auto f = T.idx.find(key(*it));
                if (f == T.idx.end()) R.fail("depth-first iteration visits something that is no node: " + mc::str(key(*it)));
                if (it.visit() == 1 && skip.count(f->second)) it.skip_subtree();
            }
        } else { // advance a fresh copy at every step
            auto it = v.begin();
            const auto e = v.end();
            while (it != e) {
                if (++steps > limit) R.fail("depth-first iteration over copies does not end");
                got.push_back({key(*it), it.visit()});
                auto cpy = it;
                R.ck(cpy == it, "copy compares equal");
                if (it.visit() == 1 && skip.count(T.idx.at(key(*it)))) cpy.skip_subtree();
                cpy++;
                it = cpy;
            }
        }
        same(got, want, mc::cat("depth-first", copies ? " over copies" : "", " skipping ", skip));
    };
    vector<size_t> inner;
    for (size_t x = 0; x < m; ++x) if (!T.is_leaf(x)) inner.push_back(x);
    if (m == 1) return; // root == leaf: only the traversals below
    if (m <= 14) for (size_t mask = 0; mask < (size_t)1 << m; ++mask) {
        set<size_t> s;
        for (size_t i = 0; i < m; ++i) if (mask >> i & 1) s.insert(i);
        if (m > 9 && s.size() > 2) continue;
        dfs(s, false);
    } else {
        dfs({}, false);
        size_t st = m > 200 ? m / 40 : 1;
        for (size_t x = 0; x < m; x += st) dfs({x}, false);
    }
    dfs({}, true);
    if (inner.size() > 1) dfs({inner[inner.size() / 2]}, true);
#ifndef FULLY
    // every subtree
    size_t st = m > 200 ? m / 40 : 1;
    for (size_t x = 0; x < m; x += st) {
        auto w = T.is_leaf(x) ? v.select_leaf(T.v[x].lb + 1) : v.node(T.v[x].lb, T.v[x].rb);
        Seq want, got;
        W.dfs(x, {}, want);
        size_t steps = 0;
        for (auto it = v.begin(w), e = v.end(w); it != e; ++it) {
            if (++steps > limit) R.fail(mc::cat("depth-first iteration over the subtree of ", W.iv(x), " does not end"));
            got.push_back({key(*it), it.visit()});
        }
        same(got, want, mc::cat("depth-first over the subtree of ", W.iv(x)));
    }
    {
        Seq want, got;
        W.post(0, want);
        size_t steps = 0;
        for (auto it = v.begin_bottom_up(); it != v.end_bottom_up(); ++it) {
            if (++steps > limit) R.fail("bottom-up iteration does not end");
            got.push_back({key(*it), 0});
        }
        same(got, want, "bottom-up");
        got.clear();
        for (auto it = v.begin_bottom_up(); it != v.end_bottom_up();) got.push_back({key(*it++), 0});
        same(got, want, "bottom-up with postfix increment");
    }
#endif
    size_t st2 = m > 60 ? m / 20 : 1;
    for (size_t x = 0; x < m; x += st2) {
        typename V::node_type w = x == 0 ? v.root() : T.is_leaf(x) ? v.select_leaf(T.v[x].lb + 1) : v.node(T.v[x].lb, T.v[x].rb);
        Seq want, got;
        W.bfs(x, want);
        cst_bfs_iterator<V> it(&v, w), e(&v, w, true, true);
        size_t steps = 0;
        for (; it != e; ++it) {
            if (++steps > limit) R.fail("breadth-first iteration does not end");
            got.push_back({key(*it), 0});
            if (m <= 60 || steps % 16 == 0) {
                auto cpy = it;
                R.ck(cpy == it && !(cpy != it), "a copy of the breadth-first iterator compares equal");
                auto old = cpy++;
                R.ck(old == it && key(*old) == key(*it), "postfix increment gives the old position");
            }
        }
        same(got, want, mc::cat("breadth-first from ", W.iv(x)));
    }
    // children
    for (size_t x = 0; x < m; ++x) {
        typename V::node_type w = x == 0 ? v.root() : T.is_leaf(x) ? v.select_leaf(T.v[x].lb + 1) : v.node(T.v[x].lb, T.v[x].rb);
        Seq want, got, got2;
        for (auto c : T.v[x].ch) want.push_back({W.iv(c), 0});
        auto p = v.children(w);
        for (auto it = p.begin(); it != p.end(); ++it) { got.push_back({key(*it), 0}); if (got.size() > limit) R.fail("child iteration does not end"); }
        same(got, want, mc::cat("children of ", W.iv(x)));
        for (auto it = p.begin(); it != p.end();) got2.push_back({key(*it++), 0});
        same(got2, want, mc::cat("children (postfix) of ", W.iv(x)));
    }
}
static void all(mc::Run& R, const Text& t)
{
    Cache<W> c(t);
    RTree T;
    T.build(c.r);
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        R.run([&] { return tname<V>::get() + " text " + gen::shows(t); },
              [&] {
                  V v;
                  c.build(v);
                  check(R, v, T);
              });
    });
}
MC_TASK(small, "suffix tree type x every text up to a length over small alphabets: full traversals, every set of skipped subtrees, every subtree, bottom-up, breadth-first from every node, children of every node")
{
    bool th = R.thorough;
    auto f = [&](const Text& t) { all(R, t); };
    texts(1, th ? 10 : 8, {1, 2}, f);
    texts(1, th ? 8 : 5, {'a', 'b', 'c'}, f);
    texts(1, th ? 6 : 3, {1, 127, 128, 255}, f);
}
MC_TASK(structured, "suffix tree type x text families incl. trees deeper than the iterator's stack cache (128): traversals, single skipped subtrees")
{
    bool th = R.thorough;
    for (size_t n : th ? vector<size_t>{20, 33, 65, 128, 129, 130, 257, 300} : vector<size_t>{20, 64, 140})
        for (int f = 0; f < FAM_COUNT; ++f) all(R, family(f, n));
    for (size_t n : {127, 128, 129, 130, 131, 260}) all(R, Text(n, 3));
    all(R, star(70, 1, 10, 1));
    all(R, star(100, 1, 10, 1));
}
MC_TASK(default_constructed, "iteration over a default-constructed tree")
{
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        R.run([&] { return tname<V>::get(); },
              [&] {
                  V v;
#ifndef FULLY
                  R.ck(v.begin() == v.end(), "begin() == end()");
                  R.ck(v.begin_bottom_up() == v.end_bottom_up(), "begin_bottom_up() == end_bottom_up()");
#else
                  R.ck(v.begin() == v.end(), "begin() == end()");
#endif
              });
    });
}
