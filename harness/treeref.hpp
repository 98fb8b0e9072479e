// Reference suffix tree from the reference suffix and LCP arrays.
#pragma once
#include "textgen.hpp"
struct RTree {
    struct Node { size_t lb, rb, depth, parent, ndepth; std::vector<size_t> ch; size_t ord; };
    std::vector<Node> v; // preorder, v[0] = root
    std::map<std::pair<size_t, size_t>, size_t> idx;
    std::vector<size_t> leaf;
    const Ref* r;
    void build(const Ref& ref)
    {
        r = &ref;
        v.clear();
        idx.clear();
        leaf.assign(ref.n, 0);
        add(0, ref.n - 1, 0, 0);
        v[0].parent = 0;
    }
    size_t add(size_t lb, size_t rb, size_t par, size_t nd)
    {
        size_t id = v.size();
        v.push_back(Node());
        idx[{lb, rb}] = id;
        v[id].lb = lb;
        v[id].rb = rb;
        v[id].parent = par;
        v[id].ndepth = nd;
        v[id].ord = 0;
        if (lb == rb) {
            v[id].depth = r->n - r->sa[lb];
            leaf[lb] = id;
            return id;
        }
        size_t m = *std::min_element(r->lcp.begin() + lb + 1, r->lcp.begin() + rb + 1);
        v[id].depth = m;
        size_t s = lb, o = 0;
        for (size_t i = lb + 1; i <= rb + 1; ++i)
            if (i == rb + 1 || r->lcp[i] == m) {
                size_t c = add(s, i - 1, id, nd + 1);
                v[c].ord = o++;
                v[id].ch.push_back(c);
                s = i;
            }
        return id;
    }
    bool is_leaf(size_t x) const { return v[x].lb == v[x].rb; }
    size_t sibling(size_t x) const // 0 = none
    {
        if (!x) return 0;
        auto& p = v[v[x].parent];
        return v[x].ord + 1 < p.ch.size() ? p.ch[v[x].ord + 1] : 0;
    }
    size_t locus(size_t lb, size_t rb) const // lowest node containing [lb,rb]
    {
        size_t x = leaf[lb];
        while (v[x].rb < rb) x = v[x].parent;
        return x;
    }
    uint64_t label(size_t x, size_t i) const { return r->t[r->sa[v[x].lb] + i]; }
};
// texts whose suffix tree has a non-root node with many children: a x1 a x2 a x3 ...
static inline Text star(size_t k, uint64_t a, uint64_t first, uint64_t step)
{
    Text t;
    for (size_t i = 0; i < k; ++i) { t.push_back(a); t.push_back(first + i * step); }
    return t;
}
