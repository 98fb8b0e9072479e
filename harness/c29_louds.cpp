// C29: the LOUDS tree built from a breadth-first traversal represents exactly that tree.
#include "gen.hpp"
#include "bpgen.hpp"
#include <sdsl/louds_tree.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/suffix_trees.hpp>
#include <deque>
#include <sstream>
using namespace std;
using namespace sdsl;
// an arbitrary ordinal tree with the interface louds_tree's constructor needs
struct Tree {
    vector<vector<size_t>> ch;
    size_t leaves = 0, cap = 0;
    size_t size(size_t) const { return cap; } // number of leaves of the subtree (an upper bound is enough)
    size_t root() const { return 0; }
};
struct Bfs {
    const Tree* t;
    deque<size_t> q;
    bool end;
    size_t operator*() const { return q.front(); }
    size_t size() const { return q.size(); }
    Bfs& operator++()
    {
        size_t v = q.front();
        q.pop_front();
        for (auto c : t->ch[v]) q.push_back(c);
        return *this;
    }
    bool operator==(const Bfs& o) const { return q.empty() == o.q.empty() && (q.empty() || q.front() == o.q.front()); }
    bool operator!=(const Bfs& o) const { return !(*this == o); }
};
static Tree from_bp(const gen::Bits& b) // balanced parentheses of a forest below a new root
{
    Tree t;
    t.ch.resize(1);
    vector<size_t> st = {0};
    for (auto x : b) {
        if (x) { size_t v = t.ch.size(); t.ch.push_back({}); t.ch[st.back()].push_back(v); st.push_back(v); }
        else st.pop_back();
    }
    bool unary = false;
    for (auto& c : t.ch) { t.leaves += c.empty(); unary |= c.size() == 1; }
    t.cap = unary ? t.ch.size() : t.leaves; // no unary nodes: exactly the leaves, as for a suffix tree
    return t;
}
template<class L> static void check(mc::Run& R, const L& l, const Tree& t)
{
    size_t n = t.ch.size();
    R.eq((size_t)l.nodes(), n, "nodes()");
    // breadth-first numbering of the tree
    vector<size_t> order = {0}, num(n), par(n, 0), idx(n, 0);
    for (size_t i = 0; i < order.size(); ++i) {
        num[order[i]] = i;
        for (size_t k = 0; k < t.ch[order[i]].size(); ++k) { size_t c = t.ch[order[i]][k]; par[c] = order[i]; idx[c] = k + 1; order.push_back(c); }
    }
    typedef typename L::node_type N;
    vector<N*> node(n);
    node[0] = new N(l.root());
    for (size_t i = 0; i < n; ++i) {
        size_t v = order[i];
        N& x = *node[v];
        R.eqi((size_t)l.id(x), i, "id of node (breadth-first number)", i);
        R.eqi((bool)l.is_leaf(x), t.ch[v].empty(), "is_leaf", i);
        R.eqi((size_t)l.degree(x), t.ch[v].size(), "degree", i);
        for (size_t k = 0; k < t.ch[v].size(); ++k) {
            size_t c = t.ch[v][k];
            node[c] = new N(l.child(x, k + 1));
            R.eqi((size_t)l.id(*node[c]), num[c], "child id", i, k + 1);
            R.ck(l.parent(*node[c]) == x, "parent(child(v,i)) == v");
        }
        if (i) R.eqi((size_t)l.id(l.parent(x)), num[par[v]], "parent id", i);
        else R.ck(l.parent(x) == l.root(), "parent(root) == root");
    }
    // nodes are values: copies and assignments denote the same node after the source is gone
    vector<N> keep;
    for (auto p : node) { N tmp(*p); keep.push_back(tmp); }
    for (auto p : node) delete p;
    for (size_t v = 0; v < n; ++v) {
        R.eqi((size_t)l.id(keep[v]), num[v], "id of a copied node", v);
        R.eqi((size_t)l.degree(keep[v]), t.ch[v].size(), "degree of a copied node", v);
        N a;
        a = keep[v];
        R.ck(a == keep[v], "assigned node equals its source");
        R.eqi((size_t)a.nr, num[v], "nr of an assigned node", v);
    }
    R.obs(n);
}
enum { PLAIN, COPY, MOVE, ASSIGN, MASSIGN, SWAP, LOAD, LIFES };
static const char* lname[] = {"constructed", "copied", "moved", "assigned", "move-assigned", "swapped", "loaded"};
template<class L> static void run1(mc::Run& R, const char* nm, const gen::Bits& b, int life)
{
    R.run([&] { return mc::cat(nm, " ", lname[life], " tree below the root: ", gen::show(b)); },
          [&] {
              auto build = [](const Tree& t) { Bfs a{&t, {0}, false}, e{&t, {}, true}; return new L(t, a, e); };
              Tree t = from_bp(b), o = from_bp({1, 0, 1, 1, 0, 1, 0, 0});
              unique_ptr<L> l(build(t));
              if (life == COPY) { unique_ptr<L> m(new L(*l)); l = move(m); }
              if (life == MOVE) { unique_ptr<L> m(new L(move(*l))); l = move(m); }
              if (life == ASSIGN) { unique_ptr<L> m(build(o)); *m = *l; l = move(m); }
              if (life == MASSIGN) { unique_ptr<L> m(build(o)); *m = move(*l); l = move(m); }
              if (life == SWAP) { unique_ptr<L> m(build(o)); m->swap(*l); check(R, *l, o); l = move(m); }
              if (life == LOAD) { stringstream s; size_t w = l->serialize(s); R.eq(w, s.str().size(), "serialized size"); unique_ptr<L> m(build(o)); m->load(s); l = move(m); }
              check(R, *l, t);
          });
}
static void run_all(mc::Run& R, const gen::Bits& b, int life)
{
    run1<louds_tree<>>(R, "louds_tree<>", b, life);
    run1<louds_tree<rrr_vector<15>>>(R, "louds_tree<rrr_vector<15>>", b, life);
    run1<louds_tree<sd_vector<>>>(R, "louds_tree<sd_vector<>>", b, life);
    run1<louds_tree<bit_vector, select_support_scan<1>, select_support_scan<0>>>(R, "louds_tree<bit_vector,scan,scan>", b, life);
}
MC_TASK(all_trees, "4 LOUDS types x every ordinal tree of 2..11 nodes (thorough 13) x 7 lifecycles; all nodes, children, parents, degrees, ids")
{
    size_t N = R.thorough ? 12 : 10;
    run_all(R, {}, 0);
    for (size_t n = 1; n <= N; ++n) {
        size_t c = 0;
        bpg::dyck(n, [&](const gen::Bits& b) {
            if (R.stop()) return;
            if (n <= 6) for (int l = 0; l < LIFES; ++l) run_all(R, b, l);
            else run_all(R, b, c % LIFES);
            ++c;
        });
    }
}
MC_TASK(large_trees, "4 LOUDS types x shaped trees (paths, stars, combs, complete, bamboo-with-leaves) of 10..5000 nodes")
{
    for (size_t n : {10, 31, 32, 33, 63, 64, 65, 100, 256, 1000, 5000})
        for (int k = 0; k < bpg::S_COUNT; ++k) {
            gen::Bits b = bpg::shape(k, n);
            run_all(R, b, (n + k) % LIFES);
            if (R.stop()) return;
        }
}
MC_TASK(suffix_trees, "louds_tree of the suffix tree of every text of length 0..6 over {a,b} (thorough 9) and of 0..4 over {a,b,c}")
{
    typedef cst_sct3<> C;
    auto one = [&](const string& s) {
        R.run([&] { return "louds_tree of cst_sct3 of \"" + s + "\""; },
              [&] {
                  C cst;
                  construct_im(cst, s.c_str(), 1);
                  typedef cst_bfs_iterator<C> It;
                  It a = It(&cst, cst.root()), e = It(&cst, cst.root(), true, true);
                  louds_tree<> l(cst, a, e);
                  Tree t; // by depth-first walk over the suffix tree
                  function<size_t(C::node_type)> rec = [&](C::node_type v) {
                      size_t id = t.ch.size();
                      t.ch.push_back({});
                      for (auto c : cst.children(v)) { size_t x = rec(c); t.ch[id].push_back(x); }
                      return id;
                  };
                  rec(cst.root());
                  check(R, l, t);
              });
    };
    for (int sig = 2; sig <= 3; ++sig)
        for (size_t n = 1; n <= (sig == 2 ? (R.thorough ? 9u : 6u) : (R.thorough ? 6u : 4u)); ++n) {
            size_t tot = 1;
            for (size_t i = 0; i < n; ++i) tot *= sig;
            for (size_t x = 0; x < tot && !R.stop(); ++x) {
                string s;
                for (size_t i = 0, y = x; i < n; ++i, y /= sig) s += 'a' + y % sig;
                one(s);
            }
        }
}
