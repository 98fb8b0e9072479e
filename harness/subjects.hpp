// Subjects shared by C12 (serialization), C13 (copy/move/swap), C36 (purity): for every structure a list of
// contents, a factory and the list of all its queries.  -DSG selects the group of types.
#pragma once
#include "textgen.hpp"
#include <sdsl/construct.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/wt_algorithm.hpp>
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/louds_tree.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_tree.hpp>
#include <memory>
using namespace sdsl;
using namespace std;
typedef vector<uint64_t> Seq;
template<class... V> struct Types {};
template<class F> static void each(Types<>, F) {}
template<class V, class... W, class F> static void each(Types<V, W...>, F f)
{
    f((V*)0);
    each(Types<W...>(), f);
}
template<class V>
struct tname {
    static string get()
    {
        string s = __PRETTY_FUNCTION__;
        size_t a = s.find("V = ");
        s = s.substr(a + 4);
        size_t b = s.find(';');
        if (b == string::npos) b = s.find(']');
        s = s.substr(0, min<size_t>(b, 220));
        string o;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s.compare(i, 6, "sdsl::") == 0) { i += 5; continue; }
            o += s[i];
        }
        return o;
    }
};
template<class T> struct Query {
    string n;
    function<uint64_t(const T&)> f;
};
template<class T> using Qs = vector<Query<T>>;
#define Q_(name, ...) q.push_back({name, [=](const type& t) -> uint64_t { (void)t; return __VA_ARGS__; }})
static inline uint64_t fold(uint64_t h, uint64_t x) { return (h ^ x) * 0x100000001b3ULL + (h >> 31); }
template<class C> static uint64_t foldall(const C& c)
{
    uint64_t h = 14695981039346656037ULL;
    for (auto x : c) h = fold(h, x);
    return h;
}
static inline bool pick(size_t i, size_t n) { return n <= 200 || i % 37 == 0 || i < 3 || i + 3 > n || i % 64 == 63; }

// ---- contents; lv 0: few (for histories), 1: many (for round trips)
static vector<vector<uint8_t>> bits_list(int lv)
{
    vector<vector<uint8_t>> r;
    auto gen = [&](size_t n, function<bool(size_t)> f) { vector<uint8_t> b(n); for (size_t i = 0; i < n; ++i) b[i] = f(i); r.push_back(b); };
    gen(70, [](size_t i) { return i % 3 == 1; });
    gen(5, [](size_t i) { return i & 1; });
    gen(600, [](size_t i) { return (i * i / 7) % 5 == 0; });
    if (lv == 0) return r;
    for (size_t n = 0; n <= 7; ++n) for (size_t x = 0; x < (1u << n); ++x) gen(n, [x](size_t i) { return x >> i & 1; });
    for (size_t n : {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048}) {
        gen(n, [](size_t) { return false; });
        gen(n, [](size_t) { return true; });
        gen(n, [n](size_t i) { return i + 1 == n; });
        gen(n, [](size_t i) { return i % 7 == 3; });
    }
    gen(9000, [](size_t i) { return i < 4097 || i % 11 == 0; });
    gen(9000, [](size_t i) { return !(i < 4097 || i % 11 == 0); });
    gen(140000, [](size_t i) { return i % 31 == 5; });
    gen(140000, [](size_t i) { return i % 31 != 5; });
    return r;
}
static vector<Seq> ints_list(int lv, uint64_t cap)
{
    vector<Seq> r;
    auto gen = [&](size_t n, function<uint64_t(size_t)> f) { Seq b(n); for (size_t i = 0; i < n; ++i) b[i] = min(cap, f(i)); r.push_back(b); };
    gen(40, [](size_t i) { return (i * i) % 11; });
    gen(3, [](size_t i) { return 5 - i; });
    gen(150, [](size_t i) { return (i * 7919) % 1000; });
    if (lv == 0) return r;
    for (size_t n = 0; n <= 4; ++n) {
        size_t tot = 1;
        for (size_t k = 0; k < n; ++k) tot *= 4;
        for (size_t x = 0; x < tot; ++x) gen(n, [x](size_t i) { static const uint64_t v[] = {0, 1, 2, 300}; return v[x >> (2 * i) & 3]; });
    }
    for (size_t n : {31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257}) {
        gen(n, [](size_t) { return 0; });
        gen(n, [](size_t) { return 9; });
        gen(n, [](size_t i) { return i; });
        gen(n, [](size_t i) { return i % 2 ? 1ULL << (i % 40) : 3; });
    }
    gen(3000, [](size_t i) { return (i * 2654435761ULL >> 7) % 250; });
    return r;
}
static vector<Text> text_list(int lv, bool byte)
{
    vector<Text> r = {{'a', 'b', 'r', 'a', 'c', 'a', 'd', 'a', 'b', 'r', 'a'}, {1, 1, 1, 1, 1}, {'x'}};
    if (!byte) r[0] = {3, 700, 3, 3, 9, 700, 3, 3, 9};
    if (lv == 0) return r;
    r.push_back({});
    for (size_t n = 1; n <= 4; ++n)
        for (size_t x = 0; x < (n == 1 ? 3u : n == 2 ? 9u : n == 3 ? 27u : 81u); ++x) {
            Text t(n);
            size_t y = x;
            for (auto& c : t) { c = 1 + y % 3; y /= 3; }
            r.push_back(t);
        }
    for (int f = 0; f < FAM_COUNT; ++f) for (size_t n : {33, 200}) {
        Text t = family(f, n);
        r.push_back(t);
    }
    return r;
}
template<class T> static string showc(const T& b)
{
    if (b.size() <= 40) return mc::str(b);
    return mc::cat("[", b.size(), " elements, hash ", foldall(b), "]");
}

// ---- bit vector with supports
template<class BV, class R, class S, int PAT = 1, int LEN = 1>
struct Bun {
    typedef uint64_t size_type;
    BV b;
    R r;
    S s;
    Bun() { bind(); }
    explicit Bun(const bit_vector& v) : b(v), r(&b), s(&b) {}
    Bun(const Bun& o) : b(o.b), r(o.r), s(o.s) { bind(); }
    Bun(Bun&& o) : b(move(o.b)), r(move(o.r)), s(move(o.s)) { bind(); o.bind(); }
    Bun& operator=(const Bun& o) { b = o.b; r = o.r; s = o.s; bind(); return *this; }
    Bun& operator=(Bun&& o) { b = move(o.b); r = move(o.r); s = move(o.s); bind(); o.bind(); return *this; }
    void swap(Bun& o) { b.swap(o.b); util::swap_support(r, o.r, &b, &o.b); util::swap_support(s, o.s, &b, &o.b); }
    void bind() { r.set_vector(&b); s.set_vector(&b); }
    uint64_t serialize(ostream& out, structure_tree_node* v = nullptr, string name = "") const
    {
        auto* c = structure_tree::add_child(v, name, util::class_name(*this));
        uint64_t w = b.serialize(out, c, "b") + r.serialize(out, c, "r") + s.serialize(out, c, "s");
        structure_tree::add_size(c, w);
        return w;
    }
    void load(istream& in) { b.load(in); r.load(in, &b); s.load(in, &b); }
};
template<class BV, class R, class S, int PAT = 1, int LEN = 1>
struct SBv {
    typedef Bun<BV, R, S, PAT, LEN> type;
    typedef vector<uint8_t> content;
    static vector<content> contents(int lv)
    {
        return bits_list(lv);
    }
    static unique_ptr<type> make(const content& c)
    {
        bit_vector b(c.size());
        for (size_t i = 0; i < c.size(); ++i) b[i] = c[i];
        return unique_ptr<type>(new type(b));
    }
    static void queries(const type& t, const content& c, Qs<type>& q)
    {
        size_t n = c.size(), k = 0;
        Q_("size", t.b.size());
        for (size_t i = 0; i < n; ++i) if (pick(i, n)) Q_(mc::cat("[", i, "]"), (uint64_t)t.b[i]);
        for (size_t i = 0; i <= n; ++i) if (pick(i, n)) Q_(mc::cat("rank(", i, ")"), t.r(i));
        for (size_t i = LEN - 1; PAT != 2 && i < n; ++i) k += LEN == 1 ? c[i] == (PAT & 1) : (c[i - 1] * 2 + c[i] == (PAT / 10) * 2 + PAT % 10);
        for (size_t i = 1; i <= k; ++i) if (pick(i, k)) Q_(mc::cat("select(", i, ")"), t.s(i));
        for (size_t i = 0; i < n; ++i) if (pick(i, n)) Q_(mc::cat("get_int(", i, ")"), t.b.get_int(i, min<size_t>(64, n - i)));
    }
    static void basic(Qs<type>& q) { Q_("size", t.b.size()); }
};
// a select that is never asked
struct NoSel {
    template<class V> NoSel(const V*) {}
    NoSel() {}
    uint64_t operator()(uint64_t) const { return 0; }
    template<class V> void set_vector(const V*) {}
    template<class V> void load(istream&, const V*) {}
    void swap(NoSel&) {}
    uint64_t serialize(ostream&, structure_tree_node*, string) const { return 0; }
};
template<class BV, bool ONE> struct SBvT : SBv<BV, typename BV::rank_1_type, typename BV::select_1_type, 1, 1> {};
template<class BV> struct SBvT<BV, false> : SBv<BV, typename BV::rank_0_type, typename BV::select_0_type, 0, 1> {};
// ---- int_vector
template<uint8_t W, uint8_t w> struct SIv {
    typedef int_vector<W> type;
    typedef Seq content;
    static vector<content> contents(int lv) { return ints_list(lv, w == 64 ? ~0ULL : (1ULL << w) - 1); }
    static unique_ptr<type> make(const content& c)
    {
        unique_ptr<type> v(new type(c.size(), 0, w));
        for (size_t i = 0; i < c.size(); ++i) (*v)[i] = c[i];
        return v;
    }
    static void queries(const type& t, const content& c, Qs<type>& q)
    {
        Q_("size", t.size());
        Q_("width", t.width());
        Q_("bit_size", t.bit_size());
        for (size_t i = 0; i < c.size(); ++i) if (pick(i, c.size())) Q_(mc::cat("[", i, "]"), (uint64_t)t[i]);
        for (size_t i = 0; i < t.bit_size(); i += 1 + t.bit_size() / 64) Q_(mc::cat("get_int(", i, ")"), t.get_int(i, min<size_t>(64, t.bit_size() - i)));
        Q_("iterate", foldall(t));
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); Q_("empty", t.empty()); }
};
// ---- compressed integer vectors
template<class V, bool INC = false> struct SSeq {
    typedef V type;
    typedef Seq content;
    static vector<content> contents(int lv) { return ints_list(lv, 1ULL << 50); }
    static unique_ptr<type> make(const content& c) { return unique_ptr<type>(new type(c)); }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        Q_("size", t.size());
        for (size_t i = 0; i < c.size(); ++i) if (pick(i, c.size())) Q_(mc::cat("[", i, "]"), (uint64_t)t[i]);
        Q_("iterate", foldall(t));
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); Q_("empty", t.empty()); }
};
// ---- wavelet trees
template<class V> static auto lexq(const V&, const Seq& c, Qs<V>& q, int) -> typename enable_if<V::lex_ordered>::type
{
    typedef V type;
    size_t n = c.size();
    for (size_t i = 0; i < n; i += 1 + n / 8)
        Q_(mc::cat("lex_count(", i, ")"), (fold(fold(get<0>(t.lex_count(0, n, c[i])), get<1>(t.lex_count(i, n, c[i]))), get<2>(t.lex_count(0, i, c[i])))));
    if (n) Q_("quantile_freq", fold(quantile_freq(t, 0, n - 1, n / 2).first, quantile_freq(t, 0, n - 1, n / 2).second));
}
template<class V> static void lexq(const V&, const Seq&, Qs<V>&, long) {}
template<class V> static auto symq(const V& w, const Seq& c, Qs<V>& q, int) -> decltype((void)w.root())
{
    typedef V type;
    size_t n = c.size();
    if (n) for (size_t i = 0; i < n; i += 1 + n / 5)
        q.push_back({mc::cat("interval_symbols(", i, ")"), [=](const type& t) -> uint64_t {
            typename V::size_type k = 0;
            vector<typename V::value_type> cs(t.sigma + 1);
            vector<typename V::size_type> a(t.sigma + 1), b(t.sigma + 1);
            interval_symbols(t, i, n, k, cs, a, b);
            uint64_t h = k;
            for (size_t j = 0; j < k; ++j) h += fold(fold(cs[j] + 7, a[j] + 1), b[j] + 1);
            return h;
        }});
}
template<class V> static void symq(const V&, const Seq&, Qs<V>&, long) {}
template<class V, int NB> struct SWt {
    typedef V type;
    typedef Seq content;
    static vector<content> contents(int lv)
    {
        auto l = ints_list(lv, NB == 1 ? 255 : 1000);
        if (!lv) return l;
        vector<Seq> r;
        for (auto& s : l) if (s.size() != 4 || foldall(s) % 2) r.push_back(s);
        return r;
    }
    static unique_ptr<type> make(const content& c)
    {
        unique_ptr<type> v(new type());
        if (NB == 1) {
            string s(c.begin(), c.end());
            construct_im(*v, s, 1);
        } else {
            int_vector<> s(c.size(), 0, 16);
            for (size_t i = 0; i < c.size(); ++i) s[i] = c[i];
            construct_im(*v, s, 0);
        }
        return v;
    }
    static void queries(const type& t, const content& c, Qs<type>& q)
    {
        size_t n = c.size();
        Q_("size", t.size());
        Q_("sigma", t.sigma);
        map<uint64_t, size_t> o;
        for (size_t i = 0; i < n; ++i) {
            ++o[c[i]];
            if (!pick(i, n)) continue;
            uint64_t x = c[i], k = o[x];
            Q_(mc::cat("[", i, "]"), (uint64_t)t[i]);
            Q_(mc::cat("inverse_select(", i, ")"), fold(t.inverse_select(i).first, t.inverse_select(i).second));
            Q_(mc::cat("select(", k, ",", x, ")"), t.select(k, x));
            Q_(mc::cat("rank(", i, ",", x, ")"), t.rank(i, x));
            if (n <= 40) for (uint64_t y : {c[0], c[n - 1], (uint64_t)4}) Q_(mc::cat("rank(", i, ",", y, ")"), t.rank(i, y));
        }
        lexq<V>(t, c, q, 0);
        symq<V>(t, c, q, 0);
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); Q_("empty", t.empty()); }
};
// ---- suffix arrays
template<class V> static void csa_queries(const Ref& r, Qs<V>& q)
{
    typedef V type;
    typedef typename V::char_type ch;
    size_t n = r.n;
    Q_("size", t.size());
    Q_("sigma", t.sigma);
    for (size_t i = 0; i < n; ++i) {
        if (!pick(i, n)) continue;
        Q_(mc::cat("[", i, "]"), t[i]);
        Q_(mc::cat("isa[", i, "]"), t.isa[i]);
        Q_(mc::cat("psi[", i, "]"), t.psi[i]);
        Q_(mc::cat("lf[", i, "]"), t.lf[i]);
        Q_(mc::cat("bwt[", i, "]"), t.bwt[i]);
        Q_(mc::cat("F[", i, "]"), t.F[i]);
        Q_(mc::cat("text[", i, "]"), t.text[i]);
    }
    set<uint64_t> cs(r.t.begin(), r.t.end());
    size_t k = 0;
    for (uint64_t c : cs) {
        if (k > 20 && k % 16) { ++k; continue; }
        Q_(mc::cat("char2comp[", c, "]"), t.char2comp[c]);
        Q_(mc::cat("comp2char[", k, "]"), t.comp2char[k]);
        Q_(mc::cat("C[", k, "]"), t.C[k]);
        Q_(mc::cat("bwt.select(1,", c, ")"), t.bwt.select(1, c));
        for (size_t i = 0; i <= n; i += 1 + n / 12) Q_(mc::cat("bwt.rank(", i, ",", c, ")"), t.bwt.rank(i, c));
        ++k;
    }
    if (n > 1) {
        Q_("extract", foldall(extract(t, 0, n - 2)));
        for (size_t i = 0; i + 1 < n; i += 1 + n / 6)
            q.push_back({mc::cat("count/locate of text[", i, "..]"), [=](const type& t) -> uint64_t {
                vector<ch> p(r.t.begin() + i, r.t.begin() + min(n - 1, i + 3));
                auto l = locate(t, p.begin(), p.end());
                uint64_t h = sdsl::count(t, p.begin(), p.end());
                for (auto x : l) h += fold(x, 5);
                return h;
            }});
    }
}
template<class V, int NB> struct STextBase {
    typedef V type;
    typedef Text content;
    static vector<content> contents(int lv) { return text_list(lv, NB == 1); }
    static unique_ptr<type> make(const content& c)
    {
        unique_ptr<type> v(new type());
        if (NB == 1) {
            string s(c.begin(), c.end());
            construct_im(*v, s, 1);
        } else {
            int_vector<> s(c.size(), 0, 16);
            for (size_t i = 0; i < c.size(); ++i) s[i] = c[i];
            construct_im(*v, s, 0);
        }
        return v;
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); Q_("empty", t.empty()); }
};
template<class V, int NB> struct SCsa : STextBase<V, NB> {
    static void queries(const V&, const Text& c, Qs<V>& q)
    {
        Ref r;
        r.make(c);
        csa_queries<V>(r, q);
    }
};
// ---- suffix trees
template<class V> static auto idq(const V&, typename V::node_type w, Qs<V>& q, size_t i, int) -> decltype((*(V*)0).id(w), void())
{
    typedef V type;
    Q_(mc::cat("id(node ", i, ")"), t.id(w));
    Q_(mc::cat("sn(node ", i, ")"), t.is_leaf(w) ? t.sn(w) : 0);
    Q_(mc::cat("lcp at node ", i), t.lcp[t.lb(w)]);
}
template<class V> static void idq(const V&, typename V::node_type, Qs<V>&, size_t, long) {}
template<class V> static auto csaq(const V& t, const Ref& r, Qs<V>& q, int) -> decltype(t.csa[0], void())
{
    typedef V type;
    for (size_t i = 0; i < r.n; i += 1 + r.n / 12) Q_(mc::cat("csa[", i, "]"), fold(t.csa[i], t.csa.isa[i]));
}
template<class V> static auto lcpq(const V& v, const Ref& r, Qs<V>& q, int) -> decltype(v.lcp[0], void())
{
    typedef V type;
    for (size_t i = 0; i < r.n; i += 1 + r.n / 20) Q_(mc::cat("lcp[", i, "]"), t.lcp[i]);
    Q_("lcp of the last suffix", t.lcp[v.size() - 1]);
}
template<class V> static void lcpq(const V&, const Ref&, Qs<V>&, long) {}
template<class V, int NB> struct SCst : STextBase<V, NB> {
    typedef V type;
    static vector<Text> contents(int lv)
    {
        auto r = text_list(lv, NB == 1);
        if (lv && SG != 20) { // LCP values beyond a byte: the extra tables of the LCP structures (the fully compressed tree has none)
            r.push_back(Text(620, 5));
            Text t(300, 5);
            t.push_back(6);
            t.insert(t.end(), 290, 5);
            t.push_back(7);
            r.push_back(t);
        }
        if (SG == 20) { // slow: fewer long texts
            size_t k = 0;
            r.erase(remove_if(r.begin(), r.end(), [&](const Text& t) { return t.size() > 100 && k++ % 3; }), r.end());
        }
        return r;
    }
    static void queries(const V& v, const Text& c, Qs<V>& q)
    {
        Ref r;
        r.make(c);
        typedef typename V::node_type N;
        Q_("size", t.size());
        Q_("nodes", t.nodes());
        csaq<V>(v, r, q, 0);
        lcpq<V>(v, r, q, 0);
        auto num = [](const V& t, const N& w) -> uint64_t { return fold(t.lb(w) + 1, t.rb(w)); };
        vector<N> nd;
        vector<N> st = {v.root()};
        while (!st.empty()) { // without the tree's iterators
            N w = st.back();
            st.pop_back();
            nd.push_back(w);
            if (!v.is_leaf(w)) { size_t d = v.degree(w); for (size_t i = 1; i <= d; ++i) st.push_back(v.select_child(w, i)); }
        }
        size_t m = nd.size();
        set<uint64_t> cs(r.t.begin(), r.t.end());
        cs.erase(0);
        vector<uint64_t> syms;
        for (auto x : cs) if (syms.size() < 4) syms.push_back(x);
        Q_("root", num(t, t.root()));
        if (r.n > 1)
            for (size_t i = 0; i < m; ++i) {
                if (m > 40 && i % (m > 500 ? 97 : 13) && i > 3) continue;
                N w = nd[i];
                Q_(mc::cat("bounds of node ", i), num(t, w));
                Q_(mc::cat("depth of node ", i), t.depth(w));
                Q_(mc::cat("node_depth of node ", i), t.node_depth(w));
                Q_(mc::cat("parent of node ", i), num(t, t.parent(w)));
                Q_(mc::cat("sibling of node ", i), num(t, t.sibling(w)));
                Q_(mc::cat("degree of node ", i), t.degree(w));
                if (!(v.is_leaf(w) && v.lb(w) == 0)) Q_(mc::cat("sl of node ", i), num(t, t.sl(w)));
                if (!v.is_leaf(w)) Q_(mc::cat("select_child 2 of node ", i), num(t, t.select_child(w, 2)));
                if (i) Q_(mc::cat("edge of node ", i), t.edge(w, 1));
                for (auto s : syms) {
                    Q_(mc::cat("child ", s, " of node ", i), num(t, t.child(w, (typename V::char_type)s)));
                    Q_(mc::cat("wl ", s, " of node ", i), num(t, t.wl(w, (typename V::char_type)s)));
                }
                idq<V>(v, w, q, i, 0);
                for (size_t j = 0; j < m; j += 1 + m / 6) { N u = nd[j]; Q_(mc::cat("lca of nodes ", i, " and ", j), num(t, t.lca(w, u))); }
            }
        q.push_back({"preorder traversal", [](const V& t) -> uint64_t {
            uint64_t h = 1;
            for (auto it = t.begin(); it != t.end(); ++it) h = fold(fold(h, t.lb(*it)), t.rb(*it) * 2 + (it.visit() == 1));
            return h;
        }});
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); }
};
// ---- structures over balanced parentheses: the sequence and its support
template<class S, class B = bit_vector> struct BpBun {
    typedef uint64_t size_type;
    B b;
    S s;
    BpBun() {}
    explicit BpBun(const B& v) : b(v), s(&b) {}
    BpBun(const BpBun& o) : b(o.b), s(o.s) { bind(); }
    BpBun(BpBun&& o) : b(move(o.b)), s(move(o.s)) { bind(); o.bind(); }
    BpBun& operator=(const BpBun& o) { b = o.b; s = o.s; bind(); return *this; }
    BpBun& operator=(BpBun&& o) { b = move(o.b); s = move(o.s); bind(); o.bind(); return *this; }
    void swap(BpBun& o) { b.swap(o.b); s.swap(o.s); bind(); o.bind(); }
    void bind() { s.set_vector(&b); }
    uint64_t serialize(ostream& out, structure_tree_node* v = nullptr, string name = "") const
    {
        auto* c = structure_tree::add_child(v, name, util::class_name(*this));
        uint64_t w = b.serialize(out, c, "b") + s.serialize(out, c, "s");
        structure_tree::add_size(c, w);
        return w;
    }
    void load(istream& in) { b.load(in); s.load(in, &b); }
};
static vector<vector<uint8_t>> bp_list(int lv)
{
    vector<vector<uint8_t>> r;
    auto nest = [](size_t k, size_t w) { vector<uint8_t> b; for (size_t i = 0; i < w; ++i) { for (size_t j = 0; j < k; ++j) b.push_back(1); for (size_t j = 0; j < k; ++j) b.push_back(0); } vector<uint8_t> c = {1}; c.insert(c.end(), b.begin(), b.end()); c.push_back(0); return c; };
    r = {nest(2, 3), {1, 0}, nest(3, 40)};
    if (!lv) return r;
    for (size_t n = 1; n <= 4; ++n)
        for (size_t x = 0; x < (1u << 2 * n); ++x) {
            int e = 0;
            vector<uint8_t> b;
            for (size_t i = 0; i < 2 * n && e >= 0; ++i) { b.push_back(x >> i & 1); e += b.back() ? 1 : -1; }
            if (e == 0 && b.size() == 2 * n) r.push_back(b);
        }
    r.push_back(nest(500, 1));
    r.push_back(nest(1, 700));
    r.push_back(nest(60, 30));
    return r;
}
template<class S> struct SBp {
    typedef BpBun<S> type;
    typedef vector<uint8_t> content;
    static vector<content> contents(int lv) { return bp_list(lv); }
    static unique_ptr<type> make(const content& c)
    {
        bit_vector b(c.size());
        for (size_t i = 0; i < c.size(); ++i) b[i] = c[i];
        return unique_ptr<type>(new type(b));
    }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        size_t n = c.size(), ones = 0;
        Q_("size", t.s.size());
        for (size_t i = 0; i < n; ++i) {
            ones += c[i];
            if (!pick(i, n)) continue;
            Q_(mc::cat("excess(", i, ")"), t.s.excess(i));
            Q_(mc::cat("rank(", i, ")"), t.s.rank(i));
            if (c[i]) {
                Q_(mc::cat("find_close(", i, ")"), t.s.find_close(i));
                Q_(mc::cat("enclose(", i, ")"), t.s.enclose(i));
                Q_(mc::cat("select(", ones, ")"), t.s.select(ones));
            } else Q_(mc::cat("find_open(", i, ")"), t.s.find_open(i));
            Q_(mc::cat("rr_enclose(0,", i, ")"), i && c[i] && c[0] ? t.s.double_enclose(0, i) : 0);
        }
    }
    static void basic(Qs<type>& q) { Q_("size", t.s.size()); }
};
// ---- range minimum structures (the succinct ones do not refer to the sequence after construction)
template<class S> struct SRmq {
    typedef S type;
    typedef Seq content;
    static vector<content> contents(int lv)
    {
        vector<Seq> r;
        for (auto& s : ints_list(lv, 1000)) if (!s.empty() && s.size() < 400) r.push_back(s);
        return r;
    }
    static unique_ptr<type> make(const content& c) { int_vector<> v(c.size(), 0, 16); for (size_t i = 0; i < c.size(); ++i) v[i] = c[i]; return unique_ptr<type>(new type(&v)); }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        size_t n = c.size();
        Q_("size", t.size());
        for (size_t i = 0; i < n; i += 1 + n / 25) for (size_t j = i; j < n; j += 1 + n / 25) Q_(mc::cat("(", i, ",", j, ")"), t(i, j));
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); }
};
// the sparse table refers to its sequence
template<bool MIN> struct SSparse {
    typedef BpBun<rmq_support_sparse_table<int_vector<>, MIN>, int_vector<>> type;
    typedef Seq content;
    static vector<content> contents(int lv) { return SRmq<rmq_succinct_sct<>>::contents(lv); }
    static unique_ptr<type> make(const content& c) { int_vector<> v(c.size(), 0, 16); for (size_t i = 0; i < c.size(); ++i) v[i] = c[i]; return unique_ptr<type>(new type(v)); }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        size_t n = c.size();
        Q_("size", t.s.size());
        for (size_t i = 0; i < n; i += 1 + n / 25) for (size_t j = i; j < n; j += 1 + n / 25) Q_(mc::cat("(", i, ",", j, ")"), t.s(i, j));
    }
    static void basic(Qs<type>& q) { Q_("size", t.s.size()); }
};
// ---- permutation with inverse support
template<class S> struct PermBun {
    typedef uint64_t size_type;
    int_vector<> b;
    S s;
    PermBun() { bind(); }
    explicit PermBun(const int_vector<>& v) : b(v), s(&b) {}
    PermBun(const PermBun& o) : b(o.b), s(o.s) { bind(); }
    PermBun(PermBun&& o) : b(move(o.b)), s(move(o.s)) { bind(); o.bind(); }
    PermBun& operator=(const PermBun& o) { b = o.b; s = o.s; bind(); return *this; }
    PermBun& operator=(PermBun&& o) { b = move(o.b); s = move(o.s); bind(); o.bind(); return *this; }
    void swap(PermBun& o) { b.swap(o.b); s.swap(o.s); bind(); o.bind(); }
    void bind() { s.set_vector(&b); }
    uint64_t serialize(ostream& out, structure_tree_node* v = nullptr, string name = "") const
    {
        auto* c = structure_tree::add_child(v, name, util::class_name(*this));
        uint64_t w = b.serialize(out, c, "b") + s.serialize(out, c, "s");
        structure_tree::add_size(c, w);
        return w;
    }
    void load(istream& in) { b.load(in); s.load(in); bind(); }
};
template<class S> struct SPerm {
    typedef PermBun<S> type;
    typedef Seq content;
    static vector<content> contents(int lv)
    {
        vector<Seq> r;
        auto aff = [&](size_t n, size_t a, size_t b) { Seq p(n); for (size_t i = 0; i < n; ++i) p[i] = (i * a + b) % n; r.push_back(p); };
        aff(41, 7, 3); aff(4, 1, 1); aff(97, 5, 0);
        if (!lv) return r;
        for (size_t n = 1; n <= 5; ++n) { Seq p(n); iota(p.begin(), p.end(), 0); do r.push_back(p); while (next_permutation(p.begin(), p.end())); }
        aff(1000, 1, 1); aff(1001, 2, 5);
        return r;
    }
    static unique_ptr<type> make(const content& c) { int_vector<> v(c.size(), 0, 16); for (size_t i = 0; i < c.size(); ++i) v[i] = c[i]; return unique_ptr<type>(new type(v)); }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        Q_("size", t.s.size());
        for (size_t i = 0; i < c.size(); ++i) if (pick(i, c.size())) Q_(mc::cat("inv[", i, "]"), t.s[i]);
    }
    static void basic(Qs<type>& q) { Q_("size", t.s.size()); }
};
// ---- dictionaries of positions
template<class S> struct SNn {
    typedef S type;
    typedef vector<uint8_t> content;
    static vector<content> contents(int lv) { auto r = bits_list(lv); if (lv) r.erase(remove_if(r.begin(), r.end(), [](const content& c) { return c.size() > 3000; }), r.end()); return r; }
    static unique_ptr<type> make(const content& c) { bit_vector b(c.size()); for (size_t i = 0; i < c.size(); ++i) b[i] = c[i]; return unique_ptr<type>(new type(b)); }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        Q_("size", t.size());
        Q_("ones", t.ones());
        size_t k = 0, tot = 0;
        for (auto x : c) tot += x;
        for (size_t i = 0; i < c.size(); ++i) {
            if (pick(i, c.size())) {
                Q_(mc::cat("rank(", i, ")"), t.rank(i));
                if (k < tot) Q_(mc::cat("next(", i, ")"), t.next(i));
                if (k || c[i]) Q_(mc::cat("prev(", i, ")"), t.prev(i));
            }
            k += c[i];
        }
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); }
};
struct SNnDyn {
    typedef nn_dict_dynamic type;
    typedef vector<uint8_t> content;
    static vector<content> contents(int lv) { auto r = bits_list(lv); r.erase(remove_if(r.begin(), r.end(), [](const content& c) { return c.size() > 6000 || c.size() < 1; }), r.end()); return r; }
    static unique_ptr<type> make(const content& c) { unique_ptr<type> d(new type(c.size())); for (size_t i = 0; i < c.size(); ++i) (*d)[i] = c[i]; return d; }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        Q_("size", t.size());
        for (size_t i = 0; i < c.size(); ++i) if (pick(i, c.size())) {
            Q_(mc::cat("[", i, "]"), (bool)t[i]);
            Q_(mc::cat("next(", i, ")"), t.next(i));
            Q_(mc::cat("prev(", i, ")"), t.prev(i));
        }
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); }
};
// ---- stacks
template<class S> struct Dflt : S { // with a default constructor and swap
    Dflt() : S(5) {}
    using S::S;
    void swap(Dflt& o) { std::swap((S&)*this, (S&)o); }
};
template<class S, bool INCR> struct SStack {
    typedef S type;
    typedef Seq content;
    static vector<content> contents(int lv)
    {
        vector<Seq> r;
        for (auto s : ints_list(lv, 1000)) { sort(s.begin(), s.end()); if (INCR) s.erase(unique(s.begin(), s.end()), s.end()); r.push_back(s); }
        return r;
    }
    static unique_ptr<type> make(const content& c) { unique_ptr<type> s(new type(1100 + c.size())); for (auto x : c) s->push(x); return s; }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        Q_("size", t.size());
        q.push_back({"drain a copy", [](const type& t) -> uint64_t { type u(t); uint64_t h = 1; while (!u.empty()) { h = fold(h, u.top()); u.pop(); } return h; }});
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); Q_("empty", t.empty()); }
};
// ---- k2 structures
template<class S> struct STreap {
    typedef S type;
    typedef Seq content; // x, y, w triples
    static vector<content> contents(int lv)
    {
        vector<Seq> r;
        auto g = [&](size_t n, size_t m) { Seq s; for (size_t i = 0; i < n; ++i) { s.push_back(i); s.push_back(i * i % m); s.push_back(i * 7 % 5); } r.push_back(s); };
        g(10, 7); g(1, 1); g(60, 60);
        if (!lv) return r;
        for (size_t x = 0; x < 512; ++x) { Seq s; for (size_t i = 0; i < 9; ++i) if (x >> i & 1) { s.push_back(i / 3); s.push_back(i % 3); s.push_back(i + 1); } r.push_back(s); }
        g(300, 257);
        return r;
    }
    static unique_ptr<type> make(const content& c)
    {
        vector<array<uint64_t, 3>> p;
        for (size_t i = 0; i < c.size(); i += 3) p.push_back({c[i], c[i + 1], c[i + 2]});
        unique_ptr<type> v(new type());
        construct_im(*v, p);
        return v;
    }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        Q_("size", t.size());
        typedef k2_treap_ns::point_type pt;
        for (uint64_t a : {0, 1, 3}) for (uint64_t b : {0, 2, 5, 100}) {
            Q_(mc::cat("count ", a, ",", b), sdsl::count(t, pt(a, 0), pt(max(a, b), b)));
            q.push_back({mc::cat("top_k ", a, ",", b), [=](const type& t) -> uint64_t { uint64_t h = 0; int k = 0; for (auto it = sdsl::top_k(t, pt(a, 0), pt(max(a, b), b)); it && k < 400; ++it, ++k) h += fold(fold(real((*it).first), imag((*it).first)), (*it).second + 1); return h; }});
        }
    }
    static void basic(Qs<type>& q) { Q_("size", t.size()); }
};
template<class S> struct SK2 {
    typedef S type;
    typedef Seq content; // n, edges
    static vector<content> contents(int lv)
    {
        vector<Seq> r;
        auto g = [&](size_t n, size_t m) { Seq s = {n}; for (size_t i = 0; i < n; ++i) s.push_back(i * n + i * i % m); r.push_back(s); };
        g(10, 7); g(1, 1); g(40, 40);
        if (!lv) return r;
        for (size_t x = 1; x < 512; ++x) { Seq s = {3}; for (size_t i = 0; i < 9; ++i) if (x >> i & 1) s.push_back(i); r.push_back(s); }
        g(100, 97);
        return r;
    }
    static unique_ptr<type> make(const content& c)
    {
        vector<tuple<uint64_t, uint64_t>> e;
        for (size_t i = 1; i < c.size(); ++i) e.emplace_back(c[i] / c[0], c[i] % c[0]);
        return unique_ptr<type>(new type(e, c[0]));
    }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        size_t n = c[0];
        for (size_t i = 0; i < n; i += 1 + n / 12) {
            for (size_t j = 0; j < n; j += 1 + n / 12) Q_(mc::cat("adj(", i, ",", j, ")"), t.adj(i, j));
            Q_(mc::cat("neigh(", i, ")"), foldall(t.neigh(i)));
            Q_(mc::cat("reverse_neigh(", i, ")"), foldall(t.reverse_neigh(i)));
        }
        q.push_back({"range", [=](const type& t) -> uint64_t { uint64_t h = 0; for (auto p : t.range(0, n - 1, 0, n - 1)) h += fold(p.first + 1, p.second); return h; }});
    }
    static void basic(Qs<type>&) {}
};
// ---- louds tree of a suffix tree
template<class L> struct LoudsD : L { // with a default constructor: the tree of a text of one symbol
    static cst_sct3<>& one() { static cst_sct3<>* c = nullptr; if (!c) { c = new cst_sct3<>(); construct_im(*c, string("a"), 1); } return *c; }
    LoudsD() : L(one(), cst_bfs_iterator<cst_sct3<>>(&one(), one().root()), cst_bfs_iterator<cst_sct3<>>(&one(), one().root(), true, true)) {}
    LoudsD(const cst_sct3<>& c) : L(c, cst_bfs_iterator<cst_sct3<>>(&c, c.root()), cst_bfs_iterator<cst_sct3<>>(&c, c.root(), true, true)) {}
};
template<class L> struct SLouds {
    typedef LoudsD<L> type;
    typedef Text content;
    static vector<content> contents(int lv) { auto r = text_list(lv, true); if (!lv) r.push_back({1, 2, 1}); return r; }
    static unique_ptr<type> make(const content& c)
    {
        string s(c.begin(), c.end());
        cst_sct3<> cst;
        construct_im(cst, s, 1);
        return unique_ptr<type>(new type(cst));
    }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        (void)c;
        Q_("nodes", t.nodes());
        q.push_back({"all nodes", [](const type& t) -> uint64_t {
            uint64_t h = 0;
            vector<typename L::node_type> st = {t.root()};
            for (size_t i = 0; i < st.size() && i < 5000; ++i) {
                auto w = st[i];
                size_t d = t.degree(w);
                h = fold(fold(h, t.id(w)), d * 2 + t.is_leaf(w));
                for (size_t k = 1; k <= d && k < 5000; ++k) { st.push_back(t.child(w, k)); h = fold(h, t.parent(st.back()) == w); }
            }
            return h;
        }});
    }
    static void basic(Qs<type>&) {}
};
// ---- alphabets
template<class A, bool INT> struct SAlpha {
    typedef A type;
    typedef Text content;
    static vector<content> contents(int lv) { return text_list(lv, !INT); }
    static unique_ptr<type> make(const content& c)
    {
        {
            int_vector<INT ? 0 : 8> v(c.size() + 1, 0, INT ? 16 : 8);
            for (size_t i = 0; i < c.size(); ++i) v[i] = c[i];
            store_to_file(v, "@alpha");
        }
        int_vector_buffer<INT ? 0 : 8> buf("@alpha");
        return unique_ptr<type>(new type(buf, c.size() + 1));
    }
    static void queries(const type&, const content& c, Qs<type>& q)
    {
        set<uint64_t> cs(c.begin(), c.end());
        cs.insert(0);
        size_t k = 0;
        Q_("sigma", t.sigma);
        for (auto x : cs) {
            Q_(mc::cat("char2comp[", x, "]"), t.char2comp[x]);
            Q_(mc::cat("char2comp[", x + 1, "]"), x < 255 ? t.char2comp[x + 1] : 0);
            Q_(mc::cat("comp2char[", k, "]"), t.comp2char[k]);
            Q_(mc::cat("C[", k, "]"), t.C[k]);
            ++k;
        }
        Q_("C[sigma]", t.C[k]);
    }
    static void basic(Qs<type>& q) { Q_("sigma", t.sigma); }
};

// contents for query checks: the short list, some tiny ones and the long families
template<class S> static vector<typename S::content> some_contents(bool all)
{
    auto a = S::contents(1);
    a.erase(remove_if(a.begin(), a.end(), [](const typename S::content& c) { return c.size() > 3000; }), a.end());
    if (all) return a;
    auto r = S::contents(0);
    for (size_t i = r.size(); i < a.size(); ++i) if (i % 29 == 7 || i + 14 > a.size()) r.push_back(a[i]);
    return r;
}
// ---- groups
#if SG == 1
typedef Types<SIv<0, 1>, SIv<0, 7>, SIv<0, 64>, SIv<1, 1>, SIv<8, 8>, SIv<16, 16>, SIv<32, 32>, SIv<64, 64>> Subjects;
#elif SG == 2
typedef Types<SBv<bit_vector, rank_support_v<>, select_support_mcl<>>, SBv<bit_vector, rank_support_v<0>, select_support_mcl<0>, 0, 1>, SBv<bit_vector, rank_support_v<10, 2>, select_support_mcl<10, 2>, 10, 2>,
    SBv<bit_vector, rank_support_v5<>, select_support_scan<>>, SBv<bit_vector, rank_support_v5<01, 2>, select_support_mcl<01, 2>, 1, 2>, SBv<bit_vector, rank_support_scan<>, select_support_scan<>>> Subjects;
#elif SG == 3
typedef Types<SBvT<bit_vector_il<>, true>, SBvT<bit_vector_il<64>, false>, SBvT<rrr_vector<63>, true>, SBvT<rrr_vector<63>, false>, SBvT<rrr_vector<15>, true>, SBvT<rrr_vector<127>, false>> Subjects;
#elif SG == 4
typedef Types<SBvT<sd_vector<>, true>, SBvT<sd_vector<>, false>, SBvT<sd_vector<rrr_vector<63>>, true>, SBv<hyb_vector<>, hyb_vector<>::rank_1_type, NoSel, 2, 1>, SBv<hyb_vector<8>, hyb_vector<8>::rank_0_type, NoSel, 2, 1>> Subjects;
#elif SG == 5
typedef Types<SSeq<enc_vector<>>, SSeq<enc_vector<coder::fibonacci, 7>>, SSeq<vlc_vector<>>, SSeq<vlc_vector<coder::comma<2>, 5>>, SSeq<dac_vector<>>, SSeq<dac_vector<1>>, SSeq<dac_vector_dp<>>, SSeq<dac_vector_dp<rrr_vector<63>>>> Subjects;
#elif SG == 6
typedef Types<SBp<bp_support_sada<>>, SBp<bp_support_sada<8, 2>>, SBp<bp_support_g<>>, SBp<bp_support_gg<>>, SBp<bp_support_gg<nearest_neighbour_dictionary<4>, rank_support_v<>, select_support_scan<>, 8>>> Subjects;
#elif SG == 7
typedef Types<SRmq<rmq_succinct_sct<>>, SRmq<rmq_succinct_sct<false>>, SRmq<rmq_succinct_sct<true, bp_support_gg<>>>, SRmq<rmq_succinct_sada<>>, SSparse<true>, SSparse<false>, SPerm<inv_perm_support<>>, SPerm<inv_perm_support<4, rrr_vector<63>, rrr_vector<63>::rank_1_type>>,
    SNn<nearest_neighbour_dictionary<30>>, SNn<nearest_neighbour_dictionary<3>>, SNnDyn, SStack<Dflt<sorted_multi_stack_support>, false>, SStack<Dflt<sorted_stack_support>, true>> Subjects;
#elif SG == 8
typedef Types<STreap<k2_treap<2, bit_vector>>, STreap<k2_treap<4, rrr_vector<63>>>, SK2<k2_tree<2, bit_vector>>, SK2<k2_tree<4, sd_vector<>>>, SLouds<louds_tree<>>, SLouds<louds_tree<rrr_vector<15>>>> Subjects;
#elif SG == 9
typedef Types<SAlpha<byte_alphabet, false>, SAlpha<succinct_byte_alphabet<>, false>, SAlpha<int_alphabet<>, true>> Subjects;
#elif SG == 11
typedef Types<SWt<wt_huff<>, 1>, SWt<wt_blcd<>, 1>, SWt<wt_hutu<rrr_vector<63>>, 1>, SWt<wt_rlmn<>, 1>, SWt<wt_huff<bit_vector_il<>>, 1>> Subjects;
#elif SG == 12
typedef Types<SWt<wt_int<>, 0>, SWt<wm_int<>, 0>, SWt<wt_int<rrr_vector<63>>, 0>, SWt<wt_huff<bit_vector, rank_support_v5<>, select_support_scan<1>, select_support_scan<0>, int_tree<>>, 0>> Subjects;
#elif SG == 13
typedef Types<SWt<wt_gmr<>, 0>, SWt<wt_gmr_rs<>, 0>, SWt<wt_ap<>, 0>, SWt<wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<1>, wt_int<>>, 0>> Subjects;
#elif SG == 14
typedef Types<SCsa<csa_wt<wt_huff<>, 4, 8>, 1>, SCsa<csa_wt<wt_huff<>, 3, 3, text_order_sa_sampling<>, text_order_isa_sampling_support<>>, 1>, SCsa<csa_wt<wt_huff<>, 3, 3, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>, 1>, SCsa<csa_wt<wt_blcd<>, 3, 5, sa_order_sa_sampling<>, isa_sampling<>, succinct_byte_alphabet<>>, 1>> Subjects;
#elif SG == 15
typedef Types<SCsa<csa_sada<enc_vector<coder::elias_delta, 4>, 4, 8>, 1>, SCsa<csa_sada<enc_vector<>, 3, 3, text_order_sa_sampling<>, text_order_isa_sampling_support<>>, 1>, SCsa<csa_sada<enc_vector<>, 3, 3, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>, 1>, SCsa<csa_bitcompressed<>, 1>> Subjects;
#elif SG == 16
typedef Types<SCsa<csa_wt<wt_int<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, 0>, SCsa<csa_sada<enc_vector<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>, 0>, SCsa<csa_bitcompressed<int_alphabet<>>, 0>, SCsa<csa_wt<wt_huff<>, 4, 8, sa_bwt_sampling<>>, 1>> Subjects;
#elif SG == 17
typedef Types<SCst<cst_sct3<>, 1>, SCst<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_support_sada<>>, 1>, SCst<cst_sct3<csa_sada<enc_vector<coder::elias_delta, 8>, 4, 4>, lcp_support_tree<>>, 1>> Subjects;
#elif SG == 18
typedef Types<SCst<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_support_tree2<3>>, 1>, SCst<cst_sct3<csa_bitcompressed<>, lcp_bitcompressed<>, bp_support_gg<>>, 1>, SCst<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_byte<>, bp_support_g<>>, 1>> Subjects;
#elif SG == 19
typedef Types<SCst<cst_sada<>, 1>, SCst<cst_sada<csa_wt<wt_huff<>, 4, 4>, lcp_support_tree2<2>>, 1>, SCst<cst_sada<csa_sada<enc_vector<coder::elias_delta, 8>, 4, 4>, lcp_support_tree<>, bp_support_gg<>>, 1>> Subjects;
#elif SG == 20
typedef Types<SCst<cst_fully<>, 1>, SCst<cst_fully<csa_sada<enc_vector<coder::elias_delta, 8>, 4, 4>, 4>, 1>, SCst<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_vlc<>>, 1>> Subjects;
#elif SG == 21
typedef Types<SCst<cst_sct3<csa_wt<wt_int<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>, 0>, SCst<cst_sada<csa_sada<enc_vector<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>, 0>, SCst<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_wt<>>, 1>> Subjects;
#endif
#define ALL_SG {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21}
