// C25: k2-trees answer adjacency, (reverse) neighbours and ranges as the adjacency matrix does.
#include "gen.hpp"
#include <sdsl/k2_tree.hpp>
#include <sdsl/bit_vectors.hpp>
#include <tuple>
#include <set>
using namespace std;
using namespace sdsl;
typedef vector<vector<int>> Mat;
typedef vector<tuple<uint64_t, uint64_t>> Edges;
typedef vector<pair<uint64_t, uint64_t>> PV;
static string showm(const Mat& m)
{
    string s = mc::cat("n=", m.size(), " edges={");
    for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) if (m[i][j]) s += mc::cat(i, ">", j, " ");
    return s + "}";
}
#define SUBJ(F)                                                          \
    F(0, "k2_tree<2>", 2, k2_tree<2, bit_vector>)                        \
    F(1, "k2_tree<3,rank_v>", 3, k2_tree<3, bit_vector, rank_support_v<>>) \
    F(2, "k2_tree<2,rrr>", 2, k2_tree<2, rrr_vector<63>>)                \
    F(3, "k2_tree<4,sd>", 4, k2_tree<4, sd_vector<>>)                    \
    F(4, "k2_tree<5,v5>", 5, k2_tree<5, bit_vector, rank_support_v5<>>)  \
    F(5, "k2_tree<7>", 7, k2_tree<7, bit_vector, rank_support_scan<>>)   \
    F(6, "k2_tree<16>", 16, k2_tree<16, bit_vector>)
static const int NS = 7;
static const int KS[NS] = {2, 3, 2, 4, 5, 7, 16};
enum { MATRIX, EDGES, FILE0, FILEN, WAYS };
static const char* wname[] = {"matrix", "edges", "file, size 0", "file, size n"};

// every row/column for small trees, those around powers of k for large ones
template<class T> static void queries(mc::Run& R, const T& t, const Mat& m, const vector<uint64_t>& q)
{
    size_t n = m.size();
    for (auto i : q) {
        vector<uint64_t> e, r;
        for (size_t j = 0; j < n; ++j) {
            if (m[i][j]) e.push_back(j);
            if (m[j][i]) r.push_back(j);
        }
        for (auto j : q) R.eqi(t.adj(i, j), m[i][j] == 1, "adj", i, j);
        auto g = t.neigh(i);
        sort(g.begin(), g.end());
        if (g != e) R.fail(mc::cat("neigh(", i, ") reports ", mc::str(g), " expected ", mc::str(e)));
        g = t.reverse_neigh(i);
        sort(g.begin(), g.end());
        if (g != r) R.fail(mc::cat("reverse_neigh(", i, ") reports ", mc::str(g), " expected ", mc::str(r)));
        R.transitions += 2;
        R.obs(e.size());
    }
    for (size_t a = 0; a < q.size(); ++a)
        for (size_t b = a; b < q.size(); ++b)
            for (size_t c = 0; c < q.size(); ++c)
                for (size_t d = c; d < q.size(); ++d) {
                    PV e;
                    for (size_t i = q[a]; i <= q[b]; ++i) for (size_t j = q[c]; j <= q[d]; ++j) if (m[i][j]) e.emplace_back(i, j);
                    auto g = t.range(q[a], q[b], q[c], q[d]);
                    sort(g.begin(), g.end());
                    if (PV(g.begin(), g.end()) != e) R.fail(mc::cat("range(", q[a], ",", q[b], ",", q[c], ",", q[d], ") reports ", g.size(), " edges, expected ", e.size()));
                    ++R.transitions;
                }
}
static Edges edges_of(const Mat& m, int order)
{
    Edges e;
    for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) if (m[i][j]) e.emplace_back(i, j);
    if (order == 1) reverse(e.begin(), e.end());
    if (order == 2) { Edges f; for (size_t i = 0; i < e.size(); ++i) f.push_back(e[(i * 7 + 3) % e.size()]); set<tuple<uint64_t, uint64_t>> s(f.begin(), f.end()); if (s.size() == e.size()) e = f; }
    if (order == 3) { Edges f = e; f.insert(f.end(), e.begin(), e.end()); e = f; } // duplicates
    return e;
}
template<class T> static T make(const Mat& m, int way, int order)
{
    if (way == MATRIX) return T(m);
    Edges e = edges_of(m, order);
    if (way == EDGES) return T(e, m.size());
    int_vector<> x(e.size(), 0, 64), y(e.size(), 0, order & 1 ? 8 : 64);
    for (size_t i = 0; i < e.size(); ++i) { x[i] = get<0>(e[i]); y[i] = get<1>(e[i]); }
    string f = "@c25";
    store_to_file(x, f + ".x");
    store_to_file(y, f + ".y");
    T t = way == FILE0 ? T(f) : T(f, m.size());
    sdsl::remove(f + ".x");
    sdsl::remove(f + ".y");
    return t;
}
template<class T> static void run1(mc::Run& R, const char* nm, const Mat& m, int way, int order, const vector<uint64_t>& q)
{
    R.run([&] { return mc::cat(nm, " from ", wname[way], " (order ", order, ") ", showm(m)); },
          [&] {
              bool any = false;
              uint64_t mx = 0;
              for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m.size(); ++j) if (m[i][j]) { any = true; mx = max<uint64_t>(mx, max(i, j)); }
              if (!any && way != MATRIX) return; // the edge list must not be empty
              Mat s = m;
              vector<uint64_t> qq = q;
              if (way == FILE0) {
                  s.resize(mx + 1);
                  for (auto& r : s) r.resize(mx + 1);
                  qq.erase(remove_if(qq.begin(), qq.end(), [&](uint64_t x) { return x > mx; }), qq.end());
              }
              T t = make<T>(m, way, order);
              queries(R, t, s, qq);
              if (way != FILE0) {
                  T u = make<T>(m, MATRIX, 0);
                  R.ck(t == u && u == t, "trees of the same relation compare equal");
                  Mat o = m;
                  size_t z = m.size() - 1;
                  o[z][z / 2] ^= 1;
                  T w = make<T>(o, MATRIX, 0);
                  R.ck(!(t == w) && !(w == t), "trees of different relations compare unequal");
              }
          });
}
static void run_subject(mc::Run& R, int s, const Mat& m, int way, int order, const vector<uint64_t>& q)
{
#define F(i, nm, kk, ...) if (s == i) run1<__VA_ARGS__>(R, nm, m, way, order, q);
    SUBJ(F)
#undef F
}
static vector<uint64_t> all_nodes(size_t n) { vector<uint64_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = i; return v; }
MC_TASK(small, "7 trees x every relation on 1..3 nodes x 4 ways of construction x 4 orders of the edge list (with duplicates)")
{
    for (size_t n = 1; n <= 3; ++n)
        for (uint64_t x = 0; x < (1ULL << (n * n)); ++x) {
            Mat m(n, vector<int>(n));
            for (size_t i = 0; i < n * n; ++i) m[i / n][i % n] = x >> i & 1;
            for (int s = 0; s < NS; ++s)
                for (int w = 0; w < WAYS; ++w)
                    for (int o = 0; o < (w == MATRIX ? 1 : 4); ++o) run_subject(R, s, m, w, o, all_nodes(n));
            if (R.stop()) return;
        }
}
MC_TASK(four, "every relation on 4 nodes for k=2 (thorough: for 7 trees), alternating way of construction")
{
    for (uint64_t x = 0; x < (1ULL << 16); ++x) {
        Mat m(4, vector<int>(4));
        for (size_t i = 0; i < 16; ++i) m[i / 4][i % 4] = x >> i & 1;
        for (int s = 0; s < NS; ++s) {
            if (!R.thorough && !(s == 0 || x % 16 == (uint64_t)s)) continue;
            run_subject(R, s, m, (x + x / 7) % WAYS, x % 4, all_nodes(4));
        }
        if (R.stop()) return;
    }
}
MC_TASK(sparse, "7 trees x every relation of at most 2 edges on n nodes, n around the powers of k (every n up to 10; thorough 18), edges over the block boundaries")
{
    for (int s = 0; s < NS; ++s) {
        size_t N = R.thorough ? 18 : 10;
        set<size_t> sizes;
        for (size_t n = 1; n <= N; ++n) sizes.insert(n);
        for (size_t p = KS[s]; p <= 130; p *= KS[s]) for (size_t d : {p - 1, p, p + 1}) if (d) sizes.insert(d);
        sizes.insert(125); sizes.insert(126);
        for (size_t n : sizes) {
            set<uint64_t> cs = {0, n - 1, n / 2};
            for (size_t p = KS[s]; p <= n; p *= KS[s]) for (size_t d : {p - 1, p}) if (d < n) cs.insert(d);
            vector<uint64_t> c(cs.begin(), cs.end());
            if (c.size() > 6 && !R.thorough) c.erase(c.begin() + 1, c.begin() + (c.size() - 5));
            size_t N2 = c.size() * c.size();
            for (size_t a = 0; a < N2; ++a)
                for (size_t b = a; b < N2; ++b) {
                    if (R.stop()) return;
                    if (n > 10 && a != b && !R.thorough && (a + b) % 3) continue;
                    Mat m(n, vector<int>(n));
                    m[c[a / c.size()]][c[a % c.size()]] = 1;
                    m[c[b / c.size()]][c[b % c.size()]] = 1;
                    run_subject(R, s, m, (a + b) % WAYS, (a * 3 + b) % 4, c);
                    if (a == 0 && b == 0) { Mat z(n, vector<int>(n)); run_subject(R, s, z, MATRIX, 0, c); }
                }
        }
    }
}
MC_TASK(shapes, "7 trees x full, identity, anti-diagonal, triangular, one row, one column, chessboard, scattered relations x n = 1..40, 63..65, 81, 100 x every way")
{
    vector<size_t> ns;
    for (size_t n = 1; n <= 40; ++n) ns.push_back(n);
    for (size_t n : {49, 50, 63, 64, 65, 81, 82, 100}) ns.push_back(n);
    for (int s = 0; s < NS; ++s)
        for (size_t n : ns)
            for (int sh = 0; sh < 8; ++sh) {
                Mat m(n, vector<int>(n));
                for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
                    int v = 0;
                    switch (sh) {
                        case 0: v = 1; break;
                        case 1: v = i == j; break;
                        case 2: v = i + j == n - 1; break;
                        case 3: v = i >= j; break;
                        case 4: v = i == n / 2; break;
                        case 5: v = j == n - 1; break;
                        case 6: v = (i + j) & 1; break;
                        case 7: v = (i * 37 + j * 101 + i * j) % 11 == 0; break;
                    }
                    m[i][j] = v;
                }
                vector<uint64_t> q;
                if (n <= 6) q = all_nodes(n);
                else { set<uint64_t> c = {0, 1, n / 3, n / 2, n - 2, n - 1}; q.assign(c.begin(), c.end()); }
                for (int w = 0; w < WAYS; ++w) {
                    if (R.stop()) return;
                    if (n > 20 && (int)(n + sh) % WAYS != w && !R.thorough) continue;
                    run_subject(R, s, m, w, (sh + w) % 4, q);
                }
            }
}
