// C24: k2-treaps answer top-k, 3d range and count queries over every rectangle exactly.
#include "gen.hpp"
#include <sdsl/k2_treap.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/dac_vector.hpp>
#include <sdsl/vlc_vector.hpp>
#include <tuple>
#include <set>
using namespace std;
using namespace sdsl;
typedef array<uint64_t, 3> P3;
typedef vector<P3> Pts;
typedef k2_treap_ns::point_type pt;
static string showp(const Pts& p)
{
    string s = "points={";
    for (auto& x : p) s += mc::cat("(", x[0], ",", x[1], "):", x[2], " ");
    return s + "}";
}
// names of the structures
#define SUBJ(F)                                                                      \
    F(0, "k2_treap<2>", k2_treap<2, bit_vector>)                                     \
    F(1, "k2_treap<2,rrr>", k2_treap<2, rrr_vector<63>>)                             \
    F(2, "k2_treap<3>", k2_treap<3, bit_vector>)                                     \
    F(3, "k2_treap<4,rrr>", k2_treap<4, rrr_vector<15>>)                             \
    F(4, "k2_treap<5,sd>", k2_treap<5, sd_vector<>>)                                 \
    F(5, "k2_treap<16>", k2_treap<16, bit_vector>)                                   \
    F(6, "k2_treap<2,rank_v5,vlc>", k2_treap<2, bit_vector, rank_support_v5<>, vlc_vector<>>) \
    F(7, "k2_treap<8,dac4>", k2_treap<8, bit_vector, rank_support_v<>, dac_vector<8>>)

template<class T> static void queries(mc::Run& R, const T& t, const Pts& p, const vector<uint64_t>& cs, const vector<pair<uint64_t, uint64_t>>& wr)
{
    R.eq((uint64_t)t.size(), (uint64_t)p.size(), "size()");
    for (size_t a = 0; a < cs.size(); ++a)
        for (size_t b = a; b < cs.size(); ++b)
            for (size_t c = 0; c < cs.size(); ++c)
                for (size_t d = c; d < cs.size(); ++d) {
                    uint64_t x1 = cs[a], x2 = cs[b], y1 = cs[c], y2 = cs[d];
                    Pts in;
                    for (auto& q : p) if (q[0] >= x1 && q[0] <= x2 && q[1] >= y1 && q[1] <= y2) in.push_back(q);
                    sort(in.begin(), in.end());
                    auto where = [&] { return mc::cat("[", x1, ",", x2, "]x[", y1, ",", y2, "]"); };
                    R.eq((uint64_t)sdsl::count(t, pt(x1, y1), pt(x2, y2)), (uint64_t)in.size(), "count");
                    Pts got;
                    uint64_t last = ~0ULL;
                    for (auto it = sdsl::top_k(t, pt(x1, y1), pt(x2, y2)); it && got.size() <= p.size(); ++it) {
                        auto v = *it;
                        got.push_back({real(v.first), imag(v.first), v.second});
                        if (v.second > last) R.fail(mc::cat("top_k ", where(), " is not in non-increasing weight order"));
                        last = v.second;
                    }
                    sort(got.begin(), got.end());
                    if (got != in) R.fail(mc::cat("top_k ", where(), " reports ", showp(got), " expected ", showp(in)));
                    for (auto w : wr) {
                        Pts e;
                        for (auto& q : in) if (q[2] >= w.first && q[2] <= w.second) e.push_back(q);
                        Pts g;
                        for (auto it = sdsl::range_3d(t, pt(x1, y1), pt(x2, y2), {w.first, w.second}); it && g.size() <= p.size(); ++it) {
                            auto v = *it;
                            g.push_back({real(v.first), imag(v.first), v.second});
                        }
                        sort(g.begin(), g.end());
                        if (g != e) R.fail(mc::cat("range_3d ", where(), " weights [", w.first, ",", w.second, "] reports ", showp(g), " expected ", showp(e)));
                    }
                    R.transitions += 2 + wr.size();
                    R.obs(in.size());
                }
}
template<class U, class T> static T from_tuples(const Pts& p)
{
    vector<tuple<U, U, U>> v;
    for (auto& x : p) v.emplace_back(x[0], x[1], x[2]);
    return T(v, "@c24");
}
template<class T> static T from_file(const Pts& p, const string& pre, int width)
{
    int_vector<> v[3];
    for (int d = 0; d < 3; ++d) {
        v[d] = int_vector<>(p.size(), 0, width);
        for (size_t i = 0; i < p.size(); ++i) v[d][i] = p[i][d];
        store_to_file(v[d], pre + "." + "xyw"[d]);
    }
    T t;
    construct(t, pre);
    for (int d = 0; d < 3; ++d) sdsl::remove(pre + "." + "xyw"[d]);
    return t;
}
enum { IM, T64, T32, T8, FILE64, FILEW, WAYS };
static const char* way_name[] = {"construct_im", "tuples<uint64_t>", "tuples<uint32_t>", "tuples<uint8_t>", "file width 64", "file, tight width"};
template<class T> static T make(const Pts& p, int way)
{
    if (way == IM) {
        T t;
        construct_im(t, p);
        return t;
    }
    if (way == T64) return from_tuples<uint64_t, T>(p);
    if (way == T32) return from_tuples<uint32_t, T>(p);
    if (way == T8) return from_tuples<uint8_t, T>(p);
    uint64_t m = 1;
    for (auto& x : p) for (auto y : x) m |= y;
    return from_file<T>(p, "@c24f", way == FILE64 ? 64 : bits::hi(m) + 1);
}
template<class T> static void run1(mc::Run& R, const char* nm, const Pts& p, int way, const vector<uint64_t>& cs, const vector<pair<uint64_t, uint64_t>>& wr)
{
    R.run([&] { return mc::cat(nm, " ", way_name[way], " ", showp(p)); },
          [&] {
              T t = make<T>(p, way);
              queries(R, t, p, cs, wr);
          });
}
static void run_subject(mc::Run& R, int s, const Pts& p, int way, const vector<uint64_t>& cs, const vector<pair<uint64_t, uint64_t>>& wr)
{
#define F(i, n, ...) if (s == i) run1<__VA_ARGS__>(R, n, p, way, cs, wr);
    SUBJ(F)
#undef F
}
static const int NS = 8;
// weight ranges cut at every distinct weight and its neighbours
static vector<pair<uint64_t, uint64_t>> wranges(const Pts& p)
{
    set<uint64_t> c = {0, ~0ULL};
    for (auto& x : p) { c.insert(x[2]); if (x[2]) c.insert(x[2] - 1); if (~x[2]) c.insert(x[2] + 1); }
    vector<pair<uint64_t, uint64_t>> r;
    for (auto a : c) for (auto b : c) if (a <= b) r.emplace_back(a, b);
    if (r.size() > 6) { // keep those around one weight plus prefix/suffix ranges
        vector<pair<uint64_t, uint64_t>> q;
        for (auto& x : r) if (x.first == 0 && x.second == ~0ULL) q.push_back(x);
            else for (auto& y : p) if ((x.first == y[2] && (x.second == y[2] || x.second == ~0ULL)) || (x.first == 0 && x.second == y[2]) || (x.first == y[2] + 1 && x.second == ~0ULL)) { q.push_back(x); break; }
        r = q;
    }
    return r;
}
// every non-empty point set of at most P points over the coordinates cs, with every weighting over ws
static void sets(mc::Run& R, int s, int way, const vector<uint64_t>& cs, size_t P, const vector<uint64_t>& ws, const vector<uint64_t>& qs)
{
    size_t n = cs.size() * cs.size();
    vector<size_t> sel;
    function<void(size_t)> rec = [&](size_t from) {
        if (R.stop()) return;
        {
            size_t nw = 1;
            for (size_t i = 0; i < sel.size(); ++i) nw *= ws.size();
            for (size_t w = 0; w < nw && !R.stop(); ++w) {
                Pts p;
                size_t q = w;
                for (auto x : sel) { p.push_back({cs[x / cs.size()], cs[x % cs.size()], ws[q % ws.size()]}); q /= ws.size(); }
                if (!p.empty() || way == IM || way == T64) run_subject(R, s, p, way, qs, wranges(p));
            }
        }
        if (sel.size() == P) return;
        for (size_t i = from; i < n; ++i) { sel.push_back(i); rec(i + 1); sel.pop_back(); }
    };
    rec(0);
}
MC_TASK(grid3, "8 treaps x every set of at most 3 points (thorough: 4) on a 3x3 grid x every weighting over {0,1,3} x every rectangle x weight ranges")
{
    for (int s = 0; s < NS; ++s) sets(R, s, IM, {0, 1, 2}, R.thorough ? 4 : 3, {0, 1, 3}, {0, 1, 2, 3});
}
MC_TASK(grid3all, "8 treaps x all 511 point sets on a 3x3 grid x weights {all equal, row-major ascending, descending, alternating 0/7} x every rectangle")
{
    for (int s = 0; s < NS; ++s)
        for (size_t m = 1; m < 512; ++m)
            for (int k = 0; k < 4; ++k) {
                if (!R.thorough && (s + m) % 2 != k % 2) continue;
                Pts p;
                for (size_t i = 0; i < 9; ++i)
                    if (m >> i & 1) p.push_back({i / 3, i % 3, k == 0 ? 5 : k == 1 ? i : k == 2 ? 300 - i : (i & 1) * 7});
                if (k == 2) reverse(p.begin(), p.end());
                run_subject(R, s, p, IM, {0, 1, 2, 3}, wranges(p));
                if (R.stop()) return;
            }
}
MC_TASK(orders, "every order of insertion of every set of at most 3 points on a 2x2 grid and of 4 points on a diagonal, weights {0,1}")
{
    for (int s = 0; s < NS; ++s) {
        for (size_t m = 1; m < 16; ++m)
            for (int w = 0; w < 16; ++w) {
                Pts p;
                for (size_t i = 0; i < 4; ++i) if (m >> i & 1) p.push_back({i / 2, i % 2, (uint64_t)(w >> i & 1)});
                sort(p.begin(), p.end());
                do run_subject(R, s, p, IM, {0, 1, 2}, wranges(p));
                while (next_permutation(p.begin(), p.end()) && !R.stop());
            }
        Pts p = {{0, 0, 1}, {2, 2, 1}, {5, 5, 0}, {17, 17, 1}};
        do run_subject(R, s, p, IM, {0, 1, 2, 5, 16, 17, 18}, wranges(p));
        while (next_permutation(p.begin(), p.end()) && !R.stop());
    }
}
MC_TASK(boundaries, "8 treaps x every set of at most 2 points with coordinates in {0,1,k-1,k,k^2-1,k^2,k^3,2^16,2^32-1,2^32,2^40+5} (k of the treap) x weights {0,2^33}")
{
    const uint64_t ks[NS] = {2, 2, 3, 4, 5, 16, 2, 8};
    for (int s = 0; s < NS; ++s) {
        uint64_t k = ks[s];
        set<uint64_t> c = {0, 1, k - 1, k, k * k - 1, k * k, 1ULL << 16, (1ULL << 32) - 1, 1ULL << 32, (1ULL << 40) + 5};
        if (R.thorough) { c.insert(k * k * k); c.insert((1ULL << 31)); c.insert((1ULL << 59)); }
        vector<uint64_t> v(c.begin(), c.end()), q(c.begin(), c.end());
        if (!R.thorough) q = {0, k, k * k, (1ULL << 32) - 1, (1ULL << 40) + 5};
        sets(R, s, IM, v, 2, R.thorough ? vector<uint64_t>{0, 1ULL << 33} : vector<uint64_t>{1ULL << 33}, q);
    }
}
MC_TASK(ways, "8 treaps x 5 further ways of construction x every set of at most 2 points over coordinates reaching the limits of the element type x weights {0,1,max}")
{
    for (int s = 0; s < NS; ++s) {
        sets(R, s, T8, R.thorough ? vector<uint64_t>{0, 1, 16, 127, 128, 255} : vector<uint64_t>{0, 1, 128, 255}, 2, {0, 1, 255}, {0, 1, 128, 255});
        sets(R, s, T32, {0, 1, 1ULL << 31, (1ULL << 32) - 1}, 2, {0, 1, (1ULL << 32) - 1}, {0, 1, 1ULL << 31, (1ULL << 32) - 1});
        sets(R, s, T64, {0, 1, 1ULL << 33, 1ULL << 50}, 2, {0, s == 6 ? 1ULL << 63 : ~0ULL}, {0, 1, 1ULL << 33, 1ULL << 50});
        sets(R, s, FILE64, {0, 1, 1ULL << 31, 1ULL << 40}, 2, {0, 1, 1ULL << 35}, {0, 1, 1ULL << 31, 1ULL << 40});
        sets(R, s, FILEW, {0, 3, 16, 255}, 2, {0, 1, 70}, {0, 3, 16, 255});
    }
}
MC_TASK(big, "8 treaps x sets of 60..250 points laid out on lines, diagonals, full squares and scattered, rectangles cut at every 5th coordinate")
{
    for (int s = 0; s < NS; ++s)
        for (int lay = 0; lay < 6; ++lay)
            for (size_t n : {60, 64, 65, 150, 250}) {
                if (R.stop()) return;
                set<pair<uint64_t, uint64_t>> c;
                for (size_t i = 0; c.size() < n; ++i) {
                    if (lay == 0) c.insert({i, i});
                    if (lay == 1) c.insert({i, 0});
                    if (lay == 2) c.insert({7, i});
                    if (lay == 3) c.insert({i / 16, i % 16});
                    if (lay == 4) c.insert({i * 37 % 101, i * 53 % 89});
                    if (lay == 5) c.insert({(i * i) % 4099, (i * 7919) % 1031});
                }
                Pts p;
                size_t j = 0;
                for (auto& x : c) p.push_back({x.first, x.second, (j * 31) % 97}), ++j;
                uint64_t mx = 0;
                for (auto& x : c) mx = max(mx, max(x.first, x.second));
                vector<uint64_t> cs;
                for (int i = 0; i <= 6; ++i) cs.push_back(mx * i / 6);
                run_subject(R, s, p, IM, cs, {{0, ~0ULL}, {30, 60}, {96, 96}, {0, 0}});
            }
}
