// C38: code shapes: Huffman and Hu-Tucker trees are optimal, balanced trees are balanced, all codes
// are full prefix codes; lex-ordered shapes are alphabetic.
#include "wtgen.hpp"
#include <memory>
using namespace std;

static uint64_t huff_cost(vector<uint64_t> f)
{
    // independent of the code: repeatedly merge the two smallest of a sorted list
    uint64_t cost = 0;
    sort(f.begin(), f.end());
    while (f.size() > 1) {
        uint64_t s = f[0] + f[1];
        cost += s;
        f.erase(f.begin(), f.begin() + 2);
        f.insert(lower_bound(f.begin(), f.end(), s), s);
    }
    return cost;
}
static uint64_t alpha_cost(const vector<uint64_t>& f)
{
    // optimal alphabetic tree by interval DP with Knuth's bounds
    size_t n = f.size();
    vector<uint64_t> pre(n + 1, 0);
    for (size_t i = 0; i < n; ++i) pre[i + 1] = pre[i] + f[i];
    vector<vector<uint64_t>> c(n, vector<uint64_t>(n, 0));
    for (size_t len = 2; len <= n; ++len)
        for (size_t i = 0; i + len <= n; ++i) {
            size_t j = i + len - 1;
            uint64_t b = ~0ULL;
            for (size_t k = i; k < j; ++k) b = min(b, c[i][k] + c[k + 1][j]);
            c[i][j] = b + pre[j + 1] - pre[i];
        }
    return n ? c[0][n - 1] : 0;
}
enum { HUFF, HUTU, BLCD };
template<class V>
static void check(mc::Run& R, int kind, const vector<pair<uint64_t, uint64_t>>& sf)
{
    // the text: symbols round robin until the frequencies are used up
    VV v;
    auto rest = sf;
    bool more = true;
    while (more) {
        more = false;
        for (auto& x : rest) if (x.second) { v.push_back(x.first); more |= --x.second > 0; }
    }
    unique_ptr<V> wt(new V);
    build(*wt, v);
    vector<uint64_t> f;
    uint64_t cost = 0, mxd = 0;
    vector<pair<uint64_t, uint64_t>> codes; // (len, path) in symbol order
    for (auto& x : sf) {
        if (!x.second) continue;
        f.push_back(x.second);
        auto p = wt->path(x.first);
        codes.push_back({p.first, p.second});
        cost += x.second * p.first;
        mxd = max<uint64_t>(mxd, p.first);
        R.obs(p.first);
    }
    R.eqi(wt->sigma, f.size(), "sigma");
    R.eqi(wt->bv.size(), cost, "bits stored = sum of freq x code length");
    uint64_t best = kind == HUFF ? huff_cost(f) : kind == HUTU ? alpha_cost(f) : cost;
    R.eqi(cost, best, "weighted path length is optimal");
    uint64_t lg = 0;
    while ((1ULL << lg) < f.size()) ++lg;
    if (kind == BLCD) R.ck(mxd <= lg, [&] { return mc::cat("depth ", mxd, " of a balanced tree with ", f.size(), " leaves"); });
    // full prefix code: Kraft equality and disjoint intervals; alphabetic: increasing intervals
    vector<pair<long double, long double>> iv;
    long double kraft = 0;
    for (auto& c : codes) {
        long double w = 1;
        for (uint64_t i = 0; i < c.first; ++i) w /= 2;
        iv.push_back({c.second * w, w});
        kraft += w;
    }
    R.ck(kraft == 1, "Kraft sum is 1");
    if (V::lex_ordered) for (size_t i = 1; i < iv.size(); ++i) R.ck(iv[i - 1].first < iv[i].first, "codes increase with the symbols");
    sort(iv.begin(), iv.end());
    for (size_t i = 1; i < iv.size(); ++i) R.ck(iv[i - 1].first + iv[i - 1].second <= iv[i].first, "no code is a prefix of another");
    for (size_t i = 0; i < v.size(); i += v.size() > 300 ? 7 : 1) R.eqi((*wt)[i], v[i], "[]", i);
}
template<class V> struct Kind;
template<class... A> struct Kind<wt_pc<huff_shape, A...>> { static const int k = HUFF; };
template<class... A> struct Kind<wt_pc<hutu_shape, A...>> { static const int k = HUTU; };
template<class... A> struct Kind<wt_pc<balanced_shape, A...>> { static const int k = BLCD; };

#undef CAP
typedef Types<wt_huff<>, wt_hutu<>, wt_blcd<>, HuI<>, HtI<>, BlI<>> Shapes;

MC_TASK(freqs, "shape (Huffman, Hu-Tucker, balanced; byte and integer) x every frequency vector: sigma<=5 with frequencies 0..4, sigma 6..8 with frequencies 1..2 (thorough: sigma<=5 0..6, sigma 6 0..3, sigma<=9 1..3)")
{
    each(Shapes(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        auto go = [&](const VV& fr) {
            R.run([&] { return tname<V>::get() + " frequencies " + gen::shows(fr); },
                  [&] {
                      vector<pair<uint64_t, uint64_t>> sf;
                      for (size_t i = 0; i < fr.size(); ++i) sf.push_back({i * 3 + 1, fr[i]});
                      uint64_t s = 0;
                      for (auto x : fr) s += x;
                      if (s) check<V>(R, Kind<V>::k, sf);
                  });
        };
        bool th = R.thorough;
        gen::all_seqs(1, 4, gen::iota_alpha(0, th ? 6 : 4), go);
        gen::all_seqs(5, 5, gen::iota_alpha(0, th ? 6 : 4), go);
        if (th) gen::all_seqs(6, 6, gen::iota_alpha(0, 3), go);
        gen::all_seqs(6, th ? 9 : 8, gen::iota_alpha(1, 2), go);
        gen::all_seqs(6, th ? 8 : 6, gen::iota_alpha(1, 3), go);
        gen::all_seqs(5, th ? 7 : 5, {1, 2, 5, 13}, go);
    });
}
MC_TASK(families, "shape x sigma up to 256 x frequency families (equal, ascending, descending, geometric, Fibonacci in every rotation, alternating, peak, valley, mixed)")
{
    each(Shapes(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        vector<int> sig = {2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 255, 256};
        for (int s : sig)
            for (int fam = 0; fam < 10; ++fam)
                for (int rot = 0; rot < (s <= 9 ? s : s <= 33 ? 4 : 2); ++rot)
                    R.run([&] { return mc::cat(tname<V>::get(), " sigma=", s, " family ", fam, " rotated by ", rot); },
                          [&] {
                              vector<pair<uint64_t, uint64_t>> sf;
                              uint64_t z = 99 + s;
                              for (int i = 0; i < s; ++i) {
                                  int k = (i + rot * (s <= 9 ? 1 : s / 4 + 1)) % s;
                                  uint64_t f = 1;
                                  switch (fam) {
                                      case 0: f = 3; break;
                                      case 1: f = k + 1; break;
                                      case 2: f = s - k; break;
                                      case 3: f = 1ULL << min(k, 9); break;
                                      case 4: { uint64_t a = 1, b = 1; for (int q = 0; q < min(k, 13); ++q) { uint64_t c = a + b; a = b; b = c; } f = a; break; }
                                      case 5: f = k & 1 ? 7 : 1; break;
                                      case 6: f = 1 + min(k, s - 1 - k); break;
                                      case 7: f = 1 + abs(k - s / 2); break;
                                      case 8: z = z * 6364136223846793005ULL + 1442695040888963407ULL; f = 1 + (z >> 40) % 20; break;
                                      case 9: f = k % 5 == 0 ? 30 : 1 + k % 3; break;
                                  }
                                  sf.push_back({(uint64_t)i, f});
                              }
                              check<V>(R, Kind<V>::k, sf);
                          });
    });
}
