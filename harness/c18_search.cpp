// C18: count/locate/lex_interval/extract and forward/backward/bidirectional search against a scan of the text.
#ifdef CSTX
#include "cstgen.hpp"
#else
#include "csagroups.hpp"
#endif

typedef vector<uint64_t> Pat;
#ifdef BYTE
typedef uint8_t Sym;
typedef string Str;
#else
typedef uint64_t Sym;
typedef vector<uint64_t> Str;
#endif
static Str mkpat(const Pat& p) { Str s; for (auto x : p) s.push_back((typename Str::value_type)x); return s; }

// positions of p in text+0, sorted
static vector<uint64_t> scan(const Ref& r, const Pat& p)
{
    vector<uint64_t> o;
    for (size_t i = 0; i < r.n && i + p.size() <= r.n; ++i) if (equal(p.begin(), p.end(), r.t.begin() + i)) o.push_back(i);
    return o;
}
// the suffix array interval of p; empty -> lo = hi+1 position unspecified
static pair<size_t, size_t> interval(const Ref& r, const vector<uint64_t>& occ)
{
    size_t lo = r.n, hi = 0;
    for (auto o : occ) { lo = min<size_t>(lo, r.isa[o]); hi = max<size_t>(hi, r.isa[o]); }
    return {lo, hi};
}
// all patterns over the symbols (in order of length), up to maxlen; plus long ones
template<class F> static void patterns(const Ref& r, const vector<uint64_t>& syms, size_t maxlen, F f)
{
    gen::all_seqs(0, maxlen, syms, [&](const vector<uint64_t>& p) { f(p); });
    size_t m = r.n - 1;
    Pat t(r.t.begin(), r.t.begin() + m);
    // every substring longer than maxlen that starts at the beginning or runs to the end; one symbol changed; text extended
    for (size_t l = maxlen + 1; l <= m; ++l) {
        f(Pat(t.begin(), t.begin() + l));
        f(Pat(t.end() - l, t.end()));
        for (auto s : syms) { Pat q(t.end() - l, t.end()); q[0] = s; f(q); Pat z(t.begin(), t.begin() + l); z[l - 1] = s; f(z); }
    }
    for (auto s : syms) {
        Pat q(t); q.push_back(s); f(q);
        Pat z(t); z.insert(z.begin(), s); f(z);
        q.push_back(s); q.push_back(s); f(q);
    }
}
template<class CSA> static void check_csa(mc::Run& R, const CSA& csa, const Ref& r, const vector<uint64_t>& syms, size_t maxlen)
{
    size_t n = r.n;
    auto chk_iv = [&](const char* what, const vector<uint64_t>& occ, size_t ret, size_t l, size_t h, const Pat& p) {
        if (ret != occ.size()) R.fail(mc::cat(what, " of ", p, ": returned ", ret, ", expected ", occ.size()));
        if (occ.empty()) { if (l != h + 1) R.fail(mc::cat(what, " of ", p, ": interval [", l, ",", h, "] is not empty")); return; }
        auto iv = interval(r, occ);
        if (l != iv.first || h != iv.second) R.fail(mc::cat(what, " of ", p, ": interval [", l, ",", h, "], expected [", iv.first, ",", iv.second, "]"));
        R.obs(l);
    };
    patterns(r, syms, maxlen, [&](const Pat& p) {
        ++R.transitions;
        auto occ = scan(r, p);
        Str s = mkpat(p);
        R.eqi(sdsl::count(csa, s), occ.size(), "count(string)");
        R.eqi(sdsl::count(csa, p.begin(), p.end()), occ.size(), "count(range)");
        auto loc = sdsl::locate(csa, s);
        vector<uint64_t> lv(loc.begin(), loc.end());
        sort(lv.begin(), lv.end());
        R.eq(lv, occ, mc::cat("locate(string) of ", p));
        auto loc2 = sdsl::locate<CSA, typename Pat::const_iterator, vector<uint64_t>>(csa, p.begin(), p.end());
        sort(loc2.begin(), loc2.end());
        R.eq(loc2, occ, mc::cat("locate(range) of ", p));
        auto li = sdsl::lex_interval(csa, s.begin(), s.end());
        chk_iv("lex_interval", occ, occ.size(), li[0], li[1], p);
        size_t l = 77, h = 99;
        if (p.size() <= maxlen || p.size() >= n) {
            // sub-interval starts: narrow the search to every interval (whole SA for longer patterns)
            bool all_iv = n <= 7 && p.size() <= 2;
            for (size_t a = 0; a < n; ++a)
                for (size_t b = a; b < n; ++b) {
                    if (!all_iv && (a || b + 1 < n)) continue;
                    vector<uint64_t> in;
                    for (auto o : occ) if (r.isa[o] >= a && r.isa[o] <= b) in.push_back(o);
                    size_t x = sdsl::forward_search(csa, a, b, s.begin(), s.end(), l, h);
                    chk_iv("forward_search", in, x, l, h, p);
                    x = sdsl::forward_search(csa, a, b, p.begin(), p.end(), l, h);
                    chk_iv("forward_search(range)", in, x, l, h, p);
                    if (p.size() == 1) { x = sdsl::forward_search(csa, a, b, (typename CSA::char_type)p[0], l, h); chk_iv("forward_search(char)", in, x, l, h, p); }
                    // backward: suffixes that start with p and continue with a suffix of rank a..b
                    vector<uint64_t> bw;
                    for (auto o : occ) if (o + p.size() < n && r.isa[o + p.size()] >= a && r.isa[o + p.size()] <= b) bw.push_back(o);
                    x = sdsl::backward_search(csa, a, b, s.begin(), s.end(), l, h);
                    chk_iv("backward_search", bw, x, l, h, p);
                    if (p.size() == 1) { x = sdsl::backward_search(csa, a, b, (typename CSA::char_type)p[0], l, h); chk_iv("backward_search(char)", bw, x, l, h, p); }
                }
        } else {
            size_t x = sdsl::forward_search(csa, 0, n - 1, s.begin(), s.end(), l, h);
            chk_iv("forward_search", occ, x, l, h, p);
        }
    });
    for (size_t b = 0; b < n; ++b)
        for (size_t e = b; e < n; ++e) {
            if (n > 40 && (b % 7) && (e % 11) && e + 1 != n) continue;
            auto s = sdsl::extract(csa, b, e);
            R.eqi(s.size(), e - b + 1, "extract length");
            for (size_t i = 0; i < s.size(); ++i) if ((Sym)s[i] != r.t[b + i]) R.fail(mc::cat("extract(", b, ",", e, ")[", i, "] = ", (uint64_t)(Sym)s[i], ", expected ", r.t[b + i]));
            vector<uint64_t> buf(e - b + 2, 4711);
            R.eqi(sdsl::extract(csa, b, e, buf.begin()), e - b + 1, "extract returns the length");
            R.ck(equal(buf.begin(), buf.end() - 1, r.t.begin() + b), mc::cat("extract to iterator ", b, " ", e));
            R.eqi(buf.back(), 4711, "extract writes no more than the range");
            ++R.transitions;
        }
}
#ifdef CSTX
template<class V, class N> static N nodeof(const V& v, size_t lb, size_t rb, N*) { return lb == rb ? (N)v.select_leaf(lb + 1) : (N)v.node(lb, rb); }
template<class V> static void check(mc::Run& R, const V& v, const Ref& r, const vector<uint64_t>& syms, size_t maxlen)
{
    size_t n = r.n;
    typedef typename V::node_type N;
    patterns(r, syms, maxlen, [&](const Pat& p) {
        ++R.transitions;
        auto occ = scan(r, p);
        Str s = mkpat(p);
        R.eqi(sdsl::count(v, s.begin(), s.end()), occ.size(), "count(range)");
        auto loc = sdsl::locate(v, s.begin(), s.end());
        vector<uint64_t> lv(loc.begin(), loc.end());
        sort(lv.begin(), lv.end());
        R.eq(lv, occ, mc::cat("locate(range) of ", p));
#ifndef FULLY
        R.eqi(sdsl::count(v, s), occ.size(), "count(string)");
        loc = sdsl::locate(v, s);
        lv.assign(loc.begin(), loc.end());
        sort(lv.begin(), lv.end());
        R.eq(lv, occ, mc::cat("locate(string) of ", p));
        auto l2 = sdsl::locate<V, typename Str::const_iterator, vector<uint64_t>>(v, s.begin(), s.end());
        sort(l2.begin(), l2.end());
        R.eq(l2, occ, mc::cat("locate<vector>(range) of ", p));
#endif
        // symbol by symbol from the root; at every step the node is the locus of the matched prefix
        N w = v.root();
        size_t cp = 0, d = 0;
        Pat pre;
        for (auto c : p) {
            pre.push_back(c);
            auto o = scan(r, pre);
            size_t got = sdsl::forward_search(v, w, d, (typename V::char_type)c, cp);
            if (got != o.size()) R.fail(mc::cat("forward_search(char) step ", d, " of ", p, ": ", got, ", expected ", o.size()));
            if (o.empty()) break;
            auto iv = interval(r, o);
            R.eqi(v.lb(w), iv.first, "left bound of the locus", d);
            R.eqi(v.rb(w), iv.second, "right bound of the locus", d);
            ++d;
        }
        N u = v.root();
        cp = 0;
        size_t got = sdsl::forward_search(v, u, 0, s.begin(), s.end(), cp);
        R.eqi(got, occ.size(), "forward_search(range)");
        // split: first k symbols, then the rest
        for (size_t k = 1; k < p.size() && p.size() <= maxlen; ++k) {
            u = v.root();
            cp = 0;
            if (!sdsl::forward_search(v, u, 0, s.begin(), s.begin() + k, cp)) continue;
            R.eqi(sdsl::forward_search(v, u, k, s.begin() + k, s.end(), cp), occ.size(), "forward_search(range) continued");
        }
    });
#ifndef FULLY
    // labels of all nodes
    for (size_t a = 0; a < n; ++a) {
        for (size_t b = a; b < n; ++b) {
            size_t d;
            if (a == b) d = n - r.sa[a];
            else {
                d = *min_element(r.lcp.begin() + a + 1, r.lcp.begin() + b + 1);
                if ((a && r.lcp[a] >= d) || (b + 1 < n && r.lcp[b + 1] >= d)) continue; // not an lcp interval
            }
            if (a == 0 && b + 1 == n) d = 0;
            N w = a == b ? v.select_leaf(a + 1) : v.node(a, b);
            auto s = sdsl::extract(v, w);
            R.eqi(s.size(), d, "extract(node) length", a, b);
            for (size_t i = 0; i < d; ++i) if ((Sym)s[i] != r.t[r.sa[a] + i]) R.fail(mc::cat("extract(node [", a, ",", b, "])[", i, "]"));
            vector<uint64_t> buf(d + 2, 4711);
            R.eqi(sdsl::extract(v, w, buf.begin()), d, "extract(node, iterator) returns the length", a, b);
            R.ck(equal(buf.begin(), buf.begin() + d, r.t.begin() + r.sa[a]), "extract(node, iterator)");
            R.eqi(buf[d + 1], 4711, "extract(node, iterator) stays in the buffer");
            ++R.transitions;
        }
    }
#endif
}
#else
template<class V> static void check(mc::Run& R, const V& v, const Ref& r, const vector<uint64_t>& syms, size_t maxlen) { check_csa(R, v, r, syms, maxlen); }
#endif
static void all(mc::Run& R, const Text& t, const vector<uint64_t>& syms, size_t maxlen)
{
    Cache<W> c(t);
    each(Ty(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type V;
        R.run([&] { return tname<V>::get() + " text " + gen::shows(t) + mc::cat(" symbols ", syms); },
              [&] {
                  V v;
                  c.build(v);
                  check(R, v, c.r, syms, maxlen);
              });
    });
}
MC_TASK(small, "index type x every text up to a length x every pattern up to a length over the text symbols and absent symbols, plus long, extended and altered patterns")
{
    bool th = R.thorough;
    auto go = [&](size_t lo, size_t hi, const vector<uint64_t>& codes, const vector<uint64_t>& syms, size_t ml) {
        texts(lo, hi, codes, [&](const Text& t) { all(R, t, syms, ml); });
    };
#ifdef BYTE
    go(0, th ? 9 : 7, {2, 4}, {2, 3, 4}, th ? 5 : 4);
    go(1, th ? 7 : 5, {'a', 'b', 'c'}, {'A', 'a', 'b', 'c', 'd'}, th ? 4 : 3);
    go(1, th ? 5 : 3, {1, 127, 128, 255}, {1, 2, 127, 128, 129, 254, 255}, th ? 3 : 2);
#else
    go(0, th ? 9 : 7, {1, 2}, {1, 2, 3}, th ? 5 : 4);
    go(1, th ? 7 : 4, {2, 300, 301}, {1, 2, 3, 299, 300, 301, 302}, th ? 3 : 2);
    go(1, 2, {5, 70000}, {4, 5, 69999, 70000, 70001, 1ULL << 40, ~0ULL}, 2);
#endif
}
MC_TASK(structured, "index type x 18 text families x lengths: every pattern up to length 2-3, every prefix and suffix, altered and extended ones")
{
    vector<size_t> ns = R.thorough ? vector<size_t>{33, 65, 130, 257, 300} : vector<size_t>{33, 65};
    for (auto n : ns)
        for (int f = 0; f < FAM_COUNT; ++f) {
            Text t = family(f, n);
            set<uint64_t> s(t.begin(), t.end());
            vector<uint64_t> syms;
            for (auto x : s) if (syms.size() < 4) syms.push_back(x);
            for (uint64_t x = 1; x < 256; ++x) if (!s.count(x)) { syms.push_back(x); break; }
            if (!s.count(255)) syms.push_back(255);
            all(R, t, syms, R.thorough ? 3 : 2);
        }
}
#if !defined(CSTX) && GROUP == 6
typedef csa_wt<wt_blcd<>, 4, 4> Bd;
typedef csa_wt<wt_hutu<>, 4, 4> Bh;
template<class V> static void bidi(mc::Run& R, const Text& t, const vector<uint64_t>& syms, size_t ml)
{
    Text rev(t.rbegin(), t.rend());
    R.run([&] { return "bidirectional " + tname<V>::get() + " text " + gen::shows(t); },
          [&] {
              V f, b;
              Ref rf, rb;
              { Cache<8> c(t); c.build(f); rf = c.r; } // one cache at a time: they use the same file names
              { Cache<8> c(rev); c.build(b); rb = c.r; }
              struct St { size_t lf, rf, lb, rb; };
              auto chk = [&](const Pat& p, const St& s, size_t ret) {
                  auto o = scan(rf, p);
                  Pat q(p.rbegin(), p.rend());
                  auto ob = scan(rb, q);
                  if (ret != o.size()) R.fail(mc::cat("bidirectional search for ", p, " returned ", ret, ", expected ", o.size()));
                  if (o.empty()) { if (s.lf != s.rf + 1) R.fail(mc::cat("bidirectional search for ", p, ": forward interval not empty")); return; }
                  auto i = interval(rf, o), j = interval(rb, ob);
                  if (i != make_pair(s.lf, s.rf)) R.fail(mc::cat("bidirectional search for ", p, ": forward [", s.lf, ",", s.rf, "], expected ", i));
                  if (j != make_pair(s.lb, s.rb)) R.fail(mc::cat("bidirectional search for ", p, ": backward [", s.lb, ",", s.rb, "], expected ", j));
              };
              // every order of extending to the left and right: explore states (pattern, intervals)
              function<void(const Pat&, const St&)> go = [&](const Pat& p, const St& s) {
                  if (p.size() == ml) return;
                  for (auto c : syms)
                      for (int left = 0; left < 2; ++left) {
                          uint8_t ch = c;
                          St u;
                          Pat q(p);
                          size_t x;
                          if (left) {
                              q.insert(q.begin(), c);
                              x = bidirectional_search_backward(f, b, s.lf, s.rf, s.lb, s.rb, &ch, &ch + 1, u.lf, u.rf, u.lb, u.rb);
                          } else {
                              q.push_back(c);
                              x = bidirectional_search_forward(f, b, s.lf, s.rf, s.lb, s.rb, &ch, &ch + 1, u.lf, u.rf, u.lb, u.rb);
                          }
                          ++R.transitions;
                          chk(q, u, x);
                          if (x) go(q, u);
                      }
              };
              size_t n = f.size();
              go(Pat(), St{0, n - 1, 0, n - 1});
              patterns(rf, syms, ml, [&](const Pat& p) {
                  Str s = mkpat(p);
                  St u;
                  size_t x = bidirectional_search_backward(f, b, 0, n - 1, 0, n - 1, s.begin(), s.end(), u.lf, u.rf, u.lb, u.rb);
                  chk(p, u, x);
                  x = bidirectional_search_forward(f, b, 0, n - 1, 0, n - 1, s.begin(), s.end(), u.lf, u.rf, u.lb, u.rb);
                  chk(p, u, x);
              });
          });
}
MC_TASK(bidirectional, "wavelet tree type x every text up to a length x every pattern up to a length extended left and right in every order, incl. absent symbols")
{
    bool th = R.thorough;
    auto go = [&](size_t lo, size_t hi, const vector<uint64_t>& codes, const vector<uint64_t>& syms, size_t ml) {
        texts(lo, hi, codes, [&](const Text& t) {
            bidi<Bd>(R, t, syms, ml);
            bidi<Bh>(R, t, syms, ml);
        });
    };
    go(0, th ? 9 : 6, {2, 4}, {1, 2, 3, 4, 5}, th ? 4 : 3);
    go(1, th ? 6 : 4, {1, 127, 255}, {1, 2, 127, 128, 254, 255}, 3);
    for (size_t n : {40, 70}) for (int f = 0; f < FAM_COUNT; ++f) {
        Text t = family(f, n);
        bidi<Bd>(R, t, {1, 2, 3, 255}, 3);
        bidi<Bh>(R, t, {1, 2, 3, 255}, 3);
    }
}
#endif
