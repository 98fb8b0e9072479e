// C26: inv_perm_support inverts every permutation.
#include "gen.hpp"
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sstream>
using namespace std;
using namespace sdsl;
typedef vector<uint64_t> Perm;
enum { PLAIN, COPY, MOVE, ASSIGN, MASSIGN, SWAP, LOAD, LIFES };
static const char* lname[] = {"constructed", "copied", "moved", "assigned", "move-assigned", "swapped", "loaded"};
template<class S> static void check(mc::Run& R, const S& s, const Perm& p)
{
    size_t n = p.size();
    R.eq((size_t)s.size(), n, "size()");
    for (size_t i = 0; i < n; ++i) R.eqi((uint64_t)s[p[i]], (uint64_t)i, "inverse", p[i]);
    size_t k = 0;
    Perm inv(n);
    for (size_t i = 0; i < n; ++i) inv[p[i]] = i;
    for (auto it = s.begin(); it != s.end() && k <= n; ++it, ++k) R.eqi((uint64_t)*it, inv[k], "*iterator", k);
    R.eq(k, n, "number of iterated elements");
    if (n > 1) R.eqi((uint64_t)*(s.begin() + (n - 1)), inv[n - 1], "*(begin()+n-1)", n - 1);
}
template<class S> static void run1(mc::Run& R, const char* nm, const Perm& p, int life, int width)
{
    R.run([&] { return mc::cat(nm, " ", lname[life], " width ", width, " p=", mc::str(p)); },
          [&] {
              int_vector<> v(p.size(), 0, width);
              for (size_t i = 0; i < p.size(); ++i) v[i] = p[i];
              int_vector<> other(5, 0, 8);
              for (int i = 0; i < 5; ++i) other[i] = (i + 2) % 5;
              unique_ptr<S> s(new S(&v));
              switch (life) {
                  case PLAIN: break;
                  case COPY: { unique_ptr<S> t(new S(*s)); s = move(t); break; }
                  case MOVE: { unique_ptr<S> t(new S(move(*s))); s = move(t); break; }
                  case ASSIGN: { unique_ptr<S> t(new S(&other)); *t = *s; s = move(t); break; }
                  case MASSIGN: { unique_ptr<S> t(new S(&other)); *t = move(*s); s = move(t); break; }
                  case SWAP: {
                      unique_ptr<S> t(new S(&other));
                      t->swap(*s);
                      t->set_vector(&v);
                      s->set_vector(&other);
                      for (int i = 0; i < 5; ++i) R.eqi((uint64_t)(*s)[(i + 2) % 5], (uint64_t)i, "inverse of the other object after swap", i);
                      s = move(t);
                      break;
                  }
                  case LOAD: {
                      stringstream o;
                      s->serialize(o);
                      unique_ptr<S> t(new S(&other));
                      t->load(o);
                      t->set_vector(&v);
                      s = move(t);
                      break;
                  }
              }
              check(R, *s, p);
          });
}
#define SUBJ(F)                                                                      \
    F(0, "inv_perm<1>", inv_perm_support<1>)                                         \
    F(1, "inv_perm<2>", inv_perm_support<2>)                                         \
    F(2, "inv_perm<3>", inv_perm_support<3>)                                         \
    F(3, "inv_perm<5,rank_v5>", inv_perm_support<5, bit_vector, rank_support_v5<>>)  \
    F(4, "inv_perm<32>", inv_perm_support<>)                                         \
    F(5, "inv_perm<2,rrr>", inv_perm_support<2, rrr_vector<15>, rrr_vector<15>::rank_1_type>) \
    F(6, "inv_perm<4,sd>", inv_perm_support<4, sd_vector<>, sd_vector<>::rank_1_type>)
static const int NS = 7;
static void run_subject(mc::Run& R, int s, const Perm& p, int life, int width = 64)
{
#define F(i, nm, ...) if (s == i) run1<__VA_ARGS__>(R, nm, p, life, width);
    SUBJ(F)
#undef F
}
MC_TASK(all_perms, "7 supports x every permutation of 0..8 elements (thorough 9), one lifecycle each in turn; all lifecycles up to 6")
{
    size_t N = R.thorough ? 9 : 8;
    for (size_t n = 0; n <= N; ++n) {
        Perm p(n);
        for (size_t i = 0; i < n; ++i) p[i] = i;
        size_t c = 0;
        do {
            for (int s = 0; s < NS; ++s) {
                if (n <= 6) for (int l = 0; l < LIFES; ++l) run_subject(R, s, p, l, l & 1 ? 64 : (n < 2 ? 1 : bits::hi(n - 1) + 1));
                else run_subject(R, s, p, (c + s) % LIFES);
            }
            ++c;
            if (R.stop()) return;
        } while (next_permutation(p.begin(), p.end()));
    }
}
MC_TASK(cycle_types, "7 supports x every cycle type (integer partition) of n <= 20 (thorough 26) x layouts {contiguous, interleaved, reversed}")
{
    size_t N = R.thorough ? 26 : 20;
    for (size_t n = 7; n <= N; ++n) {
        vector<size_t> part;
        function<void(size_t, size_t)> rec = [&](size_t left, size_t mx) {
            if (R.stop()) return;
            if (!left) {
                for (int lay = 0; lay < 3; ++lay) {
                    vector<size_t> order(n); // order in which positions are handed to the cycles
                    for (size_t i = 0; i < n; ++i) order[i] = lay == 0 ? i : lay == 1 ? (i % 2 ? n - 1 - i / 2 : i / 2) : n - 1 - i;
                    Perm p(n);
                    size_t b = 0;
                    for (auto c : part) {
                        for (size_t i = 0; i < c; ++i) p[order[b + i]] = order[b + (i + 1) % c];
                        b += c;
                    }
                    for (int s = 0; s < NS; ++s) run_subject(R, s, p, (b + lay + s) % LIFES);
                }
                return;
            }
            for (size_t x = min(left, mx); x >= 1; --x) { part.push_back(x); rec(left - x, x); part.pop_back(); }
        };
        rec(n, n);
    }
}
MC_TASK(cycles, "7 supports x every single cycle with stride s over n elements, n = 17..80, 127..130, 1000 and pairs of cycles of lengths around multiples of 32")
{
    vector<size_t> ns;
    for (size_t n = 17; n <= 80; ++n) ns.push_back(n);
    for (size_t n : {127, 128, 129, 130, 1000}) ns.push_back(n);
    for (size_t n : ns)
        for (size_t st : {1, 3, 7, 11, 13, 29}) {
            Perm p(n);
            for (size_t i = 0; i < n; ++i) p[i] = (i + st) % n;
            for (int s = 0; s < NS; ++s) run_subject(R, s, p, (n + st) % LIFES, n & 1 ? 64 : bits::hi(n - 1) + 1);
            if (R.stop()) return;
        }
    for (size_t a = 30; a <= 66; ++a)
        for (size_t b = a; b <= 66; b += 1) {
            Perm p(a + b);
            for (size_t i = 0; i < a; ++i) p[2 * i] = 2 * ((i + 1) % a);
            vector<size_t> rest;
            for (size_t i = 0; i < a + b; ++i) if (i % 2 || i / 2 >= a) rest.push_back(i);
            if (rest.size() != b) continue;
            for (size_t i = 0; i < b; ++i) p[rest[i]] = rest[(i + 1) % b];
            for (int s = 0; s < NS; ++s) run_subject(R, s, p, (a + b) % LIFES);
            if (R.stop()) return;
        }
}
