// C13: every history of copies, moves, swaps and destructions leaves every object with the content it should have.
#include "subjects.hpp"
// Three slots.  Contents: 0 = default-constructed, 1..3 = constructed, -1 = moved-from (may only be assigned,
// swapped or destroyed).
struct HOp { int kind, a, b; };
static const char* kn[] = {"%d=%d", "%d=move(%d)", "new(%d) copy of %d", "new(%d) move of %d", "swap(%d,%d)", "new(%d) default", "new(%d) content 3"};
static vector<HOp> ops()
{
    vector<HOp> r;
    for (int a = 0; a < 3; ++a)
        for (int b = 0; b < 3; ++b) {
            if (a != b) { r.push_back({0, a, b}); r.push_back({1, a, b}); r.push_back({2, a, b}); r.push_back({3, a, b}); }
            else r.push_back({0, a, a});
            if (a < b) r.push_back({4, a, b});
        }
    for (int a = 0; a < 3; ++a) { r.push_back({5, a, 0}); r.push_back({6, a, 0}); }
    return r;
}
template<class S> struct Sys {
    typedef typename S::type T;
    vector<typename S::content> cs;
    vector<Qs<T>> qs;            // by content
    vector<vector<uint64_t>> ex; // expected answers
    Sys()
    {
        cs = S::contents(0);
        cs.insert(cs.begin(), typename S::content());
        for (size_t i = 0; i < cs.size(); ++i) {
            qs.emplace_back();
            ex.emplace_back();
            unique_ptr<T> t(i ? S::make(cs[i]) : unique_ptr<T>(new T()));
            if (i) S::queries(*t, cs[i], qs.back());
            else S::basic(qs.back());
            for (auto& q : qs.back()) ex.back().push_back(q.f(*t));
        }
    }
};
template<class S> static Sys<S>& sys() { static Sys<S>* s = nullptr; if (!s) s = new Sys<S>(); return *s; }
static string show(const vector<HOp>& h, int init)
{
    string s = mc::cat("slots 0..2 = ", init == 0 ? "contents 1, 2, default" : "contents 1, 2, 3", ":");
    for (auto& o : h) { char b[60]; snprintf(b, sizeof b, kn[o.kind], o.a, o.b); s += string(" ") + b + ";"; }
    return s;
}
template<class S> static void history(mc::Run& R, const vector<HOp>& h, int init)
{
    typedef typename S::type T;
    R.run([&] { return tname<S>::get() + " " + show(h, init); },
          [&] {
              auto& y = sys<S>();
              unique_ptr<T> s[3];
              int m[3] = {1, 2, init == 0 ? 0 : 3};
              bool used[3] = {false, false, false};
              for (auto& o : h) used[o.a] = used[o.kind >= 5 ? o.a : o.b] = true;
              for (int i = 0; i < 3; ++i) if (used[i] || h.size() < 2) s[i] = m[i] ? S::make(y.cs[m[i]]) : unique_ptr<T>(new T());
              for (auto& o : h) {
                  switch (o.kind) {
                      case 0: *s[o.a] = *s[o.b]; m[o.a] = m[o.b]; break;
                      case 1: *s[o.a] = move(*s[o.b]); m[o.a] = m[o.b]; m[o.b] = -1; break;
                      case 2: { unique_ptr<T> n(new T(*s[o.b])); s[o.a].reset(); s[o.a] = move(n); m[o.a] = m[o.b]; break; }
                      case 3: { unique_ptr<T> n(new T(move(*s[o.b]))); s[o.a].reset(); s[o.a] = move(n); m[o.a] = m[o.b]; m[o.b] = -1; break; }
                      case 4: s[o.a]->swap(*s[o.b]); swap(m[o.a], m[o.b]); break;
                      case 5: s[o.a].reset(); s[o.a].reset(new T()); m[o.a] = 0; break;
                      case 6: s[o.a].reset(); s[o.a] = S::make(y.cs[3]); m[o.a] = 3; break;
                  }
                  ++R.transitions;
              }
              for (int i = 0; i < 3; ++i) {
                  if (m[i] < 0 || !s[i]) continue;
                  auto& q = y.qs[m[i]];
                  for (size_t k = 0; k < q.size(); ++k) {
                      uint64_t a = q[k].f(*s[i]);
                      ++R.transitions;
                      if (a != y.ex[m[i]][k]) R.fail(mc::cat("slot ", i, " should hold content ", m[i], " but ", q[k].n, " answers ", a, " instead of ", y.ex[m[i]][k]));
                  }
              }
              R.obs(m[0] * 25 + m[1] * 5 + m[2]);
          });
}
// copying from a moved-from object is not part of the contract
static bool valid(const vector<HOp>& h, int init)
{
    int m[3] = {1, 2, init == 0 ? 0 : 3};
    for (auto& o : h) {
        switch (o.kind) {
            case 0: if (m[o.b] < 0) return false; m[o.a] = m[o.b]; break;
            case 1: if (m[o.b] < 0) return false; m[o.a] = m[o.b]; m[o.b] = -1; break;
            case 2: if (m[o.b] < 0) return false; m[o.a] = m[o.b]; break;
            case 3: if (m[o.b] < 0) return false; m[o.a] = m[o.b]; m[o.b] = -1; break;
            case 4: swap(m[o.a], m[o.b]); break;
            case 5: m[o.a] = 0; break;
            case 6: m[o.a] = 3; break;
        }
    }
    return true;
}
MC_TASK(histories, "structure x every valid history of depth 2 over 3 heap-allocated slots {copy/move assignment, copy/move construction, swap, self-assignment, destruction + default construction or new content}, 2 initial states; then all queries of every slot")
{
    auto O = ops();
    each(Subjects(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type S;
        for (int init = 0; init < 2; ++init) {
            history<S>(R, {}, init);
            for (auto& a : O) {
                history<S>(R, {a}, init);
                for (auto& b : O) if (valid({a, b}, init)) history<S>(R, {a, b}, init);
                if (R.stop()) return;
            }
        }
    });
}
MC_TASK(deep, "structure x every valid history of depth 3 over 3 slots (slots no operation names are left out; thorough: both initial states; quick: without new contents)")
{
    auto O = ops();
    each(Subjects(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type S;
        for (int init = 0; init < (R.thorough ? 2 : 1); ++init)
            for (auto& a : O) for (auto& b : O) for (auto& c : O) {
                if (!R.thorough && (a.kind >= 5 || b.kind == 6 || c.kind == 6 || a.a == 2 || ((SG >= 14 || SG == 8) && a.a == 1))) continue;
                if (valid({a, b, c}, init)) history<S>(R, {a, b, c}, init);
                if (R.stop()) return;
            }
    });
}
