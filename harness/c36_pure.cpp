// C36 (sequential part): the answer of a query does not depend on the queries asked before.
#include "subjects.hpp"
#include <sstream>
#include <map>
template<class T> static void more(Qs<T>& q)
{
    q.push_back({"serialize", [](const T& t) -> uint64_t { ostringstream o; sdsl::serialize(t, o); return foldall(o.str()); }});
    q.push_back({"size_in_bytes", [](const T& t) -> uint64_t { return size_in_bytes(t); }});
    q.push_back({"serialize a copy", [](const T& t) -> uint64_t { T u(t); ostringstream o; sdsl::serialize(u, o); return foldall(o.str()); }});
}
template<class S> static void pure(mc::Run& R, const typename S::content& c)
{
    typedef typename S::type T;
    R.run([&] { return tname<S>::get() + " content " + showc(c); },
          [&] {
              Qs<T> q;
              unique_ptr<T> t = S::make(c);
              S::queries(*t, c, q);
              more<T>(q);
              vector<uint64_t> ex;
              auto ask = [&](size_t i, size_t prev) {
                  uint64_t a = q[i].f(*t);
                  ++R.transitions;
                  if (a != ex[i]) R.fail(mc::cat(q[i].n.c_str(), " answers ", a, " after ", q[prev].n.c_str(), ", but ", ex[i], " as the first query of a fresh object"));
              };
              size_t n = q.size();
              // ordered pairs: all queries, or, when there are too many, the same number of every kind of query
              size_t cap = R.thorough ? 500 : 100;
              vector<size_t> w;
              map<string, vector<size_t>> kinds;
              for (size_t i = 0; i < n; ++i) kinds[q[i].n.substr(0, q[i].n.find_first_of("0123456789"))].push_back(i);
              size_t per = n;
              auto total = [&] { size_t z = 0; for (auto& k : kinds) z += min(per, k.second.size()); return z; };
              while (per > 2 && total() > cap) per = per > 16 ? per * 3 / 4 : per - 1;
              for (auto& k : kinds) for (size_t i = 0, m = k.second.size(), c = min(per, m); i < c; ++i) w.push_back(k.second[c == 1 ? 0 : i * (m - 1) / (c - 1)]);
              // the answers to compare with: of a fresh object each for the queries of w, in order for the others
              ex.resize(n);
              {
                  unique_ptr<T> g = S::make(c);
                  for (size_t i = 0; i < n; ++i) ex[i] = q[i].f(*g);
              }
              for (size_t i : w) { unique_ptr<T> f = S::make(c); ex[i] = q[i].f(*f); }
              for (size_t i = 0; i < n; ++i) ask(i, i ? i - 1 : 0);
              for (size_t i = n; i-- > 0;) ask(i, i + 1 < n ? i + 1 : i);
              for (size_t i : w) for (size_t j : w) { ask(i, j); ask(j, i); }
              R.obs(foldall(ex));
          });
}
MC_TASK(pairs, "structure x content x every ordered pair of queries (all of them when there are at most 100, quick, or 500, thorough; otherwise equally many of every kind; members, iterators, algorithms; copying and serializing the object): each answer equals the one a fresh object gives first")
{
    each(Subjects(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type S;
        auto cs = some_contents<S>(R.thorough);
        for (auto& c : cs) { pure<S>(R, c); if (R.stop()) return; }
    });
}
