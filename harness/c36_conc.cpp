// C36 (concurrent part): threads querying one constant object.
#include "schedx.hpp"
#include "subjects.hpp"
#include <sstream>
template<class T> static void more(Qs<T>& q)
{
    q.push_back({"serialize", [](const T& t) -> uint64_t { ostringstream o; sdsl::serialize(t, o); return foldall(o.str()); }});
    q.push_back({"size_in_bytes", [](const T& t) -> uint64_t { return size_in_bytes(t); }});
    q.push_back({"serialize a copy", [](const T& t) -> uint64_t { T u(t); ostringstream o; sdsl::serialize(u, o); return foldall(o.str()); }});
}
template<class S> struct Shared {
    typedef typename S::type T;
    unique_ptr<T> t;
    Qs<T> q;
    vector<uint64_t> ex;
    explicit Shared(const typename S::content& c)
    {
        t = S::make(c);
        S::queries(*t, c, q);
        more<T>(q);
        unique_ptr<T> f = S::make(c); // not the shared object: that is queried for the first time by the threads
        for (auto& x : q) ex.push_back(x.f(*f));
    }
};
// which: indices of the queries thread k asks
template<class S> static void conc(mc::Run& R, Shared<S>& s, const vector<vector<size_t>>& prog, int bound)
{
    typedef typename S::type T;
    const T& t = *s.t;
    schedx::explore(R, bound, [&] {
        auto got = make_shared<vector<vector<uint64_t>>>(prog.size());
        schedx::Scenario sc;
        for (size_t k = 0; k < prog.size(); ++k) {
            (*got)[k].resize(prog[k].size());
            sc.threads.push_back([&, got, k] { for (size_t i = 0; i < prog[k].size(); ++i) (*got)[k][i] = s.q[prog[k][i]].f(t); });
        }
        sc.check = [&, got] {
            for (size_t k = 0; k < prog.size(); ++k)
                for (size_t i = 0; i < prog[k].size(); ++i)
                    if ((*got)[k][i] != s.ex[prog[k][i]])
                        R.fail(mc::cat("thread ", k, ": ", s.q[prog[k][i]].n.c_str(), " answers ", (*got)[k][i], " instead of ", s.ex[prog[k][i]]));
        };
        return sc;
    });
}
MC_TASK(all_queries, "structure x content: 2 threads asking all queries of one shared constant object in opposite orders, 3 threads in different orders; every schedule with at most 2 preemptions at synchronisation operations, every unordered pair of accesses judged for races")
{
    each(Subjects(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type S;
        auto cs = some_contents<S>(R.thorough);
        for (auto& c : cs) {
            R.run([&] { return tname<S>::get() + " content " + showc(c); },
                  [&] {
                      Shared<S> s(c);
                      size_t n = s.q.size();
                      vector<size_t> fw(n), bw(n), mid(n);
                      for (size_t i = 0; i < n; ++i) { fw[i] = i; bw[i] = n - 1 - i; mid[i] = (i + n / 2) % n; }
                      conc<S>(R, s, {fw, bw}, 2);
                      conc<S>(R, s, {fw, bw, mid}, 1);
                      conc<S>(R, s, {fw, fw}, 2);
                  });
            if (R.stop()) return;
        }
    });
}
MC_TASK(pairs, "structure x content x every pair of queries (quick: every pair of kinds of queries), one per thread on one shared constant object: every schedule")
{
    each(Subjects(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type S;
        auto cs = S::contents(0);
        for (auto& c : cs) {
            R.run([&] { return tname<S>::get() + " content " + showc(c); },
                  [&] {
                      Shared<S> s(c);
                      vector<size_t> w;
                      map<string, int> kinds;
                      for (size_t i = 0; i < s.q.size(); ++i) {
                          string k = s.q[i].n.substr(0, s.q[i].n.find_first_of("0123456789"));
                          if (kinds[k]++ < (R.thorough ? 40 : 2)) w.push_back(i);
                      }
                      for (size_t i = 0; i < w.size(); ++i) for (size_t j = i; j < w.size(); ++j) conc<S>(R, s, {{w[i]}, {w[j]}}, 2);
                  });
            if (R.stop()) return;
        }
    });
}
