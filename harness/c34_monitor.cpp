// C34: memory_monitor against a model, every history of allocations, events, start and stop, with a virtual clock.
#include "gen.hpp"
#include <sdsl/memory_management.hpp>
#include <sdsl/int_vector.hpp>
using namespace std;
using namespace sdsl;
static int64_t g_now = 1000000000, g_step = 0; // nanoseconds
extern "C" int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return g_now += g_step; }

struct Ev { string name; vector<pair<int64_t, int64_t>> u; };
static vector<Ev> parse(const string& s)
{
    vector<Ev> r;
    istringstream in(s);
    string l;
    while (getline(in, l)) {
        size_t p;
        if ((p = l.find("\"name\" : \"")) != string::npos) r.push_back({l.substr(p + 10, l.rfind('"') - p - 10), {}});
        else if ((p = l.find('[')) != string::npos && p + 1 < l.size() && (isdigit(l[p + 1]) || l[p + 1] == '-')) {
            long long a, b;
            if (r.empty() || sscanf(l.c_str() + p, "[%lld,%lld]", &a, &b) != 2) throw mc::Fail{"memory log is not well-formed: " + l};
            r.back().u.push_back({a, b});
        }
    }
    return r;
}
static size_t bytes(size_t bits) { return ((bits + 63) >> 6) << 3; }
struct MEv { string name; vector<int64_t> seen; int64_t first, last; bool closed; vector<int64_t> top; bool lastrec; int64_t lastval; };

MC_TASK(histories, "every history of depth 5 (thorough 6) over {resize two vectors to 0/64/65/1000 bits, copy, move, swap, temporary, destroy, open event, close event, restart}, 3 clock/granularity settings; log and peak compared with a model")
{
    size_t D = R.thorough ? 6 : 5;
    const size_t OPS = 13;
    size_t tot = 1;
    for (size_t i = 0; i < D; ++i) tot *= OPS;
    const char* names[] = {"a=0", "a=64", "a=65", "a=1000", "b=64", "b=a", "b=move(a)", "swap", "temp500", "a=()", "open", "close", "stop/start"};
    for (int cl = 0; cl < 3; ++cl) for (size_t h = 0; h < tot; ++h) {
        if (R.stop()) return;
        if (cl > 0 && !R.thorough && (h / 13) % 3 != 0) continue; // the other clocks: a third of the histories
        R.run([&] { string s; for (size_t i = 0, x = h; i < D; ++i, x /= OPS) s += string(" ") + names[x % OPS]; return mc::cat("clock ", cl, " history:", s); },
              [&] {
                  g_step = cl == 0 ? 1000000 : cl == 1 ? 0 : 7000000;
                  memory_monitor::granularity(chrono::milliseconds(cl == 0 ? 0 : 20));
                  memory_monitor::start();
                  bool running = true;
                  {
                      bit_vector a, b;
                      vector<unique_ptr<memory_monitor::mm_event_proxy>> open;
                      int64_t cur = 0;
                      vector<MEv> evs;
                      vector<size_t> stack;
                      size_t stale = 0; // open events of an earlier session
                      auto begin = [&](const string& n) { evs.push_back({n, {cur}, cur, cur, false, {}, false, 0}); stack.push_back(evs.size() - 1); };
                      auto rec = [&](int64_t d) {
                          if (!d || !running) return;
                          cur += d;
                          for (auto i : stack) evs[i].seen.push_back(cur);
                          evs[stack.back()].top.push_back(cur);
                          evs[stack.back()].lastrec = true;
                          evs[stack.back()].lastval = cur;
                      };
                      begin("unknown");
                      for (size_t i = 0, x = h; i < D; ++i, x /= OPS) {
                          size_t A = bytes(a.bit_size()), B = bytes(b.bit_size());
                          auto rs = [&](bit_vector& v, size_t n) { size_t o = bytes(v.bit_size()); v.resize(n); rec((int64_t)bytes(n) - (int64_t)o); };
                          switch (x % OPS) {
                              case 0: rs(a, 0); break;
                              case 1: rs(a, 64); break;
                              case 2: rs(a, 65); break;
                              case 3: rs(a, 1000); break;
                              case 4: rs(b, 64); break;
                              case 5: b = a; cur += 0; if (A != B) rec((int64_t)A - (int64_t)B); break;
                              case 6: b = std::move(a); rec(-(int64_t)B); a = bit_vector(); break;
                              case 7: a.swap(b); break;
                              case 8: { bit_vector t(500, 1); rec(bytes(500)); } rec(-(int64_t)bytes(500)); break;
                              case 9: a = bit_vector(); rec(-(int64_t)A); break;
                              case 10: if (running && open.size() < 3) {
                                      string n = "e" + to_string(evs.size());
                                      open.emplace_back(new memory_monitor::mm_event_proxy(memory_monitor::event(n)));
                                      begin(n);
                                  }
                                  break;
                              case 11: if (!open.empty()) {
                                      open.pop_back();
                                      if (open.size() < stale) --stale;
                                      else if (running) {
                                          MEv& e = evs[stack.back()];
                                          e.closed = true;
                                          e.last = cur;
                                          stack.pop_back();
                                          evs[stack.back()].lastrec = false;
                                      }
                                  }
                                  break;
                              case 12:
                                  if (running) { memory_monitor::stop(); running = false; stack.clear(); }
                                  else {
                                      a = bit_vector(); b = bit_vector();
                                      memory_monitor::start();
                                      running = true;
                                      cur = 0; evs.clear(); stack.clear();
                                      stale = open.size();
                                      begin("unknown");
                                  }
                                  break;
                          }
                      }
                      if (!running) {
                          a = bit_vector(); b = bit_vector();
                          memory_monitor::start();
                          running = true;
                          cur = 0; evs.clear(); stack.clear();
                          stale = open.size();
                          begin("unknown");
                      }
                      // probe
                      { auto e = memory_monitor::event("probe"); begin("probe"); }
                      evs.back().closed = true; evs.back().last = cur; stack.pop_back(); evs[stack.back()].lastrec = false;
                      while (!open.empty()) {
                          open.pop_back();
                          if (open.size() < stale) continue;
                          evs[stack.back()].closed = true; evs[stack.back()].last = cur; stack.pop_back(); evs[stack.back()].lastrec = false;
                      }
                      memory_monitor::stop();
                      running = false;
                      { bit_vector t(3000, 1); auto e = memory_monitor::event("late"); }
                      stringstream ss;
                      memory_monitor::write_memory_log<JSON_FORMAT>(ss);
                      auto log = parse(ss.str());
                      R.eqi(log.size(), evs.size(), "number of reported events");
                      R.eqi(cur, (int64_t)(bytes(a.bit_size()) + bytes(b.bit_size())), "model usage");
                      map<string, Ev*> by;
                      for (auto& e : log) { if (by.count(e.name)) R.fail("event reported twice: " + e.name); by[e.name] = &e; }
                      int64_t peak = 0;
                      for (auto& e : log) for (auto& u : e.u) peak = max(peak, u.second);
                      R.eqi(memory_monitor::peak(), peak, "peak");
                      int64_t truepeak = 0;
                      for (auto& m : evs) {
                          if (!by.count(m.name)) R.fail("event not reported: " + m.name);
                          Ev& e = *by[m.name];
                          if (e.u.empty()) R.fail("event without usage: " + m.name);
                          R.eqi(e.u[0].second, cl && !m.top.empty() ? e.u[0].second : m.first, mc::cat("first usage of ", m.name).c_str());
                          set<int64_t> ok(m.seen.begin(), m.seen.end());
                          for (size_t i = 0; i < e.u.size(); ++i) {
                              if (i && e.u[i].first < e.u[i - 1].first) R.fail("time runs backwards in event " + m.name);
                              if (!ok.count(e.u[i].second)) R.fail(mc::cat("event ", m.name, " reports usage ", e.u[i].second, " which it never had; usages ", mc::str(m.seen)));
                          }
                          if (m.closed) R.eqi(e.u.back().second, m.last, mc::cat("last usage of ", m.name).c_str());
                          else if (m.lastrec) R.eqi(e.u.back().second, m.lastval, mc::cat("last usage of ", m.name).c_str());
                          if (cl == 0) {
                              set<int64_t> got;
                              for (auto& u : e.u) got.insert(u.second);
                              for (auto u : m.top) if (!got.count(u)) R.fail(mc::cat("event ", m.name, " does not report usage ", u));
                          }
                          for (auto u : m.seen) truepeak = max(truepeak, u);
                      }
                      if (cl == 0) R.eqi(memory_monitor::peak(), truepeak, "peak with granularity 0");
                  }
              });
    }
}
