// C35: shared services under every schedule of the threads' synchronisation operations.
#include "schedx.hpp"
#include <sdsl/util.hpp>
#include <sdsl/ram_fs.hpp>
#include <sdsl/io.hpp>
#include <sdsl/config.hpp>
#include <sdsl/int_vector.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <memory>
#include <set>
#include <array>
using namespace std;
using namespace sdsl;

MC_TASK(ids, "threads requesting ids, temporary file names and default cache configurations: 2 threads x 1..4 requests and 3 threads x 1..2, every schedule")
{
    for (int kind = 0; kind < 4; ++kind)
        for (auto c : {array<int, 2>{2, 1}, {2, 2}, {2, 3}, {2, 4}, {3, 1}, {3, 2}})
            R.run([&] { return mc::cat("kind ", kind, ", ", c[0], " threads with ", c[1], " requests"); }, [&] {
                schedx::explore(R, 99, [&] {
                    auto res = make_shared<vector<vector<string>>>(c[0], vector<string>(c[1]));
                    schedx::Scenario sc;
                    for (int t = 0; t < c[0]; ++t)
                        sc.threads.push_back([res, t, c, kind] {
                            for (int k = 0; k < c[1]; ++k)
                                switch (kind) {
                                    case 0: (*res)[t][k] = to_string(util::id()); break;
                                    case 1: (*res)[t][k] = tmp_file(cache_config(false, "./", "x"), "_n"); break;
                                    case 2: (*res)[t][k] = tmp_file(string("@dir/file"), "_n"); break;
                                    case 3: (*res)[t][k] = cache_config().id; break;
                                }
                        });
                    sc.check = [res] {
                        set<string> s;
                        for (auto& v : *res) for (auto& x : v)
                            if (!s.insert(x).second) throw mc::Fail{mc::cat("handed out twice: ", x)};
                    };
                    return sc;
                }, 0, 1, R.thorough ? ~0ULL : 20000);
            });
}

// ---- RAM-file operations
namespace
{
typedef map<string, vector<char>> Model;
struct Op { int kind; const char* a; const char* b; };
const Op OPS[] = {{0, "A", "1"}, {0, "B", "22"}, {1, "A", ""}, {1, "B", ""}, {2, "A", ""}, {2, "B", ""}, {3, "A", ""}, {3, "A", "B"}, {3, "B", "A"}, {4, "A", ""}, {4, "B", ""}, {5, "A", "B"}};
const int NOPS = 11;
string show(const Op& o)
{
    static const char* n[] = {"store", "exists", "file_size", "remove", "store(empty)", ""};
    if (o.kind == 3) return o.b[0] ? mc::cat("rename ", string(o.a), "->", string(o.b)) : mc::cat("remove ", string(o.a));
    return mc::cat(string(n[o.kind]), " ", string(o.a));
}
long apply_real(const Op& o)
{
    string a = o.a, b = o.b;
    switch (o.kind) {
        case 0: ram_fs::store(a, vector<char>(b.begin(), b.end())); return 0;
        case 1: return ram_fs::exists(a);
        case 2: return (long)ram_fs::file_size(a);
        case 3: return b.empty() ? ram_fs::remove(a) : ram_fs::rename(a, b);
        case 4: ram_fs::store(a, {}); return 0;
    }
    return 0;
}
long apply_model(Model& m, const Op& o)
{
    string a = o.a, b = o.b;
    switch (o.kind) {
        case 0: m[a] = vector<char>(b.begin(), b.end()); return 0;
        case 1: return m.count(a);
        case 2: return m.count(a) ? (long)m[a].size() : 0;
        case 3:
            if (b.empty()) return m.erase(a) ? 0 : -1;
            if (!m.count(a)) return -1;
            { auto v = m[a]; m.erase(a); m[b] = v; }
            return 0;
        case 4: m[a] = {}; return 0;
    }
    return 0;
}
struct Hist { Op op; long ret = 0; uint64_t call = 0, done = 0; };
uint64_t g_time;
__attribute__((noinline, no_sanitize("thread"))) void stamp(uint64_t& x) { x = ++g_time; }
bool linearizable(const vector<vector<Hist>>& h, vector<size_t>& pos, const Model& m, const Model& fin)
{
    bool end = true;
    uint64_t mindone = ~0ULL;
    for (size_t t = 0; t < h.size(); ++t) if (pos[t] < h[t].size()) { end = false; mindone = min(mindone, h[t][pos[t]].done); }
    if (end) return m == fin;
    for (size_t t = 0; t < h.size(); ++t) {
        if (pos[t] >= h[t].size()) continue;
        auto& x = h[t][pos[t]];
        if (x.call > mindone) continue; // some pending operation returned before this one was called
        Model m2 = m;
        if (apply_model(m2, x.op) != x.ret) continue;
        ++pos[t];
        bool ok = linearizable(h, pos, m2, fin);
        --pos[t];
        if (ok) return true;
    }
    return false;
}
Model init_model(int i) { Model m; if (i & 1) m["A"] = {'x'}; if (i & 2) m["B"] = {'y', 'y', 'y'}; return m; }
void reset(const Model& m)
{
    ram_fs::remove("A"); ram_fs::remove("B");
    for (auto& p : m) ram_fs::store(p.first, p.second);
}
schedx::Scenario ram(const vector<vector<Op>>& prog, int init)
{
    auto h = make_shared<vector<vector<Hist>>>();
    for (auto& p : prog) { h->emplace_back(); for (auto& o : p) { h->back().emplace_back(); h->back().back().op = o; } }
    g_time = 0;
    reset(init_model(init));
    schedx::Scenario sc;
    for (size_t t = 0; t < prog.size(); ++t)
        sc.threads.push_back([h, t] {
            for (auto& x : (*h)[t]) { stamp(x.call); x.ret = apply_real(x.op); stamp(x.done); }
        });
    sc.check = [h, init] {
        Model fin;
        for (string n : {"A", "B"}) if (ram_fs::exists(n)) fin[n] = ram_fs::content(n);
        vector<size_t> pos(h->size());
        if (!linearizable(*h, pos, init_model(init), fin)) {
            string s = "no sequential order explains the results:";
            for (size_t t = 0; t < h->size(); ++t) for (auto& x : (*h)[t]) s += mc::cat(" T", t, ":", show(x.op), "=", x.ret, "@", x.call, "-", x.done);
            for (auto& p : fin) s += mc::cat(" final ", p.first, ":", p.second.size());
            throw mc::Fail{s};
        }
    };
    return sc;
}
string show(const vector<vector<Op>>& p)
{
    string s;
    for (size_t t = 0; t < p.size(); ++t) { s += mc::cat(" T", t, ":"); for (auto& o : p[t]) s += " " + show(o) + ";"; }
    return s;
}
}
MC_TASK(ram1, "2 threads with one RAM-file operation each and 3 threads with one each: all operations x initial states {A,B present or not}, every schedule; results and final state linearizable, no data race")
{
    for (int init = 0; init < 4; ++init)
        for (int a = 0; a < NOPS; ++a)
            for (int b = a; b < NOPS; ++b)
                for (int c = b; c <= NOPS; ++c) {
                    vector<vector<Op>> p = {{OPS[a]}, {OPS[b]}};
                    if (c < NOPS) p.push_back({OPS[c]});
                    R.run([&] { return mc::cat("init ", init, show(p)); }, [&] { schedx::explore(R, c < NOPS && !R.thorough ? 2 : 99, [&] { return ram(p, init); }); });
                    if (R.stop()) return;
                }
}
MC_TASK(ram2, "2 threads with two RAM-file operations each: all programs x initial states {none, both; thorough: A}; at most 2 preemptions (thorough: no bound)")
{
    for (int init : {0, 3, 1}) {
        if (init == 1 && !R.thorough) break;
        for (int a = 0; a < NOPS * NOPS; ++a)
            for (int b = a; b < NOPS * NOPS; ++b) {
                vector<vector<Op>> p = {{OPS[a / NOPS], OPS[a % NOPS]}, {OPS[b / NOPS], OPS[b % NOPS]}};
                R.run([&] { return mc::cat("init ", init, show(p)); }, [&] { schedx::explore(R, R.thorough ? 99 : 2, [&] { return ram(p, init); }); });
                if (R.stop()) return;
            }
    }
}
MC_TASK(streams, "2 or 3 threads each storing, loading, renaming and removing vectors in RAM-files of their own, another thread creating and removing files next to them: every schedule with at most 2 (2 threads) or 1 (3 threads) preemptions (thorough one more)")
{
    for (int kind = 0; kind < 6; ++kind)
        for (int nt = 2; nt <= 3; ++nt)
            for (size_t part = 0; part < 4; ++part)
                R.run([&] { return mc::cat("kind ", kind, ", ", nt, " threads, part ", part, " of 4"); }, [&] {
                    schedx::explore(R, (nt == 3 ? 1 : 2) + R.thorough, [&] {
                        auto bad = make_shared<array<string, 4>>();
                        schedx::Scenario sc;
                        for (int t = 0; t < nt; ++t)
                            sc.threads.push_back([bad, t, kind] {
                                string f = mc::cat("@f", t), g = mc::cat("@g", t);
                                int_vector<> v(5 + t, t + 7, 9), w;
                                auto need = [&](bool c, const char* m) { if (!c) (*bad)[t] = m; };
                                int k = t == 0 ? kind : (kind + t) % 6;
                                switch (k) {
                                    case 0:
                                        need(store_to_file(v, f), "store");
                                        need(load_from_file(w, f) && w == v, "load");
                                        need(sdsl::remove(f) == 0, "remove");
                                        break;
                                    case 1:
                                        need(store_to_file(v, f), "store");
                                        need(sdsl::rename(f, g) == 0, "rename");
                                        need(load_from_file(w, g) && w == v, "load");
                                        need(sdsl::remove(g) == 0, "remove");
                                        break;
                                    case 2: {
                                        int_vector_buffer<> b(f, ios::out, 24, 9);
                                        for (int i = 0; i < 6; ++i) b[i] = i * 3 + t;
                                        b.close();
                                        need(load_from_file(w, f) && w.size() == 6 && w[5] == 15u + t, "buffer");
                                        sdsl::remove(f);
                                        break;
                                    }
                                    case 3:
                                        for (int i = 0; i < 3; ++i) { ram_fs::store(f, {'a'}); need(ram_fs::remove(f) == 0, "remove"); }
                                        break;
                                    case 4: {
                                        cache_config c(false, "@d", mc::cat("id", t));
                                        need(store_to_cache(v, "key", c), "store_to_cache");
                                        need(load_from_cache(w, "key", c) && w == v, "load_from_cache");
                                        util::delete_all_files(c.file_map);
                                        break;
                                    }
                                    case 5:
                                        need(store_to_checked_file(v, f), "store_to_checked_file");
                                        need(load_from_checked_file(w, f) && w == v, "load_from_checked_file");
                                        sdsl::remove(f);
                                        sdsl::remove(f + "_check");
                                        break;
                                }
                            });
                        sc.check = [bad] { for (auto& s : *bad) if (!s.empty()) throw mc::Fail{"wrong result of " + s}; };
                        return sc;
                    }, part, 4);
                });
}
