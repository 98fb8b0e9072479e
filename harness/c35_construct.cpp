// C35: indexes constructed concurrently equal the ones constructed alone (every schedule within the preemption bound).
#include "schedx.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <memory>
#include <array>
#include <map>
#include <set>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace std;
using namespace sdsl;
namespace
{
template<class T> string bytes(const T& t) { ostringstream o; t.serialize(o); return o.str(); }
const string TEXT[2] = {"abrab", "miss$i"};
string g_dir;
template<class T> string mem(int i) { T t; construct_im(t, TEXT[i], 1); return bytes(t); }
template<class T> string memi(int i)
{
    int_vector<> v(8);
    for (int k = 0; k < 8; ++k) v[k] = 1 + (k * k + i) % 5 * 300;
    T t;
    construct_im(t, v, 0);
    return bytes(t);
}
template<class T> string disk(int i)
{
    T t;
    cache_config c(true, g_dir);
    construct(t, (g_dir + "/in" + to_string(i)), c, 1);
    return bytes(t);
}
template<class T> string disk_default(int i)
{
    T t;
    construct(t, (g_dir + "/in" + to_string(i)), 1);
    return bytes(t);
}
string treap(int i)
{
    vector<array<uint64_t, 3>> p;
    for (uint64_t k = 0; k < 5; ++k) p.push_back({k, (k * 3 + i) % 5, k + 1});
    k2_treap<2, bit_vector> t;
    construct_im(t, p);
    return bytes(t);
}
struct Kind { const char* name; string (*f)(int); };
typedef cst_sct3<csa_wt<wt_huff<>, 4, 4>> tCst;
typedef cst_sada<csa_sada<enc_vector<>, 4, 4>, lcp_dac<>> tCstS;
const Kind K[] = {
    {"csa_wt", mem<csa_wt<wt_huff<>, 4, 4>>},
    {"csa_sada", mem<csa_sada<enc_vector<>, 4, 4>>},
    {"csa_wt<wt_int> (fuzzy sampling)", memi<csa_wt<wt_int<>, 4, 4, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>, int_alphabet<>>>},
    {"cst_sct3", mem<tCst>},
    {"wt_ap", memi<wt_ap<>>},
    {"wt_rlmn", mem<wt_rlmn<>>},
    {"cst_sct3<lcp_support_tree>", mem<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_support_tree<>>>},
    {"cst_sada", mem<tCstS>},
    {"csa_wt on disk", disk<csa_wt<wt_huff<>, 4, 4>>},
    {"cst_sct3 on disk", disk<tCst>},
    {"wt_rlmn on disk", disk<wt_rlmn<>>},
    {"k2_treap", treap},
};
const int NK = sizeof K / sizeof K[0];
set<string> listing()
{
    set<string> s;
    DIR* d = opendir(g_dir.c_str());
    while (auto e = readdir(d)) s.insert(e->d_name);
    closedir(d);
    return s;
}
const string& alone(int k, int i)
{
    static map<pair<int, int>, string> m;
    auto& r = m[ {k, i}];
    if (r.empty()) r = K[k].f(i);
    return r;
}
}
MC_TASK(pairs, "two threads constructing: pairs (thorough: all) of 12 kinds (6 in memory over bytes, 2 over integers, 3 on disk in one common directory, k2_treap), the same or different texts; every schedule of mutex, atomic and open/remove/rename operations with at most 1 preemption (thorough 2)")
{
    char t[] = "mc_c35_XXXXXX";
    g_dir = mkdtemp(t);
    for (int i = 0; i < 2; ++i) store_to_file(TEXT[i], (g_dir + "/in" + to_string(i)));
    auto before = listing();
    for (int a = 0; a < NK; ++a)
        for (int b = a; b < NK; ++b)
            for (int same = 0; same < 2; ++same)
                for (size_t part = 0; part < (R.thorough ? 16 : 1); ++part) {
                    if (!R.thorough && b != a && (same || (b != a + 1 && b != (a + 5) % NK && a != (b + 5) % NK))) continue;
                    R.run([&] { return mc::cat(K[a].name, " || ", K[b].name, same ? " same text" : " different texts", ", part ", part); }, [&] {
                        alone(a, 0), alone(b, !same);
                        schedx::explore(R, R.thorough ? 2 : 1, [&] {
                            auto res = make_shared<array<string, 2>>();
                            schedx::Scenario sc;
                            sc.threads.push_back([res, a] { (*res)[0] = K[a].f(0); });
                            sc.threads.push_back([res, b, same] { (*res)[1] = K[b].f(!same); });
                            sc.check = [res, a, b, same, &before] {
                                if ((*res)[0] != alone(a, 0)) throw mc::Fail{mc::cat("the ", K[a].name, " differs from the one constructed alone")};
                                if ((*res)[1] != alone(b, !same)) throw mc::Fail{mc::cat("the ", K[b].name, " differs from the one constructed alone")};
                                if (listing() != before) throw mc::Fail{"files left or lost in the directory"};
                            };
                            return sc;
                        }, part, R.thorough ? 16 : 1);
                    });
                    if (R.stop()) break;
                }
    for (int i = 0; i < 2; ++i) ::remove((g_dir + "/in" + to_string(i)).c_str());
    rmdir(g_dir.c_str());
}
