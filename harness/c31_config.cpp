// C31: a construction depends only on its input and cleans up after itself.  -DG selects the family.
#include "mc.hpp"
#include "gen.hpp"
#include <sdsl/construct.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/lcp.hpp>
#include <sstream>
#include <map>
#include <set>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace sdsl;
using namespace std;
typedef vector<uint64_t> Seq;
typedef map<string, string> Files;
enum { B = 8, I = 0 };

// ---------------------------------------------------------------- files
static string root()
{
    static string d;
    if (d.empty()) { d = gen::scratch("c31"); mkdir(d.c_str(), 0777); cerr.rdbuf(nullptr); if (chdir(d.c_str())) abort(); }
    return d;
}
static string slurp(const string& f)
{
    isfstream i(f, ios::binary | ios::in);
    if (!i) return "<absent>";
    ostringstream o;
    if (util::file_size(f)) o << i.rdbuf();
    return o.str();
}
static void put(const string& f, const string& b)
{
    if (is_ram_file(f)) { ram_fs::store(f, ram_fs::content_type(b.begin(), b.end())); return; }
    ofstream o(f, ios::binary);
    o << b;
}
static set<string> names(const string& d)
{
    set<string> s;
    if (DIR* p = opendir(d.c_str())) {
        while (dirent* e = readdir(p)) if (e->d_name[0] != '.') s.insert(e->d_name);
        closedir(p);
    }
    return s;
}
static Files snapshot(const string& d)
{
    Files f;
    for (auto& n : names(d)) { struct stat st; if (stat((d + "/" + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) f[n] = slurp(d + "/" + n); }
    return f;
}
static void wipe(const string& d) { for (auto& n : names(d)) unlink((d + "/" + n).c_str()); }
static string le(const Seq& t, int w) { string s; for (auto x : t) for (int i = 0; i < w; ++i) s += (char)(x >> (8 * i)); return s; }
template<class T> static string ser(const T& t) { ostringstream o; sdsl::serialize(t, o); return o.str(); }
static string encode(const Seq& t, int w, int alpha)
{
    if (w == 'd') { string s; for (auto x : t) s += to_string(x) + "\n"; return s; }
    if (w) return le(t, w);
    if (alpha == B) { int_vector<8> v(t.size()); for (size_t i = 0; i < t.size(); ++i) v[i] = t[i]; return ser(v); }
    int_vector<> v(t.size(), 0, 64);
    for (size_t i = 0; i < t.size(); ++i) v[i] = t[i];
    util::bit_compress(v);
    return ser(v);
}
// ---------------------------------------------------------------- what an intermediate file has to hold
struct Naive {
    Seq text, sa, isa, bwt, lcp, psi;
    explicit Naive(Seq t)
    {
        t.push_back(0);
        text = t;
        size_t n = t.size();
        for (size_t i = 0; i < n; ++i) sa.push_back(i);
        sort(sa.begin(), sa.end(), [&](size_t a, size_t b) { return lexicographical_compare(t.begin() + a, t.end(), t.begin() + b, t.end()); });
        isa.resize(n);
        for (size_t i = 0; i < n; ++i) isa[sa[i]] = i;
        for (size_t i = 0; i < n; ++i) bwt.push_back(t[(sa[i] + n - 1) % n]);
        for (size_t i = 0; i < n; ++i) {
            size_t l = 0;
            if (i) while (sa[i] + l < n && sa[i - 1] + l < n && t[sa[i] + l] == t[sa[i - 1] + l]) ++l;
            lcp.push_back(l);
        }
        for (size_t i = 0; i < n; ++i) psi.push_back(isa[(sa[i] + 1) % n]);
    }
};
template<class V> static Seq vals(const V& v) { Seq s; for (size_t i = 0; i < v.size(); ++i) s.push_back(v[i]); return s; }
// checks the file registered under key; returns false for keys without a documented content
static bool check_key(mc::Run& R, const string& key, const string& file, const Naive& n)
{
    R.ck(slurp(file) != "<absent>", mc::cat("the file registered as ", key, " does not exist"));
    auto is = [&](const char* k) { return key == k; };
    if (is(conf::KEY_TEXT) || is(conf::KEY_BWT)) {
        int_vector<8> v;
        R.ck(load_from_file(v, file), "load");
        R.eq(vals(v), is(conf::KEY_TEXT) ? n.text : n.bwt, key.c_str());
        return true;
    }
    const Seq* e = is(conf::KEY_TEXT_INT) ? &n.text : is(conf::KEY_BWT_INT) ? &n.bwt : is(conf::KEY_SA) ? &n.sa : is(conf::KEY_ISA) ? &n.isa : is(conf::KEY_LCP) ? &n.lcp : is(conf::KEY_PSI) ? &n.psi : nullptr;
    if (!e) return false;
    int_vector<> v;
    R.ck(load_from_file(v, file), "load");
    R.eq(vals(v), *e, key.c_str());
    return true;
}
// ---------------------------------------------------------------- the indexes
struct Kind {
    string n;
    int alpha;
    bool zero_ok;
    function<string(const string& file, cache_config*, int bytes)> make; // serialized index
    function<string(const Seq&)> mem;                                    // construct_im
    bool lcp; // format 0 is for integer texts only, as the type does not know the alphabet
};
template<class T> static string show(const T& t, csa_tag) { string s = ser(t) + "|"; for (size_t i = 0; i < t.size(); ++i) s += mc::cat(t[i], ",", t.isa[i], ",", (uint64_t)t.bwt[i], ";"); return s; }
template<class T> static string show(const T& t, cst_tag) { string s = ser(t) + "|" + show(t.csa, csa_tag()); for (size_t i = 0; i < t.size(); ++i) s += mc::cat(t.lcp[i], ";"); return s; }
template<class T> static string show(const T& t, wt_tag) { string s = ser(t) + "|"; for (size_t i = 0; i < t.size(); ++i) s += mc::cat((uint64_t)t[i], ";"); return s; }
template<class T> static string show(const T& t, lcp_tag) { string s = ser(t) + "|"; for (size_t i = 0; i < t.size(); ++i) s += mc::cat((uint64_t)t[i], ";"); return s; }
template<class T> static Kind kind(string n, int alpha)
{
    typedef typename T::index_category cat;
    return {n, alpha, is_same<cat, wt_tag>::value,
            [](const string& f, cache_config* c, int b) { T t; if (c) construct(t, f, *c, b); else construct(t, f, b); return show(t, cat()); },
            [alpha](const Seq& s) { T t; if (is_same<cat, lcp_tag>::value) { string b; for (auto x : s) b += (char)x; construct_im(t, b, 1); } else if (alpha == B) { int_vector<8> v(s.size()); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; construct_im(t, v, 0); } else { int_vector<> v(s.size(), 0, 64); for (size_t i = 0; i < s.size(); ++i) v[i] = s[i]; util::bit_compress(v); construct_im(t, v, 0); } return show(t, cat()); }, is_same<cat, lcp_tag>::value};
}
static vector<Kind> kinds()
{
    vector<Kind> k;
#if G == 1
    k.push_back(kind<csa_wt<wt_huff<>, 4, 4>>("csa_wt", B));
    k.push_back(kind<csa_wt<wt_huff<>, 4, 4, text_order_sa_sampling<>, text_order_isa_sampling_support<>>>("csa_wt text order", B));
    k.push_back(kind<csa_wt<wt_huff<>, 4, 4, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>>("csa_wt fuzzy", B));
    k.push_back(kind<csa_wt<wt_huff<>, 4, 4, sa_bwt_sampling<>>>("csa_wt bwt sampling", B));
    k.push_back(kind<csa_sada<enc_vector<>, 4, 4>>("csa_sada", B));
    k.push_back(kind<csa_bitcompressed<>>("csa_bitcompressed", B));
    k.push_back(kind<cst_sct3<csa_wt<wt_huff<>, 4, 4>>>("cst_sct3", B));
    k.push_back(kind<cst_sada<csa_sada<enc_vector<>, 4, 4>>>("cst_sada", B));
    k.push_back(kind<cst_fully<csa_wt<wt_huff<>, 4, 4>, 8>>("cst_fully", B));
#elif G == 2
    k.push_back(kind<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_support_tree<>>>("cst_sct3 lcp_support_tree", B));
    k.push_back(kind<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_support_tree2<4>>>("cst_sct3 lcp_support_tree2", B));
    k.push_back(kind<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_support_sada<>>>("cst_sct3 lcp_support_sada", B));
    k.push_back(kind<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_wt<>>>("cst_sct3 lcp_wt", B));
    k.push_back(kind<cst_sct3<csa_wt<wt_huff<>, 4, 4>, lcp_byte<>>>("cst_sct3 lcp_byte", B));
    k.push_back(kind<cst_sada<csa_sada<enc_vector<>, 4, 4>, lcp_vlc<>>>("cst_sada lcp_vlc", B));
    k.push_back(kind<cst_sada<csa_sada<enc_vector<>, 4, 4>, lcp_bitcompressed<>>>("cst_sada lcp_bitcompressed", B));
    k.push_back(kind<lcp_bitcompressed<>>("lcp_bitcompressed", B));
    k.push_back(kind<lcp_byte<>>("lcp_byte", B));
    k.push_back(kind<lcp_dac<>>("lcp_dac", B));
    k.push_back(kind<lcp_wt<>>("lcp_wt", B));
    k.push_back(kind<lcp_vlc<>>("lcp_vlc", B));
#elif G == 3
    k.push_back(kind<csa_wt<wt_int<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>("csa_wt int", I));
    k.push_back(kind<csa_sada<enc_vector<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>("csa_sada int", I));
    k.push_back(kind<csa_bitcompressed<int_alphabet<>>>("csa_bitcompressed int", I));
    k.push_back(kind<cst_sct3<csa_wt<wt_int<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>>("cst_sct3 int", I));
    k.push_back(kind<cst_sada<csa_sada<enc_vector<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>>>>("cst_sada int", I));
#elif G == 4
    k.push_back(kind<wt_huff<>>("wt_huff", B));
    k.push_back(kind<wt_blcd<>>("wt_blcd", B));
    k.push_back(kind<wt_hutu<>>("wt_hutu", B));
    k.push_back(kind<wt_rlmn<>>("wt_rlmn", B));
    k.push_back(kind<wt_int<>>("wt_int", I));
    k.push_back(kind<wm_int<>>("wm_int", I));
    k.push_back(kind<wt_ap<>>("wt_ap", I));
    k.push_back(kind<wt_gmr<>>("wt_gmr", I));
    k.push_back(kind<wt_gmr_rs<>>("wt_gmr_rs", I));
    k.push_back(kind<wt_huff_int<>>("wt_huff_int", I));
    k.push_back(kind<wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<>, wt_int<>>>("wt_rlmn int", I));
#endif
    return k;
}
static vector<Seq> texts(bool thorough)
{
    vector<Seq> t = {{}, {1}, {2, 2}, {1, 2, 1}, {3, 3, 3, 3, 3, 3, 3, 3}};
    Seq a, b, c;
    for (int i = 0; i < 40; ++i) a.push_back(1 + (i * i + i / 3) % 4);
    for (int i = 0; i < 300; ++i) b.push_back(1 + (i % 7 < 4 ? i % 2 : (i / 7) % 5));
    for (int i = 0; i < 700; ++i) c.push_back(1 + (i / 90) % 2);
    t.push_back(a);
    t.push_back(b);
    t.push_back(c);
    if (thorough) {
        Seq d;
        for (int i = 0; i < 2500; ++i) d.push_back(1 + (i * 7919 % 31) % 6);
        t.push_back(d);
        for (int n = 3; n <= 5; ++n) for (int x = 0; x < 1 << n; ++x) { Seq s; for (int i = 0; i < n; ++i) s.push_back(1 + (x >> i & 1)); t.push_back(s); }
    }
    return t;
}
static string cname(int f) { return f == 'd' ? string("'d'") : to_string(f); }
static vector<int> formats(const Kind& k) { return k.lcp ? vector<int>{1} : k.alpha == B ? vector<int>{0, 1} : vector<int>{0, 1, 2, 4, 8, 'd'}; }
static Files decoys(const string& id)
{
    return {{"text_other.sdsl", "decoy 1"}, {"sa_" + id + ".sdsl.bak", "decoy 2"}, {"bwt_" + id + "x.sdsl", "decoy 3"}, {id + ".sdsl", "decoy 4"}, {"foo", "decoy 5"}, {to_string(getpid()) + "_x.sdsl", "decoy 6"}, {"_", "decoy 7"}, {"sdsl", "decoy 8"}};
}
static void with_dir(const string& d) { root(); mkdir(d.c_str(), 0777); wipe(d); }

MC_TASK(configurations, "index x text x format of the input x input on disk or in RAM x cache on disk (with and without trailing slash), in the current directory by default, in RAM x deletion on or off x suffix sorter x id given or generated: the index is the one construct_im gives; input, decoy files of similar names and directory contents as they must be; registered intermediate files hold what their key says")
{
    for (auto& k : kinds())
        for (auto& t : texts(R.thorough)) {
            if (k.zero_ok && t.empty()) continue;
            string ref;
            for (int f : formats(k))
                for (int ram = 0; ram < 2; ++ram)
                    for (int dir = 0; dir < 4; ++dir) // 0: dir, 1: dir/, 2: default config, 3: RAM
                        for (int del = 0; del < 2; ++del)
                            for (int algo = 0; algo < (k.alpha == B ? 2 : 1); ++algo)
                                for (int id = 0; id < 2; ++id) {
                                    if (dir == 2 && (!del || id)) continue;
                                    R.run([&] { return k.n + " of " + gen::shows(t) + ", format " + cname(f) + (ram ? ", input in RAM" : ", input on disk") + (dir == 0 ? ", cache dir" : dir == 1 ? ", cache dir/" : dir == 2 ? ", default configuration" : ", cache in RAM") + (del ? ", deletion" : ", no deletion") + (algo ? ", SE_SAIS" : "") + (id ? ", id given" : ", id generated"); }, [&] {
                                        if (ref.empty()) { construct_config::byte_algo_sa = LIBDIVSUFSORT; ref = k.mem(t); }
                                        construct_config::byte_algo_sa = algo ? SE_SAIS : LIBDIVSUFSORT;
                                        Naive nv(t);
                                        string d = root() + "/cache", in = ram ? string("@/in/put") : root() + "/input";
                                        if (dir == 2 && !ram) d = root();
                                        wipe(root());
                                        with_dir(d);
                                        string bytes = encode(t, f, k.alpha);
                                        put(in, bytes);
                                        cache_config cc(del, dir == 1 ? d + "/" : dir == 3 ? string("@") : d, id ? "myid" : "");
                                        Files dec = decoys(cc.id);
                                        for (auto& x : dec) { put(d + "/" + x.first, x.second); put("@/" + x.first, x.second); }
                                        Files before = snapshot(d);
                                        set<string> rootb = names(root());
                                        string got = k.make(in, dir == 2 ? nullptr : &cc, f);
                                        construct_config::byte_algo_sa = LIBDIVSUFSORT;
                                        R.ck(got == ref, "the index differs from the one constructed in memory");
                                        R.eq(slurp(in), bytes, "input file afterwards");
                                        Files after = snapshot(d);
                                        for (auto& x : dec) { R.eq(slurp("@/" + x.first), x.second, "RAM file of a similar name"); ram_fs::remove("@/" + x.first); }
                                        set<string> regd;
                                        for (auto& e : cc.file_map) { size_t s = e.second.rfind('/'); regd.insert(e.second.substr(s + 1)); }
                                        if (del) R.ck(cc.file_map.empty(), "files are registered although deletion is on");
                                        for (auto& x : before) { R.ck(after.count(x.first), mc::cat("file ", x.first, " is gone")); R.eq(after[x.first], x.second, "unrelated file"); }
                                        for (auto& x : after) if (!before.count(x.first)) R.ck(!del && dir != 3 && regd.count(x.first), mc::cat("left behind: ", x.first));
                                        R.ck(names(root()) == rootb, "files left behind outside the cache directory");
                                        size_t known = 0;
                                        for (auto& e : cc.file_map) known += check_key(R, e.first, e.second, nv);
                                        if (!del && dir != 2 && !k.zero_ok) R.ck(known >= 3, "text, SA and the result built on it are registered");
                                        for (auto& e : cc.file_map) sdsl::remove(e.second);
                                        sdsl::remove(in);
                                        R.obs(regd.size());
                                    });
                                    if (R.stop()) return;
                                }
        }
}
MC_TASK(cache_states, "index x text x every subset of the intermediate files a construction with deletion off leaves (found by name, or registered under other names) x deletion on or off x cache on disk or in RAM: the same index, intermediate files correct, nothing unregistered left")
{
    for (auto& k : kinds()) {
        if (k.zero_ok) continue; // wavelet trees have no intermediate files
        auto ts = texts(R.thorough);
        for (size_t ti = 0; ti < ts.size(); ++ti) {
            auto& t = ts[ti];
            if (!R.thorough && ti != 0 && ti != 3 && ti != 5 && ti != 6) continue;
            string ref;
            Files left; // key -> content
            int f = k.alpha == B ? 1 : 0;
            auto prepare = [&] {
                if (!ref.empty()) return;
                ref = k.mem(t);
                with_dir(root() + "/prep");
                put(root() + "/prep/input", encode(t, f, k.alpha));
                cache_config cc(false, root() + "/prep", "p");
                k.make(root() + "/prep/input", &cc, f);
                for (auto& e : cc.file_map) left[e.first] = slurp(e.second);
                wipe(root() + "/prep");
            };
            prepare();
            size_t nf = left.size();
            if (nf > 10) nf = 10;
            for (size_t sub = 0; sub < (1u << nf); ++sub)
                for (int mode = 0; mode < 3; ++mode) // 0: by name on disk, 1: registered under other names, 2: by name in RAM
                    for (int del = 0; del < 2; ++del) {
                        R.run([&] { string s; size_t i = 0; for (auto& e : left) { if (i < nf && sub >> i & 1) s += " " + e.first; ++i; } return k.n + " of " + gen::shows(t) + (mode == 0 ? ", cached by name:" : mode == 1 ? ", registered under other names:" : ", cached in RAM:") + s + (del ? ", deletion" : ", no deletion"); }, [&] {
                            Naive nv(t);
                            string d = mode == 2 ? string("@") : root() + "/cache";
                            if (mode != 2) with_dir(d);
                            string in = root() + "/input";
                            string bytes = encode(t, f, k.alpha);
                            put(in, bytes);
                            cache_config cc(del, d, "c");
                            size_t i = 0;
                            set<string> had;
                            for (auto& e : left) {
                                if (i < nf && sub >> i & 1) {
                                    string n = mode == 1 ? d + "/other" + to_string(i) : cache_file_name(e.first, cc);
                                    put(n, e.second);
                                    if (mode == 1) cc.file_map[e.first] = n;
                                    had.insert(n.substr(n.rfind('/') + 1));
                                }
                                ++i;
                            }
                            put(root() + "/cache/decoy", "decoy");
                            string got = k.make(in, &cc, f);
                            R.ck(got == ref, "the index differs from the one constructed without cached files");
                            R.eq(slurp(in), bytes, "input file afterwards");
                            R.eq(slurp(root() + "/cache/decoy"), string("decoy"), "unrelated file");
                            set<string> regd;
                            for (auto& e : cc.file_map) { regd.insert(e.second.substr(e.second.rfind('/') + 1)); check_key(R, e.first, e.second, nv); }
                            if (mode != 2)
                                for (auto& n : names(d)) if (n != "decoy" && !had.count(n)) R.ck(!del && regd.count(n), mc::cat("left behind: ", n));
                            for (auto& e : cc.file_map) sdsl::remove(e.second);
                            if (mode == 2) for (auto& e : left) ram_fs::remove(cache_file_name(e.first, cc));
                            R.obs(regd.size());
                        });
                        if (R.stop()) return;
                    }
        }
    }
}
MC_TASK(histories, "every ordered pair (thorough: triple) of indexes over the same text sharing one cache, deletion off before the last and on or off for the last, one configuration object or a fresh one each: every index is the one built alone; with deletion on for a configuration that knows all files nothing is left")
{
    auto ks = kinds();
    auto ts = texts(false);
    map<pair<size_t, size_t>, string> ref;
    auto refof = [&](size_t a, size_t ti) -> const string& { auto& r = ref[{a, ti}]; if (r.empty()) r = ks[a].mem(ts[ti]); return r; };
    for (size_t ti : {0, 3, 5, 6})
        for (size_t a = 0; a < ks.size(); ++a)
            for (size_t b = 0; b < ks.size(); ++b)
                for (size_t c = 0; c < (R.thorough ? ks.size() + 1 : 1); ++c)
                    for (int fresh = 0; fresh < 2; ++fresh)
                        for (int del = 0; del < 2; ++del) {
                            if (ks[a].alpha != ks[b].alpha || (ks[a].zero_ok && ts[ti].empty())) continue;
                            if (c && ks[a].alpha != ks[c - 1].alpha) continue;
                            R.run([&] { return ks[a].n + ", " + ks[b].n + (c ? ", " + ks[c - 1].n : string()) + " of " + gen::shows(ts[ti]) + (fresh ? ", fresh configurations" : ", one configuration") + (del ? ", deletion at the end" : ""); }, [&] {
                                Naive nv(ts[ti]);
                                string d = root() + "/cache";
                                with_dir(d);
                                string in = root() + "/input";
                                int f = ks[a].alpha == B ? 1 : 0;
                                put(in, encode(ts[ti], f, ks[a].alpha));
                                vector<size_t> seq = {a, b};
                                if (c) seq.push_back(c - 1);
                                cache_config cc(false, d, "h");
                                for (size_t i = 0; i < seq.size(); ++i) {
                                    if (fresh) cc = cache_config(false, d, "h");
                                    cc.delete_files = del && i + 1 == seq.size();
                                    string got = ks[seq[i]].make(in, &cc, f);
                                    R.ck(got == refof(seq[i], ti), mc::cat("index ", i, " (", ks[seq[i]].n.c_str(), ") differs from the one built alone"));
                                    for (auto& e : cc.file_map) check_key(R, e.first, e.second, nv);
                                    if (cc.delete_files && !fresh) R.ck(names(d).empty(), mc::cat("left behind: ", names(d).empty() ? string() : *names(d).begin()));
                                }
                                R.obs(names(d).size());
                                wipe(d);
                            });
                            if (R.stop()) return;
                        }
}
MC_TASK(memory, "index x format x input and cache in RAM, deletion on: repeated constructions leave nothing in memory (RAM files included)")
{
    for (auto& k : kinds())
        for (auto& t : {Seq{1}, Seq{1, 2, 1, 1, 2, 3, 1, 2}})
            for (int f : formats(k))
                for (int im = 0; im < 2; ++im) {
                    if (im && f != formats(k)[0]) continue;
                    R.run([&] { return k.n + " of " + gen::shows(t) + (im ? ", construct_im" : ", format " + cname(f)); }, [&] {
                        root();
                        auto once = [&] {
                            if (im) { k.mem(t); return; }
                            put("@/in", encode(t, f, k.alpha));
                            cache_config cc(true, "@", "m");
                            k.make("@/in", &cc, f);
                            sdsl::remove("@/in");
                        };
                        once();
                        once();
                        size_t a = __sanitizer_get_current_allocated_bytes();
                        for (int i = 0; i < 6; ++i) once();
                        size_t b = __sanitizer_get_current_allocated_bytes();
                        for (int i = 0; i < 6; ++i) once();
                        size_t c = __sanitizer_get_current_allocated_bytes();
                        R.ck(c <= b || b <= a, mc::cat("every construction leaves about ", (c - b) / 6, " bytes behind"));
                        R.obs(c == a);
                    });
                }
}
