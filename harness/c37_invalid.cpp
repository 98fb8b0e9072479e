// C37: invalid inputs are refused by the documented exception or a false result and leave everything usable; valid
// inputs are accepted.  -DG selects the part.
#include "mc.hpp"
#include "gen.hpp"
#include <sdsl/construct.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sstream>
#include <set>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace sdsl;
using namespace std;
typedef vector<uint64_t> Seq;

static string dir()
{
    static string d;
    if (d.empty()) { d = gen::scratch("c37"); mkdir(d.c_str(), 0777); cerr.rdbuf(nullptr); }
    return d;
}
static set<string> listing()
{
    set<string> s;
    DIR* d = opendir(dir().c_str());
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') s.insert(e->d_name);
    closedir(d);
    return s;
}
static void put(const string& f, const string& b)
{
    if (is_ram_file(f)) { ram_fs::store(f, ram_fs::content_type(b.begin(), b.end())); return; }
    ofstream o(f, ios::binary);
    o << b;
}
static string le(const Seq& t, int w) { string s; for (auto x : t) for (int i = 0; i < w; ++i) s += (char)(x >> (8 * i)); return s; }
template<class T> static string ser(const T& t) { ostringstream o; sdsl::serialize(t, o); return o.str(); }
template<class T> static int_vector<T::alphabet_category::WIDTH> iv(const Seq& t) { int_vector<T::alphabet_category::WIDTH> v(t.size()); for (size_t i = 0; i < t.size(); ++i) v[i] = t[i]; return v; }

// what an index says about its text
template<class T> static Seq content(const T& t, csa_tag) { Seq s; if (t.size()) { auto x = extract(t, 0, t.size() - 1); for (auto c : x) s.push_back((uint64_t)c & (T::alphabet_category::WIDTH == 8 ? 255 : ~0ULL)); } return s; }
template<class T> static Seq content(const T& t, cst_tag) { return content(t.csa, csa_tag()); }
template<class T> static Seq content(const T& t, wt_tag) { Seq s; for (size_t i = 0; i < t.size(); ++i) s.push_back(t[i]); return s; }
template<class T> static Seq content(const T& t) { return content(t, typename T::index_category()); }

enum { refused_logic = 1, refused_io = 2, accepted = 0, refused_other = 3 };
static int outcome(function<void()> f, string* why = nullptr)
{
    try { f(); return accepted; }
    catch (const std::logic_error& e) { if (why) *why = e.what(); return refused_logic; }
    catch (const std::ios_base::failure& e) { if (why) *why = e.what(); return refused_io; }
    catch (const std::exception& e) { if (why) *why = e.what(); return refused_other; }
}
struct Src { int bytes; bool ram, im; };
static string name_of(const Src& s) { return string(s.im ? "construct_im" : s.ram ? "RAM file" : "file") + " of format " + (s.bytes == 'd' ? string("'d'") : to_string(s.bytes)); }
// constructs t from text through the given source; the input file is removed, everything else must be gone already
template<class T> static int build(T& t, const Seq& text, const Src& s, string& err)
{
    string why;
    int r;
    auto before = listing();
    if (s.im) {
        auto v = iv<T>(text);
        if (s.bytes == 0) r = outcome([&] { construct_im(t, v, 0); }, &why);
        else { string b = le(text, s.bytes); r = outcome([&] { construct_im(t, b, s.bytes); }, &why); }
    } else {
        string f = (s.ram ? string("@") : dir()) + "/input";
        if (s.bytes == 0) { auto v = iv<T>(text); store_to_file(v, f); }
        else if (s.bytes == 'd') { string b; for (auto x : text) b += to_string(x) + "\n"; put(f, b); }
        else put(f, le(text, s.bytes));
        cache_config cc(true, s.ram ? string("@") : dir(), "id");
        r = outcome([&] { construct(t, f, cc, s.bytes); }, &why);
        sdsl::remove(f);
    }
    auto after = listing();
    if (before != after) err = mc::cat("left files behind: ", after.size() - before.size());
    return r;
}

// ---------------------------------------------------------------- index types
template<class... V> struct Types {};
template<class F> static void each(Types<>, F) {}
template<class V, class... W, class F> static void each(Types<V, W...>, F f) { f((V*)0); each(Types<W...>(), f); }
template<class T> static string tn() { string s = util::demangle2(typeid(T).name()); return s.substr(0, 120); }
#if G == 1
typedef Types<csa_wt<>, csa_sada<>, csa_bitcompressed<>> Idx;
#elif G == 2
typedef Types<cst_sct3<>, cst_sada<>, cst_fully<>> Idx;
#elif G == 3
typedef Types<csa_wt_int<>, csa_sada_int<>, csa_bitcompressed<int_alphabet<>>> Idx;
#elif G == 4
typedef Types<cst_sct3<csa_wt_int<>>, cst_sada<csa_sada_int<>>> Idx;
#elif G == 5
typedef Types<wt_huff<>, wt_blcd<>, wt_hutu<>, wt_rlmn<>, wt_ap<>> Idx;
#elif G == 6
typedef Types<wt_int<>, wm_int<>, wt_ap<>, wt_huff_int<>, wt_gmr_rs<>, wt_gmr<>> Idx;
#else
typedef Types<> Idx;
#endif
template<class T> static bool is_wt() { return is_same<typename T::index_category, wt_tag>::value; }
template<class T> static vector<Src> sources()
{
    vector<Src> s;
    for (int b : T::alphabet_category::WIDTH == 8 ? vector<int>{0, 1} : vector<int>{0, 1, 2, 4, 8, 'd'})
        for (int k = 0; k < 3; ++k) {
            if (k == 2 && b == 'd') continue;
            if (k == 2 && b > 1) continue; // a std::string with embedded zero bytes and a byte vector: same path as RAM file
            s.push_back({b, k == 1, k == 2});
        }
    return s;
}
static Seq plus0(Seq t, bool wt) { if (!wt) t.push_back(0); return t; }
#if G >= 1 && G <= 6
// a target that has content; after a refusal it must still have it and must be usable as a target
template<class T> static void refuse(mc::Run& R, T& t, const Seq& before, const Src& src, const char* what, int r, const string& err)
{
    R.ck(r != accepted, mc::cat(what, " was accepted"));
    R.ck(err.empty(), mc::cat("refused construction ", err.c_str()));
    R.eq(content(t), before, "content of the target after a refused construction");
    string e;
    Seq again = {2, 1, 2, 2, 1};
    Src s = src;
    R.eqi(build(t, again, s, e), (int)accepted, "construction of a valid text after a refused one");
    R.eq(content(t), plus0(again, is_wt<T>()), "content after the second construction");
    R.ck(e.empty(), e);
}
MC_TASK(zeros, "index type x every text over {0, 1, 2} of length 0 to 5 (integer indexes 4, thorough 7; multi-byte formats also over {0, 1, 256}) x format (serialized, 1, 2, 4, 8 bytes, decimal) x source (file, RAM file, memory): suffix arrays and trees throw std::logic_error exactly if there is a zero symbol, wavelet trees accept everything; content, target after a refusal, no files and no memory left")
{
    each(Idx(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type T;
        for (auto& src : sources<T>())
            for (int alpha = 0; alpha < (src.bytes >= 2 && src.bytes != 'd' ? 2 : 1); ++alpha)
                for (size_t n = 0; n <= (R.thorough ? 7u : G == 3 || G == 4 ? 4u : 5u); ++n) {
                    size_t m = 1;
                    for (size_t i = 0; i < n; ++i) m *= 3;
                    for (size_t x = 0; x < m; ++x) {
                        Seq t;
                        for (size_t i = 0, y = x; i < n; ++i, y /= 3) t.push_back(alpha && y % 3 == 2 ? 256 : y % 3);
                        bool zero = count(t.begin(), t.end(), 0) > 0;
                        if (is_wt<T>() && t.empty()) continue; // see C14 for empty wavelet trees
                        if (src.bytes == 'd' && is_wt<T>() && t.empty()) continue;
                        R.run([&] { return tn<T>() + " from a " + name_of(src) + " of " + gen::shows(t); }, [&] {
                            T idx;
                            string err;
                            Seq prev = {1, 2, 1};
                            Src mem{0, false, true};
                            R.eqi(build(idx, prev, mem, err), 0, "construction of the first text");
                            R.ck(err.empty(), err);
                            prev = plus0(prev, is_wt<T>());
                            string why;
                            int r = build(idx, t, src, err);
                            if (zero && !is_wt<T>()) {
                                R.eqi(r, (int)refused_logic, "outcome for a text with a zero symbol (1 = std::logic_error)");
                                refuse(R, idx, prev, src, "a text with a zero symbol", r, err);
                            } else {
                                R.eqi(r, (int)accepted, "outcome for a valid text (0 = accepted)");
                                R.ck(err.empty(), err);
                                R.eq(content(idx), plus0(t, is_wt<T>()), "content");
                            }
                            R.obs(r);
                        });
                        if (R.stop()) return;
                    }
                }
    });
}
MC_TASK(leaks, "index type x format x source x valid and refused text: after the index is gone nothing of the construction is left in memory (RAM files included)")
{
    each(Idx(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type T;
        for (auto& src : sources<T>())
            for (int bad = 0; bad < 2; ++bad)
                R.run([&] { return tn<T>() + " from a " + name_of(src) + (bad ? " with a zero symbol" : ""); }, [&] {
                    auto once = [&] { T idx; string err; build(idx, bad ? Seq{1, 0, 2} : Seq{1, 2, 1}, src, err); };
                    once();
                    once();
                    size_t a = __sanitizer_get_current_allocated_bytes();
                    once();
                    size_t b = __sanitizer_get_current_allocated_bytes();
                    for (int i = 0; i < 8; ++i) once();
                    size_t c = __sanitizer_get_current_allocated_bytes();
                    R.ck(c - a < 8 * 64 || b == a, mc::cat("construction leaves ", (c - a) / 9, " bytes behind each time"));
                    R.obs(c == a);
                });
    });
}
MC_TASK(lengths, "multi-byte format x every file length 0 to 33 (no zero bytes) x source: refused by std::logic_error exactly if the length is not a multiple of the symbol width")
{
    each(Idx(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type T;
        for (auto& src : sources<T>()) {
            if (src.im || src.bytes == 'd' || src.bytes == 0) continue;
            for (size_t len = is_wt<T>() ? 1 : 0; len <= 33; ++len) {
                R.run([&] { return tn<T>() + " from a " + name_of(src) + mc::cat(" of ", len, " bytes"); }, [&] {
                    string b;
                    for (size_t i = 0; i < len; ++i) b += (char)(src.bytes > 2 && i % src.bytes > 1 ? 0 : 1 + (i * 5) % 7); // large symbols would need an alphabet bitmap of that many bits
                    string f = (src.ram ? string("@") : dir()) + "/input", err;
                    T idx;
                    Seq prev = {1, 2, 1};
                    Src mem{0, false, true};
                    build(idx, prev, mem, err);
                    put(f, b);
                    auto l = listing();
                    cache_config cc(true, src.ram ? string("@") : dir(), "id");
                    int r = outcome([&] { construct(idx, f, cc, src.bytes); });
                    if (listing() != l) err = "left files behind";
                    sdsl::remove(f);
                    if (len % src.bytes) {
                        R.eqi(r, (int)refused_logic, "outcome (1 = std::logic_error)");
                        refuse(R, idx, plus0(prev, is_wt<T>()), src, "a file of this length", r, err);
                    } else {
                        R.eqi(r, (int)accepted, "outcome (0 = accepted)");
                        Seq ex;
                        for (size_t i = 0; i < len; i += src.bytes) { uint64_t x = 0; for (int k = 0; k < src.bytes; ++k) x |= (uint64_t)(unsigned char)b[i + k] << (8 * k); ex.push_back(x); }
                        R.eq(content(idx), plus0(ex, is_wt<T>()), "content");
                        R.ck(err.empty(), err);
                    }
                    R.obs(r * 2 + (len % src.bytes != 0));
                });
                if (R.stop()) return;
            }
        }
    });
}
MC_TASK(missing, "index type x format x kind of missing file (absent, in a missing directory, absent RAM file): construct throws, the target keeps its content and stays usable, nothing is left behind")
{
    each(Idx(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type T;
        for (auto& src : sources<T>()) {
            if (src.im) continue;
            for (int k = 0; k < (src.ram ? 1 : 2); ++k)
                R.run([&] { return tn<T>() + " from an absent " + name_of(src) + (k ? " in a missing directory" : ""); }, [&] {
                    string f = (src.ram ? string("@") : dir()) + (k ? "/none/absent" : "/absent"), err;
                    T idx;
                    Seq prev = {1, 2, 1};
                    Src mem{0, false, true};
                    build(idx, prev, mem, err);
                    auto l = listing();
                    cache_config cc(true, src.ram ? string("@") : dir(), "id");
                    int r = outcome([&] { construct(idx, f, cc, src.bytes); });
                    if (listing() != l) err = "left files behind";
                    if (src.ram) R.ck(!ram_fs::exists(f), "the absent RAM file exists now");
                    refuse(R, idx, plus0(prev, is_wt<T>()), src, "an absent file", r, err);
                    R.obs(r);
                });
        }
    });
}
#else
// ---------------------------------------------------------------- loading and storing
template<class V> static Seq vals(const V& v) { Seq s; for (size_t i = 0; i < v.size(); ++i) s.push_back(v[i]); return s; }
template<class V> static void plain(mc::Run& R, const char* tname, int maxw)
{
    for (int w : {1, 2, 4, 8})
        for (bool ram : {false, true})
            for (size_t len = 0; len <= 41; ++len) {
                if (w * 8 > maxw) continue;
                R.run([&] { return mc::cat("load_vector_from_file(", tname, ", ", ram ? "RAM " : "", "file of ", len, " bytes, width ", w, ")"); }, [&] {
                    string b;
                    for (size_t i = 0; i < len; ++i) b += (char)(i * 37 + 200);
                    string f = (ram ? string("@") : dir()) + "/plain";
                    put(f, b);
                    V v(3, 1);
                    int r = -1;
                    bool ok = false;
                    r = outcome([&] { ok = load_vector_from_file(v, f, w); });
                    if (len % w) {
                        R.eqi(r, (int)refused_logic, "outcome (1 = std::logic_error)");
                        R.eq(vals(v), Seq({1, 1, 1}), "vector after the refusal");
                        put(f, b.substr(0, len / w * w));
                        r = outcome([&] { ok = load_vector_from_file(v, f, w); });
                    }
                    R.eqi(r, (int)accepted, "outcome (0 = accepted)");
                    R.ck(ok, "result");
                    Seq ex;
                    for (size_t i = 0; i + w <= len; i += w) { uint64_t x = 0; for (int k = 0; k < w; ++k) x |= (uint64_t)(unsigned char)b[i + k] << (8 * k); ex.push_back(x); }
                    R.eq(vals(v), ex, "loaded values");
                    sdsl::remove(f);
                    R.obs(len * 8 + w);
                });
                if (R.stop()) return;
            }
}
MC_TASK(plain_files, "vector type x width of the file x every file length 0 to 41 x file, RAM file: std::logic_error exactly if the length is not a multiple of the width, otherwise the little-endian values")
{
    plain<int_vector<>>(R, "int_vector<>", 64);
    plain<int_vector<8>>(R, "int_vector<8>", 8);
    plain<int_vector<16>>(R, "int_vector<16>", 16);
    plain<int_vector<32>>(R, "int_vector<32>", 32);
    plain<int_vector<64>>(R, "int_vector<64>", 64);
}
MC_TASK(decimal, "load_vector_from_file of decimal files: every sequence of up to 3 numbers from {0, 1, 9, 10, 255, 2^32, 2^64-1} x separators x trailing newline or not")
{
    vector<string> nums = {"0", "1", "9", "10", "255", "4294967296", "18446744073709551615"};
    for (size_t n = 0; n <= 3; ++n) {
        size_t m = 1;
        for (size_t i = 0; i < n; ++i) m *= nums.size();
        for (size_t x = 0; x < m; ++x)
            for (const char* sep : {" ", "\n", "\t ", "\r\n"})
                for (bool trail : {false, true}) {
                    string b;
                    Seq ex;
                    for (size_t i = 0, y = x; i < n; ++i, y /= nums.size()) { if (i) b += sep; b += nums[y % nums.size()]; ex.push_back(stoull(nums[y % nums.size()])); }
                    if (trail) b += sep;
                    R.run([&] { return "file with " + mc::cat(b); }, [&] {
                        for (string f : {dir() + "/dec", string("@/dec")}) {
                            put(f, b);
                            int_vector<> v(2, 1);
                            bool ok = load_vector_from_file(v, f, 'd');
                            R.ck(ok, "result");
                            R.eq(vals(v), ex, "values");
                            sdsl::remove(f);
                        }
                        R.obs(ex.size());
                    });
                }
    }
}
struct Any {
    string n;
    size_t type;
    function<bool(const string&)> store;
    function<int(const string&, bool&, string&)> load; // 1 loaded, 0 refused, -1 threw; object unchanged?; message
};
template<class T> static void any(vector<Any>& v, T full, size_t type)
{
    auto p = make_shared<T>(full);
    string bytes = ser(*p);
    v.push_back({tn<T>(), type, [p](const string& f) { return store_to_checked_file(*p, f); },
                 [p, bytes](const string& f, bool& same, string& err) {
                     T t = *p;
                     int r = 0;
                     try { r = load_from_checked_file(t, f); } catch (const std::exception& e) { err = e.what(); r = -1; }
                     same = ser(t) == bytes;
                     return r;
                 }});
}
template<class T> static T mk() { T t; construct_im(t, string("abracadabra"), 1); return t; }
template<class T> static T mki() { T t; int_vector<> v = {3, 1, 2, 3, 1, 1}; construct_im(t, v, 0); return t; }
static vector<Any> anys()
{
    vector<Any> v;
    bit_vector b(300, 0);
    for (size_t i = 0; i < 300; i += 7) b[i] = 1;
    int_vector<> iv0(10, 3, 5);
    size_t k = 0;
    any(v, int_vector<>(iv0), k++);
    any(v, b, k++);
    any(v, int_vector<2>(9, 1), k++);
    any(v, int_vector<8>(9, 1), k++);
    any(v, int_vector<16>(9, 1), k++);
    any(v, int_vector<32>(9, 1), k++);
    any(v, int_vector<64>(9, 1), k++);
    any(v, bit_vector_il<512>(b), k++);
    any(v, bit_vector_il<256>(b), k++);
    any(v, rrr_vector<63>(b), k++);
    any(v, rrr_vector<15>(b), k++);
    any(v, rrr_vector<127>(b), k++);
    any(v, sd_vector<>(b), k++);
    any(v, hyb_vector<>(b), k++);
    any(v, rank_support_v<1>(&b), k++);
    any(v, rank_support_v<0>(&b), k++);
    any(v, rank_support_v5<1>(&b), k++);
    any(v, select_support_mcl<1>(&b), k++);
    any(v, select_support_mcl<0>(&b), k++);
    any(v, enc_vector<>(iv0), k++);
    any(v, vlc_vector<>(iv0), k++);
    any(v, dac_vector<>(iv0), k++);
    any(v, mk<wt_huff<>>(), k++);
    any(v, mk<wt_blcd<>>(), k++);
    any(v, mk<wt_hutu<>>(), k++);
    any(v, mki<wt_int<>>(), k++);
    any(v, mki<wm_int<>>(), k++);
    any(v, mk<csa_wt<>>(), k++);
    any(v, mk<csa_sada<>>(), k++);
    any(v, mk<csa_bitcompressed<>>(), k++);
    any(v, mk<cst_sct3<>>(), k++);
    any(v, mk<cst_sada<>>(), k++);
    any(v, rmq_succinct_sct<>(&iv0), k++);
    return v;
}
MC_TASK(checked, "every ordered pair of 33 types: a checked file of the one loaded as the other succeeds exactly for the same type, and a refusal leaves the object unchanged; afterwards the object can be loaded from the right file")
{
    auto a = anys();
    for (auto& s : a)
        for (auto& l : a)
            for (bool ram : {false, true})
                R.run([&] { return "stored " + s.n + ", loaded as " + l.n + (ram ? " (RAM file)" : ""); }, [&] {
                    string f = (ram ? string("@") : dir()) + "/checked", err;
                    R.ck(s.store(f), "store");
                    bool same = false;
                    int r = l.load(f, same, err);
                    R.eqi(r, (int)(s.type == l.type), "result of load_from_checked_file");
                    R.ck(same, "object after the load");
                    R.ck(l.store(f), "second store");
                    r = l.load(f, same, err);
                    R.eqi(r, 1, "loading the right file afterwards");
                    R.ck(same, "object after the second load");
                    sdsl::remove(f);
                    sdsl::remove(f + "_check");
                    R.obs(r);
                });
}
MC_TASK(check_file, "type x every truncation of the check file, every single-byte change of it, check file or data file absent (after a successful load of the same type): refused, object unchanged")
{
    auto a = anys();
    for (auto& s : a)
        for (bool ram : {false, true}) {
            string f = (ram ? string("@") : dir()) + "/checked";
            for (int k = -2; k < 16; ++k)
                R.run([&] { return s.n + (ram ? " (RAM file)" : "") + (k == -2 ? string(": data file absent") : k == -1 ? string(": check file absent") : k < 8 ? mc::cat(": check file of ", k, " bytes") : mc::cat(": byte ", k - 8, " of the check file changed")); }, [&] {
                    string err;
                    bool same;
                    R.ck(s.store(f), "store");
                    R.eqi(s.load(f, same, err), 1, "first load"); // leaves the right hash value wherever the loader kept it
                    string h;
                    { isfstream i(f + "_check", ios::binary | ios::in); ostringstream o; o << i.rdbuf(); h = o.str(); }
                    R.eqi(h.size(), 8, "size of the check file");
                    if (k == -2) sdsl::remove(f);
                    else if (k == -1) sdsl::remove(f + "_check");
                    else if (k < 8) put(f + "_check", h.substr(0, k));
                    else { h[k - 8] ^= 0x10; put(f + "_check", h); }
                    R.eqi(s.load(f, same, err), 0, "load");
                    R.ck(same, "object after the refused load");
                    sdsl::remove(f);
                    sdsl::remove(f + "_check");
                    R.obs(k);
                });
        }
}
MC_TASK(absent, "load_from_file, load_from_cache, load_vector_from_file in every format, int_vector_mapper, on absent files (absent, missing directory, RAM): refused, object unchanged, no file created")
{
    for (string f : {dir() + "/absent", dir() + "/none/absent", string("@/absent"), string("")}) {
        R.run([&] { return "absent file " + mc::cat(f.empty() ? "with an empty name" : f[0] == '@' ? "in RAM" : f.find("none") != string::npos ? "in a missing directory" : "on disk"); }, [&] {
            auto l = listing();
            int_vector<> v(3, 5, 7);
            R.ck(!load_from_file(v, f), "load_from_file");
            R.eq(vals(v), Seq({5, 5, 5}), "after load_from_file");
            for (int w : {0, 1, 2, 4, 8, (int)'d'}) {
                bool ok = true;
                int r = outcome([&] { ok = load_vector_from_file(v, f, w); });
                R.ck(r != accepted || !ok, mc::cat("load_vector_from_file in format ", w, " succeeded"));
                R.eq(vals(v), Seq({5, 5, 5}), "after load_vector_from_file");
            }
            wt_huff<> wt = mk<wt_huff<>>();
            string b = ser(wt);
            R.ck(!load_from_file(wt, f), "load_from_file of a wavelet tree");
            R.eq(ser(wt), b, "wavelet tree after load_from_file");
            cache_config cc(false, f[0] == '@' ? "@" : dir(), "absent");
            R.ck(!load_from_cache(v, "key", cc), "load_from_cache");
            R.ck(!cache_file_exists("key", cc), "cache_file_exists");
            register_cache_file("key", cc);
            R.ck(!cc.file_map.count("key"), "an absent cache file was registered");
            cc.file_map["key"] = f;
            R.ck(!load_from_cache(v, "key", cc), "load_from_cache of a registered absent file");
            R.ck(!cache_file_exists("key", cc), "cache_file_exists of a registered absent file");
            R.eq(vals(v), Seq({5, 5, 5}), "after load_from_cache");
            if (f[0] != '@') {
                R.ck(outcome([&] { int_vector_mapper<> m(f); }) != accepted, "int_vector_mapper accepted it");
                R.ck(outcome([&] { int_vector_mapper<8> m(f, true); }) != accepted, "int_vector_mapper (plain) accepted it");
                R.ck(outcome([&] { int_vector_mapper<0, ios_base::in> m(f); }) != accepted, "int_vector_mapper (read only) accepted it");
            }
            R.ck(listing() == l, "files were created");
            R.ck(!ram_fs::exists(f), "a RAM file was created");
            R.obs(1);
        });
    }
}
template<uint8_t W> static void mapper(mc::Run& R)
{
    for (size_t len = 1; len <= 33; ++len)
        R.run([&] { return mc::cat("plain int_vector_mapper<", (int)W, "> of a file of ", len, " bytes"); }, [&] {
            string f = dir() + "/map", b;
            for (size_t i = 0; i < len; ++i) b += (char)(i * 3 + 1);
            put(f, b);
            bool legal = (W == 8 || W == 16 || W == 32 || W == 64) && len % (W / 8 ? W / 8 : 1) == 0;
            int r = outcome([&] { int_vector_mapper<W, ios_base::in> m(f, true); R.eqi(m.size(), len * 8 / W, "size"); });
            R.ck((r == accepted) == legal, mc::cat(legal ? "refused" : "accepted"));
            ifstream i(f, ios::binary);
            ostringstream o;
            o << i.rdbuf();
            R.eq(o.str(), b, "file afterwards");
            unlink(f.c_str());
            R.obs(r);
        });
}
MC_TASK(mappers, "plain int_vector_mapper of width 4, 8, 16, 24, 32, 64 x every file length 1 to 33: std::runtime_error exactly for an unsupported width or a length that is no multiple of it, file unchanged")
{
    mapper<4>(R); mapper<8>(R); mapper<16>(R); mapper<24>(R); mapper<32>(R); mapper<64>(R);
}
// ---------------------------------------------------------------- documented exceptions of single structures
template<class V> static void vlc(mc::Run& R, const char* name)
{
    for (size_t n = 1; n <= 6; ++n)
        for (size_t x = 0; x < (1u << n); ++x)
            R.run([&] { return mc::cat(name, " of ", n, " values, 2^64-1 where the bits of ", x, " are set"); }, [&] {
                int_vector<> v(n, 0, 64);
                Seq s;
                for (size_t i = 0; i < n; ++i) { v[i] = x >> i & 1 ? ~0ULL : i * 17; s.push_back(v[i]); }
                V c;
                int r = outcome([&] { c = V(v); });
                if (x == 0) {
                    R.eqi(r, (int)accepted, "outcome for values that can be coded");
                    R.eq(vals(c), s, "values");
                } else {
                    R.eqi(r, (int)refused_logic, "outcome (1 = std::logic_error)");
                    c = V(int_vector<>(3, 2));
                    R.eq(vals(c), Seq({2, 2, 2}), "usable afterwards");
                }
                R.obs(r);
            });
}
MC_TASK(vlc_max, "vlc_vector with every coder: up to 6 values, every pattern of the uncodable value 2^64-1 is refused by std::logic_error, everything else (zeros included) is accepted and represented exactly")
{
    vlc<vlc_vector<coder::elias_delta>>(R, "vlc_vector<elias_delta>");
    vlc<vlc_vector<coder::elias_gamma>>(R, "vlc_vector<elias_gamma>");
    vlc<vlc_vector<coder::fibonacci>>(R, "vlc_vector<fibonacci>");
}
#ifdef SDSL_DEBUG
MC_TASK(get_int, "with SDSL_DEBUG: bit_vector of 0 to 130 bits: get_int and set_int at every index 0 to 200 and every length 0 to 66 throw std::out_of_range exactly if the range leaves the vector or the length exceeds 64, and then change nothing")
{
    for (size_t n : {0, 1, 2, 63, 64, 65, 127, 128, 129, 130})
        for (size_t len = 0; len <= 66; ++len)
            R.run([&] { return mc::cat("bit_vector of ", n, " bits, length ", len); }, [&] {
                bit_vector b(n, 0);
                for (size_t i = 0; i < n; ++i) b[i] = (i * i) % 3 == 1;
                for (size_t idx = 0; idx <= 200; ++idx) {
                    bool legal = idx + len <= n && len <= 64;
                    bit_vector c = b;
                    if (legal && len == 0 ) continue;
                    int g = 0, s = 0;
                    uint64_t v = 0;
                    try { v = c.get_int(idx, len); } catch (const std::out_of_range&) { g = 1; }
                    R.eqi(g, (int)!legal, "get_int throws", idx, len);
                    if (legal) { uint64_t e = 0; for (size_t i = 0; i < len; ++i) e |= (uint64_t)b[idx + i] << i; R.eqi(v, e, "get_int", idx, len); }
                    try { c.set_int(idx, 0x5555555555555555ULL, len); } catch (const std::out_of_range&) { s = 1; }
                    R.eqi(s, (int)!legal, "set_int throws", idx, len);
                    if (!legal) R.ck(c == b, "a refused set_int changed the vector");
                }
                R.obs(n * 100 + len);
            });
}
#endif
#endif
