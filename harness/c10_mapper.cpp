// C10: int_vector_mapper histories against an array of bits; the file after destruction against the serialized form.
#include "gen.hpp"
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/vectors.hpp>
#include <fstream>
#include <sys/stat.h>
using namespace sdsl;
using namespace std;
typedef vector<uint64_t> VV;
typedef vector<uint8_t> Bits;

static string slurp(const string& f)
{
    ifstream in(f, ios::binary);
    return string((istreambuf_iterator<char>(in)), istreambuf_iterator<char>());
}
static bool there(const string& f) { return access(f.c_str(), F_OK) == 0; }
static uint64_t mask(unsigned w) { return w == 64 ? ~0ULL : (1ULL << w) - 1; }
static string image(const Bits& b, unsigned w, bool dyn, bool plain)
{
    string s;
    if (!plain) {
        for (int i = 0; i < 8; ++i) s += (char)((uint64_t)b.size() >> (8 * i));
        if (dyn) s += (char)w;
    }
    string d(plain ? (b.size() + 7) / 8 : (b.size() + 63) / 64 * 8, 0);
    for (size_t i = 0; i < b.size(); ++i) if (b[i]) d[i / 8] |= 1 << (i % 8);
    return s + d;
}
// bits behind the end inside the last word of an int_vector are padding without meaning
static string canon(string s, size_t bits, unsigned w, bool dyn, bool plain)
{
    if (plain) return s;
    size_t h = dyn ? 9 : 8;
    for (size_t p = bits; p < (bits + 63) / 64 * 64; ++p) if (h + p / 8 < s.size()) s[h + p / 8] &= ~(1 << (p % 8));
    return s;
}
struct M { // the model
    Bits b;
    unsigned w;
    size_t n() const { return b.size() / w; }
    uint64_t bits(size_t p, unsigned l) const
    {
        uint64_t r = 0;
        for (unsigned j = 0; j < l && p + j < b.size(); ++j) r |= (uint64_t)b[p + j] << j;
        return r;
    }
    void set_bits(size_t p, unsigned l, uint64_t x) { for (unsigned j = 0; j < l; ++j) b[p + j] = (x >> j) & 1; }
    uint64_t get(size_t i) const { return bits(i * w, w); }
    void set(size_t i, uint64_t x) { set_bits(i * w, w, x); }
};
template<class B> static void do_flip(B&) {}
static void do_flip(int_vector_mapper<1>& x) { x.flip(); }
enum Op { W0, WLAST, PUSH, PUSH3, GROW1, GROWB, SHRINK1, HALF, ZERO, BITRES, SETINT, FLIP, FILL, REOPEN, ROPEN, MOVEC, MOVEA, WIDTH, NOPS };
static const char* opn[] = {"write[0]", "write[last]", "push_back", "push_back x3", "resize(size+1)", "resize(size+2 words)", "resize(size-1)", "resize(size/2)", "resize(0)", "bit_resize(bits+5 or -5)", "set_int", "flip", "fill by iterator", "close,reopen", "reopen read-only, then read-write", "move construct", "move assign", "width change"};

template<uint8_t W>
static void history(mc::Run& R, unsigned w, bool plain, size_t start, const vector<int>& ops)
{
    typedef int_vector_mapper<W> B;
    const bool dyn = W == 0;
    string f = gen::scratch("c10_a"), fo = gen::scratch("c10_b");
    uint64_t val = 0x9e3779b97f4a7c15ULL;
    auto next = [&] { val = val * 6364136223846793005ULL + 1442695040888963407ULL; return val >> 7 ^ val << 57; };
    M m;
    m.w = w;
    m.b.resize(start * w);
    for (auto& x : m.b) x = next() & 1;
    {
        ofstream out(f, ios::binary | ios::trunc);
        out << image(m.b, m.w, dyn, plain);
    }
    if (plain && start == 0) return; // an empty plain file cannot be mapped
    Bits ob(3 * w, 1);
    auto mko = [&] {
        ofstream out(fo, ios::binary | ios::trunc);
        out << image(ob, w, dyn, plain);
    };
    auto img = [&] { return image(m.b, m.w, dyn, plain); };
    auto fill_new = [&](B& x, size_t from) {
        for (size_t i = from; i < m.n(); ++i) { uint64_t y = next() & mask(m.w); x[i] = y; m.set(i, y); }
        for (size_t p = m.n() * m.w; p < m.b.size(); ++p) { x.set_int(p, 1, 1); m.b[p] = 1; }
    };
    unique_ptr<B> b(new B(f, plain));
    for (int op : ops) {
        B& x = *b;
        size_t n = m.n();
        auto resize = [&](size_t k) {
            x.resize(k);
            m.b.resize(k * m.w);
            fill_new(x, n);
        };
        switch (op) {
            case W0: if (n) { uint64_t y = next() & mask(m.w); x[0] = y; m.set(0, y); } break;
            case WLAST: if (n) { uint64_t y = next() & mask(m.w); x[n - 1] = y; m.set(n - 1, y); } break;
            case PUSH: case PUSH3:
                if (m.b.size() % m.w) break; // not at an element boundary
                for (int i = 0; i < (op == PUSH ? 1 : 3); ++i) {
                    uint64_t y = next() & mask(m.w);
                    x.push_back(y);
                    m.b.resize(m.b.size() + m.w);
                    m.set(m.n() - 1, y);
                }
                break;
            case GROW1: resize(n + 1); break;
            case GROWB: resize(n + 128 / m.w + 1); break;
            case SHRINK1: if (n && !(plain && n == 1)) resize(n - 1); break;
            case HALF: if (!plain || n > 1) resize(n / 2); break;
            case ZERO: if (!plain) resize(0); break;
            case BITRES:
                if (plain) break;
                {
                    size_t k = m.b.size() % 2 || m.b.size() < 5 ? m.b.size() + 5 : m.b.size() - 5;
                    x.bit_resize(k);
                    m.b.resize(k);
                    fill_new(x, n);
                }
                break;
            case SETINT:
                for (size_t p : {size_t(0), m.b.size() / 2, m.b.size() >= 64 ? m.b.size() - 64 : 0})
                    for (unsigned l : {1u, 7u, 64u}) if (p + l <= m.b.size() && l <= 8 * sizeof(typename B::value_type) && (W != 1 || l == 1)) {
                        uint64_t y = next();
                        x.set_int(p, y & mask(l), l);
                        m.set_bits(p, l, y);
                        R.eqi(x.get_int(p, l), m.bits(p, l), "get_int", p, l);
                    }
                break;
            case FLIP: // only bit vectors have flip
                if (W == 1) {
                    do_flip(x);
                    for (auto& z : m.b) z ^= 1;
                }
                break;
            case FILL: {
                size_t i = 0;
                for (auto it = x.begin(); it != x.end(); ++it, ++i) {
                    uint64_t y = next() & mask(m.w);
                    *it = y;
                    if (i < n) m.set(i, y);
                }
                R.eqi(i, n, "elements visited");
                if (W != 1) {
                    sort(x.begin(), x.end());
                    VV v;
                    for (size_t j = 0; j < n; ++j) v.push_back(m.get(j));
                    sort(v.begin(), v.end());
                    for (size_t j = 0; j < n; ++j) m.set(j, v[j]);
                }
                break;
            }
            case REOPEN:
                b.reset();
                R.eq(canon(slurp(f), m.b.size(), m.w, dyn, plain), img(), "file after destruction");
                if (plain && m.b.empty()) return;
                b.reset(new B(f, plain));
                break;
            case ROPEN: {
                b.reset();
                string before = slurp(f);
                struct stat s0, s1;
                stat(f.c_str(), &s0);
                {
                    read_only_mapper<W> r(f, plain);
                    R.eqi(r.size(), m.n(), "read-only size");
                    R.eqi(r.bit_size(), m.b.size(), "read-only bit size");
                    R.eqi(r.width(), m.w, "read-only width");
                    for (size_t i = 0; i < n; ++i) R.eqi((uint64_t)r[i], m.get(i), "read-only []", i);
                    size_t i = 0;
                    for (auto y : r) { R.eqi((uint64_t)y, m.get(i), "read-only iterator", i); ++i; }
                    R.eqi(i, n, "read-only iteration");
                }
                stat(f.c_str(), &s1);
                R.eq(slurp(f), before, "file after a read-only mapping");
                R.ck(s0.st_mtim.tv_sec == s1.st_mtim.tv_sec && s0.st_mtim.tv_nsec == s1.st_mtim.tv_nsec, "read-only mapping wrote to the file");
                b.reset(new B(f, plain));
                break;
            }
            case MOVEC: {
                unique_ptr<B> t(new B(std::move(x)));
                b = std::move(t); // destroys the moved-from mapper
                break;
            }
            case MOVEA: {
                mko();
                unique_ptr<B> t(new B(fo, plain));
                (*t)[1] = 0;
                Bits e = ob;
                for (unsigned j = 0; j < w; ++j) e[w + j] = 0;
                *t = std::move(x);
                R.eq(slurp(fo), image(e, w, dyn, plain), "file of the mapper that was assigned to");
                b = std::move(t);
                break;
            }
            case WIDTH:
                if (dyn) {
                    unsigned nw = m.w == w ? (w == 64 ? 7 : w + 1) : w;
                    x.width(nw);
                    m.w = nw;
                }
                break;
        }
        B& y = *b;
        R.eqi(y.size(), m.n(), "size");
        R.eqi(y.bit_size(), m.b.size(), "bit_size");
        R.eqi(y.width(), m.w, "width");
        R.eqi(y.empty(), m.b.empty(), "empty");
        R.ck(y.capacity() >= m.n(), "capacity");
        R.eq(y.file_name(), f, "file name");
        const B& cy = y;
        for (size_t i = 0; i < m.n(); ++i) if ((uint64_t)cy[i] != m.get(i)) R.eqi((uint64_t)cy[i], m.get(i), "[]", i);
        VV v;
        for (size_t i = 0; i < m.n(); ++i) v.push_back(m.get(i));
        R.obs(v);
        R.ck(y == v, "== the same elements");
        R.ck(!(y != v), "!= the same elements");
        if (v.size()) {
            VV u = v;
            u.pop_back();
            R.ck(!(y == u), "== a proper prefix");
            u = v;
            u.push_back(1);
            R.ck(!(y == u), "== a longer vector");
            u = v;
            u.back() ^= 1;
            R.ck(y != u, "!= other elements");
        }
    }
    if (ops.size() && ops[0] % 3 == 0) { // delete on close
        b.reset();
        R.eq(canon(slurp(f), m.b.size(), m.w, dyn, plain), img(), "file after destruction");
        { B t(f, plain, true); R.eqi(t.size(), m.n(), "size"); }
        R.ck(!there(f), "delete_on_close mapper left its file");
    } else {
        b.reset();
        R.eq(canon(slurp(f), m.b.size(), m.w, dyn, plain), img(), "file after destruction");
        if (!plain) {
            int_vector<W> v;
            R.ck(load_from_file(v, f), "load_from_file");
            R.eqi(v.bit_size(), m.b.size(), "loaded bits");
            for (size_t i = 0; i < m.n(); ++i) R.eqi(v[i], m.get(i), "loaded", i);
        }
        unlink(f.c_str());
    }
    unlink(fo.c_str());
}
template<uint8_t W>
static void all(mc::Run& R, unsigned w, bool plain, size_t depth)
{
    for (size_t start : vector<size_t>{0, 1, 128 / w + 1, 3 * ((64 + w - 1) / w)}) {
        gen::all_seqs(1, depth, gen::iota_alpha(0, NOPS - 1), [&](const VV& o) {
            vector<int> ops(o.begin(), o.end());
            R.run([&] {
                ostringstream d;
                d << "int_vector_mapper<" << (int)W << "> width " << w << (plain ? " plain" : "") << " initial elements " << start << " history:";
                for (int x : ops) d << " " << opn[x] << ";";
                return d.str();
            }, [&] { history<W>(R, w, plain, start, ops); });
        });
    }
}
MC_TASK(histories, "every sequence of up to 3 (4 for width 3; thorough: 4 for the first four types) of 18 operations; dynamic widths 1,3,8,13,33,64, static 1,8,24,64, plain 8,16,32,64; initial files of 0,1,2+,3 words")
{
    size_t d = R.thorough ? 4 : 3;
    all<0>(R, 3, false, 4);
    all<0>(R, 13, false, d);
    all<1>(R, 1, false, d);
    all<8>(R, 8, true, d);
    all<8>(R, 8, false, 3);
    all<0>(R, 1, false, 3);
    all<0>(R, 8, false, 3);
    all<0>(R, 33, false, 3);
    all<0>(R, 64, false, 3);
    all<24>(R, 24, false, 3);
    all<64>(R, 64, false, 3);
    all<16>(R, 16, true, 3);
    all<32>(R, 32, true, 3);
    all<64>(R, 64, true, 3);
}
static size_t files_in(const string& d)
{
    size_t n = 0;
    FILE* p = popen(("ls -A " + d + " | wc -l").c_str(), "r");
    if (fscanf(p, "%zu", &n) != 1) n = 9999;
    pclose(p);
    return n;
}
template<uint8_t W>
static void buffers(mc::Run& R, size_t k)
{
    string dir = gen::scratch("c10_dir");
    mkdir(dir.c_str(), 0700);
    cache_config cc(false, dir, "id");
    string name;
    {
        auto t = temp_file_buffer<W>::create(cc);
        name = t.file_name();
        R.ck(there(name), "temporary file exists");
        R.eqi(t.size(), 0, "fresh buffer");
        for (size_t i = 0; i < k; ++i) t.push_back(i & 1);
        R.eqi(t.size(), k, "size");
        auto u = std::move(t);
        R.eqi(u.size(), k, "size after move");
        for (size_t i = 0; i < k; ++i) R.eqi((uint64_t)u[i], i & 1, "[]", i);
    }
    R.ck(!there(name), "temporary file removed");
    R.eqi(files_in(dir), 0, "files left");
    {
        auto t = write_out_buffer<W>::create("key", cc);
        R.ck(cache_file_exists("key", cc), "registered");
        for (size_t i = 0; i < k; ++i) t.push_back(i & 1);
    }
    int_vector<W> v;
    R.ck(load_from_cache(v, "key", cc), "load the cache file");
    R.eqi(v.size(), k, "elements in the cache file");
    for (size_t i = 0; i < k; ++i) R.eqi(v[i], i & 1, "cache file", i);
    int_vector_mapper<W> x("key", cc);
    R.eqi(x.size(), k, "mapped by key");
    sdsl::remove(cache_file_name("key", cc));
    rmdir(dir.c_str());
}
MC_TASK(temporaries, "temp_file_buffer and write_out_buffer with 0..70 appended elements, widths 0(64),1,8,24,64")
{
    for (size_t k = 0; k <= 70; ++k)
        R.run([&] { return mc::cat("elements ", k); }, [&] {
            buffers<0>(R, k); buffers<1>(R, k); buffers<8>(R, k); buffers<24>(R, k); buffers<64>(R, k);
        });
}
