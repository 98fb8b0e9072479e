// C09: int_vector_buffer histories against an array; the closed file against the serialized vector.
#include "gen.hpp"
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/vectors.hpp>
#include <fstream>
using namespace sdsl;
using namespace std;
typedef vector<uint64_t> VV;
typedef ptrdiff_t difference;

static string slurp_disk(const string& f)
{
    ifstream in(f, ios::binary);
    return string((istreambuf_iterator<char>(in)), istreambuf_iterator<char>());
}
static string slurp(const string& f)
{
    if (is_ram_file(f)) {
        auto& c = ram_fs::content(f);
        return string(c.begin(), c.end());
    }
    return slurp_disk(f);
}
static bool file_there(const string& f)
{
    if (is_ram_file(f)) return ram_fs::exists(f);
    return access(f.c_str(), F_OK) == 0;
}
static uint64_t mask(unsigned w) { return w == 64 ? ~0ULL : (1ULL << w) - 1; }
// the serialized form, written down independently of the library: header, then little-endian packed bits in 64-bit words
static string image(const VV& v, unsigned w, bool dynamic_width, bool plain)
{
    string s;
    uint64_t bits = v.size() * w;
    if (!plain) {
        for (int i = 0; i < 8; ++i) s += (char)(bits >> (8 * i));
        if (dynamic_width) s += (char)w;
    }
    size_t bytes = plain ? (bits + 7) / 8 : (bits + 63) / 64 * 8;
    string d(bytes, 0);
    for (size_t i = 0; i < v.size(); ++i)
        for (unsigned j = 0; j < w; ++j)
            if ((v[i] >> j) & 1) d[(i * w + j) / 8] |= 1 << ((i * w + j) % 8);
    return s + d;
}
struct Cfg {
    unsigned w;
    bool plain, ram;
    uint64_t bs;   // buffer size in bytes
};
enum Op { PUSH, PUSH3, W0, WLAST, WNEXT, WJUMP, R0, RLAST, RMID, BS8, BS13, BSBIG, RESET, REOPEN, MOVEC, MOVEA, SWAP, INC, ITER, REFOPS, NOPS };
static const char* opn[] = {"push", "push x3", "write[0]", "write[last]", "write[size]", "write[size+2 blocks+1]", "read[0]", "read[last]", "read[mid]", "buffersize(8)", "buffersize(13)", "buffersize(4096)", "reset", "close,reopen", "move construct", "move assign", "swap", "++[0] [last]--", "iterate", "reference ops"};

template<uint8_t W>
static void history(mc::Run& R, const Cfg& c, const VV& start, const vector<int>& ops)
{
    typedef int_vector_buffer<W> B;
    static uint64_t serial = 0;
    string base = c.ram ? "@c09" : gen::scratch("c09");
    string fa = base + "_a", fb = base + "_b";
    ++serial;
    uint64_t val = 0x9e3779b97f4a7c15ULL;
    auto next = [&] { val = val * 6364136223846793005ULL + 1442695040888963407ULL; return (val >> 7) & mask(c.w); };
    VV m = start, mo; // model of the current buffer and of the other one
    string f = fa, fo = fb;
    {
        if (is_ram_file(fa)) { ram_file_name(fa); ram_fs::store(fa, ram_fs::content_type()); ram_fs::store(fb, ram_fs::content_type()); }
        unique_ptr<B> b, o;
        if (start.empty()) {
            b.reset(new B(f, ios::out, c.bs, c.w, c.plain));
        } else {
            // an existing file, written as an image
            string im = image(start, c.w, W == 0, c.plain);
            if (c.ram) ram_fs::store(f, ram_fs::content_type(im.begin(), im.end()));
            else { ofstream out(f, ios::binary | ios::trunc); out << im; }
            b.reset(new B(f, ios::in, c.bs, c.w, c.plain));
        }
        o.reset(new B(fo, ios::out, 24, c.w, c.plain));
        for (int i = 0; i < 5; ++i) { uint64_t x = next(); o->push_back(x); mo.push_back(x); }
        for (int op : ops) {
            B& x = *b;
            uint64_t blk = max<uint64_t>(1, x.buffersize() * 8 / c.w);
            auto put = [&](uint64_t i) {
                uint64_t y = next();
                x[i] = y;
                if (m.size() <= i) m.resize(i + 1, 0);
                m[i] = y;
            };
            switch (op) {
                case PUSH: { uint64_t y = next(); x.push_back(y); m.push_back(y); break; }
                case PUSH3: for (int i = 0; i < 3; ++i) { uint64_t y = next(); x.push_back(y); m.push_back(y); } break;
                case W0: put(0); break;
                case WLAST: if (m.size()) put(m.size() - 1); break;
                case WNEXT: put(m.size()); break;
                case WJUMP: if (blk < 600) put(m.size() + 2 * blk + 1); break;
                case R0: if (m.size()) R.eqi((uint64_t)x[0], m[0], "read", 0); break;
                case RLAST: if (m.size()) R.eqi((uint64_t)x[m.size() - 1], m.back(), "read", m.size() - 1); break;
                case RMID: if (m.size()) R.eqi((uint64_t)x[m.size() / 2], m[m.size() / 2], "read", m.size() / 2); break;
                case BS8: x.buffersize(8); break;
                case BS13: x.buffersize(13); break;
                case BSBIG: x.buffersize(4096); break;
                case RESET: x.reset(); m.clear(); break;
                case REOPEN:
                    x.close();
                    R.ck(!x.is_open(), "closed buffer reports open");
                    R.eq(slurp(f), image(m, c.w, W == 0, c.plain), "file after close");
                    b.reset(new B(f, ios::in | ios::out, c.bs, c.w, c.plain));
                    break;
                case MOVEC: {
                    unique_ptr<B> n(new B(std::move(x)));
                    R.ck(!b->is_open(), "moved-from buffer is open");
                    R.eqi(b->size(), 0, "size of moved-from buffer");
                    b = std::move(n);
                    break;
                }
                case MOVEA: { // the target has its own pending content, which must reach its own file
                    *o = std::move(x);
                    R.eq(slurp(fo), image(mo, c.w, W == 0, c.plain), "file of the overwritten buffer");
                    swap(b, o); // b: the former target, now holding x's content
                    R.ck(!o->is_open(), "moved-from buffer is open");
                    o.reset(new B(fo, ios::in, 24, c.w, c.plain));
                    break;
                }
                case SWAP: // continue on the other object: contents and files changed sides
                    x.swap(*o);
                    swap(b, o);
                    // b now points to the object that was `o` and holds x's content
                    break;
                case INC: // on bits, ++ leaves the value range
                    if (m.size() && W != 1) {
                        ++x[0];
                        m[0] = (m[0] + 1) & mask(c.w);
                        uint64_t l = m.size() - 1;
                        R.eqi((uint64_t)x[l]--, m[l], "postfix decrement", l);
                        m[l] = (m[l] - 1) & mask(c.w);
                    }
                    break;
                case ITER: {
                    size_t i = 0;
                    for (auto it = x.begin(); it != x.end(); ++it, ++i) R.eqi((uint64_t)*it, m.at(i), "iterator", i);
                    R.eqi(i, m.size(), "iterator count");
                    if (m.size()) {
                        auto it = x.end();
                        --it;
                        R.eqi((uint64_t)*it, m.back(), "last by iterator");
                        R.eqi((uint64_t)*(x.end() - (difference)m.size()), m[0], "iterator-");
                        R.eqi((uint64_t)*(x.begin() + (m.size() - 1)), m.back(), "iterator+");
                        R.eqi(x.end() - x.begin(), m.size(), "iterator distance");
                        // std algorithms through the proxy
                        *it = next();
                        m.back() = *it;
                        R.eqi(val >> 7 & mask(c.w), m.back(), "iterator write");
                    }
                    break;
                }
                case REFOPS:
                    if (m.size() && W != 1) {
                        uint64_t k = m.size() / 2, l = m.size() - 1;
                        x[k] += 5; m[k] = (m[k] + 5) & mask(c.w);
                        x[l] -= 3; m[l] = (m[l] - 3) & mask(c.w);
                        auto r = x[0];
                        x[l] = r; m[l] = m[0];
                        R.ck(x[l] == x[0], "reference ==");
                        R.eqi(x[k] < x[0], m[k] < m[0], "reference <");
                        R.eqi((uint64_t)x[0]++, m[0], "postfix increment"); m[0] = (m[0] + 1) & mask(c.w);
                        --x[k]; m[k] = (m[k] - 1) & mask(c.w);
                    }
                    break;
            }
            R.eqi(b->size(), m.size(), "size");
            R.eqi(b->width(), c.w, "width");
            R.ck(b->is_open() && b->good(), "buffer is open and good");
        }
        // read everything backwards (changes block for every boundary)
        for (size_t i = m.size(); i-- > 0;) if ((uint64_t)(*b)[i] != m[i]) R.eqi((uint64_t)(*b)[i], m[i], "final read", i);
        R.obs(m);
        for (size_t i = 0; i < mo.size(); ++i) R.eqi((uint64_t)(*o)[i], mo[i], "other buffer", i);
        R.eq(b->filename(), f, "filename");
        b.reset(); // destructor closes
        o->close();
    }
    R.eq(slurp(f), image(m, c.w, W == 0, c.plain), "file after destruction");
    R.eq(slurp(fo), image(mo, c.w, W == 0, c.plain), "file of the other buffer");
    if (!c.plain) {
        int_vector<W> v;
        R.ck(load_from_file(v, f), "load_from_file");
        R.eqi(v.size(), m.size(), "loaded size");
        for (size_t i = 0; i < m.size(); ++i) R.eqi(v[i], m[i], "loaded", i);
    }
    if (ops.size() && (ops[0] & 1)) {
        int_vector_buffer<W> b(f, ios::in, 16, c.w, c.plain);
        R.eqi(b.size(), m.size(), "size when opened again");
        b.close(true);
        R.ck(!file_there(f), "close(true) removes the file");
    } else sdsl::remove(f);
    sdsl::remove(fo);
}
template<uint8_t W>
static void hist_all(mc::Run& R, const Cfg& c, size_t start, size_t depth, const vector<uint64_t>& alphabet)
{
    VV s(start);
    for (size_t i = 0; i < start; ++i) s[i] = (i * 0x9e3779b97f4a7c15ULL >> 13) & mask(c.w);
    gen::all_seqs(depth, depth, alphabet, [&](const VV& o) {
        vector<int> ops(o.begin(), o.end());
        R.run([&] {
            ostringstream d;
            d << "int_vector_buffer<" << (int)W << "> width " << c.w << (c.plain ? " plain" : "") << (c.ram ? " RAM" : " disk") << " buffersize " << c.bs << " initial elements " << start << " history:";
            for (int x : ops) d << " " << opn[x] << ";";
            return d.str();
        }, [&] { history<W>(R, c, s, ops); });
    });
}
template<uint8_t W>
static void cfgs(mc::Run& R, unsigned w, bool plain, size_t depth, bool disk_deep, const vector<uint64_t>& al)
{
    size_t blk = max<size_t>(1, 64 / w);
    if (64 % w) blk = 24;
    for (bool ram : {true, false}) {
        size_t d = ram || disk_deep ? depth : depth - 1;
        hist_all<W>(R, Cfg{w, plain, ram, 8}, 0, d, al);
        hist_all<W>(R, Cfg{w, plain, ram, 8}, blk, d, al);
        hist_all<W>(R, Cfg{w, plain, ram, 0}, 2 * blk + 1, d, al);
        hist_all<W>(R, Cfg{w, plain, ram, 16}, 4 * blk - 1, d, al);
        hist_all<W>(R, Cfg{w, plain, ram, 100000}, 3 * blk + 2, d - 1, al);
    }
}
MC_TASK(histories, "every sequence of 4 (5 thorough) of 20 operations for widths 3, 8 and plain 8, one less for widths 1,3,7,8,13,16,32,33,63,64, int_vector and plain format, static and dynamic width, RAM (disk: one less), buffer sizes 0/8/16/100000, initial files of 0, 1, 2+, 3+, 4 blocks")
{
    auto al = gen::iota_alpha(0, NOPS - 1);
    size_t d = R.thorough ? 5 : 4;
    for (unsigned w : {1, 3, 7, 8, 13, 32, 33, 63, 64}) cfgs<0>(R, w, false, w == 3 || w == 8 ? d : d - 1, false, al);
    cfgs<1>(R, 1, false, d - 1, false, al);
    cfgs<8>(R, 8, false, d - 1, false, al);
    cfgs<16>(R, 16, false, d - 1, false, al);
    cfgs<24>(R, 24, false, d - 1, false, al);
    cfgs<64>(R, 64, false, d - 1, false, al);
    cfgs<8>(R, 8, true, d, false, al);
    cfgs<16>(R, 16, true, d - 1, false, al);
    cfgs<32>(R, 32, true, d - 1, false, al);
    cfgs<64>(R, 64, true, d - 1, false, al);
    cfgs<0>(R, 16, true, d - 1, false, al);
}
MC_TASK(core, "every sequence of 6 (8 thorough) of push x3 / write[0] / write[size+2 blocks+1] / read[last] / buffersize(13) / reset / reopen on RAM files, widths 3 and 8")
{
    vector<uint64_t> al = {PUSH3, W0, WJUMP, RLAST, BS13, RESET, REOPEN};
    size_t d = R.thorough ? 8 : 6;
    hist_all<0>(R, Cfg{3, false, true, 8}, 0, d, al);
    hist_all<8>(R, Cfg{8, false, true, 8}, 9, d, al);
    hist_all<8>(R, Cfg{8, true, true, 8}, 9, d - 1, al);
}
