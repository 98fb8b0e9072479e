// C11: the same history on a RAM file and on a disk file gives the same results.
#include "gen.hpp"
#include <sdsl/sfstream.hpp>
#include <sdsl/ram_fs.hpp>
#include <sdsl/util.hpp>
#include <sdsl/vectors.hpp>
using namespace sdsl;
using namespace std;

enum Op { OUT_A, OUT_B, OUTIN_A, APP_A, ATE_A, TRUNC_A, W1, W5, SEEKP0, SEEKP2, SEEKPEND, SEEKPPAST, SEEKPCUR, SEEKPNEG, CLOSE_O,
          IN_A, IN_B, RD1, RD3, RDALL, SEEKG0, SEEKG2, SEEKGEND, SEEKGPAST, SEEKGEM1, SEEKGCUR1, CLOSE_I, REN_AB, REN_BA, REN_AA, DEL_A, DEL_B, NOPS };
static const char* opn[] = {"open a for out", "open b for out", "open a for in|out", "open a for out|app", "open a for in|out|ate", "open a for in|out|trunc", "write 1 byte", "write 5 bytes", "seekp(0)", "seekp(2)", "seekp(0,end)", "seekp(size+3), write 1 byte", "seekp(1,cur)", "seekp(-1,cur)", "close output",
                            "open a for in", "open b for in", "read 1", "read 3", "read all", "seekg(0)", "seekg(2)", "seekg(0,end)", "seekg(size+2)", "seekg(-1,end)", "seekg(1,cur)", "close input", "rename a b", "rename b a", "rename a a", "remove a", "remove b"};
struct World {
    string a, b;
    unique_ptr<osfstream> o;
    unique_ptr<isfstream> i;
    string of, inf;   // files currently opened
    bool dirty = false; // file of the reader changed since its last seek
    char c = 'a';
    const string& nm(const string& x) { return x == "a" ? a : b; }
    bool enabled(int op)
    {
        switch (op) {
            case W1: case W5: case SEEKP0: case SEEKP2: case SEEKPEND: case SEEKPPAST: case SEEKPCUR: case SEEKPNEG: case CLOSE_O: return (bool)o;
            case RD1: case RD3: case RDALL: case SEEKGCUR1: return i && !dirty;
            case SEEKG0: case SEEKG2: case SEEKGEND: case SEEKGPAST: case SEEKGEM1: case CLOSE_I: return (bool)i;
            case OUT_A: case OUT_B: case OUTIN_A: case APP_A: case ATE_A: case TRUNC_A: return !o;
            case IN_A: case IN_B: return !i;
            case REN_AB: case REN_BA: case REN_AA: return of == "" && inf == "";
            case DEL_A: return of == "" && inf == "";
            case DEL_B: return of == "" && inf == "";
        }
        return false;
    }
    string oflags() { return o ? string(o->good() ? "G" : "") + (o->fail() ? "F" : "") + (o->bad() ? "B" : "") + (o->is_open() ? "o" : "") : "-"; }
    string iflags() { return i ? string(i->good() ? "G" : "") + (i->eof() ? "E" : "") + (i->fail() ? "F" : "") + (i->bad() ? "B" : "") + (i->is_open() ? "o" : "") : "-"; }
    string step(int op)
    {
        string r;
        auto tell = [&] { // positions behind the end are not distinguished
            long long t = i->tellg();
            return to_string(min<long long>(t, util::file_size(nm(inf))));
        };
        auto opn_o = [&](const char* f, ios::openmode m) {
            o.reset(new osfstream(nm(f), m | ios::binary));
            r = oflags();
            if (!o->is_open()) o.reset();
            else { of = f; if (inf == of) dirty = true; }
        };
        auto opn_i = [&](const char* f) {
            i.reset(new isfstream(nm(f), ios::in | ios::binary));
            r = iflags();
            if (!i->is_open()) i.reset();
            else { inf = f; dirty = false; }
        };
        auto wr = [&](int k) {
            string s;
            for (int j = 0; j < k; ++j) s += c++;
            o->write(s.data(), k);
            o->flush();
            if (inf == of) dirty = true;
            r = oflags();
        };
        auto rd = [&](int k) {
            char buf[64];
            i->read(buf, k);
            r = string(buf, i->gcount()) + " " + iflags();
            r += " " + tell();
            if (i->eof()) i->clear();
        };
        auto sz = [&](const string& f) { return (long long)util::file_size(nm(f)); };
        switch (op) {
            case OUT_A: opn_o("a", ios::out); break;
            case OUT_B: opn_o("b", ios::out); break;
            case OUTIN_A: opn_o("a", ios::in | ios::out); break;
            case APP_A: opn_o("a", ios::out | ios::app); break;
            case ATE_A: opn_o("a", ios::in | ios::out | ios::ate); break;
            case TRUNC_A: opn_o("a", ios::in | ios::out | ios::trunc); break;
            case W1: wr(1); break;
            case W5: wr(5); break;
            case SEEKP0: o->seekp(0); r = oflags(); break;
            case SEEKP2: o->seekp(2); r = oflags(); break;
            case SEEKPEND: o->seekp(0, ios::end); r = oflags(); break;
            case SEEKPPAST: o->seekp(sz(of) + 3); wr(1); break; // whether the seek alone extends the file is unspecified
            case SEEKPCUR: o->seekp(1, ios::cur); r = oflags(); break;
            case SEEKPNEG: o->seekp(-1, ios::cur); r = oflags(); o->clear(); break;
            case CLOSE_O: o->close(); r = oflags(); o.reset(); of = ""; break;
            case IN_A: opn_i("a"); break;
            case IN_B: opn_i("b"); break;
            case RD1: rd(1); break;
            case RD3: rd(3); break;
            case RDALL: rd(60); break;
            case SEEKG0: dirty = false; i->seekg(0); r = iflags() + tell(); break;
            case SEEKG2: dirty = false; i->seekg(2); r = iflags() + tell(); break;
            case SEEKGEND: dirty = false; i->seekg(0, ios::end); r = iflags() + tell(); break;
            case SEEKGPAST: dirty = false; i->seekg(sz(inf) + 2); r = iflags() + tell(); break;
            case SEEKGEM1: dirty = false; i->seekg(-1, ios::end); r = iflags() + tell(); break;
            case SEEKGCUR1: i->seekg(1, ios::cur); r = iflags() + tell(); break;
            case CLOSE_I: i->close(); r = iflags(); i.reset(); inf = ""; break;
            case REN_AB: r = to_string(sdsl::rename(a, b)); break;
            case REN_BA: r = to_string(sdsl::rename(b, a)); break;
            case REN_AA: r = to_string(sdsl::rename(a, a)); break;
            case DEL_A: r = to_string(sdsl::remove(a)); break;
            case DEL_B: r = to_string(sdsl::remove(b)); break;
        }
        return r;
    }
    string content(const string& f)
    {
        isfstream in(nm(f), ios::in | ios::binary);
        if (!in.is_open()) return "(absent)";
        string s;
        char ch;
        while (in.get(ch)) s += ch;
        return s;
    }
    string sizes() { return to_string(util::file_size(a)) + "," + to_string(util::file_size(b)); }
};
static void history(mc::Run& R, const vector<int>& ops)
{
    World d, r;
    d.a = gen::scratch("c11_a"); d.b = gen::scratch("c11_b");
    r.a = "@c11_a"; r.b = "@c11_b";
    sdsl::remove(d.a); sdsl::remove(d.b); sdsl::remove(r.a); sdsl::remove(r.b);
    size_t k = 0;
    for (int op : ops) {
        ++k;
        if (!d.enabled(op)) return; // the history without this step is explored on its own
        string x = d.step(op), y = r.step(op);
        R.eq(y, x, [&] { return mc::cat("step ", k, " ", opn[op], ": RAM result against disk result"); });
        R.eq(r.sizes(), d.sizes(), [&] { return mc::cat("file sizes after step ", k); });
    }
    d.o.reset(); r.o.reset();
    d.i.reset(); r.i.reset();
    R.eq(r.content("a"), d.content("a"), "final content of a");
    R.eq(r.content("b"), d.content("b"), "final content of b");
}
static string desc(const vector<int>& ops)
{
    string s;
    for (int o : ops) s += string(s.size() ? "; " : "") + opn[o];
    return s;
}
// depth-first over enabled histories only: `can` tracks which handles are open
struct St { bool o, i; bool ea, eb; int of, inf; bool dirty; bool app; };
static void explore(mc::Run& R, const vector<int>& al, size_t depth)
{
    vector<int> ops;
    function<void(St)> rec = [&](St s) {
        if (R.stop()) return;
        if (ops.size() == depth) {
            R.run([&] { return desc(ops); }, [&] { history(R, ops); });
            return;
        }
        bool any = false;
        for (int op : al) {
            St t = s;
            bool ok = false;
            switch (op) {
                case OUT_A: ok = !s.o; t.o = true; t.of = 0; t.ea = true; if (s.i && s.inf == 0) t.dirty = true; break;
                case OUT_B: ok = !s.o; t.o = true; t.of = 1; t.eb = true; if (s.i && s.inf == 1) t.dirty = true; break;
                case TRUNC_A: ok = !s.o; t.o = true; t.of = 0; t.ea = true; if (s.i && s.inf == 0) t.dirty = true; break;
                case APP_A: ok = !s.o; t.o = true; t.of = 0; t.ea = true; if (s.i && s.inf == 0) t.dirty = true; break;
                case OUTIN_A: case ATE_A: ok = !s.o; if (s.ea) { t.o = true; t.of = 0; if (s.i && s.inf == 0) t.dirty = true; } break;
                case W1: case W5: case SEEKPPAST: ok = s.o; if (s.i && s.inf == s.of) t.dirty = true; break;
                case SEEKP0: case SEEKP2: case SEEKPEND: case SEEKPCUR: case SEEKPNEG: ok = s.o; break;
                case CLOSE_O: ok = s.o; t.o = false; break;
                case IN_A: ok = !s.i; if (s.ea) { t.i = true; t.inf = 0; t.dirty = false; } break;
                case IN_B: ok = !s.i; if (s.eb) { t.i = true; t.inf = 1; t.dirty = false; } break;
                case RD1: case RD3: case RDALL: case SEEKGCUR1: ok = s.i && !s.dirty; break;
                case SEEKG0: case SEEKG2: case SEEKGEND: case SEEKGPAST: case SEEKGEM1: ok = s.i; t.dirty = false; break;
                case CLOSE_I: ok = s.i; t.i = false; break;
                case REN_AB: ok = !s.o && !s.i; if (s.ea) { t.ea = false; t.eb = true; } break;
                case REN_BA: ok = !s.o && !s.i; if (s.eb) { t.eb = false; t.ea = true; } break;
                case REN_AA: ok = !s.o && !s.i; break;
                case DEL_A: ok = !s.o && !s.i; t.ea = false; break;
                case DEL_B: ok = !s.o && !s.i; t.eb = false; break;
            }
            if (op == OUT_A || op == OUT_B || op == TRUNC_A || op == OUTIN_A || op == ATE_A) t.app = false;
            if (op == APP_A) t.app = true;
            // positions of a stream opened for appending mean nothing for writing
            if (s.app && (op == SEEKPCUR || op == SEEKPNEG)) ok = false;
            if (!ok) continue;
            any = true;
            ops.push_back(op);
            rec(t);
            ops.pop_back();
        }
        (void)any;
    };
    rec(St{false, false, false, false, 0, 0, false, false});
}
MC_TASK(output_histories, "every enabled history of up to 7 (8 thorough) of: open (out, in|out, app, ate, trunc), write 1/5 bytes, seekp (0, 2, end, past the end, +1, -1), close on one file; final content and every result compared with a disk file")
{
    vector<int> al = {OUT_A, OUTIN_A, APP_A, ATE_A, TRUNC_A, W1, W5, SEEKP0, SEEKP2, SEEKPEND, SEEKPPAST, SEEKPCUR, SEEKPNEG, CLOSE_O};
    for (size_t d = 1; d <= (R.thorough ? 8 : 7); ++d) explore(R, al, d);
}
MC_TASK(input_histories, "prefix: a with 0, 1 or 6 bytes; then every history of up to 6 (7 thorough) of open, read 1/3/all, seekg (0, 2, end, past the end, end-1, +1), tellg, close")
{
    vector<int> al = {IN_A, IN_B, RD1, RD3, RDALL, SEEKG0, SEEKG2, SEEKGEND, SEEKGPAST, SEEKGEM1, SEEKGCUR1, CLOSE_I};
    vector<vector<int>> pre = {{OUT_A, CLOSE_O}, {OUT_A, W1, CLOSE_O}, {OUT_A, W5, W1, CLOSE_O}};
    for (auto& p : pre)
        for (size_t d = 1; d <= (R.thorough ? 7 : 6); ++d)
            gen::all_seqs(d, d, gen::iota_alpha(0, al.size() - 1), [&](const vector<uint64_t>& v) {
                if (R.stop()) return;
                bool open = false, ok = true;
                vector<int> ops = p;
                for (auto k : v) {
                    int op = al[k];
                    if (op == IN_A || op == IN_B) { if (open) ok = false; if (op == IN_A) open = true; }
                    else { if (!open) ok = false; if (op == CLOSE_I) open = false; }
                    ops.push_back(op);
                }
                if (!ok) return;
                R.run([&] { return desc(ops); }, [&] { history(R, ops); });
            });
}
MC_TASK(mixed, "every enabled history of 6 (7 thorough) of: reader and writer open at the same time on equal or different files, rename, remove, also of absent files")
{
    vector<int> al = {OUT_A, OUT_B, OUTIN_A, W5, SEEKP2, CLOSE_O, IN_A, IN_B, RDALL, SEEKG0, CLOSE_I, REN_AB, REN_BA, REN_AA, DEL_A, DEL_B};
    for (size_t d = 1; d <= (R.thorough ? 7 : 6); ++d) explore(R, al, d);
}
// library functions on top of the streams
MC_TASK(library, "store/load, checked store/load, plain array, file_size, exists and remove of vectors of 0..200 elements, RAM against disk")
{
    for (size_t n = 0; n <= 200; ++n)
        R.run([&] { return mc::cat("n=", n); }, [&] {
            string f[2] = {gen::scratch("c11_l"), "@c11_l"};
            int_vector<> v(n, 0, 13);
            for (size_t i = 0; i < n; ++i) v[i] = i * 37;
            vector<string> res[2];
            for (int k = 0; k < 2; ++k) {
                auto& r = res[k];
                auto rd = [&] {
                    isfstream in(f[k], ios::binary | ios::in);
                    string s((istreambuf_iterator<char>(in)), istreambuf_iterator<char>());
                    return s;
                };
                int_vector<> w;
                sdsl::remove(f[k]);
                r.push_back(to_string(load_from_file(w, f[k])));
                r.push_back(to_string(store_to_file(v, f[k])) + to_string(util::file_size(f[k])));
                r.push_back(rd());
                r.push_back(to_string(load_from_file(w, f[k])) + to_string(w == v));
                r.push_back(to_string(store_to_checked_file(v, f[k])) + rd());
                r.push_back(to_string(load_from_checked_file(w, f[k])) + to_string(w == v));
                bit_vector bv;
                r.push_back(to_string(load_from_checked_file(bv, f[k])));
                r.push_back(to_string(store_to_plain_array<uint16_t>(v, f[k])) + rd());
                r.push_back(to_string(load_vector_from_file(w, f[k], 2)) + to_string(w.width()) + to_string(w == v));
                r.push_back(to_string(store_to_file(string(n, 'x'), f[k])) + rd());
                r.push_back(to_string(store_to_file(string(n, 'x').c_str(), f[k])) + rd());
                r.push_back(to_string(sdsl::remove(f[k])));
            }
            for (size_t i = 0; i < res[0].size(); ++i) R.eq(res[1][i], res[0][i], [&] { return mc::cat("step ", i); });
        });
}
