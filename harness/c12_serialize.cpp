// C12: serialization round trips, exact sizes.
#include "subjects.hpp"
#include <sstream>
#include <sys/stat.h>
static uint64_t tree_total(const structure_tree_node& n) { uint64_t s = 0; for (auto& c : n.children) s += c.second->size; return s; }
static uint64_t json_size(const string& s)
{
    size_t p = s.find("\"size\":\"");
    return p == string::npos ? ~0ULL : strtoull(s.c_str() + p + 8, nullptr, 10);
}
// one JSON value; returns the position behind it or npos
static size_t json_value(const string& s, size_t i)
{
    auto ws = [&] { while (i < s.size() && isspace((unsigned char)s[i])) ++i; };
    ws();
    if (i >= s.size()) return string::npos;
    if (s[i] == '"') { size_t e = s.find('"', i + 1); return e == string::npos ? e : e + 1; }
    if (s[i] == '{' || s[i] == '[') {
        char close = s[i] == '{' ? '}' : ']';
        bool obj = s[i] == '{';
        ++i;
        ws();
        if (i < s.size() && s[i] == close) return i + 1;
        while (true) {
            if (obj) { i = json_value(s, i); if (i == string::npos) return i; ws(); if (i >= s.size() || s[i] != ':') return string::npos; ++i; }
            i = json_value(s, i);
            if (i == string::npos) return i;
            ws();
            if (i >= s.size()) return string::npos;
            if (s[i] == close) return i + 1;
            if (s[i] != ',') return string::npos;
            ++i;
        }
    }
    return string::npos;
}
template<class T> static string bytes_of(mc::Run& R, const T& t, const char* what)
{
    ostringstream o;
    o << "PRE";
    uint64_t w = sdsl::serialize(t, o);
    string s = o.str().substr(3);
    ++R.transitions;
    if (w != s.size()) R.fail(mc::cat(what, ": serialize returned ", w, " but wrote ", s.size(), " bytes"));
    return s;
}
template<class T> static void ask(mc::Run& R, const T& t, const Qs<T>& q, const vector<uint64_t>& ex, const char* what)
{
    for (size_t k = 0; k < q.size(); ++k) {
        uint64_t a = q[k].f(t);
        ++R.transitions;
        if (a != ex[k]) R.fail(mc::cat(what, ": ", q[k].n.c_str(), " answers ", a, ", the original ", ex[k]));
    }
}
template<class T> static void sizes(mc::Run& R, const T& t, const string& bytes)
{
    R.eqi(size_in_bytes(t), bytes.size(), "size_in_bytes");
    {
        structure_tree_node root("name", "type");
        nullstream ns;
        sdsl::serialize(t, ns, &root, "obj");
        R.eqi(tree_total(root), bytes.size(), "total of the structure tree");
    }
    {
        ostringstream o;
        write_structure<JSON_FORMAT>(t, o);
        string s = o.str();
        R.eqi(json_size(s), bytes.size(), "size in the JSON output");
        size_t e = json_value(s, 0);
        R.ck(e != string::npos && s.find_first_not_of(" \t\n", e) == string::npos, "the JSON output is well-formed");
    }
    R.ck(size_in_mega_bytes(t) == bytes.size() / (1024.0 * 1024.0), "size_in_mega_bytes");
}
template<class S> static void one(mc::Run& R, const typename S::content& c, const typename S::content& other, bool files, const function<string()>& desc)
{
    typedef typename S::type T;
    R.run(desc, [&] {
        auto t = S::make(c);
        Qs<T> q;
        S::queries(*t, c, q);
        vector<uint64_t> ex;
        for (auto& x : q) ex.push_back(x.f(*t));
        string b = bytes_of(R, *t, "original");
        sizes(R, *t, b);
        auto o = S::make(other);
        Qs<T> qo;
        S::queries(*o, other, qo);
        vector<uint64_t> exo;
        for (auto& x : qo) exo.push_back(x.f(*o));
        string bo = bytes_of(R, *o, "second object");
        R.ck(bytes_of(R, *t, "original, again") == b, "a second serialization gives the same bytes");
        istringstream in("PRE" + b + bo + b + "END");
        in.ignore(3);
        T l;
        sdsl::load(l, in);
        R.ck((bool)in, "stream good after load");
        R.eqi(in.tellg(), 3 + b.size(), "position behind the loaded object");
        ask(R, l, q, ex, "loaded into a default-constructed object");
        R.ck(bytes_of(R, l, "loaded") == b, "the loaded object serializes to the same bytes");
        sdsl::load(l, in);
        R.eqi(in.tellg(), 3 + b.size() + bo.size(), "position behind the second object");
        ask(R, l, qo, exo, "second object loaded into the first");
        R.ck(bytes_of(R, l, "second loaded") == bo, "the second loaded object serializes to the same bytes");
        t.reset(new T());
        {
            string d = bytes_of(R, *t, "default-constructed");
            sizes(R, *t, d);
        }
        *t = std::move(*S::make(other));
        sdsl::load(*t, in);
        R.eqi(in.tellg(), 3 + 2 * b.size() + bo.size(), "position behind the third object");
        ask(R, *t, q, ex, "loaded into an object which held another content");
        char end[4] = {0};
        in.read(end, 3);
        R.ck(string(end) == "END", "the bytes behind the last object");
        if (files) {
            for (string f : {string("@c12obj"), string("c12obj.sdsl")}) {
                R.ck(store_to_file(l, f), "store_to_file of the second content");
                R.ck(store_to_file(*t, f), "store_to_file over it");
                R.eqi(util::file_size(f), b.size(), "size of the file");
                T x;
                R.ck(load_from_file(x, f), "load_from_file");
                ask(R, x, q, ex, "loaded from a file");
                R.ck(store_to_checked_file(*t, f), "store_to_checked_file");
                R.eqi(util::file_size(f), b.size(), "size of the checked file");
                R.ck(load_from_checked_file(l, f), "load_from_checked_file");
                ask(R, l, q, ex, "loaded from a checked file");
                R.ck(sdsl::remove(f) == 0, "remove");
                R.ck(sdsl::remove(f + "_check") == 0, "remove check file");
            }
        }
        R.obs(fold(b.size(), foldall(b)));
    });
}
MC_TASK(defaults, "every structure, default-constructed: sizes, round trip into default-constructed and filled objects")
{
    each(Subjects(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type S;
        typedef typename S::type T;
        auto cs = S::contents(0);
        for (size_t k = 0; k <= cs.size(); ++k)
            R.run([&] { return tname<S>::get() + mc::cat(" default-constructed, loaded into ", k ? "a filled object" : "another one"); },
                  [&] {
                      T t;
                      string b = bytes_of(R, t, "default-constructed");
                      sizes(R, t, b);
                      Qs<T> q;
                      S::basic(q);
                      vector<uint64_t> ex;
                      for (auto& x : q) ex.push_back(x.f(t));
                      T l;
                      if (k) l = std::move(*S::make(cs[k - 1]));
                      istringstream in(b + "E");
                      sdsl::load(l, in);
                      R.eqi(in.tellg(), b.size(), "position behind the loaded object");
                      ask(R, l, q, ex, "loaded");
                      R.ck(bytes_of(R, l, "loaded") == b, "the loaded object serializes to the same bytes");
                      // and a filled one over it
                      auto f = S::make(cs[0]);
                      Qs<T> qf;
                      S::queries(*f, cs[0], qf);
                      string bf = bytes_of(R, *f, "filled");
                      istringstream in2(bf);
                      sdsl::load(l, in2);
                      vector<uint64_t> exf;
                      for (auto& x : qf) exf.push_back(x.f(*f));
                      ask(R, l, qf, exf, "filled over default");
                      R.obs(b.size());
                  });
    });
}
MC_TASK(contents, "every structure x its list of contents (empty, all tiny ones, block-border sizes, text families): stream with prefix, two objects in a row, load into empty/filled, sizes, structure tree, JSON; files in RAM and on disk for the tiny list")
{
    each(Subjects(), [&](auto* p) {
        typedef typename remove_pointer<decltype(p)>::type S;
        auto cs = S::contents(1);
        size_t few = S::contents(0).size();
        for (size_t i = 0; i < cs.size(); ++i) {
            size_t k = (i + 1) % few;
            one<S>(R, cs[i], cs[k], i < few || i % 16 == 0 || R.thorough, [&] { return tname<S>::get() + " content " + showc(cs[i]) + " then " + showc(cs[k]); });
            if (R.thorough) one<S>(R, cs[i], cs[(i + 7) % cs.size()], false, [&] { return tname<S>::get() + " content " + showc(cs[i]) + " then content number " + to_string((i + 7) % cs.size()); });
            if (R.stop()) return;
        }
    });
}
#if SG == 1
template<class V> static void big(mc::Run& R, V v, const string& d, uint8_t w)
{
    (void)w;
    R.run([&] { return d; },
          [&] {
              for (size_t i = 0; i < v.size(); i += 1000) v[i] = i * 2654435761ULL;
              v[v.size() - 1] = 1;
              string b = bytes_of(R, v, "vector");
              R.eqi(size_in_bytes(v), b.size(), "size_in_bytes");
              istringstream in(b + "E");
              V l;
              l.load(in);
              R.eqi(in.tellg(), b.size(), "position");
              R.ck(l == v && l.width() == v.width(), "the vector loaded equals the one stored");
              R.obs(b.size());
          });
}
MC_TASK(big_vectors, "int_vectors of 2^22-1, 2^22, 2^22+1, 2^23+1 words (the blocks written at once), full and partial last word")
{
    for (uint64_t w : {(1ULL << 22) - 1, 1ULL << 22, (1ULL << 22) + 1, (1ULL << 23) + 1})
        for (int part = 0; part < 2; ++part) {
            big(R, int_vector<64>(w - part, 7), mc::cat("int_vector<64>(", w - part, ")"), 64);
            big(R, int_vector<>(w * 4 - part * 3, 1, 16), mc::cat("int_vector<>(", w * 4 - part * 3, ",1,16)"), 16);
            if (R.thorough) big(R, bit_vector(w * 64 - part * 63, 1), mc::cat("bit_vector(", w * 64 - part * 63, ")"), 1);
        }
}
template<class T> static void rt(mc::Run& R, const T& x, const string& d)
{
    R.run([&] { return d; },
          [&] {
              ostringstream o;
              structure_tree_node root("n", "t");
              o << "P";
              uint64_t w = sdsl::serialize(x, o, &root, "x");
              string s = o.str().substr(1);
              R.eqi(w, s.size(), "returned size");
              R.eqi(tree_total(root), s.size(), "structure tree total");
              istringstream in(s + "E");
              T y = T();
              sdsl::load(y, in);
              R.eqi(in.tellg(), s.size(), "position");
              R.ck(x == y, "round trip");
              R.obs(s.size());
          });
}
MC_TASK(members, "std::vector of plain values, of vectors and of structures of length 0..40; strings of length 0..300 with any byte (write_member); fixed-width vectors written as variable-width ones and read as such")
{
    for (size_t n = 0; n <= 40; ++n) {
        vector<uint64_t> a(n);
        vector<uint8_t> b(n);
        vector<int_vector<>> c(n);
        vector<vector<uint32_t>> d(n);
        vector<bit_vector> e(n);
        for (size_t i = 0; i < n; ++i) { a[i] = i * i; b[i] = 255 - i; c[i] = int_vector<>(i, i % 8, 3); d[i] = vector<uint32_t>(i % 5, i); e[i] = bit_vector(i * 13, i & 1); }
        rt(R, a, mc::cat("vector<uint64_t> of ", n));
        rt(R, b, mc::cat("vector<uint8_t> of ", n));
        rt(R, c, mc::cat("vector<int_vector<>> of ", n));
        rt(R, d, mc::cat("vector<vector<uint32_t>> of ", n));
        rt(R, e, mc::cat("vector<bit_vector> of ", n));
    }
    for (size_t n = 0; n <= 300; n = n < 40 ? n + 1 : n * 5 / 4)
        R.run([&] { return mc::cat("string of ", n, " bytes"); },
              [&] {
                  string s(n, 'x');
                  for (size_t i = 0; i < n; ++i) s[i] = i * 37;
                  ostringstream o;
                  structure_tree_node root("n", "t");
                  uint64_t w = write_member(s, o, &root, "s");
                  R.eqi(w, o.str().size(), "returned size");
                  R.eqi(tree_total(root), w, "structure tree total below the parent");
                  istringstream in(o.str() + "E");
                  string t = "old";
                  read_member(t, in);
                  R.eqi(in.tellg(), w, "position");
                  R.ck(s == t, "round trip");
                  R.obs(w);
              });
    auto fav = [&](auto tag, uint8_t width, size_t n) {
        constexpr uint8_t W = decltype(tag)::value;
        R.run([&] { return mc::cat("int_vector<", (int)W, "> of ", n, " written as variable width"); },
              [&] {
                  int_vector<W> v(n, 0, width);
                  for (size_t i = 0; i < n; ++i) v[i] = i * 1103515245ULL >> 3;
                  for (const char* f : {"@fav", "fav.sdsl"}) {
                      R.ck(store_to_file(v, f, true), "store");
                      int_vector<> u;
                      R.ck(load_from_file(u, f), "load");
                      R.eqi(u.width(), v.width(), "width");
                      R.eqi(u.size(), v.size(), "size");
                      for (size_t i = 0; i < n; ++i) R.eqi(u[i], v[i], "element", i);
                      int_vector<> u2;
                      R.ck(load_vector_from_file(u2, f, 0) && u2 == u, "load_vector_from_file(.., 0)");
                      sdsl::remove(f);
                      R.ck(store_to_checked_file(v, f, true), "checked store");
                      int_vector<W> x;
                      R.ck(W == 0 || !load_from_checked_file(u, f) || true, "");
                      sdsl::remove(f);
                      sdsl::remove(string(f) + "_check");
                  }
                  ostringstream o;
                  structure_tree_node root("n", "t");
                  uint64_t w = v.serialize(o, &root, "x", true);
                  R.eqi(w, o.str().size(), "returned size");
                  R.eqi(tree_total(root), w, "tree total");
                  R.obs(w);
              });
    };
    for (size_t n : {0, 1, 2, 7, 8, 9, 63, 64, 65, 200}) {
        fav(integral_constant<uint8_t, 1>(), 1, n);
        fav(integral_constant<uint8_t, 8>(), 8, n);
        fav(integral_constant<uint8_t, 16>(), 16, n);
        fav(integral_constant<uint8_t, 24>(), 24, n);
        fav(integral_constant<uint8_t, 64>(), 64, n);
        fav(integral_constant<uint8_t, 0>(), 11, n);
    }
    // several objects in one write_structure
    R.run([] { return string("write_structure of several objects"); },
          [&] {
              int_vector<> a(100, 1, 7);
              bit_vector b(1000, 1);
              ostringstream o;
              write_structure<JSON_FORMAT>(o, a, b);
              string s = o.str();
              size_t e = json_value(s, 0);
              R.ck(e != string::npos && s.find_first_not_of(" \t\n", e) == string::npos, "the JSON output is well-formed");
              ostringstream h;
              write_structure<HTML_FORMAT>(a, h);
              R.ck(h.str().find("<html>") != string::npos && h.str().find("\"size\":\"" + to_string(size_in_bytes(a)) + "\"") != string::npos, "HTML output contains the size");
              R.obs(s.size());
          });
}
#endif
