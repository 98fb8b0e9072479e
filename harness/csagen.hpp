// CSA subjects and a per-text construction cache shared by C17, C18, C12, C13, C36.
#pragma once
#include "textgen.hpp"
#include <sdsl/construct.hpp>
using namespace sdsl;
using namespace std;
template<class... V> struct Types {};
template<class F> static void each(Types<>, F) {}
template<class V, class... W, class F> static void each(Types<V, W...>, F f)
{
    f((V*)0);
    each(Types<W...>(), f);
}
template<class V>
struct tname {
    static std::string get()
    {
        std::string s = __PRETTY_FUNCTION__;
        size_t a = s.find("V = ");
        s = s.substr(a + 4);
        size_t b = s.find(';');
        if (b == std::string::npos) b = s.find(']');
        s = s.substr(0, std::min<size_t>(b, 220));
        std::string o;
        for (size_t i = 0; i < s.size(); ++i) {
            if (s.compare(i, 6, "sdsl::") == 0) { i += 5; continue; }
            o += s[i];
        }
        return o;
    }
};
typedef wt_huff<> Huff;
typedef csa_wt<wt_huff<bit_vector, rank_support_v5<>, select_support_scan<>, select_support_scan<0>>, 8, 16> CsaWtBs;
typedef csa_wt<wt_int<>, 4, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>> CsaInt;

// One text, one cache (text, SA, BWT, ... in RAM files), shared by all subject types.
template<uint8_t W>
struct Cache {
    cache_config c;
    std::string file;
    Ref r;
    Cache(const Text& t) : c(false, "@", "csagen"), file("@csagen_in")
    {
        r.make(t);
        uint64_t mx = 1;
        for (auto x : r.t) mx = max(mx, x);
        int_vector<W> iv(t.size(), 0, W ? W : bits::hi(mx) + 1);
        for (size_t i = 0; i < t.size(); ++i) iv[i] = t[i];
        if (W == 8) store_to_plain_array<uint8_t>(iv, file);
        else store_to_file(iv, file);
    }
    ~Cache()
    {
        for (auto& f : c.file_map) sdsl::remove(f.second);
        sdsl::remove(file);
    }
    template<class V> void build(V& v) { construct(v, file, c, W == 8 ? 1 : 0); }
    void forget(const char* key)
    {
        auto it = c.file_map.find(key);
        if (it == c.file_map.end()) return;
        sdsl::remove(it->second);
        c.file_map.erase(it);
    }
};
