// C30: 128- and 256-bit integers behave as integers modulo 2^128 / 2^256.
#include "gen.hpp"
#include <sdsl/uint128_t.hpp>
#include <sdsl/uint256_t.hpp>
#include <array>
#include <sstream>
using namespace std;
using namespace sdsl;
// reference: little-endian 32-bit limbs, schoolbook bit arithmetic
template<int BITS> struct Big {
    array<uint32_t, BITS / 32> w{};
    static const int L = BITS / 32;
    bool bit(int i) const { return i < BITS && (w[i / 32] >> (i % 32) & 1); }
    void set(int i) { if (i >= 0 && i < BITS) w[i / 32] |= 1u << (i % 32); }
    uint64_t limb64(int i) const { return (uint64_t)w[2 * i + 1] << 32 | w[2 * i]; }
    static Big from(const vector<uint64_t>& v) { Big b; for (size_t i = 0; i < v.size(); ++i) { b.w[2 * i] = (uint32_t)v[i]; b.w[2 * i + 1] = v[i] >> 32; } return b; }
    Big add(const Big& o) const { Big r; uint64_t c = 0; for (int i = 0; i < L; ++i) { c += (uint64_t)w[i] + o.w[i]; r.w[i] = (uint32_t)c; c >>= 32; } return r; }
    Big sub(const Big& o) const { Big r; int64_t c = 0; for (int i = 0; i < L; ++i) { c += (int64_t)w[i] - o.w[i]; r.w[i] = (uint32_t)c; c >>= 32; } return r; }
    Big shl(int s) const { Big r; for (int i = 0; i < BITS; ++i) if (bit(i) && i + s < BITS) r.set(i + s); return r; }
    Big shr(int s) const { Big r; for (int i = s; i < BITS; ++i) if (bit(i)) r.set(i - s); return r; }
    int cmp(const Big& o) const { for (int i = L; i-- > 0;) if (w[i] != o.w[i]) return w[i] < o.w[i] ? -1 : 1; return 0; }
    int pop() const { int c = 0; for (int i = 0; i < BITS; ++i) c += bit(i); return c; }
    int hi() const { for (int i = BITS; i-- > 0;) if (bit(i)) return i; return 0; }
    int sel(int k) const { for (int i = 0; i < BITS; ++i) if (bit(i) && --k == 0) return i; return -1; }
    string hex() const { string s; for (int i = BITS / 4; i-- > 0;) s += "0123456789abcdef"[w[i / 8] >> (4 * (i % 8)) & 15]; return s; }
};
template<class T> struct Ops {};
template<> struct Ops<uint128_t> {
    enum { BITS = 128 };
    static uint128_t mk(const Big<128>& b) { return (uint128_t)b.limb64(0) | ((uint128_t)b.limb64(1) << 64); }
    static Big<128> un(const uint128_t& x) { return Big<128>::from({(uint64_t)x, (uint64_t)(x >> 64)}); }
};
template<> struct Ops<uint256_t> {
    enum { BITS = 256 };
    static uint256_t mk(const Big<256>& b) { return uint256_t(b.limb64(0), b.limb64(1), (uint128_t)b.limb64(2) | ((uint128_t)b.limb64(3) << 64)); }
    // from the printed form, so that no operator under test is involved
    static Big<256> un(const uint256_t& x)
    {
        stringstream s;
        s << x;
        string h = s.str();
        Big<256> b;
        if (h.size() != 64) throw runtime_error("printed form has " + to_string(h.size()) + " digits");
        for (int i = 0; i < 64; ++i) { int d = h[63 - i] <= '9' ? h[63 - i] - '0' : h[63 - i] - 'a' + 10; for (int k = 0; k < 4; ++k) if (d >> k & 1) b.set(4 * i + k); }
        return b;
    }
};
#define EQB(actual, expected, what) do { auto _a = (actual); auto _e = (expected); ++R.transitions; if (_a.cmp(_e) != 0) R.fail(mc::cat(what, ": expected ", _e.hex(), " got ", _a.hex())); R.obs(_e.w[0]); } while (0)
// operand corner values: limbs from {0,1,2^63-1,2^63,2^64-1,pattern}
template<int B> static vector<Big<B>> corners(size_t thorough)
{
    vector<uint64_t> l = {0, 1, 0x8000000000000000ULL, ~0ULL};
    if (B == 128 || thorough) { l.push_back(0x7fffffffffffffffULL); l.push_back(0x0123456789abcdefULL); }
    vector<Big<B>> r;
    size_t k = B / 64, tot = 1;
    for (size_t i = 0; i < k; ++i) tot *= l.size();
    for (size_t x = 0; x < tot; ++x) {
        vector<uint64_t> v;
        for (size_t i = 0, y = x; i < k; ++i, y /= l.size()) v.push_back(l[y % l.size()]);
        r.push_back(Big<B>::from(v));
    }
    return r;
}
#ifdef MODE_TI
static int pop128(const uint128_t& x) { return -1; }
#else
#define CLASS128 1
#endif
template<class T> struct Unary { static void go(mc::Run&, const T&, const Big<Ops<T>::BITS>&) {} };
template<class T> static void unary_common(mc::Run& R, T a, const Big<Ops<T>::BITS>& x)
{
    R.eq((int)a.popcount(), x.pop(), "popcount");
    R.eq((int)a.hi(), x.hi(), "hi");
    for (int k = 1; k <= x.pop(); ++k) R.eqi((int)a.select(k), x.sel(k), "select", k);
}
template<> struct Unary<uint256_t> { static void go(mc::Run& R, const uint256_t& a, const Big<256>& x) { unary_common(R, a, x); } };
#ifdef CLASS128
template<> struct Unary<uint128_t> { static void go(mc::Run& R, const uint128_t& a, const Big<128>& x) { unary_common(R, a, x); EQB(Ops<uint128_t>::un(~a), Big<128>().sub(x).sub(Big<128>::from({1})), "~"); } };
#else
template<> struct Unary<uint128_t> { static void go(mc::Run& R, const uint128_t& a, const Big<128>& x) { EQB(Ops<uint128_t>::un(~a), Big<128>().sub(x).sub(Big<128>::from({1})), "~"); } };
#endif
template<class T> static void single(mc::Run& R, const Big<Ops<T>::BITS>& x)
{
    const int B = Ops<T>::BITS;
    R.run([&] { return mc::cat("uint", B, " x=", x.hex()); },
          [&] {
              T a = Ops<T>::mk(x);
              EQB(Ops<T>::un(a), x, "value");
              stringstream s;
              s << a;
              R.eq(s.str(), x.hex(), "printed form");
              s.str("");
              s << 255;
              R.eq(s.str(), string("255"), "the stream prints decimal again");
              R.eq((uint64_t)a, x.limb64(0), "conversion to uint64_t");
              // a shift by the full width is not defined for the built-in 128-bit type
              for (int i = 0; i < B; ++i) {
                  EQB(Ops<T>::un(a << i), x.shl(i), mc::cat("<< ", i));
                  EQB(Ops<T>::un(a >> i), x.shr(i), mc::cat(">> ", i));
              }
              Unary<T>::go(R, a, x);
              T b(a), c;
              c = a;
              R.ck(b == a && c == a && !(b != a), "copies are equal");
              T d;
              d = (uint64_t)x.limb64(0);
              EQB(Ops<T>::un(d), Big<B>::from({x.limb64(0)}), "assignment of a uint64_t");
              EQB(Ops<T>::un(T(x.limb64(0))), Big<B>::from({x.limb64(0)}), "construction from a uint64_t");
          });
}
template<class T> static void pairs(mc::Run& R, const Big<Ops<T>::BITS>& x, const Big<Ops<T>::BITS>& y)
{
    const int B = Ops<T>::BITS;
    R.run([&] { return mc::cat("uint", B, " x=", x.hex(), " y=", y.hex()); },
          [&] {
              T a = Ops<T>::mk(x), b = Ops<T>::mk(y), c;
              Big<B> o, n;
              for (int i = 0; i < B / 32; ++i) { o.w[i] = x.w[i] | y.w[i]; n.w[i] = x.w[i] & y.w[i]; }
              EQB(Ops<T>::un(a + b), x.add(y), "+");
              EQB(Ops<T>::un(a - b), x.sub(y), "-");
              EQB(Ops<T>::un(a | b), o, "|");
              EQB(Ops<T>::un(a & b), n, "&");
              c = a; c += b;
              EQB(Ops<T>::un(c), x.add(y), "+=");
              c = a; c -= b;
              EQB(Ops<T>::un(c), x.sub(y), "-=");
              c = a; c |= b;
              EQB(Ops<T>::un(c), o, "|=");
              int m = x.cmp(y);
              R.eq((bool)(a == b), m == 0, "==");
              R.eq((bool)(a != b), m != 0, "!=");
              R.eq((bool)(a < b), m < 0, "<");
              R.eq((bool)(a > b), m > 0, ">");
              R.eq((bool)(a <= b), m <= 0, "<=");
              R.eq((bool)(a >= b), m >= 0, ">=");
              R.eq((bool)(a > y.limb64(0)), x.cmp(Big<B>::from({y.limb64(0)})) > 0, "> uint64_t");
              // aliasing
              c = a; c += c;
              EQB(Ops<T>::un(c), x.add(x), "x += x");
              c = a; c -= c;
              EQB(Ops<T>::un(c), Big<B>(), "x -= x");
          });
}
template<class T> static void mixed(mc::Run& R, const Big<Ops<T>::BITS>& x);
MC_TASK(unary128, "uint128_t: every value with limbs from 6 corner values, and every value with at most two set bits: print, convert, shifts by 0..127, copy, bit operations of the class form")
{
    for (auto& x : corners<128>(1)) single<uint128_t>(R, x);
    for (int i = 0; i < 128; ++i) for (int j = i; j < 128 && !R.stop(); ++j) { Big<128> b; b.set(i); b.set(j); single<uint128_t>(R, b); }
}
MC_TASK(binary128, "uint128_t: every pair of values with limbs from 6 corner values and 2^i, 2^i-1: all binary operators")
{
    vector<Big<128>> v = corners<128>(1);
    for (int i = 0; i < 128; i += R.thorough ? 1 : 3) { Big<128> b; b.set(i); v.push_back(b); v.push_back(b.sub(Big<128>::from({1}))); }
    for (auto& x : v) for (auto& y : v) { pairs<uint128_t>(R, x, y); if (R.stop()) return; }
}
MC_TASK(unary256, "uint256_t: every value with limbs from 4 (thorough 6) corner values, and every value with at most two set bits (quick: every 3rd pair): print, convert, shifts by 0..255, hi, popcount, select")
{
    for (auto& x : corners<256>(R.thorough)) single<uint256_t>(R, x);
    for (int i = 0; i < 256; ++i) for (int j = i; j < 256 && !R.stop(); ++j) { if (!R.thorough && (i + j) % 16 && i != j) continue; Big<256> b; b.set(i); b.set(j); single<uint256_t>(R, b); }
}
MC_TASK(binary256, "uint256_t: every pair of values with limbs from 4 corner values and 2^i, 2^i-1: all binary operators")
{
    vector<Big<256>> v = corners<256>(0);
    for (int i = 0; i < 256; i += R.thorough ? 1 : 5) { Big<256> b; b.set(i); v.push_back(b); v.push_back(b.sub(Big<256>::from({1}))); }
    for (auto& x : v) for (auto& y : v) { pairs<uint256_t>(R, x, y); if (R.stop()) return; }
}
