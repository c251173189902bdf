// C24: integer, bit and limit utilities equal their mathematical definitions.
#include <limits>
#include <type_traits>
#include "uh.h"

typedef __int128 big;
typedef unsigned __int128 ubig;
static std::string bs (big v) { bool n = v < 0; ubig u = n ? -ubig(v) : ubig(v); std::string r; do { r.insert (r.begin(), char('0'+int(u%10))); u /= 10; } while (u); return n ? "-"+r : r; }
template <typename T> static const char* tn (void) { static std::string s = (std::is_signed<T>::value ? "int" : "uint") + std::to_string (sizeof(T)*8); return s.c_str(); }
template <typename T> static inline big lo (void) { return std::numeric_limits<T>::min(); }
template <typename T> static inline big hi (void) { return std::numeric_limits<T>::max(); }
template <typename T> static inline bool fits (big v) { return v >= lo<T>() && v <= hi<T>(); }
/// The compiler must not know the value: the library picks other code for constants.
template <typename T> static inline T opaque (T v) { asm volatile ("" : "+r"(v)); return v; }
template <> inline uint8_t opaque (uint8_t v) { volatile uint8_t r = v; return r; }
template <> inline int8_t opaque (int8_t v) { volatile int8_t r = v; return r; }
static big bgcd (big a, big b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { big t = a%b; a = b; b = t; } return a; }
template <typename T> static T value (Src& s)
{
    switch (s.below (4)) {
	case 0: return T(s.below (64))-T(s.below (std::is_signed<T>::value ? 64 : 1));
	case 1: return T(std::numeric_limits<T>::max()-T(s.below (40)));
	case 2: return T(std::numeric_limits<T>::min()+T(s.below (40)));
	default: return T(s.bits64());
    }
}

//{{{ Arithmetic

template <typename T> static void checkUnary (T v)
{
    v = opaque (v);
    const big b = v;
    if (!std::is_signed<T>::value || b != lo<T>())
	PBT_CHECK (big(ustl::absv (v)) == (b < 0 ? -b : b), "absv(%s) of %s gave %s", bs(b).c_str(), tn<T>(), bs(ustl::absv(v)).c_str());
    PBT_CHECK (big(ustl::sign (v)) == (b > 0) - (b < 0), "sign(%s) of %s gave %s", bs(b).c_str(), tn<T>(), bs(ustl::sign(v)).c_str());
    PBT_CHECK (ustl::is_negative (v) == (b < 0), "is_negative(%s) of %s is wrong", bs(b).c_str(), tn<T>());
}
template <typename T> static void checkPair (T x, T y)
{
    x = opaque (x); y = opaque (y);
    const big a = x, b = y;
    PBT_CHECK (big(ustl::min (x, y)) == (a < b ? a : b) && big(ustl::max (x, y)) == (a < b ? b : a), "min and max of %s and %s", bs(a).c_str(), bs(b).c_str());
    const bool mins = std::is_signed<T>::value && (a == lo<T>() || b == lo<T>());
    if (!mins) {
	const big g = bgcd (a, b);
	PBT_CHECK (big(ustl::gcd (x, y)) == g, "gcd(%s,%s) of %s gave %s, not %s", bs(a).c_str(), bs(b).c_str(), tn<T>(), bs(ustl::gcd(x,y)).c_str(), bs(g).c_str());
	ubig ul = g ? ubig((a < 0 ? -a : a)/g)*ubig(b < 0 ? -b : b) : 0; big l = big(ul);
	if (ul <= ubig(hi<T>())) {
	    const big r = ustl::lcm (x, y);	// the sign is that of the product in places
	    PBT_CHECK ((r < 0 ? -r : r) == l && (a < 0 || b < 0 || r >= 0), "lcm(%s,%s) of %s gave %s, not %s", bs(a).c_str(), bs(b).c_str(), tn<T>(), bs(r).c_str(), bs(l).c_str());
	}
    }
}
template <typename T1, typename T2> static void checkDiv (T1 x, T2 y)
{
    x = opaque (x); y = opaque (y);
    const big a = x, b = y;
    if (b <= 0 || (a < 0 && !std::is_signed<T2>::value)) return;
    big q = a/b; if (a%b) q += (a < 0 ? -1 : 1);
    PBT_CHECK (big(ustl::DivRU (x, y)) == q, "DivRU(%s,%s) of %s and %s gave %s, not %s", bs(a).c_str(), bs(b).c_str(), tn<T1>(), tn<T2>(), bs(ustl::DivRU(x,y)).c_str(), bs(q).c_str());
}
template <typename T> static void checkAlign (T x, size_t grain)
{
    x = opaque (x); grain = opaque (grain);
    const big a = x, g = grain;
    if (a < 0 && (g & (g-1))) return;
    big d = a/g*g; if (d > a) d -= g;
    big u = d == a ? a : d+g;
    if (fits<T>(d))
	PBT_CHECK (big(ustl::AlignDown (x, grain)) == d, "AlignDown(%s,%zu) of %s gave %s, not %s", bs(a).c_str(), grain, tn<T>(), bs(ustl::AlignDown(x,grain)).c_str(), bs(d).c_str());
    if (fits<T>(u) && a+g-1 <= hi<uint64_t>())
	PBT_CHECK (big(ustl::Align (x, grain)) == u, "Align(%s,%zu) of %s gave %s, not %s", bs(a).c_str(), grain, tn<T>(), bs(ustl::Align(x,grain)).c_str(), bs(u).c_str());
    if (g == 8) {
	if (fits<T>(d)) PBT_CHECK (big(ustl::AlignDown (x)) == d, "AlignDown(%s)", bs(a).c_str());
	if (fits<T>(u) && a+g-1 <= hi<uint64_t>()) PBT_CHECK (big(ustl::Align (x)) == u, "Align(%s)", bs(a).c_str());
    }
}
template <typename T> static void arith (Src& s)
{
    T a = value<T> (s), b = value<T> (s);
    if (s.coin()) { T g = T(1+s.below (100)); if (g > T(0)) { a = T(big(a)/g*g); b = T(big(b)/g*g); } }
    if (!s.below (3) && b) a = T(big(a)/big(b)*big(b));
    if (!s.below (5)) b = a;
    size_t grain = s.coin() ? size_t(1) << s.below (20) : 1+s.below (s.coin() ? 40 : 100000);
    note ("%s %s, %s, grain %zu", tn<T>(), bs(a).c_str(), bs(b).c_str(), grain); label (tn<T>());
    checkUnary (a); checkPair (a, b); checkDiv (a, b); checkAlign (a, grain);
    if (a != T(0) && b != T(0) && big(a) != 1 && big(b) != 1) s.nontrivial();
}
template <typename T1, typename T2> static void mixedDiv (Src& s)
{
    T1 a = value<T1> (s); T2 b = value<T2> (s); note ("DivRU of %s %s and %s %s", tn<T1>(), bs(a).c_str(), tn<T2>(), bs(b).c_str());
    checkDiv (a, b); if (big(b) > 1 && a) s.nontrivial();
}
PBT_TEST (arithmetic, 20)
{
    switch (s.below (12)) {
	case 0: return arith<int8_t> (s); case 1: return arith<uint8_t> (s); case 2: return arith<int16_t> (s); case 3: return arith<uint16_t> (s);
	case 4: return arith<int32_t> (s); case 5: return arith<uint32_t> (s); case 6: return arith<int64_t> (s); case 7: return arith<uint64_t> (s);
	case 8: return mixedDiv<size_t,uint16_t> (s); case 9: return mixedDiv<uint32_t,int> (s); case 10: return mixedDiv<int64_t,int> (s); default: return mixedDiv<uint8_t,size_t> (s);
    }
}
/// A row of the table of all pairs of bytes.
PBT_TEST (all_byte_pairs, 6)
{
    const unsigned a = s.below (256); const bool sg = s.coin(); note ("all pairs with %u %s", a, sg ? "signed" : "unsigned"); label (sg ? "signed rows" : "unsigned rows");
    for (unsigned b = 0; b < 256; ++b) {
	if (sg) { checkUnary (int8_t(a)); checkPair (int8_t(a), int8_t(b)); checkDiv (int8_t(a), int8_t(b)); if (b) checkAlign (int8_t(a), b); }
	else { checkUnary (uint8_t(a)); checkPair (uint8_t(a), uint8_t(b)); checkDiv (uint8_t(a), uint8_t(b)); if (b) checkAlign (uint8_t(a), b); }
    }
    s.nontrivial (a > 1);
}
PBT_TEST (floats, 2)
{
    double v = double(int64_t(s.bits64())) / double (1+s.below (1000)); if (v == 0) v = 0.5;
    if (s.chance (1,8)) { static const double e[] = { 0.0, -0.0, INFINITY, -INFINITY, 5e-324, -5e-324, DBL_MAX, -DBL_MAX, DBL_MIN, -DBL_MIN, FLT_MIN, -FLT_MIN, 1e-45, -1e-45 }; v = s.among (e); }
    float f = float(v); note ("%.17g", v);
    PBT_CHECK (ustl::absv (v) == fabs (v) && ustl::absv (f) == fabsf (f), "absv(%.17g) gave %.17g", v, ustl::absv(v));
    PBT_CHECK (ustl::sign (v) == (v > 0) - (v < 0) && ustl::sign (0.0) == 0 && ustl::sign (f) == (f > 0) - (f < 0), "sign(%.17g) gave %.17g", v, ustl::sign(v));
    s.nontrivial();
}
//}}}
//{{{ Bits

template <typename T> static T rotl (T v, unsigned n)
{
    typedef typename std::make_unsigned<T>::type U; const unsigned B = sizeof(T)*8; U r = 0, u = U(v);
    for (unsigned i = 0; i < B; ++i) if ((u >> i) & 1) r |= U(U(1) << ((i+n)%B));
    return T(r);
}
template <typename T> static void checkRotate (T v, unsigned n)
{
    v = opaque (v); const unsigned B = sizeof(T)*8;
    const T l = ustl::Rol (v, size_t(opaque (n))), r = ustl::Ror (v, size_t(opaque (n)));
    PBT_CHECK (l == rotl (v, n), "Rol(%s,%u) of %s gave %s", bs(v).c_str(), n, tn<T>(), bs(l).c_str());
    PBT_CHECK (r == rotl (v, (B-n)%B), "Ror(%s,%u) of %s gave %s", bs(v).c_str(), n, tn<T>(), bs(r).c_str());
}
template <typename T> static void checkSwap (T v)
{
    v = opaque (v); uint8_t b [sizeof(T)], e [sizeof(T)]; memcpy (b, &v, sizeof(T)); std::reverse_copy (b, b+sizeof(T), e); T x; memcpy (&x, e, sizeof(T));
    PBT_CHECK (ustl::bswap (v) == x, "bswap(%s) of %s gave %s", bs(v).c_str(), tn<T>(), bs(ustl::bswap(v)).c_str());
    typedef typename std::make_unsigned<T>::type U; const U u = U(v);
    if (sizeof(T) == 1) PBT_CHECK (ustl::bswap_8 (u) == U(x), "bswap_8");
    if (sizeof(T) == 2) PBT_CHECK (ustl::bswap_16 (u) == U(x), "bswap_16(%s)", bs(v).c_str());
    if (sizeof(T) == 4) PBT_CHECK (ustl::bswap_32 (u) == U(x), "bswap_32(%s)", bs(v).c_str());
    if (sizeof(T) == 8) PBT_CHECK (ustl::bswap_64 (u) == U(x), "bswap_64(%s)", bs(v).c_str());
    // What the bytes say in either order
    T le = 0, be = 0; { U t = 0; for (unsigned i = sizeof(T); i--;) t = U(t << (sizeof(T) > 1 ? 8 : 0)) | b[i]; le = T(t); t = 0; for (unsigned i = 0; i < sizeof(T); ++i) t = U(t << (sizeof(T) > 1 ? 8 : 0)) | b[i]; be = T(t); }
    PBT_CHECK (ustl::le_to_native (v) == le, "le_to_native(%s)", bs(v).c_str()); PBT_CHECK (ustl::be_to_native (v) == be, "be_to_native(%s)", bs(v).c_str());
    PBT_CHECK (ustl::le_to_native (ustl::native_to_le (v)) == v && ustl::be_to_native (ustl::native_to_be (v)) == v, "byte order conversions of %s do not undo each other", bs(v).c_str());
    const T w = ustl::native_to_be (v); memcpy (b, &w, sizeof(T)); for (unsigned i = 0; i < sizeof(T); ++i) PBT_CHECK (b[i] == uint8_t(u >> 8*(sizeof(T)-1-i)), "native_to_be(%s) byte %u", bs(v).c_str(), i);
    const T z = ustl::native_to_le (v); memcpy (b, &z, sizeof(T)); for (unsigned i = 0; i < sizeof(T); ++i) PBT_CHECK (b[i] == uint8_t(u >> 8*i), "native_to_le(%s) byte %u", bs(v).c_str(), i);
}
static void checkBits (uint64_t v, uint64_t nbv)
{
    v = opaque (v); const uint32_t w = uint32_t(v), wnbv = uint32_t(nbv);
    unsigned p64 = 0, p32 = 0; int f64 = -1, f32 = -1;
    for (int i = 0; i < 64; ++i) if ((v >> i) & 1) { ++p64; f64 = i; if (i < 32) { ++p32; f32 = i; } }
    PBT_CHECK (ustl::popcount (v) == p64, "popcount(%#llx) gave %zu", (unsigned long long)(v), ustl::popcount(v)); PBT_CHECK (ustl::popcount (w) == p32, "popcount(%#x) gave %zu", w, ustl::popcount(w));
    PBT_CHECK (ustl::FirstBit (v, nbv) == (f64 < 0 ? nbv : uint64_t(f64)), "FirstBit(%#llx,%llu) gave %zu", (unsigned long long)(v), (unsigned long long)(nbv), ustl::FirstBit(v,nbv));
    PBT_CHECK (ustl::FirstBit (w, wnbv) == (f32 < 0 ? wnbv : uint32_t(f32)), "FirstBit(%#x,%u) gave %zu", w, wnbv, ustl::FirstBit(w,wnbv));
    if (w == 1) return;		// known finding
    const uint64_t np = w <= 1 ? 1 : w > 0x80000000u ? 1 : uint64_t(1) << (64-__builtin_clzll (uint64_t(w)-1));
    PBT_CHECK (ustl::NextPow2 (opaque (w)) == np, "NextPow2(%u) gave %u, not %llu", w, ustl::NextPow2(opaque(w)), (unsigned long long)(np));
}
static bool npOne (void) { return ustl::NextPow2 (opaque (uint32_t(1))) != 1; }
PBT_KNOWN (next_pow2_of_1) { return npOne(); }

template <typename T> static void mask (unsigned n)
{
    const big e = (ubig(1) << n)-1; n = opaque (n);
    PBT_CHECK (big(T(BitMask(T,n))) == e, "BitMask(%s,%u) gave %s", tn<T>(), n, bs(T(BitMask(T,n))).c_str());
    PBT_CHECK (BitsInType(T) == sizeof(T)*8, "BitsInType");
}
template <typename S, typename B> static void packed (Src& s)
{
    const S v = S(s.bits64()); B b = B(s.raw()), e = 0; for (unsigned i = 0; i < sizeof(B)/sizeof(S); ++i) e = B(e << (sizeof(S)*8%(sizeof(B)*8))) | v;
    ustl::pack_type (opaque (v), b); PBT_CHECK (b == e, "%s %s packed into %s gave %s, not %s", tn<S>(), bs(v).c_str(), tn<B>(), bs(b).c_str(), bs(e).c_str());
}
template <typename T> static void bitsOf (Src& s)
{
    const T v = T(s.coin() ? s.raw() : s.bits64()); const unsigned n = s.below (sizeof(T)*8); note ("%s %s by %u", tn<T>(), bs(v).c_str(), n); label (tn<T>());
    checkRotate (v, n); checkSwap (v); if (v != T(0) && v != T(-1) && n) s.nontrivial();
}
PBT_TEST (bits, 16)
{
    switch (s.below (8)) {
	case 0: return bitsOf<int8_t> (s); case 1: return bitsOf<uint8_t> (s); case 2: return bitsOf<int16_t> (s); case 3: return bitsOf<uint16_t> (s);
	case 4: return bitsOf<int32_t> (s); case 5: return bitsOf<uint32_t> (s); case 6: return bitsOf<int64_t> (s); default: return bitsOf<uint64_t> (s);
    }
}
PBT_TEST (bit_positions, 10)
{
    const uint64_t v = s.coin() ? s.raw() : s.bits64(), n = s.coin() ? 75 : s.bits64(); note ("%#llx, %llu", (unsigned long long)(v), (unsigned long long)(n));
    checkBits (v, n); s.nontrivial (v != 0);
}
/// Four consecutive rows of all 16 bit values: 256 values each.
PBT_TEST (all_16_bit_values, 3)
{
    const unsigned h = s.below (256); note ("values %#x00..%#xff", h, h);
    for (unsigned l = 0; l < 256; ++l) {
	const uint16_t v = uint16_t(h<<8|l); checkBits (v, 99); checkBits (uint64_t(v) << 16, 99); checkBits (uint64_t(v) << 48, 99); checkSwap (v); checkSwap (int16_t(v)); checkUnary (int16_t(v));
	for (unsigned n = 0; n < 16; ++n) { checkRotate (v, n); checkRotate (int16_t(v), n); }
	if (!h) for (unsigned n = 0; n < 8; ++n) { checkRotate (uint8_t(l), n); checkRotate (int8_t(l), n); }
    }
    s.nontrivial (h);
}
PBT_TEST (masks_and_packing, 3)
{
    unsigned n = s.below (65); note ("mask of %u bits", n); mask<uint64_t> (n); if (n <= 32) mask<uint32_t> (n); if (n <= 16) mask<uint16_t> (n); if (n <= 8) mask<uint8_t> (n);
    packed<uint8_t,uint8_t> (s); packed<uint8_t,uint16_t> (s); packed<uint8_t,uint32_t> (s); packed<uint8_t,uint64_t> (s); packed<uint16_t,uint32_t> (s); packed<uint16_t,uint64_t> (s); packed<uint32_t,uint64_t> (s);
    s.nontrivial (n);
}
PBT_TEST (small_tools, 4)
{
    int lock = s.coin() ? 0 : int(s.bits64()); const int was = lock; note ("lock %d", was);
    PBT_CHECK (ustl::TestAndSet (&lock) == !was && lock == 1, "TestAndSet of %d", was); PBT_CHECK (!ustl::TestAndSet (&lock) && lock == 1, "TestAndSet of a set lock");
    const uint32_t u = uint32_t(s.raw()); float f; memcpy (&f, &u, 4);
    if (f == f) { PBT_CHECK (ustl::noalias_cast<uint32_t> (f) == u, "noalias_cast of a float"); const float g = ustl::noalias_cast<float> (u); PBT_CHECK (!memcmp (&g, &u, 4), "noalias_cast to a float"); uint32_t loc = u; const float h = ustl::noalias (0.f, &loc); PBT_CHECK (!memcmp (&h, &u, 4), "noalias"); }
    const uint64_t d = s.raw(); double x; memcpy (&x, &d, 8); if (x == x) { uint64_t y = ustl::noalias_cast<uint64_t> (x); PBT_CHECK (y == d, "noalias_cast of a double"); }
    int arr [7]; for (int i = 0; i < 7; ++i) arr[i] = i; const size_t i = s.coin() ? s.below (10) : s.bits64(); PBT_CHECK (ustl::VectorElement (arr, i) == int(i < 7 ? i : 6), "VectorElement %zu", i); ustl::VectorElement (arr, i) = 99; PBT_CHECK (arr[i < 7 ? i : 6] == 99, "VectorElement is not a reference");
    std::string a = uh::rbytes (s, s.len (30)), b = uh::rbytes (s, s.len (30)); ustl::string p (a.data(), a.size()), q (b.data(), b.size()); note ("\"%s\", \"%s\"", pbt::esc(a).c_str(), pbt::esc(b).c_str());
    ustl::swap (p, q); PBT_CHECK (std::string (p.begin(), p.size()) == b && std::string (q.begin(), q.size()) == a, "swap");
    ustl::iter_swap (&p, &q); PBT_CHECK (std::string (p.begin(), p.size()) == a, "iter_swap");
    int o = int(u), nw = int(d); PBT_CHECK (ustl::exchange (o, nw) == int(u) && o == nw, "exchange"); ustl::string r = ustl::exchange (p, q); PBT_CHECK (std::string (r.begin(), r.size()) == a && std::string (p.begin(), p.size()) == b && std::string (q.begin(), q.size()) == b, "exchange of texts");
    PBT_CHECK (ustl::addressof (p) == &p && *ustl::addressof (o) == o, "addressof"); PBT_CHECK (ustl::NullPointer<int>() == nullptr, "NullPointer");
    int* pd = new int (3); ustl::Delete (pd); PBT_CHECK (!pd, "Delete leaves the pointer"); int* pa = new int [3+s.below(10)]; ustl::DeleteVector (pa); PBT_CHECK (!pa, "DeleteVector leaves the pointer"); ustl::Delete (pd);
    s.nontrivial();
}
//}}}
//{{{ Distances and offsets

struct Wide { uint32_t v[5]; };
template <typename T> static void offsets (Src& s)
{
    static std::vector<T> buf (512); T* b = buf.data(); const size_t i = s.below (513), j = s.below (513); const ptrdiff_t d = ptrdiff_t(j)-ptrdiff_t(i); note ("size %zu: from %zu to %zu", sizeof(T), i, j);
    T* p = b+i; const T* c = b+i; PBT_CHECK (ustl::advance_ptr (p, d) == b+j && ustl::advance_ptr (c, d) == b+j, "advance_ptr by %td", d);
    PBT_CHECK (ustl::advance (p, d) == b+j && p == b+j, "advance by %td", d); PBT_CHECK (ustl::advance (c, d) == b+j && c == b+j, "advance of a const pointer by %td", d);
    PBT_CHECK (ustl::distance (b+i, b+j) == d, "distance"); PBT_CHECK (ustl::distance ((const T*)(b)+i, (const T*)(b)+j) == d, "distance of const pointers"); PBT_CHECK (ustl::abs_distance (b+i, b+j) == size_t(d < 0 ? -d : d), "abs_distance");
    PBT_CHECK (ustl::size_of_elements (j, (const T*)(b)) == j*sizeof(T), "size_of_elements"); PBT_CHECK (ustl::pointer_cast<char> (b+i) == (char*)(b+i) && ustl::pointer_cast<char> ((const T*)(b+i)) == (char*)(b+i), "pointer_cast");
    s.nontrivial (d);
}
PBT_TEST (distances, 8)
{
    switch (s.below (6)) { case 0: return offsets<uint8_t> (s); case 1: return offsets<uint16_t> (s); case 2: return offsets<uint32_t> (s); case 3: return offsets<double> (s); case 4: return offsets<Wide> (s); }
    static char buf [512]; const size_t i = s.below (513), j = s.below (513); const ptrdiff_t d = ptrdiff_t(j)-ptrdiff_t(i); void* p = buf+i; const void* c = buf+i; note ("untyped from %zu to %zu", i, j);
    PBT_CHECK (ustl::advance_ptr (p, d) == buf+j && ustl::advance_ptr (c, d) == buf+j, "advance_ptr of untyped"); PBT_CHECK (ustl::advance (p, d) == buf+j && p == buf+j && ustl::advance (c, d) == buf+j && c == buf+j, "advance of untyped");
    PBT_CHECK (ustl::distance ((void*)(buf+i), (void*)(buf+j)) == d && ustl::distance ((const void*)(buf+i), (const void*)(buf+j)) == d && ustl::distance ((void*)(buf+i), (const void*)(buf+j)) == d && ustl::distance ((const void*)(buf+i), (void*)(buf+j)) == d, "distance of untyped");
    PBT_CHECK (ustl::abs_distance ((void*)(buf+i), (void*)(buf+j)) == size_t(d < 0 ? -d : d), "abs_distance of untyped"); s.nontrivial (d);
}
//}}}
//{{{ Limits

template <typename T> static void limit (const char* name)
{
    typedef std::numeric_limits<T> E; typedef ustl::numeric_limits<T> U; note ("limits of %s", name);
    PBT_CHECK (U::min() == E::min() && U::max() == E::max() && U::lowest() == E::lowest(), "%s: range", name); PBT_CHECK (U::is_signed == E::is_signed, "%s: signedness", name);
    PBT_CHECK (U::is_specialized && U::is_bounded == E::is_bounded, "%s: bounds", name); PBT_CHECK (U::radix == E::radix, "%s: radix", name);
    PBT_CHECK ((U::is_integer == E::is_integer && U::is_exact == E::is_exact) || (std::is_same<T,bool>::value), "%s: exactness", name);
    PBT_CHECK (U::has_infinity == E::has_infinity && U::has_quiet_NaN == E::has_quiet_NaN && U::has_signaling_NaN == E::has_signaling_NaN && U::is_iec559 == E::is_iec559, "%s: special values", name);
    PBT_CHECK (U::min_exponent == E::min_exponent && U::max_exponent == E::max_exponent && U::min_exponent10 == E::min_exponent10 && U::max_exponent10 == E::max_exponent10, "%s: exponents", name);
    PBT_CHECK (U::epsilon() == E::epsilon() && U::round_error() == E::round_error() && U::denorm_min() == E::denorm_min() && U::infinity() == E::infinity(), "%s: values", name);
    PBT_CHECK (!E::has_quiet_NaN || (U::quiet_NaN() != U::quiet_NaN() && U::signaling_NaN() != U::signaling_NaN()), "%s: NaN", name);
    PBT_CHECK (U::digits == (E::is_integer ? sizeof(T)*8 : unsigned(E::digits)), "%s: bits", name);	// documented as the number of bits
}
PBT_TEST (limits, 1)
{
    s.below (1000);
    limit<bool> ("bool"); limit<char> ("char"); limit<signed char> ("signed char"); limit<unsigned char> ("unsigned char"); limit<wchar_t> ("wchar_t"); limit<short> ("short"); limit<unsigned short> ("unsigned short"); limit<int> ("int"); limit<unsigned> ("unsigned"); limit<long> ("long"); limit<unsigned long> ("unsigned long"); limit<long long> ("long long"); limit<unsigned long long> ("unsigned long long");
    limit<float> ("float"); limit<double> ("double"); limit<long double> ("long double");
    PBT_CHECK (ustl::numeric_limits<int*>::min() == nullptr && uintptr_t(ustl::numeric_limits<int*>::max()) == UINTPTR_MAX && !ustl::numeric_limits<int*>::is_signed, "limits of pointers");
    s.nontrivial();
}
//}}}
