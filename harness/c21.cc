// C21: fixed tuples, arrays, matrices and packed arithmetic equal element-wise arithmetic.
#include <limits>
#include <type_traits>
#include "uh.h"
using ustl::tuple; using ustl::matrix; using ustl::array;
namespace simd = ustl::simd;

/// The x87 unit must be usable after any packed operation.
static void fpu (const char* op) { static volatile long double three = 3; long double r = three*three+three/2; PBT_CHECK (r == 10.5L, "%s leaves the floating point unit unusable", op); }

/// A value at any address its type allows, between bytes that must not change.
template <typename C> class Slot {
    enum { G = 48 }; std::vector<uint8_t> _b; C* _p;
    static uint8_t pat (size_t i) { return uint8_t(i*29+7); }
    size_t off (void) const { return size_t((const uint8_t*) _p-&_b[0]); }
    /* the bytes under the value are not zero before it is made */ uint8_t* prep (Src& s) { for (size_t i = 0; i < _b.size(); ++i) _b[i] = pat (i); size_t k = G+s.below (17); return (uint8_t*) ((uintptr_t(&_b[0])+k) / alignof(C) * alignof(C)); }
public:
    template <typename... A> explicit Slot (Src& s, A&&... a) : _b(sizeof(C)+2*G+32), _p((C*) prep (s)) { new (_p) C (a...); check ("construction"); }
    ~Slot (void) { _p->~C(); }
    C& operator* (void) { return *_p; } C* operator-> (void) { return _p; }
    void check (const char* op) const { const size_t o = off(); for (size_t i = 0; i < _b.size(); ++i) if (i < o || i >= o+sizeof(C)) PBT_CHECK (_b[i] == pat (i), "%s changes byte %zd next to the elements", op, ssize_t(i)-ssize_t(o)); }
};

template <typename T> static std::string str (T v) { std::ostringstream o; o.precision (17); if (sizeof(T) == 1) o << int(v); else o << v; return o.str(); }
template <typename T> static bool same (T a, T b) { return a == b || (a != a && b != b); }
template <typename T> static bool isint (void) { return std::is_integral<T>::value; }

enum Dom { Any, Add, Mul, Pos };
/// A value of T for which the operation in question is defined.
template <typename T> static typename std::enable_if<std::is_integral<T>::value,T>::type val (Src& s, Dom d)
{
    if (s.chance (1,5)) { static const int64_t e[] = { 0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 46340, 0x3fffffff, -1, -2, -127, -128, -129, -32768 }; T v = T(s.among (e)); if (d == Any || sizeof(T) < (d == Mul ? 2 : 4) || (d == Add && v <= T(0x3fffffff) && v >= T(-0x3fffffff-1) )) return d == Pos && v < 0 ? 1 : v; }
    const bool sg = std::is_signed<T>::value; T v;
    switch (sizeof(T)) {
	case 1: v = T(s.raw()); break;
	case 2: v = d == Mul ? T(s.below (181)) : T(s.raw()); break;
	case 4: v = d == Any || !sg ? T(s.raw() >> (32+s.below (32))) : d == Mul ? T(s.below (46340)) : T(s.raw() >> (34+s.below (30))); if (d != Any && sg && s.coin()) v = -v; break;
	default: v = d == Any || !sg ? T(s.raw() >> s.below (64)) : d == Mul ? T(s.raw() >> (33+s.below (30))) : T(s.raw() >> (2+s.below (60))); if (d != Any && sg && s.coin()) v = -v; break;
    }
    if (d == Pos && v < 0) v = ~v;
    return v;
}
template <typename T> static typename std::enable_if<!std::is_integral<T>::value,T>::type val (Src& s, Dom d)
{
    T v; switch (s.pick ({3,3,1,1})) {
	case 0: v = T(s.below (200)); break;
	case 1: v = T(int64_t(s.raw() >> 32)) / T(1u << s.below (31)); break;
	case 2: v = T(s.below (1000))/2; break;
	default: v = T(ldexp (double(1+s.below (1000)), int(s.below (60))-30)); break;
    }
    if (d != Pos && s.coin()) v = -v;
    return v;
}
template <typename T> static T nz (Src& s, Dom d) { T v = val<T> (s, d); return v == T(0) || (isint<T>() && v == T(-1)) ? T(3) : v; }

template <typename T, size_t N> struct Vals { T v[N]; Vals (void) { std::fill (v, v+N, T()); } template <typename F> explicit Vals (F f) { for (auto& x : v) x = f(); } };
template <typename C, typename T, size_t N> static void cmp (const C& c, const Vals<T,N>& e, const char* op) { for (size_t i = 0; i < N; ++i) PBT_CHECK (same<T> (c.begin()[i], e.v[i]), "%s: element %zu of %zu is %s, not %s", op, i, N, str<T> (c.begin()[i]).c_str(), str<T> (e.v[i]).c_str()); fpu (op); }

template <typename T, size_t N> struct Mk {
    static tuple<N,T> t (const Vals<T,N>& v) { tuple<N,T> r; for (size_t i = 0; i < N; ++i) r[i] = v.v[i]; return r; }
    static array<T,N> a (const Vals<T,N>& v) { array<T,N> r; for (size_t i = 0; i < N; ++i) r[i] = v.v[i]; return r; }
};
template <typename T, size_t N> static void init (tuple<N,T>& t, const Vals<T,N>& v) { for (size_t i = 0; i < N; ++i) t[i] = v.v[i]; }
template <typename T, size_t N> static void init (array<T,N>& t, const Vals<T,N>& v) { for (size_t i = 0; i < N; ++i) t[i] = v.v[i]; }

/// Calls \p f with a list of the first \p n values of \p a.
template <typename T, typename F> static void list (const T* a, size_t n, F f) { switch (n) { case 0: f (std::initializer_list<T>()); break; case 1: f ({ a[0] }); break; case 2: f ({ a[0], a[1] }); break; case 3: f ({ a[0], a[1], a[2] }); break; case 4: f ({ a[0], a[1], a[2], a[3] }); break; default: f ({ a[0], a[1], a[2], a[3], a[4] }); } }
#define OPS(X) X(+,Add) X(-,Add) X(*,Mul) X(/,Any)

/// Arithmetic with tuples, values and lists; common to tuples and arrays.
template <typename C, typename T, size_t N> static void arith (Src& s)
{
    unsigned op = s.below (4); Dom d = op < 2 ? Add : op == 2 ? Mul : Any;
    auto g = [&]{ return val<T> (s, d); }; auto gz = [&]{ return op == 3 ? nz<T> (s, d) : val<T> (s, d); };
    Vals<T,N> va (g), vb (gz), ve; T v = gz(); Slot<C> a (s), b (s), r (s); init (*a, va); init (*b, vb);
    auto sc = [&] (T x, T y) -> T { switch (op) { case 0: return T(x+y); case 1: return T(x-y); case 2: return T(x*y); default: return T(x/y); } };
    const char* names[] = { "+", "-", "*", "/" }; const unsigned form = s.below (6); std::string nm; size_t ln = N;
    for (size_t i = 0; i < N; ++i) ve.v[i] = sc (va.v[i], form & 1 ? v : vb.v[i]);
    T l[5] = { gz(), gz(), gz(), gz(), gz() }; const size_t li = s.below (6); if (form >= 4) { ve = va; ln = std::min<size_t> (li, N); for (size_t i = 0; i < ln; ++i) ve.v[i] = sc (va.v[i], l[i]); if (std::is_same<C,tuple<N,T>>::value || form == 4) {} }
    switch (form) {
	case 0: nm = "a op= b"; switch (op) { case 0: *a += *b; break; case 1: *a -= *b; break; case 2: *a *= *b; break; default: *a /= *b; } cmp (*a, ve, nm.c_str()); break;
	case 1: nm = "a op= v"; if (s.chance (1,4)) { nm = "a op= own element"; const size_t k = s.below (N); if (op == 3 && (va.v[k] == T(0) || (isint<T>() && va.v[k] == T(-1)))) va.v[k] = (*a)[k] = T(3); const T w = va.v[k]; for (size_t i = 0; i < N; ++i) ve.v[i] = sc (va.v[i], w); switch (op) { case 0: *a += (*a)[k]; break; case 1: *a -= (*a)[k]; break; case 2: *a *= (*a)[k]; break; default: *a /= (*a)[k]; } cmp (*a, ve, nm.c_str()); break; } switch (op) { case 0: *a += v; break; case 1: *a -= v; break; case 2: *a *= v; break; default: *a /= v; } cmp (*a, ve, nm.c_str()); break;
	case 2: nm = "a op b"; switch (op) { case 0: *r = *a + *b; break; case 1: *r = *a - *b; break; case 2: *r = *a * *b; break; default: *r = *a / *b; } cmp (*r, ve, nm.c_str()); cmp (*a, va, "left operand"); cmp (*b, vb, "right operand"); break;
	case 3: nm = "a op v"; switch (op) { case 0: *r = *a + v; break; case 1: *r = *a - v; break; case 2: *r = *a * v; break; default: *r = *a / v; } cmp (*r, ve, nm.c_str()); cmp (*a, va, "left operand"); break;
	default: nm = "a op= list"; list (l, li, [&](std::initializer_list<T> w) { switch (op) { case 0: *a += w; break; case 1: *a -= w; break; case 2: *a *= w; break; default: *a /= w; } }); cmp (*a, ve, nm.c_str()); break;
    }
    note ("%s with %s on %zu elements of %zu bytes", nm.c_str(), names[op], N, sizeof(T)); a.check (nm.c_str()); b.check (nm.c_str()); r.check (nm.c_str()); s.nontrivial (N > 1);
}
template <typename T, size_t N> static void arraylist (Src& s)
{
    unsigned op = s.below (4); Dom d = op < 2 ? Add : op == 2 ? Mul : Any; auto g = [&]{ return val<T> (s, d); }; Vals<T,N> va (g), ve (va); T l[5]; for (auto& x : l) x = nz<T> (s, d); const size_t li = s.below (6); array<T,N> a, r; init (a, va);
    for (size_t i = 0; i < li && i < N; ++i) switch (op) { case 0: ve.v[i] = T(va.v[i]+l[i]); break; case 1: ve.v[i] = T(va.v[i]-l[i]); break; case 2: ve.v[i] = T(va.v[i]*l[i]); break; default: ve.v[i] = T(va.v[i]/l[i]); }
    list (l, li, [&](std::initializer_list<T> w) { switch (op) { case 0: r = a + w; break; case 1: r = a - w; break; case 2: r = a * w; break; default: r = a / w; } });
    cmp (r, ve, "array op list"); cmp (a, va, "left operand"); s.nontrivial (N > 1);
}

template <typename C, typename T, size_t N> static void value_common (Src& s, Slot<C>& a, Slot<C>& b, Vals<T,N>& va, Vals<T,N>& vb)
{
    a->swap (*b); cmp (*a, vb, "swap"); cmp (*b, va, "swap"); a.check ("swap"); b.check ("swap");
    *b = *a; cmp (*b, vb, "assignment"); b.check ("assignment"); PBT_CHECK (*a == *b && !(*a < *b), "copies differ");
    size_t k = 0; for (unsigned m = 1+s.below (4); m--;) { k = s.below (N); T nv; switch (s.below (4)) { case 0: nv = vb.v[k] < std::numeric_limits<T>::max() ? T(vb.v[k]+1) : vb.v[k]; break; case 1: nv = vb.v[k] > std::numeric_limits<T>::lowest() ? T(vb.v[k]-1) : vb.v[k]; break; default: nv = val<T> (s, Any); } if (nv != nv) nv = 0; (*b)[k] = nv; vb.v[k] = nv; } cmp (*b, vb, "[]"); Vals<T,N> vo; for (size_t i = 0; i < N; ++i) vo.v[i] = (*a)[i];
    PBT_CHECK ((*a == *b) == std::equal (vo.v, vo.v+N, vb.v) && (*a < *b) == std::lexicographical_compare (vo.v, vo.v+N, vb.v, vb.v+N) && (*b < *a) == std::lexicographical_compare (vb.v, vb.v+N, vo.v, vo.v+N), "comparison");
    { const bool eq = std::equal (vo.v, vo.v+N, vb.v), lt = std::lexicographical_compare (vo.v, vo.v+N, vb.v, vb.v+N); const C& ca = *a; const C& cb = *b; PBT_CHECK ((ca != cb) == !eq && (ca > cb) == (!eq && !lt) && (ca <= cb) == (eq || lt) && (ca >= cb) == !lt, "!=, >, <=, >="); }
    PBT_CHECK (a->size() == N && a->max_size() == N && !a->empty() && size_t(a->end()-a->begin()) == N && &a->at (k) == a->begin()+k && &(*a)[k] == a->begin()+k && &const_cast<const C&>(*a).at (k) == a->begin()+k && &const_cast<const C&>(*a)[k] == a->begin()+k && sizeof(C) == N*sizeof(T), "size is %zu", size_t(a->size())); s.nontrivial (N > 1);
}
template <typename T, size_t N, bool B> struct Ctors { static void run (Src& s, unsigned k) { T v = val<T> (s, Any); Vals<T,N> e; std::fill (e.v, e.v+N, v); if (k == 3) { Slot<tuple<N,T>> t (s, v); cmp (*t, e, "tuple(v)"); } } };
template <typename T, size_t N> struct Ctors<T,N,true> { static void run (Src& s, unsigned k) {
    T a[4] = { val<T> (s,Any), val<T> (s,Any), val<T> (s,Any), val<T> (s,Any) }; Vals<T,N> e; size_t n = k-2; for (size_t i = 0; i < N; ++i) e.v[i] = a[std::min (i, n-1)];
    switch (n) { case 1: { Slot<tuple<N,T>> t (s, a[0]); cmp (*t, e, "tuple(v)"); break; } case 2: { Slot<tuple<N,T>> t (s, a[0], a[1]); cmp (*t, e, "tuple(v,v)"); break; } case 3: { Slot<tuple<N,T>> t (s, a[0], a[1], a[2]); cmp (*t, e, "tuple(v,v,v)"); break; } default: { Slot<tuple<N,T>> t (s, a[0], a[1], a[2], a[3]); cmp (*t, e, "tuple(v,v,v,v)"); break; } } } };
template <typename T, size_t N> static void values (Src& s)
{
    auto g = [&]{ return val<T> (s, Any); }; Vals<T,N> va (g), vb (g), zero;
    switch (unsigned k = s.below (10)) {
	case 0: { Slot<tuple<N,T>> t (s); cmp (*t, zero, "tuple()"); break; }
	case 1: { uh::exact<T> x (N); std::copy (va.v, va.v+N, x.begin()); Slot<tuple<N,T>> t (s, (const T*) x.begin()); cmp (*t, va, "tuple(pointer)"); t.check ("tuple(pointer)"); break; }
	case 2: { Slot<tuple<N,T>> a (s); init (*a, va); Slot<tuple<N,T>> t (s, *a); cmp (*t, va, "copy"); t.check ("copy"); break; }
	case 3: case 4: case 5: case 6: Ctors<T,N,(N>=4)>::run (s, k); break;
	case 7: { T l[5] = { g(), g(), g(), g(), g() }; const size_t li = s.below (6), how = s.below (3); Vals<T,N> e; for (size_t i = 0; i < li && i < N; ++i) e.v[i] = l[i]; if (!how) list (l, li, [&](std::initializer_list<T> w) { Slot<tuple<N,T>> u (s, w); cmp (*u, e, "tuple{...}"); u.check ("tuple{...}"); }); else { Slot<tuple<N,T>> t (s); init (*t, va); list (l, li, [&](std::initializer_list<T> w) { if (how == 1) *t = w; else t->assign (w); }); cmp (*t, e, "= {...}"); t.check ("= {...}"); } break; }
	default: break;
    }
    if (s.coin()) { Slot<tuple<N,T>> a (s), b (s); init (*a, va); init (*b, vb); value_common<tuple<N,T>,T,N> (s, a, b, va, vb); }
    else { Slot<array<T,N>> a (s), b (s); init (*a, va); init (*b, vb); T f = g(); if (s.chance (1,4)) { a->fill (f); std::fill (va.v, va.v+N, f); cmp (*a, va, "fill"); } value_common<array<T,N>,T,N> (s, a, b, va, vb); }
}

/// Packed operations, op2 = op2 op op1 and result = op1 op op2.
template <typename T> static T sat (long double v) { return v > (long double) std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : v < (long double) std::numeric_limits<T>::lowest() ? std::numeric_limits<T>::lowest() : T(v); }
template <typename T, size_t N> static void packed_common (Src& s)
{
    unsigned op = s.below (9); static const Dom doms[] = { Add, Add, Mul, Any, Any, Any, Add, Any, Any }; Dom d = doms[op]; bool avg4 = op == 6;
    auto g = [&]{ return avg4 && sizeof(T) >= 4 && isint<T>() ? T(val<T> (s, Add)/4) : val<T> (s, d); }; auto gz = [&]{ return op == 3 ? nz<T> (s, d) : g(); };
    bool three = op >= 7 || s.coin(); if (op == 8) three = s.coin();
    Vals<T,N> va (g), vb (gz), ve; Slot<tuple<N,T>> a (s), b (s), r (s); init (*a, va); init (*b, vb); tuple<N,T>& A (*a); tuple<N,T>& B (*b); tuple<N,T>& R (*r);
    static const char* names[] = { "padd", "psub", "pmul", "pdiv", "pmin", "pmax", "pavg", "padds", "psubs" }; const char* nm = names[op]; note ("%s of %zu elements of %zu bytes", nm, N, sizeof(T));
    for (size_t i = 0; i < N; ++i) { T x = va.v[i], y = vb.v[i]; switch (op) {
	case 0: ve.v[i] = T(x+y); break; case 1: ve.v[i] = T(x-y); break; case 2: ve.v[i] = T(x*y); break; case 3: ve.v[i] = T(x/y); break; case 4: ve.v[i] = std::min (x,y); break; case 5: ve.v[i] = std::max (x,y); break;
	case 6: ve.v[i] = isint<T>() ? T((x+y+1)/2) : T((x+y)/2); break; case 7: ve.v[i] = isint<T>() ? sat<T> ((long double) x + (long double) y) : T(x+y); break; default: ve.v[i] = isint<T>() ? sat<T> ((long double) x - (long double) y) : T(x-y); } }
    if (three) {
	switch (op) { case 0: simd::padd (A,B,R); break; case 1: simd::psub (A,B,R); break; case 2: simd::pmul (A,B,R); break; case 3: simd::pdiv (A,B,R); break; case 4: simd::pmin (A,B,R); break; case 5: simd::pmax (A,B,R); break; case 6: simd::pavg (A,B,R); break; case 7: simd::padds (A,B,R); break; default: simd::psubs (A,B,R); }
	cmp (R, ve, nm); cmp (A, va, "left operand"); cmp (B, vb, "right operand");
    } else {
	switch (op) { case 0: simd::padd (B,A); break; case 1: simd::psub (B,A); break; case 2: simd::pmul (B,A); break; case 3: simd::pdiv (B,A); break; case 4: simd::pmin (B,A); break; case 5: simd::pmax (B,A); break; case 6: simd::pavg (B,A); break; default: simd::psubs (B,A); }
	cmp (A, ve, nm); cmp (B, vb, "operand");
    }
    a.check (nm); b.check (nm); r.check (nm); s.nontrivial (N > 1); label (three ? "three operands" : "two operands");
}
template <typename T, size_t N> static void packed_bits (Src& s)
{
    unsigned op = s.below (5); auto g = [&]{ return op == 3 ? T(val<T> (s, Pos) & 0x3fff) : val<T> (s, Any); }; auto gs = [&]{ return op < 3 ? val<T> (s, Any) : T(s.below (op == 3 && std::is_signed<T>::value ? (sizeof(T) < 4 ? 8 : 16) : sizeof(T)*8)); }; bool three = s.coin();
    Vals<T,N> va (g), vb (gs), ve; Slot<tuple<N,T>> a (s), b (s), r (s); init (*a, va); init (*b, vb); tuple<N,T>& A (*a); tuple<N,T>& B (*b); tuple<N,T>& R (*r); static const char* names[] = { "pand", "por", "pxor", "pshl", "pshr" }; const char* nm = names[op];
    for (size_t i = 0; i < N; ++i) { T x = va.v[i], y = vb.v[i]; switch (op) { case 0: ve.v[i] = T(x&y); break; case 1: ve.v[i] = T(x|y); break; case 2: ve.v[i] = T(x^y); break; case 3: ve.v[i] = T(x<<y); break; default: ve.v[i] = T(x>>y); } }
    if (three) { switch (op) { case 0: simd::pand (A,B,R); break; case 1: simd::por (A,B,R); break; case 2: simd::pxor (A,B,R); break; case 3: simd::pshl (A,B,R); break; default: simd::pshr (A,B,R); } cmp (R, ve, nm); cmp (A, va, "left operand"); }
    else { switch (op) { case 0: simd::pand (B,A); break; case 1: simd::por (B,A); break; case 2: simd::pxor (B,A); break; case 3: simd::pshl (B,A); break; default: simd::pshr (B,A); } cmp (A, ve, nm); }
    cmp (B, vb, "operand"); a.check (nm); b.check (nm); r.check (nm); s.nontrivial (N > 1);
}
template <typename T, size_t N> static void packed_math (Src& s)
{
    unsigned op = s.below (6); auto g = [&]{ T v = val<T> (s, Pos); return v == 0 ? T(1) : op >= 3 ? T(fmod (v, 100)) : v; }; Vals<T,N> va (g); Slot<tuple<N,T>> a (s); init (*a, va); tuple<N,T>& A (*a); static const char* names[] = { "precip", "psqrt", "precipsqrt", "psin", "pcos", "ptan" };
    switch (op) { case 0: simd::precip (A); break; case 1: simd::psqrt (A); break; case 2: simd::precipsqrt (A); break; case 3: simd::psin (A); break; case 4: simd::pcos (A); break; default: simd::ptan (A); } fpu (names[op]); a.check (names[op]);
    for (size_t i = 0; i < N; ++i) { double x = va.v[i], e; T sv; switch (op) { case 0: e = 1/x; sv = simd::srecip (va.v[i]); break; case 1: e = sqrt (x); sv = simd::ssqrt (va.v[i]); break; case 2: e = 1/sqrt (x); sv = simd::srecipsqrt (va.v[i]); break; case 3: e = sin (x); sv = simd::ssin (va.v[i]); break; case 4: e = cos (x); sv = simd::scos (va.v[i]); break; default: e = tan (x); sv = simd::stan (va.v[i]); }
	double tol = (sizeof(T) == 4 ? 1e-6 : 1e-14)*fabs (e); PBT_CHECK (fabs (double(A[i])-e) <= tol && fabs (double(sv)-e) <= tol, "%s: element %zu of %g is %.17g, not %.17g", names[op], i, x, double(A[i]), e); }
    s.nontrivial (N > 1);
}

/// Conversions and mixed operands.
template <typename T1, typename T2, size_t N> static void convert (Src& s)
{
    auto g = [&]{ T1 v = s.coin() ? val<T1> (s, Mul) : T1(s.below (100)); if (!isint<T1>()) { double lim = isint<T2>() ? ldexp (1, int(sizeof(T2)*8)-2) : 1e9; if (double(v) > lim || double(v) < -lim) v = T1(fmod (double(v), lim > 100 ? 100 : lim)); if (v < 0 && std::is_unsigned<T2>::value) v = -v; } return v; };
    Vals<T1,N> va (g); Vals<T2,N> ve, vc; for (size_t i = 0; i < N; ++i) { ve.v[i] = T2(va.v[i]); vc.v[i] = T2(i+1); } Slot<tuple<N,T1>> a (s); init (*a, va); Slot<tuple<N,T2>> r (s, *a); cmp (*r, ve, "conversion"); r.check ("conversion");
    init (*r, vc); *r = *a; cmp (*r, ve, "converting assignment"); r.check ("converting assignment"); cmp (*a, va, "converted operand");
    bool eq = true; for (size_t i = 0; i < N; ++i) eq = eq && va.v[i] == ve.v[i]; PBT_CHECK ((*a == *r) == eq, "comparison of types");
    init (*r, vc); *r += *a; bool ok = true; for (size_t i = 0; i < N; ++i) { auto x = vc.v[i]+va.v[i]; if (!isint<decltype(x)>() && isint<T2>() && (double(x) < (std::is_unsigned<T2>::value ? 0.0 : -double(std::numeric_limits<T2>::max())) || double(x) > double(std::numeric_limits<T2>::max()))) ok = false; } if (ok) { for (size_t i = 0; i < N; ++i) vc.v[i] = T2(vc.v[i]+va.v[i]); cmp (*r, vc, "mixed +="); }
    s.nontrivial (N > 1);
}
template <typename T1, typename T2, size_t N> static void rounding (Src& s)
{
    auto g = [&]{ if (isint<T1>()) return T1(std::is_signed<T1>::value && s.coin() ? -int64_t(s.raw() >> (33+s.below (30))) : s.raw() >> (33+s.below (30))); double lim = !isint<T2>() || sizeof(T2) == 8 ? 1e15 : std::is_unsigned<T2>::value ? 4294967040.0 : 2147483000.0; if (sizeof(T2) < 4) lim = std::is_unsigned<T2>::value ? ldexp (1, 8*sizeof(T2))-1 : ldexp (1, 8*sizeof(T2)-1)-1; double v; switch (s.below (4)) { case 0: v = double(s.below (200))/2; break; case 1: v = double(s.raw() >> 11)/ldexp (1, 53)*lim; break; case 2: v = double(s.below (1000000))/256; break; default: v = double(s.below (20))+0.5; } if (std::is_signed<T2>::value && s.coin()) v = -v; if (v > lim || v < -lim) v = fmod (v, lim); return T1(v); };
    Vals<T1,N> va (g); Vals<T2,N> ve; for (size_t i = 0; i < N; ++i) { T1 v = va.v[i]; ve.v[i] = isint<T1>() ? T2(v) : T2(nearbyint (double(v))); } Slot<tuple<N,T1>> a (s); init (*a, va); Slot<tuple<N,T2>> r (s);
    simd::pround (*a, *r); cmp (*r, ve, "pround"); r.check ("pround"); cmp (*a, va, "rounded operand"); if (!isint<T1>() && isint<T2>() && std::is_signed<T2>::value && sizeof(T2) == 4) PBT_CHECK (simd::sround (va.v[0]) == int32_t(ve.v[0]), "sround is %d", int(simd::sround (va.v[0])));
    s.nontrivial (N > 1);
}

template <size_t NX, size_t NY, typename T> struct MM { T v[NY][NX]; };
template <size_t NX, size_t NY, typename T> static void mcmp (const matrix<NX,NY,T>& m, const MM<NX,NY,T>& e, const char* op, double tol = 0) { for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) PBT_CHECK (m[y][x] == e.v[y][x] || (tol && fabs (double(m[y][x])-double(e.v[y][x])) <= tol), "%s: row %zu column %zu is %s, not %s", op, y, x, str<T> (m[y][x]).c_str(), str<T> (e.v[y][x]).c_str()); fpu (op); }
template <size_t NX, size_t NY, typename T> static void mfill (Src& s, matrix<NX,NY,T>& m, MM<NX,NY,T>& e, bool exact) { for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) m[y][x] = e.v[y][x] = exact ? T(int(s.below (41))-(std::is_unsigned<T>::value ? 0 : 20)) : T(int(s.below (2000000))-1000000)/T(1024*3); }
template <size_t N, typename T> static void square (Src& s, const MM<N,N,T>& e, matrix<N,N,T>& m, std::true_type)
{
    MM<N,N,T> t (e); if (s.coin()) { Slot<matrix<N,N,T>> i (s); for (auto& x : *i) x = T(7); ustl::load_identity (*i); i.check ("load_identity"); for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < N; ++x) t.v[y][x] = T(x == y); mcmp (*i, t, "load_identity"); }
    for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < N; ++x) t.v[y][x] = e.v[x][y];
    ustl::transpose (m); mcmp (m, t, "transpose"); ustl::transpose (m); mcmp (m, e, "transpose twice");
}
template <size_t NX, size_t NY, typename T> static void square (Src&, const MM<NX,NY,T>&, matrix<NX,NY,T>&, std::false_type) {}
template <size_t NX, size_t NY, typename T> static void matrices (Src& s)
{
    const bool exact = isint<T>() || s.chance (2,3); MM<NX,NY,T> ea; MM<NY,NX,T> eb; Slot<matrix<NX,NY,T>> a (s); Slot<matrix<NY,NX,T>> b (s); mfill (s, *a, ea, exact); mfill (s, *b, eb, exact); const double tol = exact ? 0 : (sizeof(T) == 4 ? 2e6*1e-5 : 1e-6);
    PBT_CHECK (a->columns() == NX && a->rows() == NY && a->size() == NX*NY, "size is %zu by %zu", a->columns(), a->rows());
    Slot<matrix<NX,NY,T>> c (s, *a); mcmp (*c, ea, "copy"); c.check ("copy"); { Slot<matrix<NX,NY,double>> dm (s, *a); for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) PBT_CHECK ((*dm)[y][x] == double(ea.v[y][x]), "converted matrix"); *c = *dm; mcmp (*c, ea, "converting assignment"); }
    MM<NY,NY,T> ep; for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NY; ++x) { T d (0); for (size_t k = 0; k < NX; ++k) d += ea.v[y][k]*eb.v[k][x]; ep.v[y][x] = d; }
    Slot<matrix<NY,NY,T>> p (s, *a * *b); mcmp (*p, ep, "product", tol); mcmp (*a, ea, "left factor"); mcmp (*b, eb, "right factor"); p.check ("product");
    size_t ry = s.below (NY), cx = s.below (NX); auto row = a->row (ry); auto col = a->column (cx); for (size_t x = 0; x < NX; ++x) PBT_CHECK (row[x] == ea.v[ry][x], "row"); for (size_t y = 0; y < NY; ++y) PBT_CHECK (col[y] == ea.v[y][cx], "column");
    Slot<tuple<NY,T>> t (s); Vals<T,NY> tv; for (size_t y = 0; y < NY; ++y) (*t)[y] = tv.v[y] = exact ? T(s.below (41)) : T(s.below (3000))/T(7); Slot<tuple<NX,T>> r (s, *t * *a); r.check ("transform");
    for (size_t x = 0; x < NX; ++x) { T d (0); for (size_t y = 0; y < NY; ++y) d += tv.v[y]*ea.v[y][x]; PBT_CHECK ((*r)[x] == d || (tol && fabs (double((*r)[x])-double(d)) <= tol), "transform: element %zu is %s, not %s", x, str<T> ((*r)[x]).c_str(), str<T> (d).c_str()); }
    unsigned op = s.below (4); T v = T(1+s.below (20)); MM<NX,NY,T> es (ea); for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) { T& q (es.v[y][x]); q = op == 0 ? T(q+v) : op == 1 ? T(q-v) : op == 2 ? T(q*v) : T(q/v); }
    if (s.coin()) { switch (op) { case 0: mcmp (*a + v, es, "matrix + v"); break; case 1: mcmp (*a - v, es, "matrix - v"); break; case 2: { const matrix<NX,NY,T> q (a->operator* (v)); mcmp (q, es, "matrix * v"); break; } default: mcmp (*a / v, es, "matrix / v"); } mcmp (*a, ea, "operand"); }
    else { switch (op) { case 0: *c += v; break; case 1: *c -= v; break; case 2: *c *= v; break; default: *c /= v; } mcmp (*c, es, "matrix op= v"); c.check ("matrix op= v"); *c = *a; mcmp (*c, ea, "assignment"); c.check ("assignment"); }
    square (s, ea, *a, std::integral_constant<bool,NX==NY>()); a.check ("transpose"); b.check ("matrix operations"); s.nontrivial (NX > 1 && NY > 1); label (exact ? "exact products" : "rounded products");
}

template <template <typename,size_t> class F> struct All;
#define DISP(name, CALL, ...) static void name (Src& s) { static void (* const f[])(Src&) = { __VA_ARGS__ }; f[s.below (sizeof f/sizeof *f)] (s); }
#define NS(F,T) F<T,1>, F<T,2>, F<T,3>, F<T,4>, F<T,7>, F<T,8>, F<T,16>
#define INTS(F) NS(F,int8_t), NS(F,uint8_t), NS(F,int16_t), NS(F,uint16_t), NS(F,int32_t), NS(F,uint32_t), NS(F,int64_t), NS(F,uint64_t)
#define FLTS(F) NS(F,float), NS(F,double)
#define BIG(F) F<uint8_t,300>, F<int32_t,257>, F<float,300>
template <typename T, size_t N> static void tarith (Src& s) { arith<tuple<N,T>,T,N> (s); }
template <typename T, size_t N> static void aarith (Src& s) { arith<array<T,N>,T,N> (s); }
DISP (d_tarith, , INTS(tarith), FLTS(tarith), BIG(tarith))
DISP (d_aarith, , INTS(aarith), FLTS(aarith), BIG(aarith))
DISP (d_alist, , NS(arraylist,int8_t), NS(arraylist,int32_t), NS(arraylist,double))
DISP (d_values, , INTS(values), FLTS(values), BIG(values))
DISP (d_packed, , INTS(packed_common), FLTS(packed_common), BIG(packed_common))
DISP (d_bits, , INTS(packed_bits))
DISP (d_math, , FLTS(packed_math))
#define CV(T1,T2) convert<T1,T2,2>, convert<T1,T2,4>, convert<T1,T2,5>
DISP (d_convert, , CV(int16_t,uint16_t), CV(uint16_t,int16_t), CV(int8_t,int32_t), CV(int32_t,int8_t), CV(int32_t,float), CV(float,int32_t), CV(float,double), CV(double,float), CV(uint8_t,int16_t), CV(int32_t,uint32_t), CV(int64_t,int16_t), CV(int32_t,double))
#define RD(T1,T2) rounding<T1,T2,2>, rounding<T1,T2,4>, rounding<T1,T2,5>
DISP (d_round, , RD(float,int32_t), RD(float,int32_t), RD(float,uint32_t), RD(double,int32_t), RD(double,int64_t), RD(int32_t,float), RD(int32_t,double), RD(float,int16_t), RD(double,uint8_t))
DISP (d_matrix, , (matrices<4,4,float>), (matrices<4,4,float>), (matrices<4,4,int32_t>), (matrices<4,4,uint32_t>), (matrices<4,4,double>), (matrices<3,3,float>), (matrices<2,2,int>), (matrices<3,2,int>), (matrices<2,3,float>), (matrices<4,3,float>), (matrices<3,4,float>), (matrices<4,2,int>), (matrices<1,4,int>), (matrices<4,1,float>), (matrices<5,5,double>), (matrices<1,1,int>), (matrices<8,2,int>))
PBT_TEST (tuple_arithmetic, 3) { d_tarith (s); }
PBT_TEST (array_arithmetic, 2) { d_aarith (s); }
PBT_TEST (array_lists, 1) { d_alist (s); }
PBT_TEST (tuple_values, 3) { d_values (s); }
PBT_TEST (packed, 4) { d_packed (s); }
PBT_TEST (packed_bits, 2) { d_bits (s); }
PBT_TEST (packed_math, 1) { d_math (s); }
PBT_TEST (conversion, 2) { d_convert (s); }
PBT_TEST (rounding, 2) { d_round (s); }
PBT_TEST (matrix_algebra, 4) { d_matrix (s); }
