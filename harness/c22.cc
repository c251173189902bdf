// C22: durations, time points and ratios compute exactly, in every unit.
#include <limits>
#include <type_traits>
#include <chrono>
#include <ratio>
#include "uh.h"

namespace uc = ustl::chrono;
typedef __int128 big;
static std::string bs (big v) { bool n = v < 0; if (n) v = -v; std::string r; do { r.insert (r.begin(), char('0'+int(v%10))); v /= 10; } while (v); return n ? "-"+r : r; }
static inline std::string text (const ustl::string& s) { return std::string (s.c_str(), s.size()); }
static inline big babs (big v) { return v < 0 ? -v : v; }
static big bgcd (big a, big b) { while (b) { big t = a%b; a = b; b = t; } return babs (a); }
static const big E9 = 1000000000;

//{{{ Ratios: a table of compile-time programs

constexpr uint64_t mix (uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z^(z>>30))*0xbf58476d1ce4e5b9ull; z = (z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
constexpr intmax_t magnitude (uint64_t r)
{
    switch (r % 7) {
	case 0: return intmax_t((r >> 8) % 5);
	case 1: case 2: return intmax_t((r >> 8) % 60);
	case 3: return intmax_t((r >> 8) % 100000);
	case 4: { intmax_t p = 1; for (unsigned i = 0, n = (r>>8) % 9; i < n; ++i) p *= 10; return p; }
	case 5: return intmax_t(1) << ((r >> 8) % 30);
	default: return intmax_t((r >> 8) % 1000000000);
    }
}
constexpr intmax_t factor (uint64_t r) { return r % 3 ? 1 : 1+intmax_t((r >> 8) % (r % 2 ? 1000000000 : 50)); }
constexpr intmax_t numer (uint64_t k) { return magnitude (mix (k)) * factor (mix (k+1)) * (mix (k+2) % 3 ? 1 : -1); }
constexpr intmax_t denom (uint64_t k) { return (magnitude (mix (k+3)) ? magnitude (mix (k+3)) : 1) * factor (mix (k+1)) * (mix (k+4) % 4 ? 1 : -1); }

constexpr intmax_t small (uint64_t k, intmax_t lo, intmax_t hi) { return lo + intmax_t(mix (k) % uint64_t(hi-lo+1)); }

struct RatioRow {
    intmax_t n1,d1, n2,d2;			///< As written.
    intmax_t r1[2], r2[2], t1[2];		///< num, den
    intmax_t add[2], sub[2], mul[2], div[2], addt[2];
    bool eq, ne, lt, le, gt, ge, canDiv, rewrite;
    std::string s1;
};
template <typename A, typename B, bool NZ> struct Div { static void set (RatioRow& r) { typedef ustl::ratio_divide<A,B> q; r.div[0] = q::num; r.div[1] = q::den; } };
template <typename A, typename B> struct Div<A,B,false> { static void set (RatioRow&) {} };

template <uint64_t K> static void row (RatioRow& r)
{
    // every third pair is of small fractions, which are often equal, opposite, or a step apart
    constexpr bool S = K%3 == 1; constexpr intmax_t N1 = S ? small (K*64,-6,6) : numer (K*64), D1 = S ? small (K*64+1,1,6) : denom (K*64), N2 = S ? small (K*64+2,-6,6) : numer (K*64+16), D2 = S ? small (K*64+3,1,6) : denom (K*64+16);
    typedef ustl::ratio<N1,D1> A; typedef typename std::conditional<(K%11 == 0), ustl::ratio<A::num+1,A::den>, ustl::ratio<N2,D2>>::type B0;
    typedef typename std::conditional<(K%13 == 0), A, B0>::type B;
    r.n1 = N1; r.d1 = D1; r.n2 = K%13 == 0 ? N1 : K%11 == 0 ? A::num+1 : N2; r.d2 = K%13 == 0 ? D1 : K%11 == 0 ? A::den : D2;
    r.r1[0] = A::num; r.r1[1] = A::den; r.r2[0] = B::num; r.r2[1] = B::den; r.t1[0] = A::type::num; r.t1[1] = A::type::den;
    r.rewrite = std::is_same<typename A::type, ustl::ratio<A::num,A::den>>::value && std::is_same<typename A::type::type, typename A::type>::value;
    typedef ustl::ratio_add<A,B> add; typedef ustl::ratio_subtract<A,B> sub; typedef ustl::ratio_multiply<A,B> mul;
    r.add[0] = add::num; r.add[1] = add::den; r.sub[0] = sub::num; r.sub[1] = sub::den; r.mul[0] = mul::num; r.mul[1] = mul::den;
    r.addt[0] = add::type::num; r.addt[1] = add::type::den;
    r.canDiv = B::num != 0; Div<A,B,B::num != 0>::set (r);
    r.eq = ustl::ratio_equal<A,B>::value; r.ne = ustl::ratio_not_equal<A,B>::value; r.lt = ustl::ratio_less<A,B>::value;
    r.le = ustl::ratio_less_equal<A,B>::value; r.gt = ustl::ratio_greater<A,B>::value; r.ge = ustl::ratio_greater_equal<A,B>::value;
    ustl::ostringstream os; A().text_write (os); r.s1 = text (os.str());
}
static std::vector<RatioRow> rows;
template <uint64_t K> struct Rows { static void make (void) { Rows<K-1>::make(); rows.push_back (RatioRow()); row<K> (rows.back()); } };
template <> struct Rows<0> { static void make (void) {} };

static void lowest (const char* what, const RatioRow& r, const intmax_t (&q)[2], big n, big d)
{
    if (d < 0) { n = -n; d = -d; } big g = bgcd (n, d); n /= g; d /= g;
    PBT_CHECK (q[0] == n && q[1] == d, "%s of %jd/%jd and %jd/%jd is %jd/%jd, not %s/%s", what, r.n1, r.d1, r.n2, r.d2, q[0], q[1], bs(n).c_str(), bs(d).c_str());
}
PBT_TEST (ratios, 1)
{
    if (rows.empty()) Rows<500>::make();
    const RatioRow& r (rows[s.below (rows.size())]); note ("%jd/%jd, %jd/%jd", r.n1, r.d1, r.n2, r.d2);
    const big n1 = r.n1, d1 = r.d1, n2 = r.n2, d2 = r.d2;
    lowest ("first", r, r.r1, n1, d1); lowest ("second", r, r.r2, n2, d2); lowest ("type of the first", r, r.t1, n1, d1); PBT_CHECK (r.rewrite, "type is not the ratio in lowest terms");
    // the terms are reduced first, as the products of unreduced ones may not fit
    const big a = r.r1[0], b = r.r1[1], c = r.r2[0], d = r.r2[1];
    lowest ("sum", r, r.add, a*d+c*b, b*d); lowest ("type of the sum", r, r.addt, a*d+c*b, b*d); lowest ("difference", r, r.sub, a*d-c*b, b*d); lowest ("product", r, r.mul, a*c, b*d);
    if (r.canDiv) lowest ("quotient", r, r.div, a*d, b*c);
    const big x = a*d, y = c*b;
    PBT_CHECK (r.eq == (x == y) && r.ne == (x != y) && r.lt == (x < y) && r.le == (x <= y) && r.gt == (x > y) && r.ge == (x >= y), "comparisons of %jd/%jd with %jd/%jd are wrong", r.n1, r.d1, r.n2, r.d2);
    PBT_CHECK (r.s1 == bs(a)+"/"+bs(b), "%jd/%jd is printed as %s", r.n1, r.d1, r.s1.c_str());
    if (babs(n1) > 1 && babs(n2) > 1) s.nontrivial();
}
/// The named ratios and units, against the numbers that define them
template <typename U, typename E> static void named (const char* name) { PBT_CHECK (intmax_t(U::num) == intmax_t(E::num) && intmax_t(U::den) == intmax_t(E::den), "%s is %jd/%jd, not %jd/%jd", name, intmax_t(U::num), intmax_t(U::den), intmax_t(E::num), intmax_t(E::den)); }
PBT_TEST (names, 0.02)
{
#define SI(n) named<ustl::n,std::n> (#n);
    switch (s.below (2)) {
	case 0: SI(exa) SI(peta) SI(tera) SI(giga) SI(mega) SI(kilo) SI(hecto) SI(deca) SI(deci) SI(centi) SI(milli) SI(micro) SI(nano) SI(pico) SI(femto) SI(atto) label ("prefixes"); break;
	default:
#define UN(u,n,d) named<uc::u::period,std::ratio<n,d>> (#u); PBT_CHECK ((std::is_same<uc::u::rep,intmax_t>::value), "the counts of " #u " are not intmax_t");
	UN(nanoseconds,1,1000000000) UN(microseconds,1,1000000) UN(milliseconds,1,1000) UN(seconds,1,1) UN(minutes,60,1) UN(hours,3600,1) UN(days,86400,1) UN(weeks,604800,1) UN(months,2629800,1) UN(years,31557600,1) UN(centuries,3155760000,1) UN(millenia,31557600000,1) label ("units"); break;
    }
    const int64_t k = int64_t(s.bits64() >> 48); PBT_CHECK (uc::duration_cast<uc::seconds> (uc::weeks (k)).count() == k*604800, "%ld weeks", long(k)); s.nontrivial (k > 1);
}
//}}}
//{{{ Conversions between units

template <typename P> struct Per { static big num (void) { return P::num; } static big den (void) { return P::den; } };
template <typename R> struct RepName; template <> struct RepName<int64_t> { static const char* n (void) { return "int64"; } }; template <> struct RepName<int32_t> { static const char* n (void) { return "int32"; } };
template <> struct RepName<int16_t> { static const char* n (void) { return "int16"; } }; template <> struct RepName<uint32_t> { static const char* n (void) { return "uint32"; } };
template <> struct RepName<double> { static const char* n (void) { return "double"; } }; template <> struct RepName<float> { static const char* n (void) { return "float"; } };

template <typename R> static bool fits (big v) { return v >= big(std::numeric_limits<R>::lowest()) && v <= big(std::numeric_limits<R>::max()); }
/// A count up to lim in magnitude, often near a multiple of unit.
static big genCount (Src& s, big lim, big unit)
{
    if (lim < 0) lim = 0;
    uint64_t m = lim > big(INT64_MAX) ? uint64_t(INT64_MAX) : uint64_t(lim); big v;
    switch (s.pick ({2,2,3,1})) {
	case 0: v = s.below (m < 200 ? m+1 : 200); break;
	case 1: v = m ? s.bits64() % m : 0; if (s.coin()) v >>= s.below (50); break;
	case 2: { big q = unit > 0 && unit <= big(m) ? unit : 1; big k = big(m)/q; v = q * big(s.below (uint64_t(k > 1000000 ? 1000000 : k)+1)) + big(s.below (3)) - 1; break; }
	default: v = big(m) - big(s.below (3)); break;
    }
    if (s.chance (1,3)) v = -v;
    if (babs(v) > lim) v = v < 0 ? -lim : lim;
    return v;
}
constexpr big cgcd (big a, big b) { return b ? cgcd (b, a%b) : a; }
/// Conversions whose ratio does not fit into 64 bits do not compile.
template <typename FP, typename TP> constexpr bool convertible (void)
    { return big(FP::num)*TP::den/cgcd (big(FP::num)*TP::den, big(FP::den)*TP::num) <= INT64_MAX && big(FP::den)*TP::num/cgcd (big(FP::num)*TP::den, big(FP::den)*TP::num) <= INT64_MAX; }
template <typename FR, typename FP, typename TR, typename TP, bool ok = convertible<FP,TP>()> struct CastInt { static void run (Src& s, const char*, const char*) { s.discard(); } };
template <typename FR, typename FP, typename TR, typename TP> struct CastInt<FR,FP,TR,TP,true> {
    static void run (Src& s, const char* fn, const char* tn)
    {
	// count*conv.num must fit into 64 bits, and the result into its type
	big cn = Per<FP>::num()*Per<TP>::den(), cd = Per<FP>::den()*Per<TP>::num(), g = bgcd (cn, cd); cn /= g; cd /= g;
	big lim = big(INT64_MAX)/cn; { big l2 = big(std::numeric_limits<TR>::max())*cd/cn; if (l2 < lim) lim = l2; } if (big(std::numeric_limits<FR>::max()) < lim) lim = big(std::numeric_limits<FR>::max());
	big c = genCount (s, lim, cd); if (!std::numeric_limits<FR>::is_signed || !std::numeric_limits<TR>::is_signed) c = babs (c);
	typedef uc::duration<FR,FP> F; typedef uc::duration<TR,TP> T;
	const F f {FR(c)}; const big e = c*cn/cd; note ("%s %s (%s) to %s (%s)", bs(c).c_str(), fn, RepName<FR>::n(), tn, RepName<TR>::n());
	const T t (uc::duration_cast<T> (f));
	PBT_CHECK (big(t.count()) == e, "%s %s (%s) are %s %s (%s), not %s", bs(c).c_str(), fn, RepName<FR>::n(), bs(t.count()).c_str(), tn, RepName<TR>::n(), bs(e).c_str());
	struct clk {}; uc::time_point<clk,F> fp (f); PBT_CHECK (big(uc::time_point_cast<T> (fp).time_since_epoch().count()) == e, "time point cast of %s %s to %s", bs(c).c_str(), fn, tn);
	// Floating point sources and targets
	typedef uc::duration<double,TP> TD; TD td (f); long double x = (long double)(c)*(long double)cn/(long double)cd; double d = td.count();
	PBT_CHECK (fabsl (d-x) <= 1e-14L*fabsl (x)+1e-300L, "%s %s are %.17g floating point %s, not %.17Lg", bs(c).c_str(), fn, d, tn, x);
	double fc = double(c)/double(1 << s.below (12)); uc::duration<double,FP> fd (fc); T ft (uc::duration_cast<T> (fd)); long double y = (long double)(fc)*(long double)cn/(long double)cd;
	if ((std::numeric_limits<TR>::is_signed || y >= 0) && fabsl (y) < (long double)(std::numeric_limits<TR>::max()) && fabsl (y*(long double)cd) < 9e18L) PBT_CHECK (fabsl (y - (long double)(ft.count())) < 1+1e-14L*fabsl (y) && (fabsl (y-roundl(y)) < 1e-9L*fabsl(y)+1e-12L || (long double)(ft.count()) == truncl (y)), "%.17g %s are %s %s (%s)", fc, fn, bs(ft.count()).c_str(), tn, RepName<TR>::n());
	if (babs (c) > 1 && cn != cd) s.nontrivial();
    }
};
typedef void (*CastFn)(Src&, const char*, const char*);
struct Unit { const char* name; };
typedef ustl::ratio<1,100000000> shake_p; typedef ustl::ratio<12096,10000> mfn_p; typedef ustl::ratio<7,10> odd_p; typedef ustl::ratio<1,24> frame_p; typedef ustl::ratio<1001,30000> ntsc_p;
template <int I> struct U; 
#define UNIT(i,t,nm) template <> struct U<i> { typedef t P; static const char* name (void) { return nm; } };
UNIT (0,ustl::nano,"ns") UNIT (1,ustl::micro,"us") UNIT (2,ustl::milli,"ms") UNIT (3,ustl::ratio<1>,"s") UNIT (4,uc::minutes::period,"min") UNIT (5,uc::hours::period,"hours")
UNIT (6,uc::days::period,"days") UNIT (7,uc::weeks::period,"weeks") UNIT (8,uc::years::period,"years") UNIT (9,uc::months::period,"months") UNIT (10,uc::centuries::period,"centuries") UNIT (11,uc::millenia::period,"millenia")
UNIT (12,shake_p,"shakes") UNIT (13,ustl::centi,"centi") UNIT (14,mfn_p,"microfortnights") UNIT (15,odd_p,"7/10 s") UNIT (16,frame_p,"frames") UNIT (17,ntsc_p,"ntsc")
enum { NU = 18 };
template <typename FR, typename TR, int I> struct CastTab {
    template <int J, bool more> struct In { static void find (int j, Src& s) { if (j == J) CastInt<FR,typename U<I>::P,TR,typename U<J>::P>::run (s, U<I>::name(), U<J>::name()); else In<J+1,(J+2 < NU)>::find (j, s); } };
    template <int J> struct In<J,false> { static void find (int j, Src& s) { CastInt<FR,typename U<I>::P,TR,typename U<J>::P>::run (s, U<I>::name(), U<J>::name()); } };
    static void find (int i, int j, Src& s) { if (i == I) In<0,true>::find (j, s); else CastTab<FR,TR,I+1>::find (i, j, s); }
};
template <typename FR, typename TR> struct CastTab<FR,TR,NU> { static void find (int, int, Src&) {} };
PBT_TEST (casts, 3)
{
    int i = int(s.below (NU)), j = int(s.below (NU));
    CastTab<int64_t,int64_t,0>::find (i, j, s);
}
PBT_TEST (cast_reps, 1)
{
    switch (s.below (8)) {
	case 0: return CastInt<int32_t,ustl::milli,int16_t,ustl::ratio<1>>::run (s, "ms", "s"); case 1: return CastInt<int64_t,ustl::nano,uint32_t,ustl::milli>::run (s, "ns", "ms");
	case 2: return CastInt<uint32_t,ustl::ratio<1>,int64_t,ustl::nano>::run (s, "s", "ns"); case 3: return CastInt<int16_t,uc::hours::period,int32_t,ustl::ratio<1>>::run (s, "hours", "s");
	case 4: return CastInt<uint32_t,ustl::micro,int16_t,uc::minutes::period>::run (s, "us", "min"); case 5: return CastInt<int32_t,frame_p,int32_t,ntsc_p>::run (s, "frames", "ntsc");
	case 6: return CastInt<uint32_t,ustl::ratio<1>,uint32_t,ustl::centi>::run (s, "s", "centi"); default: return CastInt<int16_t,ustl::milli,int16_t,ustl::centi>::run (s, "ms", "centi");
    }
}

/// Comparison and arithmetic of different units, C the coarser.
template <typename C, typename F> static void mixed (Src& s, const char* cn, const char* fn)
{
    typedef typename C::rep CR; typedef typename F::rep FR; typedef typename C::period CP; typedef typename F::period FP;
    const big k = Per<CP>::num()*Per<FP>::den()/(Per<CP>::den()*Per<FP>::num());
    big lim = big(std::numeric_limits<FR>::max())/k/2-1; if (big(std::numeric_limits<CR>::max()) < lim) lim = big(std::numeric_limits<CR>::max());
    const big c = genCount (s, lim, 1); big f = s.chance (2,3) ? c*k+big(s.below (3))-1 : genCount (s, lim*k, k); const C cd {CR(c)}; const F fd {FR(f)};
    note ("%s %s and %s %s", bs(c).c_str(), cn, bs(f).c_str(), fn);
    PBT_CHECK ((cd == fd) == (c*k == f) && (fd == cd) == (c*k == f), "%s %s == %s %s is wrong", bs(c).c_str(), cn, bs(f).c_str(), fn);
    PBT_CHECK ((cd < fd) == (c*k < f) && (fd < cd) == (f < c*k), "%s %s < %s %s is wrong (%d %d)", bs(c).c_str(), cn, bs(f).c_str(), fn, cd < fd, fd < cd);
    F conv (cd); PBT_CHECK (big(conv.count()) == c*k, "%s %s are %s %s", bs(c).c_str(), cn, bs(conv.count()).c_str(), fn);
    F sum (fd); sum += cd; PBT_CHECK (big(sum.count()) == f+c*k && big((fd+cd).count()) == f+c*k, "%s %s + %s %s is %s", bs(f).c_str(), fn, bs(c).c_str(), cn, bs(sum.count()).c_str());
    F dif (fd); dif -= cd; PBT_CHECK (big(dif.count()) == f-c*k && big((fd-cd).count()) == f-c*k, "%s %s - %s %s is %s", bs(f).c_str(), fn, bs(c).c_str(), cn, bs(dif.count()).c_str());
    struct clk {}; typedef uc::time_point<clk,C> TC; typedef uc::time_point<clk,F> TF; TC tc (cd); TF tf (fd), cv (tc);
    PBT_CHECK (big(cv.time_since_epoch().count()) == c*k, "converted time point is %s", bs(cv.time_since_epoch().count()).c_str());
    PBT_CHECK ((tc == tf) == (c*k == f) && (tc < tf) == (c*k < f) && (tf < tc) == (f < c*k), "comparison of time points");
    PBT_CHECK (big((tf-tc).count()) == f-c*k && big((tf+F(cd)).time_since_epoch().count()) == f+c*k && big((tf-F(cd)).time_since_epoch().count()) == f-c*k, "arithmetic of time points");
    tf += cd; PBT_CHECK (big(tf.time_since_epoch().count()) == f+c*k, "+= of a time point"); tf -= cd; PBT_CHECK (big(tf.time_since_epoch().count()) == f, "-= of a time point");
    if (c && k > 1) s.nontrivial();
}
PBT_TEST (mixed_units, 2)
{
    typedef uc::duration<int,ustl::centi> jiffies; typedef uc::duration<int64_t,frame_p> frames; typedef uc::duration<int32_t,ustl::milli> ims; typedef uc::duration<int32_t> is;
    switch (s.below (16)) {
	case 0: return mixed<uc::seconds,uc::milliseconds> (s, "s", "ms"); case 1: return mixed<uc::seconds,uc::nanoseconds> (s, "s", "ns"); case 2: return mixed<uc::weeks,uc::days> (s, "weeks", "days");
	case 3: return mixed<uc::hours,uc::microseconds> (s, "hours", "us"); case 4: return mixed<uc::millenia,uc::centuries> (s, "millenia", "centuries"); case 5: return mixed<uc::years,uc::months> (s, "years", "months");
	case 6: return mixed<uc::minutes,uc::seconds> (s, "min", "s"); case 7: return mixed<uc::centuries,uc::seconds> (s, "centuries", "s"); case 8: return mixed<uc::seconds,jiffies> (s, "s", "jiffies");
	case 9: return mixed<uc::seconds,frames> (s, "s", "frames"); case 10: return mixed<uc::microseconds,uc::nanoseconds> (s, "us", "ns"); case 11: return mixed<uc::days,uc::hours> (s, "days", "hours");
	case 12: return mixed<is,uc::milliseconds> (s, "s (int)", "ms"); case 13: return mixed<uc::seconds,ims> (s, "s", "ms (int)"); case 14: return mixed<uc::seconds,uc::seconds> (s, "s", "s"); default: return mixed<uc::months,uc::minutes> (s, "months", "min");
    }
}
//}}}
//{{{ Arithmetic of one unit

template <typename D> struct Suffix { static const char* get (void) { return ""; } };
#define SUF(d,t) template <> struct Suffix<uc::d> { static const char* get (void) { return t; } };
SUF (nanoseconds,"_ns") SUF (microseconds,"_us") SUF (milliseconds,"_ms") SUF (seconds,"_s") SUF (minutes,"_min") SUF (hours,"_hours") SUF (days,"_days") SUF (weeks,"_weeks") SUF (years,"_years") SUF (months,"_months") SUF (centuries,"_centuries") SUF (millenia,"_millenia")

template <typename D> static void history (Src& s)
{
    typedef typename D::rep R; const big lo = big(std::numeric_limits<R>::lowest()), hi = big(std::numeric_limits<R>::max());
    auto gen = [&s,lo,hi](void) { big v = genCount (s, hi, 1000); return v < lo ? -v : v; };
    struct clk {}; typedef uc::time_point<clk,D> T;
    big m = gen(); D d {R(m)}; T t (d); size_t n = 1+s.below (24); unsigned ar = 0;
    for (size_t k = 0; k < n; ++k) {
	s.step(); std::string when; big v = gen(), e = m; D o {R(v)};
	switch (s.pick ({3,3,3,3,2,2,2,2,2,1,1,1,1,1,1})) {
	    case 0: e = m+v; if (!fits<R> (e)) continue; when = "+= "+bs(v); d += o; t += o; ++ar; break;
	    case 1: e = m-v; if (!fits<R> (e)) continue; when = "-= "+bs(v); d -= o; t -= o; ++ar; break;
	    case 2: v = genCount (s, m ? hi/(babs(m)+1) : hi, 1); if (v < lo) v = -v; e = m*v; if (!fits<R> (e)) continue; when = "*= "+bs(v); d *= R(v); t = T (d); ++ar; break;
	    case 3: if (s.coin()) v = big(1+s.below (60)); if (!v || (v == -1 && m == lo)) continue; e = m/v; when = "/= "+bs(v); d /= R(v); t = T (d); ++ar; break;
	    case 4: if (!v || (v == -1 && m == lo)) continue; e = m%v; when = "%= "+bs(v); if (s.coin()) d %= R(v); else d %= o; t = T (d); ++ar; break;
	    case 5: if (m == hi) continue; e = m+1; when = "++"; if (s.coin()) { D& r (++d); PBT_CHECK (&r == &d, "++ returns another"); } else { D b (d++); PBT_CHECK (big(b.count()) == m, "postfix ++ gave %s", bs(b.count()).c_str()); } t = T (d); break;
	    case 6: if (m == lo) continue; e = m-1; when = "--"; if (s.coin()) --d; else { D b (d--); PBT_CHECK (big(b.count()) == m, "postfix -- gave %s", bs(b.count()).c_str()); } t = T (d); break;
	    case 7: e = m+v; if (!fits<R> (e)) continue; when = "+ "+bs(v); d = d+o; t = t+o; ++ar; break;
	    case 8: e = m-v; if (!fits<R> (e)) continue; when = "- "+bs(v); d = d-o; t = t-o; ++ar; break;
	    case 9: e = -m; if (!fits<R> (e)) continue; when = "unary -"; d = -d; t = T (d); break;
	    case 10: when = "unary +"; d = +d; break;
	    case 11: { when = "write and read"; ustl::memblock b (d.stream_size()+t.stream_size()); PBT_CHECK (d.stream_size() == sizeof(R), "stream size %zu", size_t(d.stream_size())); { ustl::ostream os (b.data(), b.size()); d.write (os); t.write (os); } D d2; T t2; ustl::istream is (b.data(), b.size()); d2.read (is); t2.read (is); d = d2; t = t2; break; }
	    case 12: e = v; when = "= "+bs(v); d = o; t = T (o); break;
	    case 13: { T t2 (o); big x = m-v; if (!fits<R> (x)) continue; when = "time point difference"; PBT_CHECK (big((t-t2).count()) == x, "difference is %s, not %s", bs((t-t2).count()).c_str(), bs(x).c_str()); break; }
	    default: when = "limits"; switch (s.below (3)) { case 0: d = D::min(); t = T::min(); e = lo; break; case 1: d = D::max(); t = T::max(); e = hi; break; default: d = D::zero(); t = T::zero(); e = 0; } break;
	}
	note ("%s", when.c_str()); m = e;
	PBT_CHECK (big(d.count()) == m, "%s: count is %s, not %s", when.c_str(), bs(d.count()).c_str(), bs(m).c_str());
	PBT_CHECK (big(t.time_since_epoch().count()) == m, "%s: time point is %s, not %s", when.c_str(), bs(t.time_since_epoch().count()).c_str(), bs(m).c_str());
	D p {R(v)}; T tp (p);
	PBT_CHECK ((d == p) == (m == v) && (d != p) == (m != v) && (d < p) == (m < v) && (d > p) == (m > v) && (d <= p) == (m <= v) && (d >= p) == (m >= v), "comparison of %s with %s", bs(m).c_str(), bs(v).c_str());
	PBT_CHECK ((t == tp) == (m == v) && (t < tp) == (m < v) && (t > tp) == (m > v) && (t <= tp) == (m <= v) && (t >= tp) == (m >= v) && (t != tp) == (m != v), "comparison of time points %s and %s", bs(m).c_str(), bs(v).c_str());
	if (s.chance (1,4)) { ustl::ostringstream os; d.text_write (os); std::string x (bs(m)+Suffix<D>::get()); PBT_CHECK (text (os.str()) == x, "text is \"%s\", not \"%s\"", os.str().c_str(), x.c_str()); os.clear(); os.str (ustl::string()); t.text_write (os); PBT_CHECK (text (os.str()) == x, "text of the time point is \"%s\", not \"%s\"", os.str().c_str(), x.c_str()); }
    }
    if (ar > 2) s.nontrivial();
}
PBT_TEST (arithmetic, 2)
{
    switch (s.below (16)) {
	case 0: return history<uc::nanoseconds> (s); case 1: return history<uc::microseconds> (s); case 2: return history<uc::milliseconds> (s); case 3: return history<uc::seconds> (s); case 4: return history<uc::minutes> (s);
	case 5: return history<uc::hours> (s); case 6: return history<uc::days> (s); case 7: return history<uc::weeks> (s); case 8: return history<uc::years> (s); case 9: return history<uc::months> (s); case 10: return history<uc::centuries> (s);
	case 11: return history<uc::millenia> (s); case 12: return history<uc::duration<int32_t,ustl::milli>> (s); case 13: return history<uc::duration<int16_t,frame_p>> (s); case 14: return history<uc::duration<uint32_t,ustl::centi>> (s); default: return history<uc::duration<int32_t>> (s);
    }
}
//}}}
//{{{ Second and nanosecond values

typedef uc::duration<uc::hrtime_t,ustl::nano> hrdur;
typedef uc::time_point<uc::high_resolution_clock,hrdur> hrpoint;
static big total (const uc::hrtime_t& t) { return big(t.tv_sec)*E9 + t.tv_nsec; }
static uc::hrtime_t ofTotal (big v) { big q = v/E9, r = v%E9; if (r < 0) { r += E9; --q; } return uc::hrtime_t (time_t(q), long(r)); }
// users see these through using namespace ustl
using ustl::operator!=; using ustl::operator>; using ustl::operator<=; using ustl::operator>=;
static const big HRMAX = big(1) << 90;
static big genTotal (Src& s)
{
    big v;
    switch (s.pick ({3,3,2,2})) {
	case 0: v = big(s.below (4))*E9 + big(s.below (5)) - 2; break;
	case 1: v = big(s.below (100000))*E9 + (s.coin() ? big(s.below (1000000000)) : E9-1-big(s.below (3))); break;
	case 2: v = big(s.bits64() >> (2+s.below (40))); break;
	default: v = big(s.bits64() >> (4+s.below (40)))*E9 + big(s.below (1000000000)); break;
    }
    return s.chance (1,3) ? -v : v;
}
static void checkHr (const uc::hrtime_t& t, big m, const char* when)
{
    PBT_CHECK (t.tv_nsec >= 0 && t.tv_nsec < E9, "%s: %ld s and %ld ns is not normalised (%s ns)", when, long(t.tv_sec), long(t.tv_nsec), bs(m).c_str());
    PBT_CHECK (total (t) == m, "%s: %ld s and %ld ns is not %s ns", when, long(t.tv_sec), long(t.tv_nsec), bs(m).c_str());
}
static std::string hrText (big m) { big a = babs (m); return (m < 0 ? "-" : "") + bs (a/E9) + pbt::fmt (".%09ld", long(a%E9)); }
PBT_TEST (hrtime, 3)
{
    big m = genTotal (s); uc::hrtime_t t (ofTotal (m)); size_t n = 1+s.below (20); unsigned ar = 0; note ("%s ns", bs(m).c_str());
    for (size_t k = 0; k < n; ++k) {
	s.step(); std::string when; big v = genTotal (s), e = m; uc::hrtime_t o (ofTotal (v));
	switch (s.pick ({3,3,3,3,2,2,2,2,1,1,2,2,1,1,1})) {
	    case 0: e = m+v; if (babs(e) > HRMAX) continue; when = "+= "+bs(v); { uc::hrtime_t& r (t += o); PBT_CHECK (&r == &t, "+= returns another"); } ++ar; break;
	    case 1: e = m-v; if (babs(e) > HRMAX) continue; when = "-= "+bs(v); t -= o; ++ar; break;
	    case 2: v = genCount (s, HRMAX/(babs(m)+2*E9), E9); e = m*v; when = "*= "+bs(v); if (s.coin()) t *= intmax_t(v); else t = t * intmax_t(v); ++ar; break;
	    case 3: v = s.coin() ? big(1+s.below (20)) : genCount (s, 9000000000, E9); if (s.chance (1,4)) v = -v; if (!v) continue; e = m/v; when = "/= "+bs(v); if (s.coin()) t /= intmax_t(v); else t = t / intmax_t(v); ++ar; break;
	    case 4: { unsigned r = 1+unsigned(s.below (3)); e = m+r; when = "++"; for (unsigned i = 0; i < r; ++i) if (s.coin()) ++t; else { uc::hrtime_t b (t++); checkHr (b, m+i, "postfix ++"); } break; }
	    case 5: { unsigned r = 1+unsigned(s.below (3)); e = m-r; when = "--"; for (unsigned i = 0; i < r; ++i) if (s.coin()) --t; else { uc::hrtime_t b (t--); checkHr (b, m-i, "postfix --"); } break; }
	    case 6: e = m+v; if (babs(e) > HRMAX) continue; when = "+ "+bs(v); t = t+o; ++ar; break;
	    case 7: e = m-v; if (babs(e) > HRMAX) continue; when = "- "+bs(v); t = t-o; ++ar; break;
	    case 8: e = -m; when = "unary -"; t = -t; break;
	    case 9: when = "unary +"; t = +t; break;
	    case 10: { if (babs (m) > INT64_MAX) continue; when = "through an integer"; intmax_t i = t; PBT_CHECK (big(i) == m, "as an integer %jd, not %s", i, bs(m).c_str()); t = uc::hrtime_t (i); break; }
	    case 11: { when = "write and read"; ustl::memblock b (t.stream_size()); { ustl::ostream os (b.data(), b.size()); t.write (os); } uc::hrtime_t u; ustl::istream is (b.data(), b.size()); u.read (is); t = u; break; }
	    case 12: { double d = t; long double x = (long double)(m)/1e9L; PBT_CHECK (fabsl (d-x) <= 1e-15L*fabsl(x)*4+2e-16L, "as a double %.17g, not %.17Lg", d, x); float f = t; PBT_CHECK (fabsl (f-x) <= 3e-7L*fabsl(x)+2e-7L, "as a float %.9g, not %.9Lg", f, x); when = "to floating point"; break; }
	    case 13: { double d = double(intmax_t(s.bits64() >> (24+s.below (40))))/double(1 << s.below (20)); if (s.coin()) d = -d; when = pbt::fmt ("= %.17g", d); t = uc::hrtime_t (d); e = total (t); PBT_CHECK (fabsl ((long double)(e) - (long double)(d)*1e9L) < 1.001L+fabsl((long double)(d))*1e-9L, "%.17g s is %s ns", d, bs(e).c_str()); break; }
	    default: { float d = float(s.below (100000))/float(1 << s.below (10)); if (s.coin()) d = -d; when = pbt::fmt ("= %.9gf", d); t = uc::hrtime_t (d); e = total (t); PBT_CHECK (fabsl ((long double)(e) - (long double)(d)*1e9L) < 70, "%.9g s is %s ns", d, bs(e).c_str()); break; }
	}
	note ("%s", when.c_str()); m = e; checkHr (t, m, when.c_str());
	uc::hrtime_t q (ofTotal (v)); if (s.chance (1,5)) { q = t; v = m; }
	PBT_CHECK ((t == q) == (m == v) && (t != q) == (m != v) && (t < q) == (m < v) && (t > q) == (m > v) && (t <= q) == (m <= v) && (t >= q) == (m >= v), "comparison of %s and %s", bs(m).c_str(), bs(v).c_str());
	if (s.chance (1,4)) { ustl::ostringstream os; t.text_write (os); PBT_CHECK (text (os.str()) == hrText (m), "%s ns are printed as %s", bs(m).c_str(), os.str().c_str()); }
    }
    if (ar > 2) s.nontrivial();
}
template <typename D> static void hrTo (Src& s, const char* name)
{
    // units that divide a second, or are made of whole seconds
    typedef typename D::period P; typedef typename D::rep R; const big num = Per<P>::num(), den = Per<P>::den();
    big lim = big(std::numeric_limits<R>::max()) * num / den; if (lim > INT64_MAX/den) lim = INT64_MAX/den; if (lim > (big(1) << 56)) lim = big(1) << 56;	// seconds
    big unit = num*E9/den, m = genCount (s, lim > 2 ? lim-1 : 1, num) * E9; 
    switch (s.below (4)) { case 0: m += big(s.below (1000000000)); break; case 1: m += unit < E9 ? unit*big(s.below (uint64_t(E9/unit))) + big(s.below (3))-1 : big(s.below (3))-1; break; case 2: m -= big(s.below (1000000000)); break; default: break; }
    if (!std::numeric_limits<R>::is_signed) m = babs (m);
    hrdur h (ofTotal (m)); hrpoint hp (h); const big e = m*den/(num*E9); note ("%s ns to %s", bs(m).c_str(), name);
    if (!fits<R> (e)) return s.discard();
    D d (uc::duration_cast<D> (h)); PBT_CHECK (big(d.count()) == e, "%s ns are %s %s, not %s", bs(m).c_str(), bs(d.count()).c_str(), name, bs(e).c_str());
    PBT_CHECK (big(uc::time_point_cast<D> (hp).time_since_epoch().count()) == e, "time point cast of %s ns to %s", bs(m).c_str(), name);
    big bn = e*num*E9/den; uc::duration<int64_t,P> w (int64_t(d.count())); hrdur b (w); if (babs (bn) <= HRMAX && babs(e) <= INT64_MAX) { checkHr (b.count(), bn, "converted back"); uc::time_point<uc::high_resolution_clock,uc::duration<int64_t,P>> dp (w); hrpoint bp (dp); checkHr (bp.time_since_epoch().count(), bn, "time point converted back"); }
    PBT_CHECK ((h == b) == (m == bn) && (h < b) == (m < bn), "comparison of %s and %s ns", bs(m).c_str(), bs(bn).c_str());
    hrpoint p2 (hp); p2 += w; checkHr (p2.time_since_epoch().count(), m+bn, "+= of a time point"); p2 -= hrdur (w); checkHr (p2.time_since_epoch().count(), m, "-= of a time point");
    uc::duration<double,P> f (uc::duration_cast<uc::duration<double,P>> (h)); long double x = (long double)(m)*(long double)(den)/((long double)(num)*1e9L); PBT_CHECK (fabsl (f.count()-x) <= 1e-14L*fabsl(x)+1e-20L, "%s ns are %.17g floating point %s, not %.17Lg", bs(m).c_str(), f.count(), name, x);
    if (fabsl (x*(long double)num/(long double)den) < 4e9L) { hrdur fb (f); PBT_CHECK (fabsl ((long double)(total (fb.count()))-(long double)(m)) <= 1+fabsl((long double)(m))*1e-14L, "%.17g %s are %s ns", f.count(), name, bs(total (fb.count())).c_str()); PBT_CHECK (fb.count().tv_nsec >= 0 && fb.count().tv_nsec < E9, "not normalised"); }
    if (m % unit) s.nontrivial();
}
PBT_TEST (hrcasts, 2)
{
    typedef uc::duration<int16_t,ustl::milli> sms; typedef uc::duration<int32_t,ustl::centi> jiffies; typedef uc::duration<uint32_t> us32; typedef uc::duration<int64_t,shake_p> shakes; typedef uc::duration<int16_t> ss;
    switch (s.below (14)) {
	case 0: return hrTo<uc::nanoseconds> (s, "ns"); case 1: return hrTo<uc::microseconds> (s, "us"); case 2: return hrTo<uc::milliseconds> (s, "ms"); case 3: return hrTo<uc::seconds> (s, "s"); case 4: return hrTo<uc::minutes> (s, "min"); case 5: return hrTo<uc::hours> (s, "hours");
	case 6: return hrTo<uc::days> (s, "days"); case 7: return hrTo<uc::weeks> (s, "weeks"); case 8: return hrTo<uc::years> (s, "years"); case 9: return hrTo<sms> (s, "ms (int16)"); case 10: return hrTo<jiffies> (s, "jiffies"); case 11: return hrTo<us32> (s, "s (uint32)"); case 12: return hrTo<shakes> (s, "shakes"); default: return hrTo<ss> (s, "s (int16)");
    }
}
PBT_TEST (hrlimits, 1)
{
    big m = genTotal (s); hrdur h (ofTotal (m));
    PBT_CHECK (!(h < hrdur::min()) && !(hrdur::max() < h) && hrdur::min() < hrdur::max() && hrdur::zero().count() == uc::hrtime_t(), "%s ns is outside the limits", bs(m).c_str());
    uc::hrtime_t lo (hrdur::min().count()), hi (hrdur::max().count()); PBT_CHECK (lo.tv_nsec >= 0 && lo.tv_nsec < E9 && hi.tv_nsec >= 0 && hi.tv_nsec < E9 && !(ofTotal (total (lo)+1) < lo) && !(hi < ofTotal (total (hi)-1)), "limits are not normalised");
    uc::hrtime_t any (s.coin() ? std::numeric_limits<time_t>::lowest() : std::numeric_limits<time_t>::max(), long(s.below (1000000000))); PBT_CHECK (!(any < lo) && !(hi < any), "%ld.%09ld is outside the limits", long(any.tv_sec), any.tv_nsec); s.nontrivial();
}
//}}}
//{{{ Clocks

static big nowNs (clockid_t c) { timespec ts; clock_gettime (c, &ts); return big(ts.tv_sec)*E9 + ts.tv_nsec; }
template <typename C> static void clock (clockid_t id, const char* name)
{
    typedef typename C::duration D; typedef typename D::period P; const big unit = Per<P>::num()*E9/Per<P>::den();
    big a = nowNs (id); auto t = C::now(); big b = nowNs (id); auto u = C::now();
    big tc = big(t.time_since_epoch().count()); if (b < a) return;	// set back meanwhile
    PBT_CHECK (tc >= a/unit && tc <= b/unit, "%s is %s, not between %s and %s", name, bs(tc).c_str(), bs(a/unit).c_str(), bs(b/unit).c_str());
    if (C::is_steady) PBT_CHECK (!(u < t), "%s went back", name);
}
PBT_TEST (clocks, 1)
{
    switch (s.below (6)) {
	case 0: clock<uc::steady_clock> (CLOCK_MONOTONIC, "steady_clock"); break;
	case 1: clock<uc::system_clock_ms> (CLOCK_REALTIME, "system_clock_ms"); break;
	case 2: clock<uc::system_clock_us> (CLOCK_REALTIME, "system_clock_us"); break;
	case 3: clock<uc::system_clock_ns> (CLOCK_REALTIME, "system_clock_ns"); break;
	case 4: { big a = nowNs (CLOCK_REALTIME); auto t = uc::high_resolution_clock::now(); big b = nowNs (CLOCK_REALTIME), v = total (t.time_since_epoch().count()); PBT_CHECK (b < a || (v >= a && v <= b), "high_resolution_clock is %s, not between %s and %s", bs(v).c_str(), bs(a).c_str(), bs(b).c_str()); break; }
	default: {
	    time_t t = time_t(s.bits64() >> (24+s.below (38))); if (s.chance (1,5)) t = -t; auto p = uc::system_clock::from_time_t (t); note ("time %ld", long(t));
	    PBT_CHECK (p.time_since_epoch().count() == t && uc::system_clock::to_time_t (p) == t, "time %ld", long(t));
	    char buf[64]; if (!ctime_r (&t, buf)) break; buf[strlen(buf)-1] = 0; ustl::ostringstream os; p.text_write (os); PBT_CHECK (text (os.str()) == buf, "time %ld is printed as %s", long(t), os.str().c_str());
	}
    }
    s.nontrivial();
}
//}}}

static constexpr uc::milliseconds cx (void) { uc::milliseconds r (uc::seconds (3)); r += uc::milliseconds (5); r *= 2; --r; return r; }
static_assert (cx().count() == 6009, "durations are computed at compile time");
