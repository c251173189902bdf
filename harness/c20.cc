// C20: a bitset behaves as the standard fixed-size bitset.
#include <limits>
#include "uh.h"

typedef uint32_t word;
static inline std::string text (const ustl::string& s) { return std::string (s.c_str(), s.size()); }

template <size_t N> struct Pair {
    typedef ustl::bitset<N> U; typedef std::bitset<N> M;
    std::unique_ptr<U> u; M m;
    bool tail;	///< An operation known to set bits beyond the size was done.
    Pair (void) : u(new U), tail(false) {}
    static word excess (const U& u) { return N%32 ? u.begin()[u.end()-u.begin()-1] >> (N%32) : 0; }
};

template <size_t N> static void verify (const Pair<N>& p, const Pair<N>& q, Src& s, const char* when)
{
    typedef ustl::bitset<N> U; const U& u (*p.u); const std::string ms (p.m.to_string());
    PBT_CHECK (text (u.to_string()) == ms, "%s: bits are %s, not %s", when, u.to_string().c_str(), ms.c_str());
    for (size_t i = 0; i < N; ++i) PBT_CHECK (u.test (i) == p.m[i] && u[i] == p.m[i] && u.at (i) == p.m[i], "%s: bit %zu", when, i);
    PBT_CHECK (u.size() == N && u.capacity() == (N+31)/32*32 && sizeof(U) == (N+31)/32*4 && u.stream_size() == sizeof(U) && size_t(u.end()-u.begin()) == sizeof(U)/4, "sizes are %zu %zu", u.size(), u.capacity());
    const word ex = Pair<N>::excess (u); if (!p.tail) PBT_CHECK (!ex, "%s: bits beyond the size: %x", when, ex);
    const size_t c = u.count(), mc = p.m.count();
    PBT_CHECK (c == mc || (ex && c == mc + size_t(__builtin_popcount (ex))), "%s: count is %zu, not %zu", when, c, mc);
    PBT_CHECK (u.any() == !u.none() && (u.any() == p.m.any() || (ex && u.any())), "%s: any is %d, none is %d", when, u.any(), u.none());
    const word lm = N < 32 ? word((uint64_t(1) << N)-1) : ~word(0); word mv = 0; for (size_t i = 0; i < N && i < 32; ++i) mv |= word(p.m[i]) << i;
    PBT_CHECK ((u.to_value() & lm) == mv && (ex || u.to_value() == mv), "%s: value is %x, not %x", when, u.to_value(), mv);
    for (unsigned k = 0; k < 3; ++k) {
	size_t f = s.below (N), we = std::min (N, (f/32+1)*32), l = f+1+s.below (we-f); word e = 0; for (size_t i = f; i < l; ++i) e |= word(p.m[i]) << (i-f);
	PBT_CHECK (u.at (f,l) == e, "%s: bits %zu to %zu are %x, not %x", when, f, l, u.at (f,l), e);
    }
    const bool eq = u == *q.u; if (ex == Pair<N>::excess (*q.u)) PBT_CHECK (eq == (p.m == q.m), "%s: == is %d", when, eq); else PBT_CHECK (!eq || p.m == q.m, "%s: == is %d", when, eq);
    for (size_t i = 0, n = sizeof(U)/4; i < n; ++i) for (size_t j = 0; j < 32 && i*32+j < N; ++j) PBT_CHECK (((u.begin()[i] >> j) & 1) == p.m[i*32+j], "%s: word %zu is %x", when, i, u.begin()[i]);
}

template <size_t N> static void run (Src& s)
{
    typedef ustl::bitset<N> U; typedef std::bitset<N> M;
    Pair<N> a, b; size_t nops = 1+s.below (30); unsigned bulk = 0, bits = 0; note ("bitset<%zu>", N);
    for (size_t k = 0; k < nops; ++k) {
	s.step(); std::string when; Pair<N>& p (s.chance (1,4) ? b : a); Pair<N>& q (&p == &a ? b : a); U& u (*p.u); const size_t n = s.chance (1,4) ? N-1 : s.below (N);
	switch (s.pick ({3,3,2,2,2,1,1,1,4,2,2,2,2,2,2,2,2,2,2,1,1,1})) {
	    case 0: { bool v = s.coin(); when = pbt::fmt ("set(%zu,%d)", n, v); u.set (n, v); p.m.set (n, v); ++bits; break; }
	    case 1: when = pbt::fmt ("set(%zu)", n); u.set (n); p.m.set (n); ++bits; break;
	    case 2: when = pbt::fmt ("reset(%zu)", n); u.reset (n); p.m.reset (n); ++bits; break;
	    case 3: when = pbt::fmt ("flip(%zu)", n); u.flip (n); p.m.flip (n); ++bits; break;
	    case 4: when = "set()"; u.set(); p.m.set(); p.tail = true; ++bulk; break;
	    case 5: when = "reset()"; u.reset(); p.m.reset(); p.tail = false; break;
	    case 6: when = "clear()"; u.clear(); p.m.reset(); p.tail = false; break;
	    case 7: when = "flip()"; u.flip(); p.m.flip(); p.tail = true; ++bulk; break;
	    case 8: { size_t we = std::min (N, (n/32+1)*32), l = n+1+s.below (we-n); word v = word(s.bits64()) & word(~uint64_t(0) >> (64-(l-n))); when = pbt::fmt ("set(%zu,%zu,%x)", n, l, v); u.set (n, l, v); for (size_t i = n; i < l; ++i) p.m[i] = (v >> (i-n)) & 1; ++bits; break; }
	    case 9: { when = "&="; const U& r (u &= *q.u); p.m &= q.m; PBT_CHECK (&r == &u, "&= does not return the set"); p.tail &= q.tail; ++bulk; break; }
	    case 10: { when = "|="; const U& r (u |= *q.u); p.m |= q.m; PBT_CHECK (&r == &u, "|= does not return the set"); p.tail |= q.tail; ++bulk; break; }
	    case 11: { when = "^="; const U& r (u ^= *q.u); p.m ^= q.m; PBT_CHECK (&r == &u, "^= does not return the set"); p.tail |= q.tail; ++bulk; break; }
	    case 12: when = "&"; u = u & *q.u; p.m = p.m & q.m; p.tail &= q.tail; ++bulk; break;
	    case 13: when = "|"; u = u | *q.u; p.m = p.m | q.m; p.tail |= q.tail; ++bulk; break;
	    case 14: when = "^"; u = *q.u ^ u; p.m = q.m ^ p.m; p.tail |= q.tail; ++bulk; break;
	    case 15: when = "~"; u = ~*q.u; p.m = ~q.m; p.tail = true; ++bulk; break;
	    case 16: { word v = word(s.bits64()); when = pbt::fmt ("=%x", v); u = v; p.m = M (v); p.tail = N < 32 && (v >> (N%32)); break; }
	    case 17: { size_t l = s.chance (1,4) ? N+s.below (70) : s.below (N+1); std::string t (l, '0'); unsigned den = 1+s.below (6); for (auto& c : t) c = s.below (den) ? '0' : '1'; when = "= string "+t; ustl::string us; us.assign (t.c_str(), l); u = U (us); std::string lo (l > N ? t.substr (l-N) : t); p.m = M (lo); p.tail = l > N; ++bulk; break; }
	    case 18: { when = "text round trip"; ustl::ostringstream os; os << *q.u << (s.coin() ? " " : "\n"); os.flush(); PBT_CHECK (text (os.str()) .substr (0, N) == q.m.to_string() && os.str().size() == N+1, "written as %s", os.str().c_str()); ustl::istringstream is (os.str()); is >> u; p.m = q.m; ++bulk; break; }
	    case 19: { when = "text"; size_t l = s.below (N+1); std::string t (l, '0'); for (auto& c : t) c = char('0'+s.coin()); when += " "+t; ustl::string us; us.assign ((t+" ").c_str(), l+1); ustl::istringstream is (us); u.text_read (is); for (size_t i = 0; i < l; ++i) p.m[N-1-i] = t[i] == '1'; break; }
	    case 20: { when = "binary round trip"; ustl::memblock mb (u.stream_size()+8); ustl::ostream os (mb); os << *q.u; PBT_CHECK (os.pos() == u.stream_size(), "written as %zu bytes", size_t(os.pos())); for (size_t i = 0; i < N; ++i) PBT_CHECK (((uint8_t(mb.cdata()[i/8]) >> (i%8)) & 1) == q.m[i], "bit %zu is written as %d", i, !q.m[i]); ustl::istream is (mb); is >> u; PBT_CHECK (is.pos() == u.stream_size(), "read %zu bytes", size_t(is.pos())); p.m = q.m; p.tail = q.tail; break; }
	    case 21: if (s.coin()) { when = "copy"; u = *q.u; p.m = q.m; p.tail = q.tail; } else { when = "copy construction"; p.u.reset (new U (*q.u)); p.m = q.m; p.tail = q.tail; } break;
	}
	note ("%s: %s", &p == &a ? "a" : "b", when.c_str());
	verify (p, q, s, when.c_str()); if (s.chance (1,4)) verify (q, p, s, "the other");
    }
    s.nontrivial (bulk > 1 && bits); label (N%32 ? N < 32 ? "part of a word" : "partial last word" : "whole words");
}
template <size_t... N> static void dispatch (Src& s) { static void (* const f[])(Src&) = { run<N>... }; f[s.below (sizeof...(N))] (s); }
PBT_TEST (bitset_history, 6) { dispatch<32,64,96,128,1,2,5,7,8,15,16,17,24,30,31,33,40,47,63,65,70,95,97,100,127,129,160,191,256,300,1024> (s); }

PBT_TEST (bitstring, 1)
{
    size_t n = s.below (5), l = s.below (n*32+10); uh::exact<word> w (n), r (n); for (size_t i = 0; i < n; ++i) { w[i] = word(s.raw()); r[i] = word(s.raw()); }
    std::string e (l, 'x'); ustl::string b (l, 'x'); for (size_t i = 0; i < l && i < n*32; ++i) e[l-1-i] = (w[i/32] >> (i%32)) & 1 ? '1' : '0';
    ustl::convert_to_bitstring (w.begin(), n, b); PBT_CHECK (text (b) == e, "%zu words into %zu characters are %s, not %s", n, l, b.c_str(), e.c_str());
    for (auto& c : e) if (s.chance (1,20)) c = char(1+s.below (255)); b.assign (e.c_str(), l);
    ustl::convert_from_bitstring (b, r.begin(), n); for (size_t i = 0; i < n*32; ++i) PBT_CHECK (((r[i/32] >> (i%32)) & 1) == (i < l && e[l-1-i] != '0'), "bit %zu of %s", i, pbt::esc (e).c_str());
    s.nontrivial (n > 1 && l > 32);
}

/// More bits than 32 bits count: a set in mapped memory, against the positions that are set.
PBT_TEST (far, 0.2)
{
    uh::Far m (s); if (!m) { label ("no memory to map"); return; }
    const size_t N = (size_t(1) << 35)+77; typedef ustl::bitset<N> U; U& u (*reinterpret_cast<U*>(m.p)); std::set<size_t> on; std::vector<size_t> seen; unsigned n = 2+s.below (12);
    static const size_t edges[] = { 0, 1ul<<16, 1ul<<31, 1ul<<32, 1ul<<33, 1ul<<34, 1ul<<35 };
    for (unsigned i = 0; i < n; ++i) {
	s.step(); size_t p = s.chance (1,4) ? s.raw()%N : s.among (edges)+s.below (70); if (p >= N) p = N-1; if (!seen.empty() && s.chance (1,3)) p = seen[s.below (seen.size())]; seen.push_back (p); static const size_t off[] = { 1ul<<16, 1ul<<31, 1ul<<32, 1ul<<33, 1ul<<34 }; for (size_t o : off) { if (p+o < N) seen.push_back (p+o); if (p >= o) seen.push_back (p-o); }
	switch (s.below (5)) { case 0: u.set (p); on.insert (p); break; case 1: { bool v = s.coin(); u.set (p, v); if (v) on.insert (p); else on.erase (p); break; } case 2: u.reset (p); on.erase (p); break; case 3: u.flip (p); if (!on.erase (p)) on.insert (p); break;
	    default: { size_t we = std::min (N, (p/32+1)*32), l = p+1+s.below (we-p); word v = word(s.bits64()) & word(~uint64_t(0) >> (64-(l-p))); u.set (p, l, v); for (size_t k = p; k < l; ++k) if ((v >> (k-p)) & 1) on.insert (k); else on.erase (k); PBT_CHECK (u.at (p, l) == v, "bits %zu to %zu are %x", p, l, u.at (p, l)); } }
	note ("bit %zu", p);
	for (size_t q : seen) { bool e = on.count (q); PBT_CHECK (u.test (q) == e && u[q] == e && bool(u.at (q)) == e && bool((u.begin()[q/32] >> (q%32)) & 1) == e, "bit %zu is %d", q, !e); }
    }
    PBT_CHECK (u.size() == N && u.capacity() == (N+31)/32*32 && size_t(u.end()-u.begin()) == (N+31)/32 && u.stream_size() == (N+31)/32*4, "sizes"); s.nontrivial (on.size() > 2);
}

PBT_KNOWN (tail_bits) { ustl::bitset<30> b; b.flip(); return b.count() != 30; }
