// C15: truncated and hostile binary input is refused, in bounds, with a defined state.
#include "codec.h"

#ifdef NDEBUG
static const bool asserting = false;
#else
static const bool asserting = true;
#endif

/// A copy of a block which ends where readable memory ends.
struct Block {
    uint8_t* p; size_t n; bool mapped;
    enum { AREA = 1<<20 };
    Block (const std::vector<uint8_t>& b, bool fence) : p(), n (b.size()), mapped (fence) {
	if (fence) {
	    static uint8_t* area = 0;
	    if (!area) { area = (uint8_t*) mmap (0, AREA+8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); mprotect (area+AREA, 4096, PROT_NONE); }
	    p = area+AREA-n;
	} else p = (uint8_t*) malloc (n ? n : 1);
	if (n) memcpy (p, b.data(), n);
    }
    ~Block (void) { if (!mapped) free (p); }
    Block (const Block&) = delete;
};

struct Short {};
/// The model of a read: what it gives (as canonical bytes), where it ends, or that there is not enough.
struct Dec { const uint8_t* p; size_t n, pos; bool odd, mis, unplaced; Enc out;
    Dec (const std::vector<uint8_t>& b, size_t at) : p (b.data()), n (b.size()), pos (at), odd (false), mis (false), unplaced (false), out() {}
    void need (size_t k) { if (n-pos < k) throw Short(); }
    void align (size_t g) { size_t a = (pos+g-1)/g*g; if (a > n) throw Short(); pos = a; } };

template <typename T> struct Dx { static void dec (Dec& d) { if (d.pos % alignof(T)) d.mis = true; d.need (sizeof(T)); d.out.raw (d.p+d.pos, sizeof(T)); d.pos += sizeof(T); } };
template <> struct Dx<bool> { static void dec (Dec& d) { d.need (1); if (d.p[d.pos] > 1) d.odd = true; d.out.b.push_back (d.p[d.pos] & 1); ++d.pos; } };
template <> struct Dx<Color> { static void dec (Dec& d) { Dx<uint16_t>::dec (d); } };
template <> struct Dx<string> { static void dec (Dec& d) {
    d.need (1); uint8_t c = d.p[d.pos]; unsigned k = 0; while (k < 8 && (c & (0x80 >> k))) ++k;
    if (k == 1 || k > 6) { d.odd = true; if (k == 1) throw Short(); } // an error byte; the library gives it some length
    if (!k) k = 1;
    ++d.pos; d.need (k-1);
    uint64_t v = c & (0xff >> (k == 1 ? 0 : k)); size_t q = d.pos;
    for (unsigned i = 1; i < k; ++i) { if ((d.p[q] & 0xc0) != 0x80) d.odd = true; v = v<<6 | (d.p[q++] & 0x3f); }
    d.pos = q; Enc e; utf8_num (e, uint32_t(v)); if (e.b.size() != k) d.odd = true;
    d.need (v); e.raw (d.p+d.pos, v); d.pos += v; d.out.raw (e.b.data(), e.b.size()); } };
template <> struct Dx<memblock> { static void dec (Dec& d) { Dx<uint32_t>::dec (d); uint32_t n; memcpy (&n, d.p+d.pos-4, 4); d.need (n); d.out.raw (d.p+d.pos, n); d.pos += n; d.align (4); d.out.pad (4); } };
template <> struct Dx<Rec> { static void dec (Dec& d) { Dx<uint32_t>::dec (d); Dx<uint16_t>::dec (d); Dx<string>::dec (d); d.align (4); d.out.pad (4); } };
template <typename V> struct DxCont { static void dec (Dec& d) {
    if (d.pos % 4) d.mis = true; d.need (4); uint32_t n; memcpy (&n, d.p+d.pos, 4); d.out.raw (&n, 4); d.pos += 4;
    if (n > d.n-d.pos) throw Short();
    if (Cd<V>::ta() > cmax (4, Cd<V>::al())) d.unplaced = true; // a known finding of C14
    if (Cd<V>::al() > 4) { d.align (Cd<V>::al()); d.out.pad (Cd<V>::al()); }
    for (uint32_t i = 0; i < n; ++i) Dx<V>::dec (d);
    d.align (4); d.out.pad (4); } };
template <typename T> struct Dx<vector<T> > : DxCont<T> {};
template <typename T> struct Dx<ustl::list<T> > : DxCont<T> {};
template <typename T> struct Dx<set<T> > : DxCont<T> {};
template <typename T> struct Dx<multiset<T> > : DxCont<T> {};
template <typename K, typename T> struct Dx<pair<K,T> > { static void dec (Dec& d) { Dx<K>::dec (d); d.align (Cd<T>::al()); d.out.pad (Cd<T>::al()); Dx<T>::dec (d); d.align (Cd<K>::al()); d.out.pad (Cd<K>::al()); } };
template <typename K, typename T> struct Dx<map<K,T> > : DxCont<pair<K,T> > {};
template <typename K, typename T> struct Dx<multimap<K,T> > : DxCont<pair<K,T> > {};
template <typename C, typename V> struct DxFix { static void dec (Dec& d) { C c; for (size_t i = 0, n = c.size(); i < n; ++i) Dx<V>::dec (d); } };
template <size_t N, typename T> struct Dx<tuple<N,T> > : DxFix<tuple<N,T>,T> {};
template <typename T, size_t N> struct Dx<array<T,N> > : DxFix<array<T,N>,T> {};
template <size_t X, size_t Y, typename T> struct Dx<matrix<X,Y,T> > { static void dec (Dec& d) { for (size_t i = 0; i < X*Y; ++i) Dx<T>::dec (d); } };
template <size_t N> struct Dx<bitset<N> > { static void dec (Dec& d) { size_t nw = (N+31)/32; for (size_t w = 0; w < nw; ++w) { if (d.pos % 4) d.mis = true; d.need (4); for (size_t i = 0; i < 32; i += 8) { unsigned x = d.p[d.pos++]; for (size_t j = 0; j < 8; ++j) if (w*32+i+j >= N) x &= ~(1u<<j); d.out.b.push_back (x); } } } };
template <typename R, typename P> struct Dx<ustl::chrono::duration<R,P> > : Dx<R> {};

template <typename T> static std::vector<uint8_t> bytes_of (const T& v) { Enc e; Cd<T>::enc (e, v); return e.b; }

static uint32_t nasty (Src& s, size_t rem)
{
    switch (s.below (6)) {
	case 0: { static const uint32_t v[] = { 0xffffffff, 0x80000000, 0x7fffffff, 0x40000000, 0x20000000, 0x10000000, 0x3fffffff, 0x55555556, 0xfffffffe, 0xfffffffc, 0x10000, 0xffff, 256, 255, 128, 127 }; return s.among (v); }
	case 1: return rem+s.below (3)-1;
	case 2: return rem/2+s.below (3)-1;
	case 3: return rem/4+s.below (3)-1;
	case 4: return rem/8+s.below (3)-1;
	default: return s.below (20);
    }
}
static void mutate (Src& s, std::vector<uint8_t>& b, size_t from)
{
    for (unsigned k = 1+s.below (3); k--;) {
	size_t n = b.size()-from; if (!n) { b.push_back (s.below (256)); continue; }
	size_t at = from+s.below (n);
	switch (s.pick ({4,6,2,2,2,3})) {
	    case 0: b[at] ^= 1 << s.below (8); break;
	    case 1: { at = (s.coin() ? from : at) & ~size_t(3); if (at < from || at+4 > b.size()) break; uint32_t v = nasty (s, b.size()-at-4); memcpy (&b[at], &v, 4); break; }
	    case 2: b.insert (b.begin()+at, 1+s.below (5), uint8_t(s.below (256))); break;
	    case 3: b.erase (b.begin()+at, b.begin()+at+1+s.below (std::min<size_t> (6, b.size()-at))); break;
	    case 4: { static const uint8_t v[] = { 0xff, 0xfe, 0xfc, 0xf8, 0xf0, 0xe0, 0xc0, 0x80, 0xbf, 0, 0x7f }; b[at] = s.among (v); break; }
	    case 5: b.resize (at); break;
	}
    }
}
/// The state a stream has to be in after a refused operation, or a successful one.
template <typename St> static void check_state (St& st, bool ok, bool threw, const char* tn, uint32_t mask)
{
    PBT_CHECK (st.pos() <= st.size(), "%s: the position %zu is beyond the end, %zu", tn, size_t(st.pos()), size_t(st.size()));
    PBT_CHECK (st.fail() == !ok, "%s: fail() is %d after a read that %s", tn, int(st.fail()), ok ? "succeeds" : "cannot be satisfied");
    PBT_CHECK (!ok || st.good(), "%s: state %u after a successful read", tn, st.rdstate());
    PBT_CHECK (!threw || mask, "%s: threw with exceptions off", tn);
}
static const uint32_t masks[] = { ustl::ios_base::allbadbits, 0, ustl::ios_base::badbit, ustl::ios_base::failbit, ustl::ios_base::eofbit };

template <typename T> static void hostile (Src& s, const char* tn)
{
    size_t before = 16*s.below (2); std::vector<uint8_t> b (before, 0xa5); bool exact = false;
    { T v (Cd<T>::gen (s, 1)); Enc e; Cd<T>::enc (e, v); size_t n = e.b.size(); unsigned how = s.pick ({5,6,2,1});
      if (how < 2) b.insert (b.end(), e.b.begin(), e.b.end());
      switch (how) {
	case 0: if (n) { b.resize (before+s.below (n)); exact = !e.misplaced; } break; // a truncation
	case 1: for (unsigned x = s.below (8); x--;) b.push_back (s.below (256)); mutate (s, b, before); break;
	case 2: for (size_t x = s.below (40); x--;) b.push_back (s.chance (1,3) ? s.below (256) : s.below (6)); break;
	default: for (size_t x = s.below (64); x--;) b.push_back (s.below (256)); if (b.size() >= before+4 && s.coin()) { uint32_t v2 = nasty (s, b.size()-before-4); memcpy (&b[before], &v2, 4); } } }
    Dec d (b, before); bool ok = true; try { Dx<T>::dec (d); } catch (Short&) { ok = false; }
    uint32_t mask = s.among (masks); bool fence = s.coin();
    if (d.unplaced || (d.mis && asserting)) s.discard(); // placed where the type cannot be read from; the library asserts that
    if (!ok && asserting && !(mask & ustl::ios_base::failbit)) mask = ustl::ios_base::allbadbits;
    if (d.odd && asserting) mask = ustl::ios_base::allbadbits;
    if (d.odd && (std::is_same<T,bool>::value || std::is_same<T,vector<bool> >::value)) s.discard();
    note ("%s from %zu bytes: %s, exceptions %u", tn, b.size()-before, pbt::hex (b.data()+before, b.size()-before).c_str(), mask);
    Block k (b, fence); ustl::istream is (k.p, k.n); is.exceptions (mask); is.skip (before);
    long heap0 = pbt::heap_bytes(); bool threw = false;
    {
	T w (s.coin() ? Cd<T>::gen (s, 1) : T()); long heap1 = pbt::heap_bytes();
	try { is >> w; } catch (ustl::stream_bounds_exception& e) { threw = true; }
	long used = pbt::heap_bytes()-heap1;
	PBT_CHECK (used < 65536+long(b.size())*256, "%s: %ld bytes allocated to read %zu", tn, used, b.size());
	if (!d.odd) {
	    check_state (is, ok, threw, tn, mask);
	    PBT_CHECK (ok || !(mask & ustl::ios_base::failbit) || threw, "%s: no exception", tn);
	    if (ok) { PBT_CHECK (is.pos() == d.pos, "%s: read to %zu, expected %zu", tn, size_t(is.pos()), d.pos); PBT_CHECK (bytes_of (w) == d.out.b, "%s: value %s read as %s", tn, pbt::hex (d.out.b.data(), d.out.b.size()).c_str(), pbt::hex (bytes_of (w).data(), bytes_of (w).size()).c_str()); }
	} else PBT_CHECK (is.pos() <= is.size(), "%s: position %zu of %zu", tn, size_t(is.pos()), size_t(is.size()));
	PBT_CHECK (!exact || !ok, "%s: a truncation was accepted by the model", tn);
	for (size_t i = 0; i < b.size(); ++i) PBT_CHECK (k.p[i] == b[i], "%s: reading changed byte %zu of the source", tn, i);
	// the object can be used again, for a value
	T v2 (Cd<T>::gen (s, 1)); Enc e; Cd<T>::enc (e, v2);
	if (!e.misplaced) { Block k2 (e.b, fence); ustl::istream i2 (k2.p, k2.n); i2 >> w; PBT_CHECK (bytes_of (w) == e.b && i2.pos() == e.b.size(), "%s: not read correctly into the same object afterwards", tn); }
    }
    PBT_CHECK (pbt::heap_bytes() == heap0 || d.odd || threw, "%s: leaked %ld bytes", tn, pbt::heap_bytes()-heap0);
    s.nontrivial (!ok || d.pos != b.size());
}
template <typename T> static void small_buffer (Src& s, const char* tn)
{
    size_t before = 16*s.below (2); T v (Cd<T>::gen (s, 1)); Enc e; Cd<T>::enc (e, v); size_t n = e.b.size(); if (e.misplaced || !n) s.discard();
    size_t m = s.chance (1,4) ? n-1 : s.below (n); uint32_t mask = asserting ? uint32_t(ustl::ios_base::allbadbits) : s.among (masks);
    note ("%s: %zu bytes into %zu, exceptions %u", tn, n, m, mask);
    size_t cap = before+m; uint8_t* p = (uint8_t*) malloc (cap ? cap : 1); for (size_t i = 0; i < cap; ++i) p[i] = uint8_t(i*29+3);
    ustl::ostream os (p, cap); os.exceptions (mask); os.skip (before); bool threw = false;
    try { os << v; } catch (ustl::stream_bounds_exception& x) { threw = true; }
    check_state (os, false, threw, tn, mask);
    PBT_CHECK (!(mask & ustl::ios_base::failbit) || threw, "%s: no exception when writing past the end", tn);
    size_t done = os.pos(); PBT_CHECK (done >= before, "%s: position %zu", tn, done);
    for (size_t i = 0; i < before; ++i) PBT_CHECK (p[i] == uint8_t(i*29+3), "%s: byte %zu before the position was changed", tn, i);
    if (mask & ustl::ios_base::failbit) {
	for (size_t i = before; i < done; ++i) PBT_CHECK (p[i] == e.b[i-before], "%s: byte %zu of what was written is %02x", tn, i-before, p[i]);
	for (size_t i = done; i < cap; ++i) PBT_CHECK (p[i] == uint8_t(i*29+3), "%s: byte %zu is beyond the position and was changed", tn, i);
    }
    if (ustl::numeric_limits<T>::is_integral || std::is_same<T,string>::value) PBT_CHECK (done == before, "%s: %zu bytes of a refused value", tn, done-before);
    free (p);
    { std::vector<uint8_t> room (n+16); uint8_t* q = (uint8_t*)((uintptr_t(room.data())+15) & ~uintptr_t(15)); (void) q; }
    s.nontrivial (n > 1);
}
#define FN1(...) [](Src& s) { hostile<__VA_ARGS__> (s, #__VA_ARGS__); },
#define FN2(...) [](Src& s) { small_buffer<__VA_ARGS__> (s, #__VA_ARGS__); },
typedef void (*casefn)(Src&);
PBT_TEST (hostile, 40) { static const casefn f[] = { STREAMED_TYPES(FN1) }; s.among (f) (s); }
PBT_TEST (small_buffer, 14) { static const casefn f[] = { STREAMED_TYPES(FN2) }; s.among (f) (s); }

/// Every truncation of one encoding, one after another, in one stream object.
template <typename T> static void truncations (Src& s, const char* tn)
{
    T v (Cd<T>::gen (s, 1)); Enc e; Cd<T>::enc (e, v); size_t n = e.b.size(); if (e.misplaced || n > 200) s.discard();
    note ("%s: all %zu truncations of %s", tn, n, pbt::hex (e.b.data(), n).c_str());
    ustl::istream is; T w; unsigned refused = 0;
    for (size_t m = 0; m <= n; ++m) {
	std::vector<uint8_t> b (e.b.begin(), e.b.begin()+m); Block k (b, true);
	is.relink (k.p, k.n); is.clear(); bool threw = false;
	try { is >> w; } catch (ustl::stream_bounds_exception&) { threw = true; }
	check_state (is, m == n, threw, tn, ustl::ios_base::allbadbits); PBT_CHECK (threw == (m < n), "%s cut to %zu of %zu bytes: %s", tn, m, n, threw ? "refused" : "accepted"); refused += threw;
    }
    PBT_CHECK (bytes_of (w) == e.b, "%s: the whole value reads back differently", tn);
    s.nontrivial (refused > 2);
}
#define FN3(...) [](Src& s) { truncations<__VA_ARGS__> (s, #__VA_ARGS__); },
PBT_TEST (truncations, 8) { static const casefn f[] = { STREAMED_TYPES(FN3) }; s.among (f) (s); }

/// Histories of reads, seeks and skips on arbitrary bytes against a model position.
PBT_TEST (history, 20)
{
    std::vector<uint8_t> b (s.len (120)); unsigned alpha = s.below (3); for (auto& c : b) c = alpha == 0 ? s.below (256) : alpha == 1 ? s.below (5) : s.below (2) ? 0 : 'a'+s.below (4);
    uint32_t mask = s.among (masks); Block k (b, s.coin()); ustl::istream is (k.p, k.n); is.exceptions (mask); size_t pos = 0, n = b.size(); uint32_t state = 0; unsigned refusals = 0;
    note ("%zu bytes: %s, exceptions %u", n, pbt::hex (b.data(), n).c_str(), mask);
    for (unsigned ops = 1+s.below (24); ops--;) {
	s.step(); unsigned op = s.below (14); bool ok = true, threw = false; uint32_t flags = 0; size_t at = pos; std::string what; size_t rem0 = n-pos; bool eofok = true;
	try { switch (op) {
	    case 0: case 1: { size_t m = s.chance (1,6) ? size_t(s.bits64()) : s.below (n+4); if (m > n-pos && m > 1000) { uint8_t c; ok = false; what = pbt::fmt ("read %zu", m); is.read (&c, m); } else { uh::exact<uint8_t> w (m); for (size_t i = 0; i < m; ++i) w[i] = 0xee; what = pbt::fmt ("read %zu", m); ok = m <= n-pos; if (ok) at += m; try { is.read (w.begin(), m); } catch (...) { for (size_t i = 0; i < m; ++i) PBT_CHECK (w[i] == 0xee, "a refused read changed the destination"); throw; } for (size_t i = 0; i < m; ++i) PBT_CHECK (w[i] == (ok ? b[pos+i] : 0xee), "byte %zu of a read", i); } break; }
	    case 2: { size_t p = s.chance (1,4) ? n+s.below (4) : s.chance (1,5) ? size_t(s.bits64()) : s.below (n+1); what = pbt::fmt ("seek %zu", p); ok = p <= n; if (ok) at = p; rem0 = n; is.seek (p); break; }
	    case 3: { size_t p = s.chance (1,6) ? size_t(s.bits64()) : s.below (n+4); what = pbt::fmt ("skip %zu", p); size_t t = pos+p; ok = t <= n; if (ok) at = t; rem0 = n; is.skip (p); break; }
	    case 4: { size_t g = size_t(1) << s.below (7); what = pbt::fmt ("align %zu", g); size_t t = (pos+g-1)/g*g; ok = t <= n; if (ok) at = t; rem0 = n; is.align (g); break; }
	    case 5: { what = "read_strz"; size_t z = pos; while (z < n && b[z]) ++z; ok = z < n; if (ok) at = z+1; string w ("before"); is.read_strz (w); if (ok) PBT_CHECK (w.size() == z-pos && !memcmp (w.c_str(), &b[0]+pos, z-pos), "read_strz gave '%s'", w.c_str()); break; }
	    case 6: { off_t d = long(s.below (2*n+6))-long(n+3); what = pbt::fmt ("seekg %ld", long(d)); ok = long(pos)+d >= 0 && pos+d <= n; if (ok) at = pos+d; rem0 = n; is.seekg (d, ustl::ios_base::cur); break; }
	    case 7: { what = "ungetc"; ok = pos > 0; if (ok) at = pos-1; rem0 = n; is.ungetc(); break; }
	    #define RD(id,T) case id: { if (asserting && pos % alignof(T)) break; what = "read " #T; ok = sizeof(T) <= n-pos; if (ok) at = pos+sizeof(T); T w = T(0xdd), w0 = w; try { is >> w; } catch (...) { PBT_CHECK (w == w0, "a refused read changed the destination"); throw; } PBT_CHECK (ok ? !memcmp (&w, &b[0]+pos, sizeof(T)) : w == w0, "value of a read"); break; }
	    RD (8,uint8_t) RD (9,uint16_t) RD (10,uint32_t) RD (11,uint64_t)
	    case 12: { size_t m = s.below (n+4); if (mask) break; what = pbt::fmt ("readsome %zu", m); uh::exact<uint8_t> w (m); for (size_t i = 0; i < m; ++i) w[i] = 0xee; ok = m <= n-pos; size_t got = std::min (m, n-pos); at = pos+got; PBT_CHECK (is.readsome (w.begin(), m) == got, "readsome returned a different count"); for (size_t i = 0; i < m; ++i) PBT_CHECK (w[i] == (i < got ? b[pos+i] : 0xee), "readsome byte %zu", i); break; }
	    default: { is.clear(); state = 0; break; }
	} } catch (ustl::stream_bounds_exception& e) { threw = true; }
	if (!ok) { ++refusals; flags = ustl::ios_base::failbit | (rem0 ? 0 : ustl::ios_base::eofbit); state |= flags; }
	PBT_CHECK (is.rdstate() == state, "%s at %zu of %zu: state %u, expected %u", what.c_str(), pos, n, is.rdstate(), state);
	PBT_CHECK (threw == (!ok && (mask & flags)), "%s at %zu of %zu: %s", what.c_str(), pos, n, threw ? "threw" : "did not throw");
	PBT_CHECK (is.pos() == at, "%s at %zu of %zu moved to %zu, expected %zu", what.c_str(), pos, n, size_t(is.pos()), at);
	PBT_CHECK (is.remaining() == n-at, "remaining"); pos = at;
	if (!what.empty()) note ("%s -> %zu%s", what.c_str(), pos, ok ? "" : " refused");
    }
    for (size_t i = 0; i < n; ++i) PBT_CHECK (k.p[i] == b[i], "reading changed the source");
    s.nontrivial (refusals > 0 && pos > 0);
}
/// The same for output streams.
PBT_TEST (output_history, 14)
{
    size_t n = s.len (90); uint8_t* p = (uint8_t*) malloc (n ? n : 1); std::vector<uint8_t> img (n); for (size_t i = 0; i < n; ++i) img[i] = p[i] = uint8_t(i*7+1);
    uint32_t mask = s.among (masks); ustl::ostream os (p, n); os.exceptions (mask); size_t pos = 0; uint32_t state = 0; unsigned refusals = 0;
    note ("%zu bytes, exceptions %u", n, mask);
    for (unsigned ops = 1+s.below (24); ops--;) {
	s.step(); unsigned op = s.below (14); bool ok = true, threw = false; uint32_t flags = 0; size_t at = pos, rem0 = n-pos; std::string what;
	try { switch (op) {
	    case 0: case 1: { std::vector<uint8_t> w (s.below (n+4)); for (auto& c : w) c = s.below (256); what = pbt::fmt ("write %zu", w.size()); ok = w.size() <= n-pos; if (ok) { at += w.size(); if (w.size()) memcpy (&img[0]+pos, w.data(), w.size()); } os.write (w.data(), w.size()); break; }
	    case 2: { size_t q = s.chance (1,4) ? n+s.below (4) : s.chance (1,5) ? size_t(s.bits64()) : s.below (n+1); what = pbt::fmt ("seek %zu", q); ok = q <= n; if (ok) at = q; rem0 = n; os.seek (q); break; }
	    case 3: { size_t q = s.chance (1,6) ? size_t(s.bits64()) : s.below (n+4); what = pbt::fmt ("skip %zu", q); size_t t = pos+q; ok = t <= n; if (ok) at = t; rem0 = n; os.skip (q); break; }
	    case 4: { size_t g = size_t(1) << s.below (5); what = pbt::fmt ("align %zu", g); size_t t = (pos+g-1)/g*g; ok = t <= n; if (ok) { at = t; for (size_t i = pos; i < t; ++i) img[i] = 0; } os.align (g); break; }
	    case 5: { std::string w (s.below (n+3), 0); for (auto& c : w) c = 'a'+s.below (9); what = "write_strz"; ok = w.size()+1 <= n-pos; if (ok) { memcpy (&img[0]+pos, w.c_str(), w.size()+1); at += w.size()+1; } os.write_strz (w.c_str()); break; }
	    case 6: { off_t d = long(s.below (2*n+6))-long(n+3); what = pbt::fmt ("seekp %ld", long(d)); ok = long(pos)+d >= 0 && pos+d <= n; if (ok) at = pos+d; rem0 = n; os.seekp (d, ustl::ios_base::cur); break; }
	    #define WR(id,T) case id: { if (asserting && pos % alignof(T)) break; what = "write " #T; T w = T(s.bits64()); ok = sizeof(T) <= n-pos; if (ok) { memcpy (&img[0]+pos, &w, sizeof(T)); at += sizeof(T); } os << w; break; }
	    WR (7,uint8_t) WR (8,uint16_t) WR (9,uint32_t) WR (10,uint64_t)
	    case 11: { string w; w.resize (s.below (n+3)); for (auto i = w.begin(); i < w.end(); ++i) *i = 'a'+s.below (9); Enc e; Cd<string>::enc (e, w); what = "write a string"; ok = e.b.size() <= n-pos; if (ok) { memcpy (&img[0]+pos, e.b.data(), e.b.size()); at += e.b.size(); } os << w; break; }
	    case 12: { uh::exact<uint8_t> w (s.below (n+3)); for (size_t i = 0; i < w.size(); ++i) w[i] = s.below (256); ustl::istream is (w.begin(), w.size()); what = "write a stream"; ok = w.size() <= n-pos; if (ok) { if (w.size()) memcpy (&img[0]+pos, w.begin(), w.size()); at += w.size(); } os << is; break; }
	    default: { os.clear(); state = 0; break; }
	} } catch (ustl::stream_bounds_exception& e) { threw = true; }
	if (!ok) { ++refusals; flags = ustl::ios_base::failbit | (rem0 ? 0 : ustl::ios_base::eofbit); state |= flags; }
	PBT_CHECK (os.rdstate() == state, "%s at %zu of %zu: state %u, expected %u", what.c_str(), pos, n, os.rdstate(), state);
	PBT_CHECK (threw == (!ok && (mask & flags)), "%s at %zu of %zu: %s", what.c_str(), pos, n, threw ? "threw" : "did not throw");
	PBT_CHECK (os.pos() == at, "%s at %zu of %zu moved to %zu, expected %zu", what.c_str(), pos, n, size_t(os.pos()), at); pos = at;
	for (size_t i = 0; i < n; ++i) PBT_CHECK (p[i] == img[i], "%s: byte %zu is %02x, expected %02x", what.c_str(), i, p[i], img[i]);
	if (!what.empty()) note ("%s -> %zu%s", what.c_str(), pos, ok ? "" : " refused");
    }
    free (p); s.nontrivial (refusals > 0 && pos > 0);
}
/// Iterators and UTF-8 adaptors over a stream that ends early.
PBT_TEST (iterators, 6)
{
    std::vector<uint8_t> b (s.len (60)); for (auto& c : b) c = s.chance (1,3) ? 0x80+s.below (128) : s.below (128); size_t n = b.size();
    Block k (b, s.coin()); uint32_t mask = s.coin() ? 0 : uint32_t(ustl::ios_base::allbadbits); ustl::istream is (k.p, k.n); is.exceptions (mask); unsigned w = s.below (3), seen = 0; bool threw = false;
    note ("%zu bytes: %s, exceptions %u, width %u", n, pbt::hex (b.data(), n).c_str(), mask, w);
    try { switch (w) {
	case 0: { ustl::istream_iterator<uint8_t> i (is), e; for (; !(i == e); ++seen, ++i) PBT_CHECK (*i == b[seen], "byte %u", seen); break; }
	case 1: { ustl::istream_iterator<uint32_t> i (is), e; for (; !(i == e); ++seen, ++i) PBT_CHECK (!memcmp (&*i, &b[seen*4], 4), "word %u", seen); break; }
	default: { for (unsigned x = 0; x < n && is.remaining(); ++x, ++seen) { (void) *ustl::utf8in (is); PBT_CHECK (is.pos() <= n, "position"); } break; }
    } } catch (ustl::stream_bounds_exception&) { threw = true; }
    PBT_CHECK (is.pos() <= n, "position"); if (w < 2) { PBT_CHECK (seen == n/(w ? 4 : 1), "%u elements of %zu bytes", seen, n); PBT_CHECK (threw == bool(mask) && is.fail(), "state at the end"); }
    s.nontrivial (n > 4);
}
/// Memory that is only linked cannot grow.
PBT_TEST (linked, 4)
{
    std::vector<uint8_t> img (s.len (40)); for (auto& c : img) c = s.below (256); uint8_t* p = (uint8_t*) malloc (img.size() ? img.size() : 1); memcpy (p, img.data(), img.size());
    Enc e; size_t n = s.below (45); uint32_t claim = s.chance (1,4) ? nasty (s, n) : n; e.raw (&claim, 4); for (size_t i = 0; i < n; ++i) e.b.push_back (s.below (256)); if (s.chance (3,4)) e.pad (4);
    Block k (e.b, true); ustl::istream is (k.p, k.n); ustl::memlink l (p, img.size()); bool thrown = false, refused = false; size_t have = e.b.size()-4;
    note ("%u claimed, %zu present, into %zu", claim, have, img.size());
    try { is >> l; } catch (ustl::length_error&) { thrown = true; } catch (ustl::stream_bounds_exception&) { refused = true; }
    if (claim > have) PBT_CHECK (refused, "more than the stream has: not refused");
    else if (claim > img.size()) PBT_CHECK (thrown && l.size() == img.size(), "more than the memory linked to: no length_error");
    else { PBT_CHECK (l.size() == claim && (uint8_t*)l.begin() == p, "size"); if (claim) memcpy (img.data(), &e.b[4], claim); PBT_CHECK (refused == ((claim+3)/4*4 > have), "alignment past the end"); }
    PBT_CHECK (img.empty() || !memcmp (p, img.data(), img.size()), "contents of the linked memory"); PBT_CHECK (is.pos() <= is.size(), "position");
    free (p); s.nontrivial (claim != n || n > img.size());
}
/// Exceptions and backtraces from arbitrary bytes (their formats are checked by assertions, which are off in the release flavor).
template <typename E> static void exc_hostile (Src& s, E& x, E& y, const char* tn)
{
    memblock m (ustl::Align (x.stream_size())+16); ustl::ostream os (m); x.write (os); std::vector<uint8_t> b ((uint8_t*)m.begin(), (uint8_t*)m.begin()+os.pos()); size_t full = b.size(); bool cut = s.coin();
    if (cut) b.resize (s.below (full)); else mutate (s, b, 0);
    if (s.chance (1,6)) { b.resize (s.below (80)); for (auto& c : b) c = s.below (256); cut = false; }
    note ("%s: %zu bytes: %s", tn, b.size(), pbt::hex (b.data(), b.size()).c_str());
    Block k (b, true); ustl::istream is (k.p, k.n); bool threw = false; long h = pbt::heap_bytes();
    try { is >> y; } catch (ustl::stream_bounds_exception&) { threw = true; } catch (ustl::length_error&) { threw = true; }
    PBT_CHECK (is.pos() <= is.size(), "%s: position %zu of %zu", tn, size_t(is.pos()), size_t(is.size()));
    PBT_CHECK (!cut || threw, "%s: %zu of %zu bytes were accepted", tn, b.size(), full);
    PBT_CHECK (long(pbt::heap_bytes()-h) < 65536+long(b.size())*64, "%s: allocated %ld bytes", tn, long(pbt::heap_bytes()-h));
    ustl::string t; y.info (t); (void) y.what(); s.nontrivial (b.size() > 8);
}
PBT_TEST (exceptions, 8)
{
    if (asserting) { // the backtrace alone has no such assertions
	ustl::CBacktrace x, y; memblock m (ustl::Align (x.stream_size(), 8)+16); ustl::ostream os (m); x.write (os); std::vector<uint8_t> b ((uint8_t*)m.begin(), (uint8_t*)m.begin()+os.pos()); size_t full = b.size(); bool cut = s.coin();
	if (cut) b.resize (s.below (full)); else mutate (s, b, 0);
	Block k (b, true); ustl::istream is (k.p, k.n); bool threw = false; try { y.read (is); } catch (ustl::stream_bounds_exception&) { threw = true; } catch (ustl::length_error&) { threw = true; }
	PBT_CHECK (is.pos() <= is.size(), "position"); PBT_CHECK (!cut || threw, "%zu of %zu bytes were accepted", b.size(), full);
	memblock t (1<<16); ustl::ostringstream ts; y.text_write (ts); ustl::CBacktrace z (y); s.nontrivial (b.size() > 8); return;
    }
    ustl::string op; op.resize (s.below (20)); for (auto i = op.begin(); i < op.end(); ++i) *i = 'a'+s.below (26);
    switch (s.below (7)) {
	case 0: { ustl::bad_alloc x (s.below (100000)), y (1); exc_hostile (s, x, y, "bad_alloc"); break; }
	case 1: { ustl::exception x, y; exc_hostile (s, x, y, "exception"); break; }
	case 2: { ustl::runtime_error x (op.c_str()), y (""); exc_hostile (s, x, y, "runtime_error"); break; }
	case 3: { errno = s.below (140); ustl::system_error x (op.c_str()), y (""); exc_hostile (s, x, y, "system_error"); break; }
	case 4: { errno = s.below (140); ustl::file_exception x (op.c_str(), s.coin() ? "/some/file" : op.c_str()), y ("", ""); exc_hostile (s, x, y, "file_exception"); break; }
	case 5: { ustl::stream_bounds_exception x (op.c_str(), "some type", s.below (1000), s.below (1000), s.below (100)), y ("", "", 0, 0, 0); exc_hostile (s, x, y, "stream_bounds_exception"); break; }
	default: { ustl::invalid_argument x (op.c_str()), y (""); exc_hostile (s, x, y, "invalid_argument"); break; }
    }
}
