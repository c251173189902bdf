// C14: binary streams give back what was written, and announce its size.
#include "codec.h"

struct Out { // an exactly sized buffer, 16 byte aligned, and the image it should have
    size_t n; uint8_t* p; std::vector<uint8_t> want;
    explicit Out (size_t sz) : n(sz), p ((uint8_t*) malloc (sz ? sz : 1)), want (sz) { for (size_t i = 0; i < n; ++i) want[i] = p[i] = uint8_t(i*31+7); }
    ~Out (void) { free (p); }
    void check (const char* what) { for (size_t i = 0; i < n; ++i) PBT_CHECK (p[i] == want[i], "%s: byte %zu is %02x, expected %02x", what, i, p[i], want[i]); }
};

template <typename T> static std::vector<uint8_t> bytes_of (const T& v) { Enc e; Cd<T>::enc (e, v); return e.b; }

template <typename T> static void one_case (Src& s, const char* tn)
{
    size_t before = 16*s.below(3), surplus = s.coin() ? 0 : s.below(20);
    s.scaled (70000, 15, 2); T v (Cd<T>::gen (s, 0)); Enc e; Cd<T>::enc (e, v); size_t n = e.b.size();
    note ("%s, %zu bytes at %zu", tn, n, before);
    size_t announced = ustl::stream_size_of (v);
    if (!e.misplaced) PBT_CHECK (announced == n, "%s: announced %zu bytes, expected %zu", tn, announced, n);
    else { PBT_CHECK (announced >= n, "%s: announced %zu bytes, wrote %zu", tn, announced, n); surplus += announced-n; }
    Out o (before+n+surplus); memcpy (o.want.data()+before, e.b.data(), n);
    { ustl::ostream os (o.p, o.n); os.skip (before); PBT_CHECK (os.pos() == before, "skip"); os << v; PBT_CHECK (os.pos() == before+n, "%s: wrote %td bytes, expected %zu", tn, ptrdiff_t(os.pos()-before), n); PBT_CHECK (os.good() && os.remaining() == surplus, "remaining"); }
    o.check (tn);
    T w (s.coin() ? Cd<T>::gen (s, 0) : T());
    { ustl::istream is (o.p, o.n); is.skip (before); is >> w; PBT_CHECK (is.pos() == before+n, "%s: read %td bytes of %zu", tn, ptrdiff_t(is.pos()-before), n); PBT_CHECK (is.good() && is.remaining() == surplus, "state after reading"); }
    o.check ("reading");
    PBT_CHECK (bytes_of (w) == e.b, "%s: read back a different value", tn);
    s.nontrivial (n > 4);
}
template <typename T> static void twice_case (Src& s, const char* tn)
{ // written to growing blocks of the announced size, as a file format would be
    vector<T> vs; size_t k = 1+s.below(5), total = 0; Enc e;
    for (size_t i = 0; i < k; ++i) { T v (Cd<T>::gen (s, 1)); vs.push_back (v); e.pad (Cd<T>::ta()); total = ustl::Align (total, Cd<T>::ta()); Cd<T>::enc (e, v); total += ustl::stream_size_of (v); }
    if (!e.misplaced) PBT_CHECK (total == e.b.size(), "%s: %zu values announced %zu bytes, expected %zu", tn, k, total, e.b.size());
    memblock b (cmax (total, e.b.size())); total = e.b.size(); ustl::ostream os (b);
    for (size_t i = 0; i < k; ++i) os << ustl::ios::align (Cd<T>::ta()) << vs[i];
    PBT_CHECK (os.pos() == total, "%s: wrote %zu of %zu", tn, size_t(os.pos()), total);
    PBT_CHECK (total == 0 || !memcmp (b.begin(), e.b.data(), total), "%s: bytes differ", tn);
    { ustl::istream i2 (os); PBT_CHECK (i2.size() == total && i2.pos() == 0, "istream of what was written"); } ustl::istream is (b);
    T w; for (size_t i = 0; i < k; ++i) { is >> ustl::ios::align (Cd<T>::ta()) >> w; PBT_CHECK (bytes_of (w) == bytes_of (vs[i]), "%s: value %zu of %zu read back differs", tn, i, k); }
    PBT_CHECK (is.pos() == total, "%s: reading ends at %zu of %zu", tn, size_t(is.pos()), total);
    s.nontrivial (k > 1);
}
#define FN1(...) [](Src& s) { one_case<__VA_ARGS__> (s, #__VA_ARGS__); },
#define FN2(...) [](Src& s) { twice_case<__VA_ARGS__> (s, #__VA_ARGS__); },
typedef void (*casefn)(Src&);
PBT_TEST (single, 20) { static const casefn f[] = { STREAMED_TYPES(FN1) }; s.among (f) (s); }
PBT_TEST (series, 12) { static const casefn f[] = { STREAMED_TYPES(FN2) }; s.among (f) (s); }

/// Histories of values, raw bytes, alignment, skips and seeks against a byte image.
PBT_TEST (history, 16)
{
    size_t cap = 200+s.below(600); Out o (cap); ustl::ostream os (o.p, cap); size_t pos = 0, back = 0, ops = 0;
    struct Item { unsigned k; size_t at; std::vector<uint8_t> b; }; std::vector<Item> items;
    auto put = [&](unsigned k, const std::vector<uint8_t>& b) { memcpy (o.want.data()+pos, b.data(), b.size()); items.push_back (Item { k, pos, b }); pos += b.size(); };
    auto overlap = [&](size_t from, size_t to) { std::vector<Item> k; for (auto& i : items) if (i.at+i.b.size() <= from || i.at >= to) k.push_back (i); items = k; };
    for (unsigned n = 1+s.below(30); n--;) {
	s.step(); unsigned k = s.below(20);
	#define VAL(id,T) case id: { T v (Cd<T>::gen (s, 1)); size_t a = Cd<T>::ta(), at = (pos+a-1)/a*a; std::vector<uint8_t> b (bytes_of (v)); if (at+b.size() > cap) break; overlap (pos, at+b.size()); os << ustl::ios::align (a) << v; memset (o.want.data()+pos, 0, at-pos); pos = at; put (id, b); break; }
	switch (k) {
	    VAL (0,uint8_t) VAL (1,uint16_t) VAL (2,uint32_t) VAL (3,uint64_t) VAL (4,string) VAL (5,vector<uint16_t>) VAL (6,double) VAL (7,C2(pair<uint8_t,uint32_t>)) VAL (8,bool) VAL (9,memblock)
	    case 10: { std::vector<uint8_t> b (s.len (40)); for (auto& c : b) c = s.below(256); if (pos+b.size() > cap) break; overlap (pos, pos+b.size()); os.write (b.data(), b.size()); put (10, b); break; }
	    case 11: { std::string t = uh::rbytes (s, s.len (20)); t = t.c_str(); std::vector<uint8_t> b (t.c_str(), t.c_str()+t.size()+1); if (pos+b.size() > cap) break; overlap (pos, pos+b.size()); os.write_strz (t.c_str()); put (11, b); break; }
	    case 12: { size_t a = size_t(1) << s.below(5), at = (pos+a-1)/a*a; if (at > cap) break; overlap (pos, at); if (s.coin()) os.align (a); else os << ustl::ios::align (a); memset (o.want.data()+pos, 0, at-pos); pos = at; break; }
	    case 13: { size_t d = s.below(12); if (pos+d > cap) break; if (s.coin()) os.skip (d); else os << ustl::ios::skip (d); pos += d; break; }
	    case 14: { size_t to = s.below(pos+1); if (s.coin()) os.seek (to); else if (s.coin()) os.seekp (to); else os.seekp (long(to)-long(pos), ustl::ios_base::cur); pos = to; ++back; break; }
	    case 15: { uint64_t v = s.raw(); size_t at = (pos+3)/4*4; if (at+8 > cap) break; overlap (pos, at+8); unsigned long ul = v; os << ustl::ios::align (4) << ustl::long4grain (ul); memset (o.want.data()+pos, 0, at-pos); pos = at; put (15, std::vector<uint8_t> ((uint8_t*)&v, (uint8_t*)&v+8)); break; }
	    case 16: { std::vector<uint8_t> b (s.len (20)); for (auto& c : b) c = s.below(256); if (pos+b.size() > cap) break; overlap (pos, pos+b.size()); ustl::istream is (b.data(), b.size()); size_t sk = s.below(b.size()+1); is.skip (sk); if (s.coin()) { os.read (is); PBT_CHECK (is.remaining() == 0, "ostream::read leaves the source at its end"); } else os << is; b.erase (b.begin(), b.begin()+sk); put (10, b); break; }
	    case 17: { std::vector<uint8_t> b (s.len (20)); for (auto& c : b) c = s.below(256); if (pos+b.size() > cap) break; overlap (pos, pos+b.size()); ustl::cmemlink l (b.data(), b.size()); os.write (l); put (10, b); break; }
	    case 18: { wchar_t c = wchar_t (s.coin() ? s.below(128) : s.bits64() & 0x7fffffff); Enc e; utf8_num (e, c); if (pos+e.b.size() > cap) break; overlap (pos, pos+e.b.size()); *ustl::utf8out (os) = c; put (18, e.b); break; }
	    default: { std::vector<uint8_t> b (s.below(5)*2); for (auto& c : b) c = s.below(256); size_t at = (pos+1)/2*2; if (at+b.size() > cap) break; overlap (pos, at+b.size()); os.align (2); memset (o.want.data()+pos, 0, at-pos); pos = at; ustl::ostream_iterator<uint16_t> it (os); for (size_t i = 0; i < b.size(); i += 2) { uint16_t x; memcpy (&x, &b[i], 2); *it = x; ++it; } put (19, b); break; }
	}
	PBT_CHECK (os.pos() == pos && os.remaining() == cap-pos && size_t(os.tellp()) == pos, "operation %u: position %zu, expected %zu", k, size_t(os.pos()), pos);
	PBT_CHECK (os.ipos() == (char*)o.p+pos, "ipos"); ++ops;
    }
    o.check ("writing");
    // everything still there reads back, in any order
    ustl::istream is (o.p, cap);
    for (size_t r = 0; r < items.size(); ++r) {
	const Item& i = s.chance (1,3) ? items[s.below(items.size())] : items[r];
	switch (s.below(4)) { case 0: is.seek (i.at); break; case 1: is.seekg (i.at); break; case 2: is.seekg (long(i.at)-long(is.pos()), ustl::ios_base::cur); break; default: is.iseek (is.begin()+i.at); }
	#define RD(id,T) case id: { T w (s.coin() ? Cd<T>::gen (s, 1) : T()); is >> w; PBT_CHECK (bytes_of (w) == i.b, #T " at %zu reads back differently", i.at); break; }
	switch (i.k) {
	    RD (0,uint8_t) RD (1,uint16_t) RD (2,uint32_t) RD (3,uint64_t) RD (4,string) RD (5,vector<uint16_t>) RD (6,double) RD (7,C2(pair<uint8_t,uint32_t>)) RD (8,bool) RD (9,memblock)
	    case 10: { uh::exact<uint8_t> w (i.b.size()); switch (s.below(3)) { case 0: is.read (w.begin(), i.b.size()); break; case 1: { ustl::memlink l (w.begin(), i.b.size()); is.read (l); break; } default: PBT_CHECK (is.readsome (w.begin(), i.b.size()) == i.b.size(), "readsome"); } PBT_CHECK (!i.b.size() || !memcmp (w.begin(), i.b.data(), i.b.size()), "raw bytes at %zu", i.at); break; }
	    case 11: { string w (s.coin() ? "before" : ""); is.read_strz (w); PBT_CHECK (std::string (w.c_str(), w.size()) == (const char*) i.b.data(), "nul-terminated string reads back as '%s'", w.c_str()); break; }
	    case 15: { unsigned long w = 0; is >> ustl::long4grain (w); PBT_CHECK (!memcmp (&w, i.b.data(), 8), "long4grain"); break; }
	    case 18: { Enc e; utf8_num (e, uint32_t(*ustl::utf8in (is))); PBT_CHECK (e.b == i.b, "character"); break; }
	    case 19: if (i.b.size()) { ustl::istream_iterator<uint16_t> it (is); for (size_t j = 0;;) { uint16_t x = *it; PBT_CHECK (!memcmp (&x, &i.b[j], 2), "iterated element %zu", j/2); if ((j += 2) >= i.b.size()) break; ++it; } } break;
	}
	PBT_CHECK (is.pos() == i.at+i.b.size() && is.remaining() == cap-is.pos() && size_t(is.tellg()) == is.pos(), "read of kind %u at %zu ends at %zu, expected %zu", i.k, i.at, size_t(is.pos()), i.at+i.b.size());
	if (is.pos() && s.chance (1,8)) { size_t p = is.pos(); is.ungetc(); PBT_CHECK (is.pos() == p-1 && (const char*)is.ipos() == (char*)o.p+p-1, "ungetc"); }
	if (s.chance (1,6)) { size_t a = size_t(1) << s.below(5), p = is.pos(), at = (p+a-1)/a*a; if (at <= cap) { PBT_CHECK (is.align_size (a) == at-p && is.aligned (a) == (at == p), "align_size"); is.align (a); PBT_CHECK (is.pos() == at, "align"); } }
    }
    PBT_CHECK (is.good() && os.good(), "state"); o.check ("reading");
    s.nontrivial (items.size() > 2 && back);
}
/// Insertion and erasure in an output stream, copies, swaps and relinks.
PBT_TEST (streams, 4)
{
    size_t cap = 30+s.below(60); Out o (cap), o2 (cap); ustl::ostream os (o.p, cap), other (o2.p, cap); size_t pos = 0;
    for (unsigned n = 1+s.below(8); n--;) switch (s.below(4)) {
	case 0: { std::vector<uint8_t> b (s.below(12)); for (auto& c : b) c = s.below(256); if (pos+b.size() > cap) break; os.write (b.data(), b.size()); memcpy (o.want.data()+pos, b.data(), b.size()); pos += b.size(); break; }
	case 1: { size_t at = s.below(pos+1), n2 = s.below(8); if (pos+n2 > cap || at+n2 > cap) break; os.insert (os.begin()+at, n2); memmove (o.want.data()+at+n2, o.want.data()+at, cap-at-n2); memcpy (o.want.data()+at, o.p+at, n2); pos += n2; break; }
	case 2: { size_t at = s.below(pos+1), n2 = s.below(pos-at+1); os.erase (os.begin()+at, n2); memmove (o.want.data()+at, o.want.data()+at+n2, cap-at-n2); memcpy (o.want.data()+cap-n2, o.p+cap-n2, n2); pos -= n2; break; }
	default: { os.swap (other); PBT_CHECK ((uint8_t*)os.begin() == o2.p && os.pos() == 0 && other.pos() == pos && (uint8_t*)other.begin() == o.p, "swap of streams"); os.swap (other); break; }
    }
    PBT_CHECK (os.pos() == pos, "position"); o.check ("insert or erase"); o2.check ("the other stream");
    { size_t k = s.chance (1,6) ? s.below (100000) : s.below (700), g = size_t(1) << s.below (17); PBT_CHECK (ustl::stream_size_of (ustl::ios::skip (k)) == k && ustl::stream_size_of (ustl::ios::align (g)) == g-1, "size of skipping %zu, of aligning to %zu", k, g); } PBT_CHECK (ustl::stream_size_of (os) == pos, "size of a stream"); ustl::ostream t (o2.p, cap); t << os; PBT_CHECK (t.pos() == pos && (!pos || !memcmp (o2.p, o.p, pos)), "a stream written to a stream");
    ustl::istream a (o.p, cap), b (o2.p, cap); size_t p = s.below(cap+1); a.seek (p); a.swap (b); PBT_CHECK (b.pos() == p && a.pos() == 0 && (const uint8_t*)b.begin() == o.p, "swap"); PBT_CHECK (ustl::stream_size_of (b) == cap-p, "size of what is left");
    b.link (o2.p, cap/2); PBT_CHECK (b.pos() == 0 && b.remaining() == cap/2, "link starts at the beginning"); b.seek (cap/2); b.relink (o.p, cap/3); PBT_CHECK (b.pos() == 0 && b.remaining() == cap/3, "relink starts at the beginning"); b.seek (cap/3); b.unlink(); PBT_CHECK (b.pos() == 0 && b.remaining() == 0 && !b.size(), "unlink");
    os.link (o2.p, cap); PBT_CHECK (os.pos() == 0 && os.remaining() == cap, "link starts at the beginning"); os.seek (cap); os.unlink(); PBT_CHECK (os.pos() == 0 && !os.size(), "unlink");
    s.nontrivial (pos > 4);
}

/// Streams over more than 2 and 4 GB, most of it skipped.
PBT_TEST (far, 1)
{
    uh::Far m (s); if (!m) { label ("no memory to map"); return; }
    size_t L = m.n, W = 8+s.below (400), base = L-W, pos = 0, back = 0; std::vector<uint8_t> want (W); ustl::ostream os (m.p, L); note ("%zu bytes", L);
    auto start = [&] (void) { switch (s.below (5)) { case 0: os.seek (base); break; case 1: os.seekp (base); break; case 2: os.seekp (long(base)-long(os.pos()), ustl::ios_base::cur); break; case 3: if (os.pos() > base) os.seek (0); os.skip (base-os.pos()); break; default: if (os.pos() > base) os.seek (0); os << ustl::ios::skip (base-os.pos()); } pos = 0; };
    PBT_CHECK (os.size() == L && os.remaining() == L && ustl::stream_size_of (ustl::ios::skip (base)) == base, "a stream of %zu bytes has %zu", L, size_t(os.size())); start();
    for (unsigned n = 1+s.below (12); n--;) {
	s.step(); switch (s.below (6)) {
	    case 0: { std::vector<uint8_t> b (s.len (40)); for (auto& c : b) c = s.below(256); if (pos+b.size() > W) break; os.write (b.data(), b.size()); std::copy (b.begin(), b.end(), want.begin()+pos); pos += b.size(); break; }
	    case 1: { uint32_t v = uint32_t(s.bits64()); size_t at = (base+pos+3)/4*4-base; if (at+4 > W) break; os.align (4); std::fill (want.begin()+pos, want.begin()+at, 0); os << v; memcpy (&want[at], &v, 4); pos = at+4; break; }
	    case 2: { uint8_t v = s.below (256); if (pos+1 > W) break; os << v; want[pos++] = v; break; }
	    case 3: { size_t at = (base+pos+15)/16*16-base; if (at > W) break; PBT_CHECK (os.align_size (16) == at-pos && os.aligned (16) == (at == pos), "align_size at %zu", base+pos); os << ustl::ios::align (16); std::fill (want.begin()+pos, want.begin()+at, 0); pos = at; break; }
	    case 4: start(); ++back; break;
	    default: { size_t k = s.below (W-pos+1); os.skip (k); pos += k; } }
	PBT_CHECK (os.pos() == base+pos && os.remaining() == W-pos && size_t(os.tellp()) == base+pos && os.ipos() == m.p+base+pos && os.good(), "position %zu, not %zu", size_t(os.pos()), base+pos); }
    PBT_CHECK (!memcmp (m.p+base, want.data(), W), "what was written"); for (size_t i = 0; i < 4096; ++i) PBT_CHECK (!m.p[i], "byte %zu was written", i);
    PBT_CHECK (ustl::stream_size_of (os) == os.pos(), "size of what was written"); { ustl::istream i (os); PBT_CHECK (i.size() == os.pos() && !i.pos(), "a stream over %zu written bytes has %zu", size_t(os.pos()), size_t(i.size())); }
    ustl::istream is (m.p, L); if (s.coin()) { is.unlink(); is.link (m.p, L); } PBT_CHECK (is.size() == L && is.remaining() == L && ustl::stream_size_of (is) == L, "a stream of %zu bytes has %zu", L, size_t(is.size()));
    for (unsigned n = 1+s.below (8); n--;) {
	size_t at = s.below (W+1), k = s.below (W-at+1);
	switch (s.below (6)) { case 0: is.seek (base+at); break; case 1: is.seekg (base+at); break; case 2: is.seekg (long(base+at)-long(is.pos()), ustl::ios_base::cur); break; case 3: is.iseek (m.p+base+at); break; case 4: if (is.pos() > base+at) is.seek (0); is.skip (base+at-is.pos()); break; default: if (is.pos() > base+at) is.seek (0); is >> ustl::ios::skip (base+at-is.pos()); }
	PBT_CHECK (is.pos() == base+at && is.remaining() == W-at && size_t(is.tellg()) == base+at && is.ipos() == m.p+base+at, "position %zu, not %zu", size_t(is.pos()), base+at);
	uh::exact<uint8_t> b (k); if (s.coin()) is.read (b.begin(), k); else { size_t r = is.readsome (b.begin(), k); PBT_CHECK (r == k, "readsome of %zu gives %zu", k, r); } PBT_CHECK (!k || !memcmp (b.begin(), &want[at], k), "%zu bytes at %zu differ", k, base+at); PBT_CHECK (is.pos() == base+at+k && is.good(), "read of %zu at %zu ends at %zu", k, base+at, size_t(is.pos()));
	if (is.pos() && s.coin()) { size_t p = is.pos(); is.ungetc(); PBT_CHECK (is.pos() == p-1, "ungetc"); } if (s.coin()) { size_t p = is.pos(), al = (p+7)/8*8; if (al <= L) { PBT_CHECK (is.align_size (8) == al-p && is.aligned (8) == (al == p), "align_size at %zu", p); is.align (8); PBT_CHECK (is.pos() == al, "align"); } } }
    // what does not fit is refused
    { is.exceptions (0); os.exceptions (0); size_t left = s.below (W); is.seek (L-left); is.clear(); uh::exact<uint8_t> b (left+1+s.below (5)); is.read (b.begin(), b.size()); PBT_CHECK (is.fail() && is.pos() == L-left, "a read of %zu of %zu bytes", b.size(), left); is.clear(); is.seek (L+1+s.below (9)); PBT_CHECK (is.fail() && is.pos() == L-left, "a seek beyond the end"); is.clear(); is.skip (left+1); PBT_CHECK (is.fail() && is.pos() == L-left, "a skip beyond the end");
      os.seek (L-left); os.clear(); os.write (b.begin(), b.size()); PBT_CHECK (os.fail() && os.pos() == L-left, "a write of %zu into %zu bytes", b.size(), left); }
    s.nontrivial (W > 20 && L > 0xffffffff); if (back) label ("back");
}

/// A map of 4 byte keys to 8 byte values announces more than it writes, and then does not read back from what was written.
PBT_KNOWN (padded_pairs)
{
    memblock b (64); ustl::ostream os (b); map<uint32_t,uint64_t> m; m[1] = 2; os << m; b.resize (os.pos());
    ustl::istream is (b); is.exceptions (0); map<uint32_t,uint64_t> r; is >> r;
    return is.fail() || r.size() != 1;
}
