// C16: text output produces the text the flags ask for and loses nothing.
#include <limits>
#include "uh.h"
#include <inttypes.h>

typedef ustl::ios_base B;
enum Plain { p0, p7 = 7, pbig = 100000 };
struct Named { int a; unsigned b; void text_write (ustl::ostringstream& os) const { os << '<' << a << '|' << b << '>'; } };
enum Look { l0, l1, l2 };
static const char* const looknames[] = { "zero", "one", "two" };
LOOKUP_TEXT_STREAMABLE (Look, looknames, 3)

/// What the stream should hold, and how it formats.
struct Model {
    std::string t; size_t pos; uint32_t flags; unsigned width, prec; char fill; bool mid;
    Model (void) : t(), pos(0), flags(0), width(0), prec(2), fill(0), mid(false) {}
    void raw (const void* p, size_t n) { if (pos+n > t.size()) t.resize (pos+n); if (n) memcpy (&t[pos], p, n); pos += n; }
    void raw (const std::string& s) { raw (s.data(), s.size()); }
    void formatted (const std::string& s) { mid = mid || pos+s.size() < t.size(); raw (s); }
    std::string spec (const char* len, char conv, bool integer) const {
	std::string f ("%"); if (flags & B::left) f += '-'; if (integer && (flags & B::showpos)) f += '+'; if (integer && (flags & B::showbase)) f += '#'; if (fill == '0' && width) f += '0'; f += '*'; if (!integer) f += ".*"; return f+len+conv; }
    template <typename T> std::string num (const char* len, T v) const {
	char c = std::is_signed<T>::value ? 'd' : 'u'; if (flags & B::hex) c = flags & B::uppercase ? 'X' : 'x'; else if (flags & B::oct) c = 'o';
	char b [70000]; snprintf (b, sizeof(b), spec (len, c, true).c_str(), int(width), v); return b; }
    template <typename T> std::string flt (const char* len, T v) const { char b [80000]; snprintf (b, sizeof(b), spec (len, flags & B::scientific ? 'E' : 'f', false).c_str(), int(width), int(prec), v); return b; }
};
template <typename T> static T edge (Src& s)
{
    typedef typename std::make_unsigned<T>::type U;
    switch (s.below (7)) { case 0: return std::numeric_limits<T>::min(); case 1: return std::numeric_limits<T>::max(); case 2: return T(s.below (20)); case 3: return T(U(0)-U(s.below (20))); case 4: return T(U(1) << s.below (8*sizeof(T))); case 5: { static const uint64_t d[] = {9,10,99,100,999,1000,9999,10000,99999,1000000,4294967295u,4294967296ull,9999999999ull}; return T(s.among (d)); } default: return T(s.bits64()); }
}
template <typename T> static T fedge (Src& s, bool big)
{
    switch (s.below (8)) { case 0: return 0; case 1: return T(-0.0); case 2: return std::numeric_limits<T>::infinity()*(s.coin() ? 1 : -1); case 3: return std::numeric_limits<T>::quiet_NaN(); case 4: return T(int(s.below (2000))-1000)/8; case 5: return big ? (s.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::denorm_min()) : T(0.5); case 6: return T(int64_t(s.bits64()))/1000000; default: return T(long(s.below (1000000)))*T(1.25); }
}
static std::string text (Src& s, size_t max)
{
    size_t n = s.chance (1,10) ? s.below (max+1) : max >= 4000 && s.chance (1,2000) ? 65500+s.below (100) : s.len (max < 60 ? max : 60); std::string r (n, ' '); unsigned m = s.below (3); char base = 'a'+s.below (20);
    for (size_t i = 0; i < n; ++i) r[i] = m == 0 ? char(base+i%6) : m == 1 ? char(1+(base*7+i*11)%255) : char(s.below (94)+33); return r;
}
template <typename C> static std::string joined (const C& c, std::string (*f)(const typename C::value_type&)) { std::string r ("("); bool first = true; for (auto i = c.begin(); i != c.end(); ++i) { if (!first) r += ','; first = false; r += f (*i); } return r+")"; }
static const Model* cur;
static std::string ft_int (const int& v) { return cur->num ("", v); }
static std::string ft_us (const uint16_t& v) { return cur->num ("h", v); }
static std::string ft_u64 (const uint64_t& v) { return cur->num ("l", v); }
static std::string ft_str (const ustl::string& v) { return std::string (v.c_str(), v.size()); }
static std::string ft_u8 (const uint8_t& v) { return isprint (v) ? std::string ("'")+char(v)+"'" : std::to_string (int(v)); }
static std::string ft_bool (const bool& v) { return v ? "true" : "false"; }
static std::string ft_dbl (const double& v) { return cur->flt ("l", v); }
static std::string ft_vi (const ustl::vector<int>& v) { return joined (v, ft_int); }
static std::string ft_pair (const ustl::pair<ustl::string,int>& v) { return "("+ft_str (v.first)+","+ft_int (v.second)+")"; }

/// One write; returns false when there was nothing to do.
static void write_one (Src& s, ustl::ostringstream& os, Model& m, size_t maxtext)
{
    cur = &m; bool fl = !(m.flags & (B::showpos|B::showpoint|B::uppercase)); unsigned op = s.pick ({5,8,4,3,3,4,4,3,4,6,3}); note ("write of kind %u at %zu, flags %x width %u fill %d precision %u", op, m.pos, m.flags, m.width, m.fill, m.prec);
    switch (op) {
	case 0: { std::string t (text (s, maxtext)); if (t.find ('\0') != std::string::npos) break; os << t.c_str(); m.raw (t); break; }
	case 1: switch (s.below (8)) {
	    #define INT(id,T,len) case id: { T v = edge<T> (s); note (#T " %lld width %u flags %x fill %d", (long long) v, m.width, m.flags, m.fill); os << v; m.formatted (m.num (len, v)); break; }
	    INT(0,short,"h") INT(1,unsigned short,"h") INT(2,int,"") INT(3,unsigned,"") INT(4,long,"l") INT(5,unsigned long,"l") INT(6,long long,"ll") INT(7,unsigned long long,"ll") } break;
	case 2: if (!fl) break; switch (s.below (3)) {
	    case 0: { float v = fedge<float> (s, true); os << v; m.formatted (m.flt ("", v)); break; }
	    case 1: { double v = fedge<double> (s, true); os << v; m.formatted (m.flt ("l", v)); break; }
	    default: { long double v = fedge<long double> (s, s.chance (1,8)); os << v; m.formatted (m.flt ("L", v)); break; } } break;
	case 3: switch (s.below (5)) {
	    case 0: { bool v = s.coin(); os << v; m.raw (v ? "true" : "false", v ? 4 : 5); break; }
	    case 1: { char v = char(s.below (256)); os << v; m.raw (&v, 1); break; }
	    case 2: { unsigned char v = s.below (256); os << v; m.raw (&v, 1); break; }
	    case 3: { signed char v = (signed char) s.below (256); os << v; m.raw (&v, 1); break; }
	    default: { char v = char(s.below (256)); os.put (v); m.raw (&v, 1); break; } } break;
	case 4: { std::string t (text (s, maxtext)); switch (s.below (3)) { case 0: { ustl::string u (t.data(), t.size()); os << u; break; } case 1: os.write (t.data(), t.size()); break; default: { ustl::cmemlink l (t.data(), t.size()); if (s.coin()) os.write (l); else os << l; } } m.raw (t); break; }
	case 5: { std::string t (text (s, maxtext)); int v = edge<int> (s); for (auto& c : t) if (!c || (unsigned char)c > 126) c = 'q'; char b[64]; snprintf (b, sizeof b, "%d", v); int r, want = t.size()+strlen(b)+2; note ("format of %zu characters at %zu", t.size(), m.pos);
	    if (s.coin()) { r = os.format ("<%s%d>", t.c_str(), v); m.formatted ("<"+t+b+">"); } else { r = os.format ("%s", t.c_str()); want = t.size(); m.formatted (t); } PBT_CHECK (r == want, "format returned %d for %d characters", r, want); break; }
	case 6: { wchar_t c = s.coin() ? wchar_t (0x80+s.below (0x10000)) : wchar_t (1+s.below (0x10ffff)); os << c; char b[8]; size_t n = 0; uint32_t v = c; if (v < 0x80) b[n++] = v; else if (v < 0x800) { b[n++] = 0xc0|v>>6; b[n++] = 0x80|(v&0x3f); } else if (v < 0x10000) { b[n++] = 0xe0|v>>12; b[n++] = 0x80|((v>>6)&0x3f); b[n++] = 0x80|(v&0x3f); } else { b[n++] = 0xf0|v>>18; b[n++] = 0x80|((v>>12)&0x3f); b[n++] = 0x80|((v>>6)&0x3f); b[n++] = 0x80|(v&0x3f); } m.raw (b, n); break; }
	case 7: switch (s.below (4)) { case 0: os << ustl::endl; m.raw ("\n", 1); m.t.resize (m.pos); m.mid = false; break; case 1: os << ustl::flush; m.t.resize (m.pos); m.mid = false; break; case 2: os << ustl::ends; m.raw ("", 1); break; default: os.flush(); m.t.resize (m.pos); m.mid = false; } break;
	case 8: switch (s.below (6)) {
	    case 0: { const void* p = (const void*) uintptr_t(s.bits64()); os << p; m.formatted (m.num ("l", (unsigned long) p)); break; }
	    case 1: { static const Plain e[] = { p0, p7, pbig }; Plain v = s.among (e); os << v; m.formatted (m.num ("", int(v))); break; }
	    case 2: { Named v { edge<int> (s), edge<unsigned> (s) }; os << v; m.raw ("<", 1); m.formatted (m.num ("", v.a)); m.raw ("|", 1); m.formatted (m.num ("", v.b)); m.raw (">", 1); break; }
	    case 3: { Look v = Look (s.below (3)); os << v; m.raw (looknames[v]); break; }
	    case 4: { std::string t (text (s, 30)); uh::exact<char> x (t); ustl::istream is (x.begin(), x.size()); size_t k = s.below (t.size()+1); is.skip (k); is.text_write (os); m.raw (t.substr (k)); break; }
	    default: { std::string t (text (s, 30)); uh::exact<char> x (t); ustl::ostream o2 (x.begin(), x.size()); size_t k = s.below (t.size()+1); o2.skip (k); o2.text_write (os); m.raw (t.substr (0, k)); break; } } break;
	case 9: { size_t n = s.len (8); switch (s.below (fl ? 13 : 12)) {
	    case 0: { ustl::vector<int> v; while (n--) v.push_back (edge<int> (s)); os << v; m.formatted (joined (v, ft_int)); break; }
	    case 1: { ustl::vector<uint16_t> v; while (n--) v.push_back (edge<uint16_t> (s)); os << v; m.formatted (joined (v, ft_us)); break; }
	    case 2: { ustl::set<int> v; while (n--) v.insert (edge<int> (s)); os << v; m.formatted (joined (v, ft_int)); break; }
	    case 3: { ustl::vector<uint8_t> v; while (n--) v.push_back (s.below (256)); os << v; m.formatted (joined (v, ft_u8)); break; }
	    case 4: { ustl::vector<ustl::string> v; while (n--) { std::string t (text (s, 20)); ustl::string x (t.data(), t.size()); x.copy_link(); v.push_back (x); } m.formatted (joined (v, ft_str)); os << v; break; }
	    case 5: { ustl::map<ustl::string,int> v; while (n--) { std::string k (text (s, 8)); ustl::string x (k.data(), k.size()); x.copy_link(); v[x] = edge<int> (s); } os << v; m.formatted (joined (v, ft_pair)); break; }
	    case 6: { ustl::tuple<3,int> v (edge<int> (s), edge<int> (s), edge<int> (s)); os << v; m.formatted (joined (v, ft_int)); break; }
	    case 7: { ustl::array<uint64_t,2> v; v[0] = edge<uint64_t> (s); v[1] = edge<uint64_t> (s); os << v; m.formatted (joined (v, ft_u64)); break; }
	    case 8: { ustl::bitset<37> v; std::string t; for (unsigned i = 37; i--;) { bool x = s.coin(); v.set (i, x); t += char('0'+x); } os << v; m.raw (t); break; }
	    case 9: { ustl::vector<bool> v; while (n--) v.push_back (s.coin()); os << v; m.formatted (joined (v, ft_bool)); break; }
	    case 10: { ustl::vector<ustl::vector<int> > v; for (n = s.below (4); n--;) { ustl::vector<int> w; for (unsigned k = s.below (4); k--;) w.push_back (edge<int> (s)); v.push_back (w); } os << v; m.formatted (joined (v, ft_vi)); break; }
	    case 11: { ustl::list<int> v; while (n--) v.push_back (edge<int> (s)); os << v; m.formatted (joined (v, ft_int)); break; }
	    default: { ustl::matrix<2,2,double> v; std::string t; for (unsigned i = 0; i < 4; ++i) { v[i/2][i%2] = fedge<double> (s, false); } t = "("; for (unsigned i = 0; i < 2; ++i) t += "("+ft_dbl (v[i][0])+","+ft_dbl (v[i][1])+")"; os << v; m.formatted (t+")"); break; } } break; }
	default: { ustl::memblock b (s.len (20)); for (auto i = b.begin(); i < b.end(); ++i) *i = 'A'+s.below (26); os << b; m.raw (b.begin(), b.size()); }
    }
}
static void set_format (Src& s, ustl::ostringstream& os, Model& m, bool wide)
{
    switch (s.below (10)) {
	case 0: case 1: { static const B::fmtflags_bits f[] = { B::dec, B::oct, B::hex }; auto v = s.among (f); switch (s.below (3)) { case 0: os << v; break; case 1: { uint32_t o = os.setf (v, B::basefield); (void) o; break; } default: os << ustl::ios::base (v == B::dec ? 10 : v == B::oct ? 8 : 16); } m.flags = (m.flags & ~B::basefield) | v; break; }
	case 2: { static const B::fmtflags_bits f[] = { B::left, B::right }; auto v = s.among (f); if (s.coin()) os << v; else os.setf (v, B::adjustfield); m.flags = (m.flags & ~B::adjustfield) | v; break; }
	case 3: { static const B::fmtflags_bits f[] = { B::fixed, B::scientific }; auto v = s.among (f); os << v; m.flags = (m.flags & ~B::floatfield) | v; break; }
	case 4: { static const B::fmtflags_bits f[] = { B::showbase, B::showpos, B::uppercase, B::boolalpha, B::skipws }; auto v = s.among (f); if (s.coin()) { switch (s.below (3)) { case 0: os << v; break; case 1: os.setf (v); break; default: os << ustl::setiosflags (v); } m.flags |= v; } else { if (s.coin()) os.unsetf (v); else os << ustl::resetiosflags (v); m.flags &= ~v; } break; }
	case 5: { unsigned w = wide && s.chance (1,20) ? s.below (3000) : s.below (40); if (s.chance (1,3)) w = 0; switch (s.below (4)) { case 0: os.width (w); break; case 1: os.set_width (w); break; case 2: os << ustl::setw (w); break; default: os << ustl::ios::width (w); } m.width = w; break; }
	case 6: { static const char f[] = { '0', ' ', 0 }; char c = s.among (f); if (s.coin()) os.fill (c); else os << ustl::setfill (c); m.fill = c; break; }
	case 7: { unsigned p = s.chance (1,12) ? s.below (256) : s.below (20); switch (s.below (3)) { case 0: os.precision (p); break; case 1: os.set_precision (p); break; default: os << ustl::setprecision (p); } m.prec = p; break; }
	case 8: { uint32_t o = os.flags (0); PBT_CHECK (o == m.flags, "flags() returned %x, expected %x", o, m.flags); m.flags = 0; break; }
	default: PBT_CHECK (os.flags() == m.flags && os.width() == m.width && os.precision() == m.prec && os.fill() == m.fill, "format state: flags %x width %u precision %u fill %d", os.flags(), os.width(), os.precision(), os.fill());
    }
}
static void check_text (ustl::ostringstream& os, Model& m, const char* when)
{
    PBT_CHECK (os.pos() == m.pos, "%s: position %zu, expected %zu", when, size_t(os.pos()), m.pos); PBT_CHECK (os.good(), "%s: state %u", when, os.rdstate());
    const ustl::string& t = os.str(); m.t.resize (m.pos); m.mid = false;
    PBT_CHECK (t.size() == m.t.size() && !memcmp (t.c_str(), m.t.data(), t.size()), "%s: %zu characters '%s', expected %zu '%s'", when, t.size(), pbt::esc (std::string (t.c_str(), t.size())).c_str(), m.t.size(), pbt::esc (m.t).c_str());
    PBT_CHECK (t.c_str()[t.size()] == 0, "%s: the text is not terminated", when); PBT_CHECK (os.pos() == m.pos, "%s: str() moved the position", when);
}
/// Histories on a growing stream.
PBT_TEST (growing, 24)
{
    Model m; ustl::string init; static const char lit[] = "literal text"; unsigned how = s.below (4);
    if (how == 1) init = text (s, 40).c_str(), init.copy_link(); else if (how == 2) init.link (lit, sizeof(lit)-1);
    ustl::string keep (init.c_str(), init.size()); keep.copy_link(); m.t.assign (init.c_str(), init.size());
    ustl::ostringstream os (init); size_t maxtext = s.chance (1,8) ? 5000 : 300; unsigned writes = 0;
    for (unsigned n = 1+s.below (40); n--;) {
	s.step(); unsigned op = s.pick ({14,8,2,2,1});
	switch (op) {
	    case 0: write_one (s, os, m, maxtext); ++writes; if (m.mid) { os.flush(); m.t.resize (m.pos); m.mid = false; } break;
	    case 1: set_format (s, os, m, true); break;
	    case 2: check_text (os, m, "in between"); break;
	    case 3: { size_t p = s.below (m.pos+1); note ("seekp %zu", p); os.seekp (p); m.pos = p; break; }
	    default: { std::string t (text (s, 50)); note ("str(%zu)", t.size()); { ustl::string u (t.data(), t.size()); os.str (u); } m.t = t; m.pos = t.size(); break; }
	}
    }
    check_text (os, m, "at the end"); PBT_CHECK (init.size() == keep.size() && !memcmp (init.c_str(), keep.c_str(), keep.size()), "writing changed the string the stream was made from");
    s.nontrivial (writes > 3 && m.pos > 40);
}
/// A stream over outside memory: nothing past its end, all of the text.
PBT_TEST (over_memory, 12)
{
    size_t n = s.len (120); uint8_t* p = (uint8_t*) malloc (n ? n : 1); for (size_t i = 0; i < n; ++i) p[i] = uint8_t(0xe0+i%16); Model m; bool later = s.coin();
    { ustl::ostringstream os (p, later ? 0 : n); if (later) { ustl::memlink l (p, n); os.link (l); } size_t inside = 0; bool left = false, fmted = false;
      for (unsigned k = 1+s.below (12); k--;) {
	s.step(); switch (s.pick ({10,6,2})) {
	    case 0: { size_t p0 = m.pos; write_one (s, os, m, 100); m.mid = false; if (m.pos > n || (m.pos == n && os.begin() != (char*)p)) left = true; if (!left && os.begin() == (char*)p) inside = m.pos; else if (!left) left = true; (void) p0; (void) fmted; break; }
	    case 1: set_format (s, os, m, false); break;
	    default: check_text (os, m, "in between");
	} }
      check_text (os, m, "at the end");
      size_t same = std::min (inside, n); for (size_t i = 0; i < same; ++i) PBT_CHECK (p[i] == (uint8_t) m.t[i], "byte %zu of the memory is %02x, expected %02x", i, p[i], (uint8_t) m.t[i]); }
    free (p); s.nontrivial (n > 4 && m.pos > n);
}
/// Single values in every combination of flags, also against the standard streams where they agree.
PBT_TEST (values, 10)
{
    ustl::ostringstream os; std::ostringstream st; Model m; for (unsigned k = 1+s.below (6); k--;) set_format (s, os, m, false);
    if (m.fill == '0' && (m.flags & B::left)) { m.fill = ' '; os.fill (' '); }
    if (m.flags & B::hex) st << std::hex; if (m.flags & B::oct) st << std::oct; if (m.flags & B::left) st << std::left; if (m.flags & B::uppercase) st << std::uppercase; if (m.flags & B::showpos) st << std::showpos; if (m.fill == '0') st << std::setfill ('0') << std::internal;
    st.width (m.width); bool cmp = true; std::string want;
    switch (s.below (6)) {
	case 0: { int v = edge<int> (s); os << v; st << v; want = m.num ("", v); break; }
	case 1: { unsigned v = edge<unsigned> (s); os << v; st << v; want = m.num ("", v); break; }
	case 2: { long v = edge<long> (s); os << v; st << v; want = m.num ("l", v); break; }
	case 3: { unsigned long long v = edge<unsigned long long> (s); os << v; st << v; want = m.num ("ll", v); break; }
	case 4: { short v = edge<short> (s); os << v; st << v; want = m.num ("h", v); break; }
	default: { double v = fedge<double> (s, false); if (m.flags & (B::showpos|B::uppercase)) s.discard(); os << v; if (m.flags & B::scientific) cmp = false; if (v != v || v-v != 0) cmp = false; st << std::fixed << std::setprecision (m.prec) << v; want = m.flt ("l", v); } }
    if (m.flags & B::showbase) cmp = false; // an unsigned zero has a base prefix in one and not in the other
    ustl::string t (os.str()); note ("'%s'", t.c_str()); PBT_CHECK (want == t.c_str(), "'%s', expected '%s'", t.c_str(), want.c_str());
    if (cmp) PBT_CHECK (st.str() == t.c_str(), "'%s', the standard stream gives '%s'", t.c_str(), st.str().c_str());
    s.nontrivial (m.flags && m.width);
}
