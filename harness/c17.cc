// C17: text input yields exactly the values in the text and consumes exactly their characters.
#include <limits>
#include "uh.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <errno.h>

typedef ustl::ios_base B;

/// What is read, and how far.
struct Model {
    std::string t; size_t pos; std::string delims; uint32_t flags;
    bool delim (char c) const { return delims.find (c) != std::string::npos || !c; }
    size_t skip (void) const { size_t p = pos; while (p < t.size() && delim (t[p])) ++p; return p; }
    int base (void) const { return flags & B::hex ? 16 : flags & B::oct ? 8 : flags & B::dec ? 10 : 0; }
};
static const char defdelims[] = " \t\n\r;:,.?";

static std::string number (Src& s)
{
    char b [128]; uint64_t v = s.coin() ? s.bits64() : s.below (1000); if (s.chance (1,3)) { static const uint64_t e[] = {0,1,127,128,255,256,32767,32768,65535,65536,2147483647u,2147483648u,4294967295u,4294967296ull,9223372036854775807ull,9223372036854775808ull,18446744073709551615ull}; v = s.among (e); }
    switch (s.below (10)) {
	case 0: snprintf (b, sizeof b, "%llu", (unsigned long long) v); break;
	case 1: snprintf (b, sizeof b, "%lld", (long long) v); break;
	case 2: snprintf (b, sizeof b, "-%llu", (unsigned long long) v>>1); break;
	case 3: snprintf (b, sizeof b, "0x%llx", (unsigned long long) v); break;
	case 4: snprintf (b, sizeof b, "%llX", (unsigned long long) v); break;
	case 5: snprintf (b, sizeof b, "0%llo", (unsigned long long) v); break;
	case 6: snprintf (b, sizeof b, "%.*f", int(s.below (6)), double(int64_t(v))/256); break;
	case 7: snprintf (b, sizeof b, "%.*e", int(s.below (18)), double(int64_t(v))*1e-30); break;
	case 8: { static const char* const w[] = { "inf", "-inf", "nan", "nan(12)", "0x1p-3", "1e", "1e+", "0x", "+7", "-", "+", "--5", "1.5.2", "00", "-0", "08", "0xg", "1_000", "infinity" }; return s.among (w); }
	default: snprintf (b, sizeof b, "%d", int(int16_t(v))); }
    return b;
}
static std::string wcharbytes (uint32_t v)
{
    std::string b; if (v < 0x80) b += char(v); else if (v < 0x800) { b += char(0xc0|v>>6); b += char(0x80|(v&0x3f)); } else if (v < 0x10000) { b += char(0xe0|v>>12); b += char(0x80|((v>>6)&0x3f)); b += char(0x80|(v&0x3f)); } else { b += char(0xf0|v>>18); b += char(0x80|((v>>12)&0x3f)); b += char(0x80|((v>>6)&0x3f)); b += char(0x80|(v&0x3f)); } return b;
}
static std::string token (Src& s)
{
    switch (s.pick ({6,4,3,2,1,1,2,1})) {
	case 0: return number (s);
	case 1: { std::string w; size_t n = 1+s.len (s.chance (1,10) ? 300 : 10); for (size_t i = 0; i < n; ++i) w += char(33+s.below (94)); return w; }
	case 2: { static const char* const w[] = { "true", "false", "1", "0", "tru", "fals", "trueX", "t", "f", "falsetrue", "yes", "tr\0ue" }; return s.among (w); }
	case 3: { std::string w (1, s.coin() ? '"' : '\''); char q = w[0]; size_t n = s.below (12); for (size_t i = 0; i < n; ++i) { static const char* const p[] = { "a", " ", ",", "\\t", "\\n", "\\\\", "\\\"", "\\'", "\\q", "\n", "'", "\"", "\\r", "\\b", "\\E", "zz" }; w += s.among (p); } if (s.chance (3,4)) w += q; return w; }
	case 4: { std::string w; size_t n = s.below (6); for (size_t i = 0; i < n; ++i) w += wcharbytes (s.coin() ? 0x80+s.below (0x800) : 1+s.below (0x1ffff)); return w; }
	case 5: { std::string w; size_t n = s.below (10); for (size_t i = 0; i < n; ++i) w += char(s.below (256)); return w; }
	case 6: { static const char* const w[] = { "\\", "\\\\", "a\\tb", "\\\\n", "x\\", "\\ b", "\\\"q" }; return s.among (w); }
	default: return std::string (s.chance (1,600) ? 65530+s.below (4000) : s.below (40), char('a'+s.below (3))); }
}
static std::string sample (Src& s, const std::string& delims)
{
    std::string r; size_t n = s.len (12); if (s.chance (1,12)) n += 60;
    for (size_t i = 0; i < n; ++i) {
	if (s.chance (1,6)) r += "\n";
	if (i || s.coin()) for (size_t k = s.chance (1,5) ? s.below (9) : 1; k--;) r += delims.empty() || s.chance (1,12) ? (s.coin() ? ' ' : '\0') : delims[s.below (delims.size())];
	r += token (s); }
    if (s.chance (1,3)) r += s.coin() ? "\n" : " ";
    return r;
}
template <typename T> static bool value_ok (const Model& m, const char* z, T v)
{
    errno = 0; char* e; long long l = strtoll (z, &e, m.base());
    if (!errno) return l < (long long) std::numeric_limits<T>::min() || (l > 0 && (unsigned long long) l > (unsigned long long) std::numeric_limits<T>::max()) || (l < 0 && std::is_unsigned<T>::value) || v == T(l);
    if (!std::is_unsigned<T>::value || sizeof(T) < 8 || strchr (z, '-')) return true;
    errno = 0; unsigned long long u = strtoull (z, &e, m.base()); return errno || v == T(u);
}
static bool same (double a, double b) { return (a != a && b != b) || a == b; }

template <typename IS> static inline size_t where (IS& is) { return is.pos(); }
static inline size_t where (ustl::ifstream& is) { return is.tellg(); }

/// One extraction by the stream and by the model.
template <typename IS> static void extract (Src& s, IS& is, Model& m, unsigned& got)
{
    bool dirty = s.chance (1,6); if (!dirty) is.clear();
    const unsigned op = s.pick ({8,3,2,2,4,1,3,3,4,3,2,2,3,2,2});
    const size_t p0 = m.pos, sz = m.t.size(); bool nothing = false, touched = false, full = false, bad = false; const char* what = "";
    note ("operation %u at %zu of %zu '%s', flags %x", op, m.pos, sz, pbt::esc (m.t.substr (m.pos, 24)).c_str(), m.flags);
    switch (op) {
	case 0: case 1: {
	    size_t p = m.skip(); std::string z (m.t.substr (p)); z.c_str(); char* e = (char*) z.c_str(); nothing = p == sz; what = "number";
	    if (op == 0) { if (!nothing) strtoll (z.c_str(), &e, m.base()); } else if (!nothing) strtod (z.c_str(), &e);
	    size_t n = e-z.c_str(); std::string num (z.substr (0, n)); bad = !nothing && !n;
	    switch (op*8+s.below (op ? 3 : 8)) {
		#define INT(id,T) case id: { T v = 77; is >> v; note (#T); PBT_CHECK (bad || nothing ? !v : value_ok (m, num.c_str(), v), "%s: '%s' was read as " #T " %lld", what, pbt::esc (num).c_str(), (long long) v); break; }
		INT(0,int) INT(1,unsigned) INT(2,short) INT(3,unsigned short) INT(4,long) INT(5,unsigned long) INT(6,long long) INT(7,unsigned long long)
		case 8: { double v = 77; is >> v; double w = strtod (num.c_str(), nullptr); PBT_CHECK (same (v, nothing ? 0 : w), "'%s' was read as double %a", pbt::esc (num).c_str(), v); break; }
		case 9: { float v = 77; is >> v; double w = strtod (num.c_str(), nullptr); PBT_CHECK (same (v, nothing ? 0 : float(w)), "'%s' was read as float %a", pbt::esc (num).c_str(), v); break; }
		default: { long double v = 77; is >> v; double w = strtod (num.c_str(), nullptr); PBT_CHECK (same (v, nothing ? 0 : w), "'%s' was read as long double %La", pbt::esc (num).c_str(), v); break; } }
	    m.pos = p+n; touched = m.pos == sz; break; }
	case 2: { size_t p = m.skip(); nothing = p == sz; char c = 'Z'; what = "character"; if (s.coin()) is >> c; else { unsigned char u = 'Z'; is >> u; c = u; } PBT_CHECK (c == (nothing ? 0 : m.t[p]), "character %d was read, not %d", c, nothing ? 0 : m.t[p]); m.pos = p+!nothing; break; }
	case 3: { size_t p = m.skip(); nothing = p == sz; bool v = true; is >> v; what = "boolean"; bool w = !nothing && (m.t[p] == 't' || m.t[p] == '1'); const char* tf = w ? "true" : "false"; size_t q = p; if (!nothing) { if (m.t[p] == *tf) { while (*tf && q < sz && m.t[q] == *tf) { ++q; ++tf; } touched = *tf && q == sz; } else ++q; } PBT_CHECK (v == w, "boolean %d was read", v); m.pos = q; break; }
	case 4: { size_t p = m.skip(); nothing = p == sz; std::string w; what = "word"; touched = true; size_t q = p; if (!nothing) { char quote = m.t[p] == '"' || m.t[p] == '\'' ? m.t[p] : 0; bool esc = false; if (!quote) { w += m.t[p]; esc = m.t[p] == '\\'; }
		for (q = p+1; q < sz;) { char c = m.t[q++]; if (!quote && m.delim (c)) { touched = false; break; }
		    if (esc && !w.empty()) { static const char from[] = "tnrbE\"'\\", to[] = "\t\n\r\b\33\"'\\"; const char* f = c ? strchr (from, c) : nullptr; w[w.size()-1] = f ? to[f-from] : c; esc = false; }
		    else { if (c == quote && quote) { touched = false; break; } w += c; esc = c == '\\'; } } }
	    ustl::string v ("before"); is >> v; PBT_CHECK (v.size() == w.size() && !memcmp (v.c_str(), w.data(), w.size()) && !v.c_str()[v.size()], "word '%s' was read, not '%s'", pbt::esc (v.c_str(), v.size()).c_str(), pbt::esc (w).c_str()); m.pos = nothing ? sz : q; break; }
	case 5: { size_t p = m.skip(); nothing = p == sz; wchar_t v = 7; is >> v; what = "wide character"; if (nothing) { PBT_CHECK (!v, "%d was read at the end", int(v)); m.pos = sz; break; }
	    unsigned char c = m.t[p]; size_t n = 0; for (unsigned k = 0x80; c & k; k >>= 1) ++n; if (!n) n = 1; if (p+n > sz) { m.pos = p; full = true; break; }
	    uint32_t w = c; bool canon = c < 0x80; if (n > 1 && n < 5) { w = c & (0x7f>>n); canon = true; for (size_t i = 1; i < n; ++i) { canon = canon && (m.t[p+i]&0xc0) == 0x80; w = w<<6 | (m.t[p+i]&0x3f); } canon = canon && wcharbytes (w) == m.t.substr (p, n); }
	    PBT_CHECK (!canon || uint32_t(v) == w, "wide character 0x%x was read, not 0x%x", unsigned(v), w); m.pos = p+n; break; }
	case 6: { nothing = m.pos == sz; what = "get"; if (s.coin()) { char c = 'Z'; is.get (c); PBT_CHECK (nothing || c == m.t[m.pos], "get gave %d", c); } else { int c = is.get(); PBT_CHECK (c == (nothing ? EOF : m.t[m.pos]), "get returned %d", c); } PBT_CHECK (is.gcount() == !nothing, "get counted %zu", size_t(is.gcount())); m.pos += !nothing;
	    if (!nothing && s.chance (1,3)) { is.unget(); --m.pos; note ("unget"); } break; }
	case 7: { char d = s.coin() ? '\n' : m.delims.empty() ? 'a' : m.delims[s.below (m.delims.size())]; size_t n = 1+s.len (sz+3); bool line = s.coin(); uh::exact<char> b (n); memset (b.begin(), 'Z', n); what = line ? "getline of a block" : "get of a block";
	    size_t q = m.pos; while (q < sz && q-m.pos < n-1 && m.t[q] != d) ++q; size_t k = q-m.pos; nothing = m.pos == sz && n > 1; touched = q == sz && k < n-1;
	    if (line) is.getline (b.begin(), n, d); else is.get (b.begin(), n, d); std::string w (m.t.substr (m.pos, k)); PBT_CHECK (!memcmp (b.begin(), w.data(), k) && !b[k], "%s of %zu gave '%s', not '%s'", what, n, pbt::esc (b.begin(), k).c_str(), pbt::esc (w).c_str());
	    m.pos = q; if (line && q < sz && m.t[q] == d) { ++m.pos; ++k; } PBT_CHECK (is.gcount() == k, "%s counted %zu, not %zu", what, size_t(is.gcount()), k); break; }
	case 8: { char d = s.coin() ? '\n' : m.delims.empty() ? 'a' : m.delims[s.below (m.delims.size())]; bool line = s.chance (2,3); what = line ? "getline" : "get of text"; size_t q = m.t.find (d, m.pos); nothing = m.pos == sz; touched = q == std::string::npos; if (touched) q = sz; std::string w (m.t.substr (m.pos, q-m.pos)); ustl::string v ("old");
	    if (!line) is.get (v, d); else if (s.coin()) is.getline (v, d); else ustl::getline (is, v, d); PBT_CHECK (v.size() == w.size() && !memcmp (v.c_str(), w.data(), w.size()), "%s gave '%s', not '%s'", what, pbt::esc (v.c_str(), v.size()).c_str(), pbt::esc (w).c_str()); size_t k = q-m.pos; m.pos = q; if (line && !touched) { ++m.pos; ++k; } PBT_CHECK (is.gcount() == k, "%s counted %zu, not %zu", what, size_t(is.gcount()), k); break; }
	case 9: { size_t n = s.len (s.coin() ? 12 : sz+5), k = std::min (n, sz-m.pos); what = "read"; uh::exact<char> b (n); memset (b.begin(), 'Z', n); nothing = !k && n; full = k < n; if (s.coin()) is.read (b.begin(), n); else { ustl::memlink l (b.begin(), n); is.read (l); } PBT_CHECK (!memcmp (b.begin(), m.t.data()+m.pos, k), "read gave '%s'", pbt::esc (b.begin(), k).c_str()); PBT_CHECK (is.gcount() == k, "read of %zu counted %zu, not %zu", n, size_t(is.gcount()), k); m.pos += k; break; }
	case 10: { size_t n = s.len (s.coin() ? 12 : sz+5); char d = s.coin() ? '\n' : m.delims.empty() ? 'a' : m.delims[s.below (m.delims.size())]; what = "ignore"; size_t k = 0; while (k < n && m.pos+k < sz) if (m.t[m.pos+k++] == d) break; nothing = n && m.pos == sz; touched = m.pos+k == sz; is.ignore (n, d); m.pos += k; PBT_CHECK (is.gcount() == k, "ignore counted %zu, not %zu", size_t(is.gcount()), k); break; }
	case 11: { nothing = m.pos == sz; what = "peek"; char c = is.peek(); PBT_CHECK (nothing || c == m.t[m.pos], "peek gave %d", c); break; }
	case 12: { static const uint32_t f[] = { 0, B::hex, B::oct, B::dec }; uint32_t n = s.among (f); if (s.coin()) { is.flags (n); m.flags = n; } else if (n) { is.setf (n, B::basefield); m.flags = n; } else { is.unsetf (B::basefield); m.flags = 0; } PBT_CHECK (is.flags() == m.flags, "flags are %x", unsigned(is.flags())); break; }
	case 13: { std::string d; if (s.coin()) d = defdelims; else { size_t n = s.below (15); for (size_t i = 0; i < n; ++i) d += s.coin() ? char(33+s.below (94)) : char(1+s.below (255)); } is.set_delimiters (uh::exact<char> (std::string (d.c_str(), d.size()+1)).begin()); m.delims = d; note ("delimiters '%s'", pbt::esc (d).c_str()); break; }
	default: { size_t p = s.below (sz+1); is.clear(); note ("seek to %zu", p); switch (s.below (2)) { case 0: is.seekg (p); break; default: is.seekg (long(p)-long(m.pos), B::cur); } m.pos = p; break; } }
    PBT_CHECK (where (is) == m.pos, "the stream is at %zu, not %zu, after %s from %zu", size_t(where (is)), m.pos, what, p0);
    if (nothing) PBT_CHECK (is.fail() || (op == 11 && is.eof()), "%s at the end did not fail", what);
    if (bad && m.pos < sz) PBT_CHECK (is.fail(), "%s did not fail where there is none", what);
    if (full) PBT_CHECK (is.fail(), "%s that is short did not fail", what);
    if (!nothing && !touched && !full && !bad && !dirty) PBT_CHECK (is.good(), "%s that succeeded set the state to %x", what, unsigned(is.rdstate()));
    if (!nothing && m.pos > p0) ++got;
}
static std::string begin_case (Src& s, Model& m)
{
    m.pos = 0; m.flags = 0; m.delims = defdelims; return m.t = sample (s, m.delims);
}

/// Reading from memory that ends where the text ends.
PBT_TEST (memory, 5)
{
    Model m; begin_case (s, m); uh::exact<char> b (m.t); unsigned got = 0, n = 1+s.len (30); note ("text '%s'", pbt::esc (m.t).c_str());
    ustl::istringstream* p; std::string z (m.t.c_str()); ustl::string u (m.t.data(), m.t.size());
    switch (s.below (5)) { case 0: p = new ustl::istringstream (b.begin(), b.size()); break; case 1: { ustl::cmemlink l (b.begin(), b.size()); p = new ustl::istringstream (l); break; } case 2: m.t = z; p = new ustl::istringstream (z.c_str()); break; case 3: p = new ustl::istringstream; p->str (u); break; default: p = new ustl::istringstream; p->link (b.begin(), b.size()); }
    std::unique_ptr<ustl::istringstream> own (p);
    for (unsigned i = 0; i < n; ++i) { s.step(); extract (s, *p, m, got); }
    ustl::string all (p->str()); PBT_CHECK (all.size() == m.t.size() && !memcmp (all.data(), m.t.data(), m.t.size()), "the text of the stream changed");
    if (got > 3) s.nontrivial();
}

/// Reading from a file through a buffer of a generated size.
PBT_TEST (file, 3)
{
    Model m; begin_case (s, m); unsigned got = 0, n = 1+s.len (30); note ("text '%s'", pbt::esc (m.t).c_str());
    int fd = memfd_create ("c17", 0); if (fd < 0) pbt::fail ("memfd_create failed"); if (write (fd, m.t.data(), m.t.size()) != ssize_t(m.t.size())) pbt::fail ("write failed"); lseek (fd, 0, SEEK_SET);
    { ustl::ifstream is (fd); if (s.chance (3,4)) { size_t z = 1+s.len (64); is.set_buffer_size (z); note ("buffer of %zu", z); }
	for (unsigned i = 0; i < n; ++i) { s.step(); extract (s, is, m, got); } }
    if (got > 3) s.nontrivial();
}

/// With exceptions on, the same things are read as without, and what ends early says so by an exception.
PBT_TEST (exceptions, 2)
{
    Model m; begin_case (s, m); uh::exact<char> b (m.t); note ("text '%s'", pbt::esc (m.t).c_str());
    ustl::istringstream a (b.begin(), b.size()), c (b.begin(), b.size()); static const uint32_t masks[] = { B::failbit, B::eofbit, B::allbadbits, B::badbit }; uint32_t mask = s.among (masks); c.exceptions (mask);
    unsigned n = 1+s.len (20), threw = 0;
    for (unsigned i = 0; i < n; ++i) { s.step();
	if (a.rdstate()) a.clear(); if (c.rdstate()) c.clear();
	unsigned op = s.below (7); long va = 1, vc = 1; double da = 1, dc = 1; ustl::string sa ("x"), sc ("x"); bool thrown = false; char la[40] = "", lc[40] = "";
	auto run = [&] (ustl::istringstream& is, long& v, double& d, ustl::string& t, char* l) { switch (op) { case 0: is >> v; break; case 1: is >> d; break; case 2: is >> t; break; case 3: is.getline (t); break; case 4: is.read (l, 7); break; case 5: { bool x = false; is >> x; v = x; break; } default: is.getline (l, 39); } };
	size_t before = c.pos(); run (a, va, da, sa, la); try { run (c, vc, dc, sc, lc); } catch (ustl::stream_bounds_exception&) { thrown = true; ++threw; }
	PBT_CHECK (!thrown || (c.rdstate() & mask), "operation %u threw with state %x and mask %x", op, unsigned(c.rdstate()), mask);
	PBT_CHECK (thrown || !(a.rdstate() & mask), "operation %u set %x and did not throw with mask %x", op, unsigned(a.rdstate()), mask);
	if (thrown) { PBT_CHECK (c.pos() >= before && c.pos() <= m.t.size(), "a throw left the position at %zu", size_t(c.pos())); if (op < 3) PBT_CHECK (va == vc && same (da, dc) && sa == sc, "a throw lost the value %ld '%s'", va, sa.c_str()); c.seek (a.pos()); }
	else PBT_CHECK (c.pos() == a.pos() && va == vc && same (da, dc) && sa == sc && !strcmp (la, lc), "operation %u differs with exceptions on", op); }
    if (threw && n > 3) s.nontrivial();
}

/// What text output wrote, text input reads back.
PBT_TEST (roundtrip, 3)
{
    struct Item { unsigned kind; uint64_t bits; double d; std::string w; }; std::vector<Item> items; ustl::ostringstream os; size_t n = 1+s.len (25); static const uint32_t bases[] = { 0, B::hex, B::oct }; uint32_t base = s.among (bases); os.setf (base); bool showbase = s.coin(); if (showbase) os.setf (B::showbase); static const char seps[] = " \t\n;,"; os.precision (6);
    for (size_t i = 0; i < n; ++i) { Item t; t.kind = s.below (10); t.bits = s.coin() ? s.bits64() : s.below (300); t.d = double(int64_t(t.bits)%1000000000)/64; if (base && t.kind < 8 && !(t.kind&1)) ++t.kind;	// negative numbers do not have other bases
	if (t.kind < 8 && s.chance (1,3)) os.width (s.below (30)); else os.width (0);
	switch (t.kind) { case 0: os << short(t.bits); break; case 1: os << (unsigned short)(t.bits); break; case 2: os << int(t.bits); break; case 3: os << unsigned(t.bits); break; case 4: os << long(t.bits); break; case 5: os << (unsigned long) t.bits; break; case 6: os << (long long) t.bits; break; case 7: os << (unsigned long long) t.bits; break; case 8: os << t.d; break;
	    default: { size_t k = 1+s.len (12); for (size_t j = 0; j < k; ++j) t.w += char('a'+s.below (26)); os << ustl::string (t.w.data(), t.w.size()); } }
	items.push_back (t); os << seps[s.below (5)]; if (s.chance (1,6)) os << ustl::endl; }
    os.flush(); note ("text '%s'", pbt::esc (os.str().c_str(), os.str().size()).c_str());
    ustl::istringstream is (os.str()); ustl::string ds (" \t\n;,"); is.set_delimiters (ds.c_str()); is.setf (base ? base : uint32_t(B::dec));
    for (size_t i = 0; i < n; ++i) { const Item& t = items[i]; bool ok;
	switch (t.kind) {
	    #define BACK(id,T) case id: { T v; is >> v; ok = v == (T) t.bits; break; }
	    BACK(0,short) BACK(1,unsigned short) BACK(2,int) BACK(3,unsigned) BACK(4,long) BACK(5,unsigned long) BACK(6,long long) BACK(7,unsigned long long)
	    case 8: { double v; is >> v; ok = v == t.d; break; }
	    default: { ustl::string v; is >> v; ok = v == t.w.c_str(); } }
	PBT_CHECK (ok && is.good(), "value %zu of kind %u (%llx %g '%s') did not come back", i, t.kind, (unsigned long long) t.bits, t.d, t.w.c_str()); }
    if (n > 3) s.nontrivial();
}
