// C07: UTF-8 encoding, decoding, counting and iteration.
#include "uh.h"
using ustl::string;

/// The table in utf8.h, which is RFC 2279 extended by a 7 byte form.
static std::string enc (uint32_t c)
{
    if (c < 0x80) return std::string (1, char(c));
    unsigned n = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : c < 0x80000000 ? 6 : 7;
    std::string r (n, 0); uint64_t v = c;
    for (unsigned i = n-1; i; --i) { r[i] = char(0x80|(v&63)); v >>= 6; }
    r[0] = char((0xff00 >> n) | v);
    return r;
}
static uint32_t cp (Src& s, bool nul)
{
    static const uint32_t edge[] = {1,0x7e,0x7f,0x80,0x81,0xff,0x100,0x7ff,0x800,0xd7ff,0xe000,0xfffd,0xfffe,0xffff,0x10000,0x10ffff,0x110000,0x1fffff,0x200000,0x3ffffff,0x4000000,0x7fffffff,0x80000000,0xffffffff};
    static const uint32_t top[] = {0x80,0x800,0x10000,0x110000};
    uint32_t v;
    switch (s.below(6)) { case 0: v = s.among (edge); break; case 1: v = uint32_t(s.raw()); break; case 2: v = uint32_t(s.raw()) >> s.below(32); break; default: v = s.below (s.among (top)); }
    if (!v && !nul) v = 'a';
    return v;
}

PBT_TEST(code_point,4)
{
    uint32_t v = cp (s, true); std::string e = enc (v); note ("U+%08X", v);
    PBT_CHECK (ustl::Utf8Bytes (wchar_t(v)) == e.size(), "Utf8Bytes(%08x) gives %zu, expected %zu", v, ustl::Utf8Bytes (wchar_t(v)), e.size());
    PBT_CHECK (ustl::Utf8SequenceBytes ((unsigned char) e[0]) == e.size() && ustl::Utf8SequenceBytes (e[0]) == e.size(), "Utf8SequenceBytes(%s) gives %zu", pbt::esc(e).c_str(), ustl::Utf8SequenceBytes ((unsigned char) e[0]));
    uh::exact<char> b (e.size()); auto o = ustl::utf8out (b.begin()); *o = wchar_t(v); ++o;
    PBT_CHECK (o.base() == b.end() && !memcmp (b.begin(), e.data(), e.size()), "U+%08X encodes to %s, expected %s", v, pbt::esc(b.begin(),e.size()).c_str(), pbt::esc(e).c_str());
    uh::exact<char> d (e); auto i = ustl::utf8in ((const char*) d.begin());
    PBT_CHECK (uint32_t(*i) == v, "%s decodes to U+%08X, expected U+%08X", pbt::esc(e).c_str(), uint32_t(*i), v);
    PBT_CHECK (i.base() == d.begin(), "decoder is at byte %td", i.base()-d.begin());
    s.nontrivial (v > 0x7f);
}

PBT_TEST(text,6)
{
    size_t n = s.len (40); if (s.chance (1,3000)) n = 15000+s.below (80000); std::vector<uint32_t> m; std::string e; std::vector<size_t> at;
    for (size_t k = 0; k < n; ++k) { m.push_back (cp (s, false)); at.push_back (e.size()); e += enc (m.back()); }
    at.push_back (e.size());
    std::vector<wchar_t> w (m.begin(), m.end()); uh::exact<wchar_t> we (w);
    note ("%zu code points in %zu bytes: %s", n, e.size(), pbt::esc(e.substr (0, 300)).c_str());
    PBT_CHECK (ustl::Utf8Bytes (we.begin(), we.end()) == e.size(), "Utf8Bytes of %zu characters gives %zu, expected %zu", n, ustl::Utf8Bytes (we.begin(), we.end()), e.size());
    // building it
    string a;
    switch (s.below(6)) {
	case 0: a.append ((const wchar_t*) we.begin(), (const wchar_t*) we.end()); break;
	case 1: for (auto c : w) a += c; break;
	case 2: for (auto c : w) a.push_back (c); break;
	case 3: ustl::copy (w.data(), w.data()+n, ustl::utf8out (ustl::back_inserter (a))); break;
	case 4: { size_t k = s.below(n+1); a.insert (0, w.data()+k, w.data()+n); a.insert (0, w.data(), w.data()+k); break; }
	case 5: { w.push_back (0); a = w.data(); w.pop_back(); break; }
    }
    PBT_CHECK (a.size() == e.size() && !memcmp (a.c_str(), e.data(), e.size()) && !a.c_str()[e.size()], "text is %s", pbt::esc(a.c_str(), a.size()).c_str());
    // reading it
    if (s.coin()) a.shrink_to_fit();
    const string& ca = a;
    PBT_CHECK (ca.length() == n, "length() of %zu characters is %zu", n, ca.length());
    size_t k = 0;
    for (auto i = ca.utf8_begin(); i < ca.utf8_end(); ++i, ++k) {
	PBT_CHECK (k < n && uint32_t(*i) == m[k], "character %zu reads as U+%08X, expected U+%08X", k, uint32_t(*i), k < n ? m[k] : 0);
	PBT_CHECK (i.base() == ca.begin()+at[k], "character %zu starts at byte %td, expected %zu", k, i.base()-ca.begin(), at[k]);
	if (n < 200 || k % (n/8) == 0) PBT_CHECK (ca.wiat (k) == ca.begin()+at[k], "wiat(%zu) gives %td, expected %zu", k, ca.wiat(k)-ca.begin(), at[k]);
    }
    PBT_CHECK (k == n && ca.wiat (n) == ca.end(), "iteration saw %zu characters of %zu", k, n);
    { size_t p = s.below(n+1), q = p + s.below(n-p+1); auto i = ca.utf8_begin()+p, j = i; j += q-p;
      PBT_CHECK (size_t(j - i) == q-p && size_t(ustl::distance (i, j)) == q-p, "distance from character %zu to %zu is %td", p, q, ptrdiff_t(j-i));
      PBT_CHECK ((i == j) == (p == q) && (i < j) == (p < q), "iterator comparison at %zu, %zu", p, q);
      if (p < n) { auto o = i++; PBT_CHECK (uint32_t(*o) == m[p] && i.base() == ca.begin()+at[p+1], "postfix ++ at %zu", p); } }
    std::vector<wchar_t> r (n+1, 0x55); ustl::copy (ca.utf8_begin(), ca.utf8_end(), r.data());
    PBT_CHECK (std::equal (w.begin(), w.end(), r.begin()) && r[n] == 0x55, "copying characters out");
    ustl::vector<wchar_t> rv; ustl::copy (ca.utf8_begin(), ca.utf8_end(), ustl::back_inserter (rv));
    PBT_CHECK (rv.size() == n && std::equal (w.begin(), w.end(), rv.begin()), "copying characters into a vector");
    // editing by character index
    if (n) { size_t p = s.below(n); wchar_t c = cp (s, false); string b (a); b.insert (string::pos_type (b.wiat(p)-b.begin()), 1u, c); std::string x (e); x.insert (at[p], enc (c)); PBT_CHECK (b.size() == x.size() && !memcmp (b.c_str(), x.data(), x.size()), "insertion at character %zu", p); }
    bool multi = false; for (auto c : m) multi |= c > 0x7f;
    s.nontrivial (multi && n > 2);
}

// Malformed text terminates and stays within the string and its terminator.
PBT_TEST(malformed,3)
{
    std::string e = uh::rbytes (s, s.len(30)); if (s.coin()) for (auto& c : e) c |= 0x80; uh::exact<char> mem (e+'\0'); string a; a.link ((const void*) mem.begin(), e.size()); const string& ca = a;
    note ("%s", pbt::esc(e).c_str());
    size_t l = ca.length(), k = 0; PBT_CHECK (l <= e.size(), "length %zu of %zu bytes", l, e.size());
    for (auto i = ca.utf8_begin(); i < ca.utf8_end(); ++i) PBT_CHECK (++k <= e.size(), "more characters than bytes");
    s.nontrivial (e.size() > 3);
}
