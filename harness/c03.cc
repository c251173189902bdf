// C03: linked memory is never modified or freed; growing takes a private copy.
#include "uh.h"
#include <sys/mman.h>
#include <unistd.h>

/// A file in memory holding t.
struct MemFile { int fd; std::string name; explicit MemFile (const std::string& t) : fd (memfd_create ("t", 0)), name (pbt::fmt ("/proc/self/fd/%d", fd)) { if (write (fd, t.data(), t.size())) {} } ~MemFile (void) { close (fd); } };
/// Writes o into memory of the exact size.
template <typename T> static std::string stored (const T& o) { std::string b (ustl::stream_size_of(o)+64, '\xee'); ustl::ostream os (&b[0], b.size()); os << o; b.resize (os.pos()); return b; }

/// Outside memory: exact heap blocks (a trailing nul included where strings
/// need one) with a snapshot of what they must always contain.
struct Outside {
    std::vector<std::unique_ptr<uh::exact<char>>> b; std::vector<std::string> snap; bool nul;
    Outside (Src& s, unsigned n, bool withnul, size_t mx, size_t mult = 1) : nul (withnul) {
	for (unsigned i = 0; i < n; ++i) {
	    std::string t = uh::rbytes (s, s.blen (mx)/mult*mult);
	    snap.push_back (t);
	    if (nul) t += '\0';
	    b.emplace_back (new uh::exact<char> (t));
	}
    }
    const char* p (unsigned i) { return b[i]->begin(); }
    void check (const char* op) {
	for (size_t i = 0; i < b.size(); ++i) {
	    PBT_CHECK (!memcmp (b[i]->begin(), snap[i].data(), snap[i].size()), "%s changed outside memory %zu: %s, was %s", op, i, pbt::esc(b[i]->begin(), snap[i].size()).c_str(), pbt::esc(snap[i]).c_str());
	    PBT_CHECK (!nul || !b[i]->begin()[snap[i].size()], "%s changed the byte after outside memory %zu", op, i);
	}
    }
    bool inside (const char* q) {
	for (size_t i = 0; i < b.size(); ++i) if (q >= b[i]->begin() && q <= b[i]->end()) return true;
	return false;
    }
};

//{{{ memblock
PBT_TEST(memblock_links,4)
{
    using ustl::memblock; using ustl::cmemlink; using ustl::memlink;
    size_t before = pbt::heap_bytes(); unsigned cows = 0, links = 0;
    {
    s.scaled (70000); Outside out (s, 3, false, 300);
    std::unique_ptr<memblock> v[3]; std::string m[3]; bool lk[3] = {};	// lk: holds outside memory
    for (auto& p : v) p.reset (new memblock);
    for (unsigned k = 0, n = 2+s.hist(30); k < n; ++k) {
	int i = s.below(3), j = (i+1+s.below(2))%3;
#define a (*v[i])
	 std::string& b = m[i];
	const bool was = lk[i]; const char* nm = "?"; bool mustown = false;
	switch (s.below(22)) {
	    case 0: case 1: { nm = "link"; if (!a.is_linked()) a.deallocate(); unsigned q = s.below(3); size_t p = s.below(out.snap[q].size()+1), c = s.below(out.snap[q].size()-p+1);
		const char* f = out.p(q)+p;
		switch (s.below(5)) { case 0: a.link ((const void*) f, c); break; case 1: a.link (cmemlink (f, c)); break; case 2: a.link ((const void*) f, (const void*) (f+c)); break; case 3: { memlink l (f, c); a.link (l); break; } default: a.relink ((const void*) f, c); }
		b = out.snap[q].substr (p, c); lk[i] = true; ++links; PBT_CHECK (a.begin() == f && a.is_linked() && a.capacity() == 0, "link did not attach to the memory given"); break; }
	    case 2: { nm = "copy_link"; a.copy_link(); mustown = b.size(); break; }
	    case 3: { nm = "reserve"; size_t c = s.blen(400); bool ex = s.coin(); a.reserve (c, ex); PBT_CHECK (c == 0 || a.capacity() >= c, "reserve(%zu): capacity %zu", c, a.capacity());
		if (was && c && c < b.size()) { /* a private copy shorter than the data */ }
		mustown = c > 0; break; }
	    case 4: { nm = "resize"; size_t c = s.blen(400); size_t o = b.size(); a.resize (c, s.coin()); PBT_CHECK (a.size() == c, "resize(%zu) gives %zu", c, a.size()); if (c && c != o) mustown = true;
		if (c > o) { for (size_t q = o; q < c; ++q) a.begin()[q] = 'z'; } b.resize (c, 'z'); if (a.is_linked()) lk[i] = was; break; }
	    case 5: case 6: { nm = "insert"; size_t p = s.below(b.size()+1); std::string t = uh::rbytes (s, s.blen(60)); auto r = a.insert (a.iat(p), t.size()); PBT_CHECK (size_t(r-a.begin()) == p, "insert returned %td, expected %zu", r-a.begin(), p);
		PBT_CHECK (a.size() == b.size()+t.size(), "insert size"); if (t.size()) { memcpy (r, t.data(), t.size()); mustown = true; } b.insert (p, t); break; }
	    case 7: { nm = "erase"; size_t p = s.below(b.size()+1), c = s.below(b.size()-p+1); auto r = a.erase (a.iat(p), c); PBT_CHECK (size_t(r-a.begin()) == p, "erase returned %td, expected %zu", r-a.begin(), p); mustown = b.size() && c; b.erase (p, c); break; }
	    case 8: { nm = "assign"; std::string t = uh::rbytes (s, s.blen(200)); if (s.coin()) a.assign (t.data(), t.size()); else a = cmemlink (t.data(), t.size()); b = t; mustown = t.size(); break; }
	    case 9: { nm = "operator="; if (a.begin() == v[j]->begin() && a.size() != v[j]->size()) break; a = *v[j]; b = m[j]; mustown = b.size(); break; }
	    case 10: { nm = "move ="; a = ustl::move (*v[j]); std::swap (b, m[j]); std::swap (lk[i], lk[j]); break; }
	    case 11: { nm = "swap"; if (s.coin()) a.swap (*v[j]); else ustl::swap (a, *v[j]); std::swap (b, m[j]); std::swap (lk[i], lk[j]); break; }
	    case 12: { nm = "copy construction"; v[i].reset (s.coin() ? new memblock (*v[j]) : s.coin() ? new memblock (static_cast<const cmemlink&>(*v[j])) : s.coin() ? new memblock (static_cast<const memlink&>(*v[j])) : new memblock (v[j]->begin(), v[j]->size())); b = m[j]; lk[i] = false; mustown = b.size(); break; }
	    case 13: { nm = "move construction"; v[i].reset (new memblock (ustl::move (*v[j]))); b = m[j]; lk[i] = lk[j]; m[j].clear(); lk[j] = false; break; }
	    case 14: { nm = "release"; if (a.is_linked()) { a.unlink(); } else { char* p = a.data(); size_t c = a.size(); a.unlink(); PBT_CHECK (p && (!c || !memcmp (p, b.data(), c)), "released block lost its data"); free (p); } PBT_CHECK (a.empty() && !a.capacity() && !a.begin(), "unlink left data"); b.clear(); lk[i] = false; break; }
	    case 15: { nm = "manage"; if (!a.is_linked()) a.deallocate(); std::string t = uh::rbytes (s, 1+s.blen(50)); char* p = (char*) malloc (t.size()); memcpy (p, t.data(), t.size());
		if (s.coin()) a.manage (p, t.size()); else { memlink l (p, t.size()); a.manage (l); } b = t; PBT_CHECK (a.begin() == p && a.capacity() == t.size(), "manage did not take over the block"); lk[i] = false; mustown = true; break; }
	    case 16: { nm = "shrink_to_fit"; a.shrink_to_fit(); if (!was && b.size()) PBT_CHECK (a.capacity() == b.size(), "shrink_to_fit left capacity %zu for %zu bytes", a.capacity(), b.size()); break; }
	    case 17: { nm = "clear/deallocate"; if (s.coin()) a.clear(); else { a.deallocate(); lk[i] = false; } b.clear(); break; }
	    case 18: { nm = "hand over"; if (a.is_linked() || !v[j]->is_linked()) break; char* p = a.data(); size_t c = a.size(); if (!c) break; a.unlink(); v[j]->manage (p, c); m[j] = b; lk[j] = false; b.clear(); lk[i] = false; break; }
	    case 20: { nm = "read from a stream"; std::string t = s.coin() ? m[j] : uh::rbytes (s, s.blen(100)); std::string st = stored (cmemlink (t.data(), t.size())); ustl::istream is (st.data(), st.size()); a.read (is); b = t; mustown = b.size(); PBT_CHECK (!is.remaining(), "reading a block left %u bytes", is.remaining()); break; }
	    case 21: { nm = "read_file"; std::string t = uh::rbytes (s, s.blen(100)); MemFile f (t); a.read_file (f.name.c_str()); b = t; mustown = b.size(); break; }
	    case 19: { nm = "write"; if (a.is_linked() || b.empty()) break; size_t p = s.below(b.size()); char c = char(s.below(256)); a.begin()[p] = c; b[p] = c; break; }
	}
	if (!a.is_linked()) { if (was && lk[i]) ++cows; lk[i] = false; }
	for (int q = 0; q < 3; ++q) if (!v[q]->is_linked()) lk[q] = false;
	note ("b%d %s -> size %zu linked %d", i, nm, b.size(), a.is_linked()); s.step();
	PBT_CHECK (!mustown || !a.is_linked(), "after %s the block does not own its data", nm);
#undef a
	for (int q = 0; q < 3; ++q) {
	    const memblock& c = *v[q];
	    PBT_CHECK (c.size() == m[q].size(), "after %s: block %d has size %zu, expected %zu", nm, q, c.size(), m[q].size());
	    PBT_CHECK (c.empty() == m[q].empty() && size_t(c.end()-c.begin()) == m[q].size() && c.readable_size() == m[q].size(), "after %s: block %d size forms", nm, q);
	    PBT_CHECK (m[q].empty() || !memcmp (c.begin(), m[q].data(), m[q].size()), "after %s: block %d is %s, expected %s", nm, q, pbt::esc(c.begin(),c.size()).c_str(), pbt::esc(m[q]).c_str());
	    if (!c.is_linked()) { PBT_CHECK (c.capacity() >= c.size(), "after %s: capacity %zu below size %zu", nm, c.capacity(), c.size()); PBT_CHECK (!out.inside (c.begin()), "after %s: block %d claims to own outside memory", nm, q); }
	    else PBT_CHECK (c.empty() || out.inside (c.begin()), "after %s: block %d is linked to unknown memory", nm, q);
	    for (int r = 0; r < q; ++r) {
		PBT_CHECK (c.is_linked() || v[r]->is_linked() || c.begin() != v[r]->begin(), "after %s: blocks %d and %d own the same memory", nm, q, r);
		PBT_CHECK ((c == *v[r]) == (m[q] == m[r]), "after %s: blocks %d and %d compare wrong", nm, q, r);
	    }
	}
	out.check (nm);
    }
    for (auto& p : v) p.reset();
    out.check ("destruction");
    }
    size_t after = pbt::heap_bytes();
    PBT_CHECK (after == before, "%zd bytes not returned", ssize_t(after-before));
    if (cows) label ("copy on write");
    s.nontrivial (links && cows);
}
//}}}
//{{{ string
PBT_TEST(string_links,4)
{
    using ustl::string;
    size_t before = pbt::heap_bytes(); unsigned cows = 0, links = 0;
    {
    s.scaled (70000); Outside out (s, 3, true, 200);
    std::unique_ptr<string> v[3]; std::string m[3];
    for (auto& p : v) p.reset (new string);
    for (unsigned k = 0, n = 2+s.hist(30); k < n; ++k) {
	int i = s.below(3), j = (i+1+s.below(2))%3; string& a = *v[i]; std::string& b = m[i];
	const bool was = a.is_linked(); const size_t os = b.size(); const char* nm = "?"; bool mustown = false;
	switch (s.below(24)) {
	    case 0: case 1: case 2: { nm = "link"; unsigned q = s.below(3), f = s.below(3); size_t p = s.below(out.snap[q].size()+1); const char* z = out.p(q)+p; b = out.snap[q].substr(p);
		if (f == 0) { b = b.c_str(); v[i].reset (new string (z)); }
		else { v[i].reset (new string); if (f == 1) v[i]->link ((const void*) z, b.size()); else v[i]->link (ustl::cmemlink (z, b.size())); }
		++links; PBT_CHECK (v[i]->begin() == z && v[i]->is_linked(), "link did not attach"); break; }
	    case 3: { nm = "copy_link"; a.copy_link(); mustown = true; break; }
	    case 4: { nm = "reserve"; size_t c = os+s.blen(200); a.reserve (c); mustown = true; break; }
	    case 5: { nm = "resize"; size_t c = s.blen(200); a.resize (c, 'z'); b.resize (c, 'z'); mustown = c; break; }
	    case 6: { nm = "append"; std::string t = uh::rbytes (s, 1+s.blen(40)); a.append (t.data(), t.size()); b += t; mustown = true; break; }
	    case 7: { nm = "push_back"; a.push_back ('q'); b.push_back ('q'); mustown = true; break; }
	    case 8: { nm = "pop_back"; if (b.empty()) break; a.pop_back(); b.pop_back(); break; }
	    case 9: { nm = "insert"; std::string t = uh::rbytes (s, 1+s.blen(40)); size_t p = s.below(os+1); a.insert (a.iat(p), t.data(), t.data()+t.size()); b.insert (p, t); mustown = true; break; }
	    case 10: { nm = "insert wide"; size_t p = s.below(os+1); a.insert (p, 2u, wchar_t(0x20ac)); b.insert (p, "\xe2\x82\xac\xe2\x82\xac"); mustown = true; break; }
	    case 11: { nm = "erase"; size_t p = s.below(os+1), c = s.below(os-p+1); a.erase (a.iat(p), c); b.erase (p, c); break; }
	    case 12: { nm = "replace"; size_t p = s.below(os+1), c = s.below(os-p+1); std::string t = uh::rbytes (s, s.coin() ? c : 1+s.blen(40)); if (t.empty()) break; a.replace (a.iat(p), a.iat(p+c), t.data(), t.data()+t.size()); b.replace (p, c, t); mustown = true; break; }
	    case 13: { nm = "assign"; std::string t = uh::rbytes (s, s.blen(100)); a.assign (t.data(), t.size()); b = t; mustown = b.size(); break; }
	    case 14: { nm = "operator="; if (s.chance (1,5)) { auto& z = a; a = z; mustown = b.size(); break; } a = *v[j]; b = m[j]; mustown = b.size(); break; }
	    case 15: { nm = "move ="; a = ustl::move (*v[j]); std::swap (b, m[j]); break; }
	    case 16: { nm = "swap"; a.swap (*v[j]); std::swap (b, m[j]); break; }
	    case 17: { nm = "copy construction"; bool jl = v[j]->is_linked(); v[i].reset (new string (*v[j])); b = m[j]; if (!jl) mustown = true; else PBT_CHECK (v[i]->begin() == v[j]->begin() || !v[i]->is_linked(), "copy of a linked string is linked elsewhere"); break; }
	    case 18: { nm = "move construction"; v[i].reset (new string (ustl::move (*v[j]))); b = m[j]; m[j].clear(); break; }
	    case 19: { nm = "substr"; size_t p = s.below(m[j].size()+1), c = s.below(m[j].size()-p+1); v[i].reset (new string (*v[j], p, c)); b = m[j].substr (p, c); mustown = b.size(); break; }
	    case 20: { nm = "format"; a.format ("%s-%u", "abc", 77u); b = "abc-77"; mustown = true; break; }
	    case 22: { nm = "read from a stream"; std::string t = s.coin() ? m[j] : uh::rbytes (s, s.blen(100)); std::string st = stored (string (t.data(), t.size())); ustl::istream is (st.data(), st.size()); a.read (is); b = t; mustown = b.size(); PBT_CHECK (!is.remaining(), "reading a string left %u bytes", is.remaining()); break; }
	    case 23: { nm = "read_file"; std::string t = uh::rbytes (s, s.blen(100)); MemFile f (t); a.read_file (f.name.c_str()); b = t; mustown = b.size(); break; }
	    case 21: { nm = "clear/shrink"; if (s.coin()) { a.clear(); b.clear(); } else a.shrink_to_fit(); break; }
	}
	if (was && !v[i]->is_linked() && os) ++cows;
	note ("s%d %s -> %zu bytes, linked %d", i, nm, b.size(), v[i]->is_linked()); s.step();
	PBT_CHECK (!mustown || !v[i]->is_linked(), "after %s the string does not own its data", nm);
	for (int q = 0; q < 3; ++q) {
	    const string& c = *v[q];
	    PBT_CHECK (c.size() == m[q].size() && !memcmp (c.c_str(), m[q].data(), m[q].size()+1), "after %s: string %d is %s, expected %s", nm, q, pbt::esc(c.c_str(),c.size()).c_str(), pbt::esc(m[q]).c_str());
	    if (!c.is_linked()) { PBT_CHECK (c.capacity() >= c.size(), "after %s: capacity %zu below size %zu", nm, c.capacity(), c.size()); PBT_CHECK (!out.inside (c.begin()), "after %s: string %d owns outside memory", nm, q); }
	    else PBT_CHECK (c.empty() || out.inside (c.begin()), "after %s: string %d is linked to unknown memory", nm, q);
	    for (int r = 0; r < q; ++r) {
		PBT_CHECK (c.is_linked() || v[r]->is_linked() || c.begin() != v[r]->begin(), "after %s: strings %d and %d own the same memory", nm, q, r);
		PBT_CHECK ((c == *v[r]) == (m[q] == m[r]), "after %s: strings %d and %d compare wrong", nm, q, r);
	    }
	}
	out.check (nm);
	if (s.below(8) == 0) {	// a link to another object's data sees that data and does not keep it
	    string t; t.link (*v[i]); PBT_CHECK (t == *v[i] && t.begin() == static_cast<const string&>(*v[i]).begin(), "a string linked to another does not show it");
	    t += "more"; PBT_CHECK (v[i]->size() == m[i].size() && !memcmp (v[i]->c_str(), m[i].data(), m[i].size()+1), "appending to a link changed its source");
	    PBT_CHECK (t.size() == m[i].size()+4 && !memcmp (t.c_str(), (m[i]+"more").data(), m[i].size()+5), "appending to a link lost text");
	}
    }
    for (auto& p : v) p.reset();
    out.check ("destruction");
    }
    size_t after = pbt::heap_bytes();
    PBT_CHECK (after == before, "%zd bytes not returned", ssize_t(after-before));
    if (cows) label ("copy on write");
    s.nontrivial (links && cows);
}
//}}}
//{{{ vector of plain elements
template <typename T>
static void vector_links (Src& s)
{
    typedef ustl::vector<T> V; typedef std::vector<T> M;
    size_t before = pbt::heap_bytes(); unsigned cows = 0, links = 0;
    {
    s.scaled (70000); Outside out (s, 2, false, 60*sizeof(T), sizeof(T));
    std::unique_ptr<V> v[2]; M m[2];
    for (auto& p : v) p.reset (new V);
    auto rd = [&](unsigned q){ const T* p = (const T*) out.p(q); return M (p, p+out.snap[q].size()/sizeof(T)); };
    for (unsigned k = 0, n = 2+s.hist(24); k < n; ++k) {
	int i = s.below(2), j = 1-i; V& a = *v[i]; M& b = m[i];
	const bool was = a.is_linked(); const size_t os = b.size(); const char* nm = "?"; bool mustown = false;
	T x = T(s.below(100));
	switch (s.below(19)) {
	    case 0: case 1: case 2: { nm = "link"; if (!a.is_linked()) a.deallocate(); unsigned q = s.below(2); M src = rd(q); size_t p = s.below(src.size()+1), c = s.below(src.size()-p+1); const T* f = (const T*) out.p(q) + p;
		switch (s.below(3)) { case 0: a.link (f, c); break; case 1: a.link (f, f+c); break; default: { V t; t.link (f, c); a.link (t); } }
		b.assign (src.begin()+p, src.begin()+p+c); ++links; PBT_CHECK (a.begin() == f && a.is_linked(), "link did not attach"); break; }
	    case 3: { nm = "copy_link"; a.copy_link(); mustown = os; break; }
	    case 4: { nm = "reserve"; size_t c = s.blen(100); a.reserve (c, s.coin()); mustown = c; PBT_CHECK (a.capacity() >= c, "reserve(%zu): capacity %zu", c, a.capacity()); break; }
	    case 5: { nm = "resize"; size_t c = s.blen(100); a.resize (c, x); b.resize (c, x); mustown = c && c != os; break; }
	    case 6: { nm = "push_back"; if (s.coin()) a.push_back (x); else a.emplace_back (x); b.push_back (x); mustown = true; break; }
	    case 7: { nm = "pop_back"; if (!os) break; a.pop_back(); b.pop_back(); break; }
	    case 8: { nm = "insert"; size_t p = s.below(os+1); a.insert (a.begin()+p, x); b.insert (b.begin()+p, x); mustown = true; break; }
	    case 9: { nm = "insert n"; size_t p = s.below(os+1), c = 1+s.blen(20); a.insert (a.begin()+p, c, x); b.insert (b.begin()+p, c, x); mustown = true; break; }
	    case 10: { nm = "erase"; size_t p = s.below(os+1), c = s.below(os-p+1); a.erase (a.begin()+p, c); b.erase (b.begin()+p, b.begin()+p+c); mustown = os && c; break; }
	    case 11: { nm = "assign n"; size_t c = s.blen(30); a.assign (c, x); b.assign (c, x); mustown = c; break; }
	    case 12: { nm = "operator="; if (s.chance (1,5)) { auto& z = a; a = z; mustown = b.size(); break; } a = *v[j]; b = m[j]; mustown = b.size(); break; }
	    case 13: { nm = "move ="; a = ustl::move (*v[j]); std::swap (b, m[j]); break; }
	    case 14: { nm = "swap"; a.swap (*v[j]); std::swap (b, m[j]); break; }
	    case 15: { nm = "copy construction"; v[i].reset (new V (*v[j])); b = m[j]; mustown = b.size(); break; }
	    case 16: { nm = "move construction"; v[i].reset (new V (ustl::move (*v[j]))); b = m[j]; m[j].clear(); break; }
	    case 18: { nm = "read from a stream"; M t (s.blen(30)); for (size_t q = 0; q < t.size(); ++q) t[q] = T(x+q); V w; for (auto q : t) w.push_back (q); std::string st = stored (w); ustl::istream is (st.data(), st.size()); is >> a; b = t; mustown = b.size(); break; }
	    case 17: { nm = "clear"; a.clear(); b.clear(); break; }
	}
	if (was && !v[i]->is_linked() && os) ++cows;
	note ("v%d %s -> %zu, linked %d", i, nm, b.size(), v[i]->is_linked()); s.step();
	PBT_CHECK (!mustown || !v[i]->is_linked(), "after %s the vector does not own its data", nm);
	for (int q = 0; q < 2; ++q) {
	    const V& c = *v[q];
	    PBT_CHECK (c.size() == m[q].size() && (m[q].empty() || !memcmp (c.begin(), m[q].data(), m[q].size()*sizeof(T))), "after %s: vector %d differs (size %zu, expected %zu)", nm, q, c.size(), m[q].size());
	    if (!c.is_linked()) { PBT_CHECK (c.capacity() >= c.size(), "capacity"); PBT_CHECK (!out.inside ((const char*) c.begin()), "after %s: vector %d owns outside memory", nm, q); }
	    else PBT_CHECK (c.empty() || out.inside ((const char*) c.begin()), "after %s: vector %d is linked to unknown memory", nm, q);
	}
	PBT_CHECK (v[0]->is_linked() || v[1]->is_linked() || v[0]->begin() != v[1]->begin(), "after %s: both vectors own the same memory", nm);
	out.check (nm);
    }
    for (auto& p : v) p.reset();
    out.check ("destruction");
    }
    size_t after = pbt::heap_bytes();
    PBT_CHECK (after == before, "%zd bytes not returned", ssize_t(after-before));
    if (cows) label ("copy on write");
    s.nontrivial (links && cows);
}
PBT_TEST(vector_links_u8,1) { vector_links<uint8_t> (s); }
PBT_TEST(vector_links_u32,1) { vector_links<uint32_t> (s); }
//}}}
//{{{ cmemlink and memlink
PBT_TEST(views,2)
{
    using ustl::cmemlink; using ustl::memlink;
    // Read-only views
    std::string d = uh::rbytes (s, s.len(80)); uh::exact<char> buf (d);
    size_t p = s.below(d.size()+1), c = s.below(d.size()-p+1);
    cmemlink a (buf.begin()+p, c), b; b.link (a);
    PBT_CHECK (b == a && b.size() == c && b.begin() == buf.begin()+p && b.end() == buf.begin()+p+c, "link to a link");
    size_t p2 = s.below(d.size()+1), c2 = s.below(d.size()-p2+1);
    cmemlink e (buf.begin()+p2, c2);
    PBT_CHECK ((a == e) == (d.substr(p,c) == d.substr(p2,c2)), "comparison of links");
    b.swap (e); PBT_CHECK (e.begin() == buf.begin()+p && e.size() == c && b.begin() == buf.begin()+p2 && b.size() == c2, "swap of links");
    b.unlink(); PBT_CHECK (b.empty() && !b.begin(), "unlink");
    { memlink x (a), y, z (buf.begin()+p2, c2), k (z); y = a; PBT_CHECK (x.begin() == buf.begin()+p && x.size() == c && y.begin() == buf.begin()+p && y.size() == c && k.begin() == buf.begin()+p2 && k.size() == c2, "link from a read-only link");
	y = z; PBT_CHECK (y.begin() == buf.begin()+p2 && y.size() == c2, "link assigned from a link"); y.link (x); PBT_CHECK (y == x && y.begin() == x.begin(), "link of a link"); y.swap (z); PBT_CHECK (y.begin() == buf.begin()+p2 && y.size() == c2 && z.begin() == buf.begin()+p && z.size() == c, "swap of links");
	y.link (buf.begin()+p, buf.begin()+p+c); PBT_CHECK (y.begin() == buf.begin()+p && y.size() == c && y.end() == buf.begin()+p+c, "link of a range"); y.relink (buf.begin()+p2, c2); PBT_CHECK (y.begin() == buf.begin()+p2 && y.size() == c2 && y.writable_size() == c2, "relink");
	cmemlink q; q.link (buf.begin()+p2, buf.begin()+p2+c2); PBT_CHECK (q == y && q.begin() == y.begin(), "link of a range"); q.resize (c2/2); PBT_CHECK (q.size() == c2/2 && q.begin() == y.begin(), "resize of a link");
	char st [24]; memcpy (st, "abcdefghijklmnopqrstuvw", 24); cmemlink sl; sl.static_link (st); PBT_CHECK (sl.begin() == st && sl.size() == 24, "static_link"); memlink al; const size_t an = 1+s.below (99); alloca_link (al, an); al.fill (al.begin(), "z", 1, an); PBT_CHECK (al.size() == an && al.begin()[0] == 'z' && al.end()[-1] == 'z', "alloca_link"); }
    try { b = a; b.link (nullptr, c+1); pbt::fail ("linking null memory of non-zero size must be refused"); }
    catch (ustl::bad_alloc&) { PBT_CHECK (b == a, "a refused link changed the object"); }
    // In-place edits
    uh::guarded g (d.size(), s.below(16)); memcpy (g.p(), d.data(), d.size());
    memlink w (g.p(), d.size()); std::string m (d);
    for (unsigned k = 0, n = 1+s.len(8); k < n; ++k) {
	size_t q = s.below(m.size()+1), l = s.below(m.size()-q+1);
	switch (s.below(4)) {
	    case 0: { note ("insert %zu,%zu of %zu", q, l, m.size()); w.insert (w.begin()+q, l); std::string t = m; std::string r (g.p() ? (const char*) g.p() : "", m.size());
		// contents from q move by l; what is inserted is unspecified: take it as is
		t.erase (t.size()-l); t.insert (q, r.substr (q, l)); m = t; break; }
	    case 1: { note ("erase %zu,%zu of %zu", q, l, m.size()); w.erase (w.begin()+q, l); std::string r ((const char*) g.p(), m.size()); std::string t = m; t.erase (q, l); t += r.substr (t.size()); m = t; break; }
	    case 2: { size_t es = 1+s.below(5), ec = s.below((m.size()-q)/es+1); std::string pat = uh::rbytes (s, es); note ("fill %zu: %zu x %zu", q, es, ec); w.fill (w.begin()+q, pat.data(), es, ec); for (size_t z = 0; z < es*ec; ++z) m[q+z] = pat[z%es]; break; }
	    case 3: { if (m.empty()) break; w.begin()[q ? q-1 : 0] = 'X'; m[q ? q-1 : 0] = 'X'; break; }
	}
	PBT_CHECK (!memcmp (g.p(), m.data(), m.size()), "edited memory is %s, expected %s", pbt::esc((char*)g.p(), m.size()).c_str(), pbt::esc(m).c_str());
	PBT_CHECK (g.intact(), "an edit wrote outside the linked memory");
    }
    // Reading a stored block fills the linked memory, and never more than that
    {
	size_t n = std::max<int> (0, int(m.size()) + int(s.range (-3,3))); if (s.coin()) n = s.below(m.size()+1);
	std::string t = uh::rbytes (s, n), st = stored (cmemlink (t.data(), t.size())); ustl::istream is (st.data(), st.size());
	const size_t osz = w.size(); bool thrown = false; note ("read %zu into %zu", n, osz);
	try { w.read (is); } catch (ustl::length_error&) { thrown = true; }
	PBT_CHECK (thrown == (n > osz), "reading %zu bytes into %zu linked: %s", n, osz, thrown ? "refused" : "accepted");
	PBT_CHECK (w.begin() == (char*) g.p() && w.size() == (thrown ? osz : n), "reading %zu bytes into %zu linked left size %zu", n, osz, size_t(w.size()));
	if (!thrown) m.replace (0, n, t);
	PBT_CHECK (!memcmp (g.p(), m.data(), m.size()) && g.intact(), "reading %zu bytes into %zu linked wrote elsewhere", n, osz);
    }
    s.nontrivial (d.size() > 4);
}
//}}}
