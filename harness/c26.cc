// C26: a failed allocation is reported and leaves existing data intact.
//
// Every operation of a history is first run with its first allocation made to
// fail, then with its second, and so on, until none is left to fail; what the
// object holds is compared with the model after each. The history continues.
#include <limits>
#include "uh.h"
#include <dirent.h>
#include <fcntl.h>

static struct Inj {
    bool on, all; unsigned left, hits; size_t asked;
    bool deny (size_t n) {
	if (n > size_t(1)<<32) { if (!hits++) asked = n; return true; }
	if (!on) return false;
	if (left) { --left; return false; }
	if (!all && hits) return false;
	if (!hits++) asked = n;
	return true;
    }
} I;
static bool denied (size_t n) { return I.deny (n); }
#if PBT_ASAN
extern "C" {
void* __real_malloc (size_t); void* __real_calloc (size_t, size_t); void* __real_realloc (void*, size_t);
void* __wrap_malloc (size_t n) { if (I.deny (n)) { errno = ENOMEM; return nullptr; } return __real_malloc (n); }
void* __wrap_calloc (size_t a, size_t b) { if ((b && a > SIZE_MAX/b) || I.deny (a*b)) { errno = ENOMEM; return nullptr; } return __real_calloc (a, b); }
void* __wrap_realloc (void* p, size_t n) { if (n && I.deny (n)) { errno = ENOMEM; return nullptr; } return __real_realloc (p, n); }
}
static void install (void) {}
#else
static void install (void) { gm::S().deny = denied; }
#endif
void* operator new (size_t n) { void* p = malloc (n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[] (size_t n) { void* p = malloc (n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete (void* p) noexcept { free (p); }
void operator delete[] (void* p) noexcept { free (p); }
void operator delete (void* p, size_t) noexcept { free (p); }
void operator delete[] (void* p, size_t) noexcept { free (p); }

static unsigned faults;
/// Runs op, its k-th allocation failing (and all after it, if all). True if it was refused.
template <typename Op> static bool refused (const char* name, unsigned k, bool all, bool fromNew, Op op)
{
    I.left = k; I.all = all; I.hits = 0; I.asked = 0; I.on = true; bool r = false; std::string said; bool ustls = false;
    struct Off { ~Off (void) { I.on = false; } } off;
    try { op(); }
    catch (const ustl::bad_alloc& e) { I.on = false; ustl::string i; e.info (i); said.assign (i.c_str(), i.size()); ustls = r = true; PBT_CHECK (!strcmp (e.what(), "memory allocation failed"), "%s: the error says %s", name, e.what()); }
    catch (const std::bad_alloc&) { I.on = false; r = true; PBT_CHECK (fromNew, "%s threw the plain allocation error", name); }
    I.on = false;
    if (r) {
	++faults; PBT_CHECK (I.hits, "%s was refused though no allocation failed: %s", name, said.c_str());
	if (ustls) { std::string e = pbt::fmt ("failed to allocate %zu bytes", I.asked); PBT_CHECK (said == e, "%s: the error says \"%s\", not \"%s\"", name, said.c_str(), e.c_str()); }
    }
    return r;
}
enum { maxAllocs = 2000 };
template <typename Op, typename Check> static void run (Src& s, const char* name, Op op, Check check, bool fromNew = false)
{
    const bool all = s.coin(); s.step(); unsigned k = 0;
    for (; refused (name, k, all, fromNew, op); k += 1+k/32) { note ("%s: allocation %u of %zu bytes failed", name, k, I.asked); check(); PBT_CHECK (k < maxAllocs, "%s never succeeds", name); }
    note ("%s: done", name); label (name);
}
struct Balanced { size_t before; Balanced (void) { install(); faults = 0; pbt::G().log.reserve (80000); static bool warm = false; if (!warm) { warm = true; try { throw ustl::bad_alloc (1); } catch (ustl::exception& e) { ustl::string i; e.info (i); } } before = pbt::heap_bytes(); } void done (void) const { size_t a = pbt::heap_bytes(); PBT_CHECK (a == before, "%zd bytes of heap not returned", ssize_t(a-before)); } };

//{{{ Values

template <typename T> struct Val { typedef T model; static T gen (Src& s) { return T(s.below (1000)); } static T make (T m) { return m; } static T back (T v) { return v; } };
template <> struct Val<ustl::string> { typedef std::string model; static std::string gen (Src& s) { return uh::rbytes (s, s.coin() ? s.below (3) : s.below (40)); } static ustl::string make (const std::string& m) { return ustl::string (m.data(), m.size()); } static std::string back (const ustl::string& v) { return std::string (v.begin(), v.size()); } };
typedef ustl::vector<uint16_t> Inner;
template <> struct Val<Inner> { typedef std::vector<uint16_t> model; static model gen (Src& s) { model r (s.below (12)); for (auto& x : r) x = uint16_t(s.below (60000)); return r; } static Inner make (const model& m) { Inner v; for (auto x : m) v.push_back (x); return v; } static model back (const Inner& v) { return model (v.begin(), v.end()); } };
template <typename C> static std::vector<typename Val<typename C::value_type>::model> values (const C& c) { std::vector<typename Val<typename C::value_type>::model> r; r.reserve (c.size()); for (auto& x : c) r.push_back (Val<typename C::value_type>::back (x)); return r; }
template <typename C, typename M> static void same (const C& c, const M& m, const char* name)
{
    PBT_CHECK (c.size() == m.size(), "%s: %zu elements, not %zu", name, size_t(c.size()), m.size()); PBT_CHECK (c.capacity() >= c.size() || !c.capacity(), "%s: capacity %zu of size %zu", name, size_t(c.capacity()), size_t(c.size()));
    size_t k = 0; for (auto& x : m) { PBT_CHECK (Val<typename C::value_type>::back (c[k]) == x, "%s: element %zu of %zu changed", name, k, m.size()); ++k; }
}
//}}}
//{{{ vector and list

template <typename T, typename V> struct Only { static void some (Src&, V&, std::vector<typename Val<T>::model>&, const ustl::vector<T>&, const std::vector<typename Val<T>::model>&) {} };
template <typename T> struct Only<T,ustl::list<T>> {
    typedef typename Val<T>::model M;
    static void some (Src& s, ustl::list<T>& v, std::vector<M>& m, const ustl::vector<T>& u, const std::vector<M>& mu)
    {
	const M x = Val<T>::gen (s); T y = Val<T>::make (x); ustl::list<T> o (u.begin(), u.end()); auto keep = [&](const char* n) { return [&,n]{ same (v, m, n); same (o, mu, n); PBT_CHECK (Val<T>::back (y) == x, "%s changed its argument", n); }; };
	switch (s.below (4)) {
	    case 0: run (s, "push_front", [&]{ v.push_front (y); }, keep ("push_front")); m.insert (m.begin(), x); break;
	    case 1: run (s, "push_front moving", [&]{ v.push_front (ustl::move (y)); }, keep ("push_front moving")); m.insert (m.begin(), x); break;
	    case 2: { if (mu.empty()) return; size_t p = s.below (m.size()+1), a = s.below (mu.size()), b = a+s.below (mu.size()-a+1); run (s, "splice", [&]{ v.splice (v.begin()+p, o, o.begin()+a, o.begin()+b); }, keep ("splice")); m.insert (m.begin()+p, mu.begin()+a, mu.begin()+b); std::vector<M> rest (mu); rest.erase (rest.begin()+a, rest.begin()+b); same (o, rest, "splice"); break; }
	    default: { if (!std::is_arithmetic<T>::value || v.is_linked()) return; v.sort(); std::sort (m.begin(), m.end()); o.sort(); std::vector<M> so (mu); std::sort (so.begin(), so.end()); run (s, "merge", [&]{ v.merge (o); }, [&]{ same (v, m, "merge"); same (o, so, "merge"); }); std::vector<M> r; std::merge (m.begin(), m.end(), so.begin(), so.end(), std::back_inserter (r)); m = r; PBT_CHECK (o.empty(), "merge left something"); break; }
	}
    }
};
template <typename T, typename V> static void sequence (Src& s)
{
    Balanced bal;
    {
	typedef typename Val<T>::model M; const bool flat = std::is_arithmetic<T>::value; V v; std::vector<M> m; ustl::vector<T> lent; std::vector<M> lentm; if (flat) for (unsigned i = 0; i < 9; ++i) { lentm.push_back (Val<T>::gen (s)); lent.push_back (Val<T>::make (lentm.back())); }
	for (size_t k = 0, n = 1+s.below (14); k < n; ++k) {
	    const M x = Val<T>::gen (s); T y = Val<T>::make (x); std::vector<M> mu; ustl::vector<T> u; for (size_t i = 0, c = s.len (10); i < c; ++i) { mu.push_back (Val<T>::gen (s)); u.push_back (Val<T>::make (mu.back())); }
	    const size_t p = s.below (m.size()+1), c = s.len (12); const ustl::vector<T>& cu = u; std::vector<M> old (m);
	    auto keep = [&](const char* nm) { return [&,nm]{ same (v, m, nm); same (u, mu, nm); PBT_CHECK (Val<T>::back (y) == x, "%s changed its argument", nm); }; };
	    // Of assignments only this: every element is one of those before, those assigned, or a new one
	    auto mixed = [&](const char* nm) { return [&,nm]{ if (flat) { same (v, m, nm); return; } same (u, mu, nm); PBT_CHECK (Val<T>::back (y) == x, "%s changed its argument", nm); for (auto& e : v) { M b = Val<T>::back (e); PBT_CHECK (b == M() || b == x || std::find (mu.begin(), mu.end(), b) != mu.end() || std::find (old.begin(), old.end(), b) != old.end(), "%s left an element that never was", nm); } m = values (v); }; };
	    switch (s.below (24)) {
		case 0: run (s, "push_back", [&]{ v.push_back (y); }, keep ("push_back")); m.push_back (x); break;
		case 1: run (s, "push_back moving", [&]{ v.push_back (ustl::move (y)); }, keep ("push_back moving")); m.push_back (x); break;
		case 2: run (s, "emplace_back", [&]{ v.emplace_back (y); }, keep ("emplace_back")); m.push_back (x); break;
		case 3: run (s, "insert", [&]{ v.ustl::template vector<T>::insert (v.begin()+p, y); }, keep ("insert")); m.insert (m.begin()+p, x); break;
		case 4: run (s, "insert moving", [&]{ v.ustl::template vector<T>::insert (v.begin()+p, ustl::move (y)); }, keep ("insert moving")); m.insert (m.begin()+p, x); break;
		case 5: run (s, "emplace", [&]{ v.emplace (v.begin()+p, y); }, keep ("emplace")); m.insert (m.begin()+p, x); break;
		case 6: run (s, "insert n", [&]{ v.ustl::template vector<T>::insert (v.begin()+p, c, y); }, keep ("insert n")); m.insert (m.begin()+p, c, x); break;
		case 7: run (s, "insert range", [&]{ v.ustl::template vector<T>::insert (v.begin()+p, cu.begin(), cu.end()); }, keep ("insert range")); m.insert (m.begin()+p, mu.begin(), mu.end()); break;
		case 8: { const T& cy = y; run (s, "insert list", [&]{ v.ustl::template vector<T>::insert (v.begin()+p, {cy, T(), cy}); }, keep ("insert list")); m.insert (m.begin()+p, {x, M(), x}); break; }
		case 9: run (s, "resize", [&]{ v.resize (c); }, keep ("resize")); if (flat) for (size_t i = m.size(); i < c; ++i) v[i] = T(); m.resize (c); break;
		case 10: run (s, "resize with value", [&]{ v.resize (c, y); }, keep ("resize with value")); m.resize (c, x); break;
		case 11: { bool ex = s.coin(); run (s, "reserve", [&]{ v.reserve (m.size()+c, ex); }, keep ("reserve")); PBT_CHECK (v.capacity() >= m.size()+c, "reserve"); break; }
		case 12: if (!v.is_linked()) run (s, "shrink_to_fit", [&]{ v.shrink_to_fit(); }, keep ("shrink_to_fit")); break;
		case 13: run (s, "assign n", [&]{ v.assign (c, y); }, mixed ("assign n")); m.assign (c, x); break;
		case 14: run (s, "assign range", [&]{ v.assign (cu.begin(), cu.end()); }, mixed ("assign range")); m = mu; break;
		case 15: { V o (cu.begin(), cu.end()); const V& co = o; run (s, "=", [&]{ v = co; }, mixed ("=")); same (o, mu, "= changed the other"); m = mu; break; }
		case 16: run (s, "copy", [&]{ V o (v); I.on = false; same (o, m, "copy"); }, keep ("copy")); break;
		case 17: run (s, "construct n", [&]{ V o (c); PBT_CHECK (o.size() == c, "construct n"); }, keep ("construct n")); break;
		case 18: run (s, "construct n with value", [&]{ V o (c, y); PBT_CHECK (o.size() == c, "construct n with value"); }, keep ("construct n with value")); break;
		case 19: run (s, "construct range", [&]{ V o (cu.begin(), cu.end()); PBT_CHECK (o.size() == mu.size(), "construct range"); }, keep ("construct range")); break;
		case 20: if (!m.empty()) { size_t q = s.below (m.size()), w = 1+s.below (m.size()-q); run (s, "erase", [&]{ v.erase (v.begin()+q, w); }, keep ("erase")); m.erase (m.begin()+q, m.begin()+q+w); } break;
		case 21: if (!flat) { if (!m.empty() && s.coin()) { v.pop_back(); m.pop_back(); } } else { v.deallocate(); v.link (lent); m = lentm; note ("linked"); } break;
		case 22: { V o (cu.begin(), cu.end()); run (s, "swap and move", [&]{ V q (ustl::move (o)); v.swap (q); o.swap (v); v = ustl::move (o); }, keep ("swap and move")); m = mu; break; }
		default: Only<T,V>::some (s, v, m, u, mu); break;
	    }
	    same (v, m, "afterwards"); same (lent, lentm, "lent memory");
	    if (v.is_linked() && v.data() == lent.data() && !m.empty() && !(m == lentm)) PBT_CHECK (false, "still linked after a change");
	}
	if (faults > 3) s.nontrivial();
    }
    bal.done();
}
PBT_TEST (sequences, 12)
{
    switch (s.below (6)) {
	case 0: return sequence<uint8_t,ustl::vector<uint8_t>> (s); case 1: return sequence<int,ustl::vector<int>> (s); case 2: return sequence<ustl::string,ustl::vector<ustl::string>> (s);
	case 3: return sequence<Inner,ustl::vector<Inner>> (s); case 4: return sequence<int,ustl::list<int>> (s); default: return sequence<ustl::string,ustl::list<ustl::string>> (s);
    }
}
//}}}
//{{{ strings and blocks

PBT_TEST (strings, 12)
{
    Balanced bal;
    {
	ustl::string v; std::string m, literal = uh::rbytes (s, s.len (30)); literal.erase (std::remove (literal.begin(), literal.end(), '\0'), literal.end());
	for (size_t k = 0, n = 1+s.below (16); k < n; ++k) {
	    const std::string x = uh::rbytes (s, s.coin() ? s.len (12) : s.len (80)); const ustl::string y (x.data(), x.size()); std::string z (x); z.erase (std::remove (z.begin(), z.end(), '\0'), z.end());
	    const size_t p = s.below (m.size()+1), c = s.len (40), w = s.below (m.size()-p+1); const char ch = char('a'+s.below (26)); const wchar_t wide = wchar_t(s.among ({0x41, 0xe9, 0x20ac, 0x1f600}));
	    auto keep = [&](const char* nm) { return [&,nm]{ PBT_CHECK (std::string (v.begin(), v.size()) == m, "%s: the text is now %s, not %s", nm, pbt::esc (v.begin(), v.size()).c_str(), pbt::esc (m).c_str()); PBT_CHECK (!v.c_str()[v.size()], "%s: not terminated", nm); PBT_CHECK (std::string (y.begin(), y.size()) == x, "%s changed its argument", nm); }; };
	    switch (s.below (26)) {
		case 0: run (s, "append", [&]{ v.append (y); }, keep ("append")); m += x; break; case 1: run (s, "append text", [&]{ v.append (z.c_str()); }, keep ("append text")); m += z; break;
		case 2: run (s, "append n", [&]{ v.append (c, ch); }, keep ("append n")); m.append (c, ch); break; case 3: run (s, "push_back", [&]{ v.push_back (ch); }, keep ("push_back")); m += ch; break;
		case 4: run (s, "+=", [&]{ v += y; v += ""; }, keep ("+=")); m += x; break; case 5: run (s, "assign", [&]{ v.assign (x.data(), x.size()); }, keep ("assign")); m = x; break;
		case 6: if (!y.is_linked()) { run (s, "=", [&]{ v = y; }, keep ("=")); m = x; } break; case 7: run (s, "= text", [&]{ v = z.c_str(); }, keep ("= text")); m = z; break;
		case 8: run (s, "insert", [&]{ v.insert (v.begin()+p, y.c_str(), y.c_str()+x.size()); }, keep ("insert")); m.insert (p, x); break; case 9: run (s, "insert n", [&]{ v.insert (v.begin()+p, c, ch); }, keep ("insert n")); m.insert (p, c, ch); break;
		case 10: { std::string e; unsigned cn = c%8; run (s, "insert wide", [&]{ v.insert (ustl::string::pos_type(p), ustl::string::size_type(cn), wide); }, keep ("insert wide")); char b [8]; *ustl::utf8out (b) = wide; for (unsigned i = 0; i < cn; ++i) e.append (b, ustl::Utf8Bytes (wide)); m.insert (p, e); break; }
		case 11: if (w) { run (s, "erase", [&]{ v.erase (v.begin()+p, w); }, keep ("erase")); m.erase (p, w); } break;
		case 12: if (w || x.size()) { run (s, "replace", [&]{ v.replace (v.begin()+p, v.begin()+p+w, x.data(), x.data()+x.size()); }, keep ("replace")); m.replace (p, w, x); } break;
		case 13: { size_t rn = c%4+1; if (w) { run (s, "replace n", [&]{ v.replace (v.begin()+p, v.begin()+p+w, x.data(), x.data()+x.size(), rn); }, keep ("replace n")); std::string e; for (size_t i = 0; i < rn; ++i) e += x; m.replace (p, w, e); } break; }
		case 14: run (s, "resize", [&]{ v.resize (c); }, keep ("resize")); if (c > m.size()) std::fill (v.begin()+m.size(), v.end(), 'r'); m.resize (c, 'r'); break;
		case 15: run (s, "reserve", [&]{ v.reserve (c*3, s.coin()); }, keep ("reserve")); break; case 16: if (!v.is_linked()) run (s, "shrink_to_fit", [&]{ v.shrink_to_fit(); }, keep ("shrink_to_fit")); break;
		case 17: run (s, "copy", [&]{ ustl::string o (v); PBT_CHECK (o == v, "copy"); }, keep ("copy")); break; case 18: run (s, "substr", [&]{ ustl::string o (v, p, w); PBT_CHECK (o.size() == w, "substr"); }, keep ("substr")); break;
		case 19: run (s, "+", [&]{ ustl::string o (v + y); PBT_CHECK (o.size() == m.size()+x.size(), "+"); ustl::string q (v + "abc"); }, keep ("+")); break;
		case 20: run (s, "construct", [&]{ ustl::string a (c, ch), b (x.data(), x.size()); PBT_CHECK (a.size() == c && b.size() == x.size(), "construct"); }, keep ("construct")); break;
		case 21: { run (s, "format", [&]{ v.format ("%d:%s:%u", int(c), z.c_str(), unsigned(p)); }, [&]{ PBT_CHECK (!v.c_str()[v.size()] && v.size() <= m.size()+z.size()+64, "format left %zu characters unterminated", v.size()); m.assign (v.begin(), v.size()); }); m = pbt::fmt ("%d:%s:%u", int(c), z.c_str(), unsigned(p)); break; }
		case 22: v.deallocate(); v.link (literal.c_str(), literal.size()); m = literal; note ("linked"); break;
		case 23: run (s, "copy_link", [&]{ v.copy_link(); }, keep ("copy_link")); break;
		case 24: { char b [256]; ustl::ostream os (b, sizeof b); os << y; os.align (8); ustl::istream is (b, os.pos()); run (s, "read", [&]{ is.seek (0); v.read (is); }, keep ("read")); m = x; break; }
		default: run (s, "swap and move", [&]{ ustl::string o (y); v.swap (o); }, keep ("swap and move")); m = x; break;
	    }
	    if (!v.data()) { ustl::string().swap (v); }
	    keep ("afterwards")();
	}
	if (faults > 3) s.nontrivial();
    }
    bal.done();
}
static unsigned lowestFd (void) { int f = open ("/dev/null", O_RDONLY); close (f); return f; }
PBT_TEST (blocks, 6)
{
    Balanced bal; unsigned fd = lowestFd();
    {
	ustl::memblock v; std::string m; const std::string lent = uh::rbytes (s, 1+s.len (30));
	for (size_t k = 0, n = 1+s.below (14); k < n; ++k) {
	    const std::string x = uh::rbytes (s, s.len (90)); const size_t p = s.below (m.size()+1), w = s.below (m.size()-p+1), c = s.len (60);
	    auto keep = [&](const char* nm) { return [&,nm]{ PBT_CHECK (std::string ((const char*) v.begin(), v.size()) == m, "%s: %s, not %s", nm, pbt::hex (v.begin(), v.size()).c_str(), pbt::hex (m.data(), m.size()).c_str()); }; };
	    switch (s.below (12)) {
		case 0: run (s, "resize", [&]{ v.resize (c, s.coin()); }, keep ("resize")); if (c > m.size()) memset (v.begin()+m.size(), 7, c-m.size()); m.resize (c, 7); break;
		case 1: run (s, "reserve", [&]{ v.reserve (c*2, s.coin()); }, keep ("reserve")); break;
		case 2: run (s, "insert", [&]{ v.insert (v.begin()+p, x.size()); }, keep ("insert")); if (x.size()) memcpy (v.begin()+p, x.data(), x.size()); m.insert (p, x); break;
		case 3: run (s, "erase", [&]{ v.erase (v.begin()+p, w); }, keep ("erase")); m.erase (p, w); break;
		case 4: run (s, "assign", [&]{ v.assign (x.data(), x.size()); }, keep ("assign")); m = x; break;
		case 5: run (s, "copy", [&]{ ustl::memblock o (v), q (x.data(), x.size()), r (c); PBT_CHECK (o == v && q.size() == x.size() && r.size() == c, "copy"); }, keep ("copy")); break;
		case 6: { ustl::memblock o (x.data(), x.size()); run (s, "=", [&]{ v = o; }, keep ("=")); m = x; break; }
		case 7: if (!v.is_linked()) run (s, "shrink_to_fit", [&]{ v.shrink_to_fit(); }, keep ("shrink_to_fit")); break;
		case 8: v.deallocate(); v.link (lent.data(), lent.size()); m = lent; note ("linked"); break;
		case 9: run (s, "copy_link", [&]{ v.copy_link(); }, keep ("copy_link")); break;
		case 10: { char b [256]; ustl::ostream os (b, sizeof b); ustl::cmemlink l (x.data(), x.size()); os << l; os.align (8); ustl::istream is (b, os.pos()); run (s, "read", [&]{ is.seek (0); v.read (is); }, keep ("read")); m = x; break; }
		default: { char name [] = "/tmp/c26.XXXXXX"; int f = mkstemp (name); PBT_CHECK (f >= 0 && write (f, x.data(), x.size()) == ssize_t(x.size()), "scratch file"); close (f); struct Rm { const char* n; ~Rm (void) { unlink (n); } } rm = { name }; run (s, "read_file", [&]{ v.read_file (name); }, keep ("read_file")); m = x; PBT_CHECK (lowestFd() == fd, "read_file left the file open"); break; }
	    }
	    keep ("afterwards")();
	}
	if (faults > 3) s.nontrivial();
    }
    PBT_CHECK (lowestFd() == fd, "a file is left open"); bal.done();
}
//}}}
//{{{ Sorted containers and adaptors

template <typename S, typename MS> static void sortedOf (Src& s)
{
    typedef ustl::string T; Balanced bal;
    {
	S v; MS m; auto all = [&]{ std::vector<std::string> r; for (auto& x : v) r.push_back (Val<T>::back (x)); return r; };
	for (size_t k = 0, n = 1+s.below (12); k < n; ++k) {
	    const std::string x = Val<T>::gen (s); T y = Val<T>::make (x); std::vector<std::string> mu; ustl::vector<T> u; for (size_t i = 0, c = s.len (8); i < c; ++i) { mu.push_back (Val<T>::gen (s)); u.push_back (Val<T>::make (mu.back())); } const ustl::vector<T>& cu = u;
	    auto keep = [&](const char* nm) { return [&,nm]{ PBT_CHECK (all() == std::vector<std::string> (m.begin(), m.end()), "%s changed what the set holds", nm); PBT_CHECK (Val<T>::back (y) == x, "%s changed its argument", nm); same (u, mu, nm); }; };
	    switch (s.below (8)) {
		case 0: run (s, "insert", [&]{ v.insert (y); }, keep ("insert")); m.insert (x); break; case 1: run (s, "insert moving", [&]{ v.insert (ustl::move (y)); }, keep ("insert moving")); y = Val<T>::make (x); m.insert (x); break;
		case 2: run (s, "emplace", [&]{ v.emplace (y); }, keep ("emplace")); m.insert (x); break;
		case 3: run (s, "insert range", [&]{ v.insert (cu.begin(), cu.end()); }, [&]{ std::vector<std::string> now = all(); MS part (m); for (size_t i = 0; i <= mu.size(); ++i) { if (std::vector<std::string> (part.begin(), part.end()) == now) { m = part; return; } if (i < mu.size()) part.insert (mu[i]); } PBT_CHECK (false, "insert range left neither what was there nor a beginning of the range"); }); for (auto& e : mu) m.insert (e); break;
		case 4: run (s, "copy", [&]{ S o (v); PBT_CHECK (o.size() == m.size(), "copy"); }, keep ("copy")); break;
		case 5: if (!m.empty()) { auto i = m.begin(); std::advance (i, s.below (m.size())); T key = Val<T>::make (*i); run (s, "erase", [&]{ v.erase (key); }, keep ("erase")); std::string ks = *i; m.erase (ks); } break;
		case 6: { S o; for (auto& e : cu) o.insert (e); run (s, "=", [&]{ S q (o); v.swap (q); }, keep ("=")); m = MS (mu.begin(), mu.end()); break; }
		default: run (s, "reserve", [&]{ v.reserve (m.size()+s.below (9)); }, keep ("reserve")); break;
	    }
	    keep ("afterwards")();
	}
	if (faults > 3) s.nontrivial();
    }
    bal.done();
}
template <typename C, typename MC, bool Multi> static void mapOf (Src& s)
{
    typedef ustl::string T; Balanced bal;
    {
	C v; MC m; typedef std::vector<std::pair<std::string,std::string>> L; auto all = [&]{ L r; for (auto& x : v) r.push_back (std::make_pair (Val<T>::back (x.first), Val<T>::back (x.second))); return r; };
	for (size_t k = 0, n = 1+s.below (12); k < n; ++k) {
	    std::string a = Val<T>::gen (s), b = Val<T>::gen (s); if (!m.empty() && s.coin()) { auto i = m.begin(); std::advance (i, s.below (m.size())); a = i->first; } T x = Val<T>::make (a), y = Val<T>::make (b); ustl::pair<T,T> pr (x, y);
	    auto keep = [&](const char* nm) { return [&,nm]{ PBT_CHECK (all() == L (m.begin(), m.end()), "%s changed what the map holds", nm); PBT_CHECK (Val<T>::back (x) == a && Val<T>::back (y) == b && Val<T>::back (pr.first) == a && Val<T>::back (pr.second) == b, "%s changed its argument", nm); }; };
	    switch (s.below (6)) {
		case 0: run (s, "insert", [&]{ v.insert (pr); }, keep ("insert")); m.insert (std::make_pair (a, b)); break;
		case 1: run (s, "insert moving", [&]{ v.insert (ustl::move (pr)); }, keep ("insert moving")); pr.first = x; pr.second = y; m.insert (std::make_pair (a, b)); break;
		case 2: run (s, "emplace", [&]{ v.emplace (x, y); }, keep ("emplace")); m.insert (std::make_pair (a, b)); break;
		case 3: run (s, "copy", [&]{ C o (v); PBT_CHECK (o.size() == m.size(), "copy"); }, keep ("copy")); break;
		case 4: { subscript (s, v, m, x, y, a, b, keep ("[]")); break; }
		default: if (!m.empty()) { run (s, "erase", [&]{ v.erase (x); }, keep ("erase")); m.erase (a); } break;
	    }
	    keep ("afterwards")();
	}
	if (faults > 3) s.nontrivial();
    }
    bal.done();
}
template <typename K> static void subscript (Src& s, ustl::map<ustl::string,ustl::string>& v, std::map<std::string,std::string>& m, ustl::string& x, ustl::string& y, const std::string& a, const std::string& b, K keep)
{
    // The key may be there already when storing the value fails
    bool had = m.count (a); run (s, "[]", [&]{ v[x] = y; }, [&]{ if (!had && v.size() == m.size()+1) { auto i = v.find (x); PBT_CHECK (i != v.end() && i->second.empty(), "[] left a value"); m[a]; } keep(); }); m[a] = b;
}
template <typename K> static void subscript (Src&, ustl::multimap<ustl::string,ustl::string>&, std::multimap<std::string,std::string>&, ustl::string&, ustl::string&, const std::string&, const std::string&, K) {}
template <typename Q> static void adaptor (Src& s, const char* name)
{
    typedef ustl::string T; Balanced bal;
    {
	Q q; std::vector<std::string> m; size_t top = 0;
	for (size_t k = 0, n = 1+s.below (12); k < n; ++k) {
	    const std::string x = Val<T>::gen (s); T y = Val<T>::make (x); auto keep = [&]{ PBT_CHECK (q.size() == m.size(), "%s holds %zu, not %zu", name, size_t(q.size()), m.size()); PBT_CHECK (Val<T>::back (y) == x, "%s changed its argument", name); };
	    if (s.below (4) || m.empty()) { run (s, name, [&]{ q.push (y); }, keep); m.push_back (x); } else { run (s, "pop", [&]{ q.pop(); }, keep); m.pop_back(); }
	    run (s, "copy", [&]{ Q o (q); PBT_CHECK (o.size() == m.size(), "copy"); }, keep); (void) top;
	}
	if (faults > 3) s.nontrivial();
    }
    bal.done();
}
PBT_TEST (sorted, 8)
{
    switch (s.below (6)) {
	case 0: return sortedOf<ustl::set<ustl::string>,std::set<std::string>> (s); case 1: return sortedOf<ustl::multiset<ustl::string>,std::multiset<std::string>> (s);
	case 2: return mapOf<ustl::map<ustl::string,ustl::string>,std::map<std::string,std::string>,false> (s); case 3: return mapOf<ustl::multimap<ustl::string,ustl::string>,std::multimap<std::string,std::string>,true> (s);
	case 4: return adaptor<ustl::stack<ustl::string>> (s, "stack"); default: return adaptor<ustl::queue<ustl::string>> (s, "queue");
    }
}
//}}}
//{{{ Streams

PBT_TEST (text_streams, 6)
{
    Balanced bal;
    {
	ustl::ostringstream os; std::string m;
	for (size_t k = 0, n = 1+s.below (16); k < n; ++k) {
	    std::string x = uh::rbytes (s, s.len (60)); x.erase (std::remove (x.begin(), x.end(), '\0'), x.end()); const ustl::string y (x.data(), x.size()); int num = int(s.bits64()); std::string e;
	    // A beginning of the text may have been taken
	    auto part = [&](const char* nm) { return [&,nm]{ std::string now (os.begin(), os.pos()); PBT_CHECK (now.size() >= m.size() && now.compare (0, m.size(), m) == 0, "%s lost what was written before", nm); PBT_CHECK (now.size() <= m.size()+e.size() && e.compare (0, now.size()-m.size(), now, m.size(), std::string::npos) == 0, "%s left %s after %s", nm, pbt::esc (now).c_str(), pbt::esc (m).c_str()); m = now; }; };
	    switch (s.below (7)) {
		case 0: e = x; run (s, "<< text", [&]{ os << y; }, part ("<< text")); break; case 1: e = std::to_string (num); run (s, "<< number", [&]{ os << num; }, part ("<< number")); break;
		case 2: e = "c"; run (s, "<< character", [&]{ os << 'c'; }, part ("<< character")); break; case 3: e = pbt::fmt ("%d-%s", num, x.c_str()); run (s, "format", [&]{ os.format ("%d-%s", num, x.c_str()); }, part ("format")); break;
		case 4: e = x; run (s, "write", [&]{ os.write (x.data(), x.size()); }, part ("write")); break;
		case 5: { run (s, "str", [&]{ ustl::string o (os.str()); PBT_CHECK (o.size() == m.size(), "str"); }, part ("str")); break; }
		default: { if (y.is_linked()) break; m.clear(); run (s, "str =", [&]{ os.str (y); }, [&]{ std::string now (os.begin(), os.pos()); (void) now; }); m = x; break; }
	    }
	    m += e; std::string now (os.begin(), os.pos()); PBT_CHECK (now == m, "text is %s, not %s", pbt::esc (now).c_str(), pbt::esc (m).c_str());
	    ustl::string o (os.str()); PBT_CHECK (std::string (o.begin(), o.size()) == m, "str() is %s", pbt::esc (o.begin(), o.size()).c_str());
	}
	// Reading words back
	std::string words; for (unsigned i = 0; i < 5; ++i) words += std::string (1+s.len (60), char('a'+i))+" "; ustl::istringstream is (words.data(), words.size()); ustl::string w;
	for (unsigned i = 0; i < 4; ++i) { auto at = is.pos(); run (s, ">> text", [&]{ is.seek (at); is >> w; }, [&]{ PBT_CHECK (!w.c_str() || !w.c_str()[w.size()], ">> text: not terminated"); }); PBT_CHECK (w.size() && w[0] == char('a'+i) && w[w.size()-1] == char('a'+i), ">> text gave %s", w.c_str()); }
	if (faults > 3) s.nontrivial();
    }
    bal.done();
}
PBT_TEST (binary_reads, 5)
{
    Balanced bal;
    {
	ustl::vector<ustl::string> v; std::vector<std::string> m; for (size_t i = 0, n = s.len (10); i < n; ++i) { m.push_back (Val<ustl::string>::gen (s)); v.push_back (Val<ustl::string>::make (m.back())); }
	ustl::map<ustl::string,ustl::vector<int>> mp; for (auto& x : m) { ustl::vector<int> w; for (size_t i = 0, n = s.len (5); i < n; ++i) w.push_back (int(i)); mp[Val<ustl::string>::make (x)] = w; }
	ustl::memblock b (8192); ustl::ostream os (b); os << v; os << mp; const size_t end = os.pos(); ustl::istream is (b.begin(), end);
	ustl::vector<ustl::string> v2; ustl::map<ustl::string,ustl::vector<int>> mp2; if (s.coin()) { v2.push_back (ustl::string (20, 'o')); mp2[ustl::string (9, 'k')].push_back (1); }
	run (s, "read strings", [&]{ is.seek (0); is >> v2; }, [&]{ for (auto& e : v2) { std::string t = Val<ustl::string>::back (e); PBT_CHECK (t.empty() || t == std::string (20, 'o') || std::find (m.begin(), m.end(), t) != m.end(), "reading left a text that never was"); } });
	PBT_CHECK (values (v2) == m, "read strings differ"); size_t at = is.pos();
	run (s, "read map", [&]{ is.seek (at); is >> mp2; }, [&]{ size_t t = 0; for (auto& e : mp2) t += e.first.size()+e.second.size(); PBT_CHECK (t < 100000, "map"); }); PBT_CHECK (mp2 == mp, "read map differs");
	if (faults > 2) s.nontrivial();
    }
    bal.done();
}
PBT_TEST (file_streams, 4)
{
    Balanced bal; const unsigned fd = lowestFd();
    {
	char name [] = "/tmp/c26.XXXXXX"; int f = mkstemp (name); PBT_CHECK (f >= 0, "scratch file"); close (f); struct Rm { const char* n; ~Rm (void) { unlink (n); } } rm = { name }; std::string m;
	const size_t want = s.len (9000); std::string x = uh::rbytes (s, 97); x.erase (std::remove (x.begin(), x.end(), '\0'), x.end()); if (x.empty()) x = "x"; while (m.size() < want) m += x;
	run (s, "write file", [&]{ ustl::ofstream os (name, ustl::ios::out|ustl::ios::trunc); os.write (m.data(), m.size()); os.close(); }, [&]{ PBT_CHECK (lowestFd() == fd, "a file is left open after writing failed"); });
	PBT_CHECK (lowestFd() == fd, "a file is left open"); std::string got;
	run (s, "read file", [&]{ ustl::ifstream is (name); char b [64]; size_t n = 0; while (is.good() && n < m.size()) { char c; is.read (&c, 1); if (!is.good()) break; PBT_CHECK (c == m[n], "byte %zu", n); ++n; } PBT_CHECK (n == m.size(), "%zu bytes of %zu", n, m.size()); (void) b; }, [&]{ PBT_CHECK (lowestFd() == fd, "a file is left open after reading failed"); });
	PBT_CHECK (lowestFd() == fd, "a file is left open after reading"); if (faults) s.nontrivial();
    }
    bal.done();
}
//}}}
//{{{ Owners, errors

static int alive;
struct Owned { int v; ustl::string t; explicit Owned (int x = 0) : v(x), t (30, 'q') { ++alive; } Owned (const Owned& o) : v(o.v), t(o.t) { ++alive; } ~Owned (void) { --alive; } };
PBT_TEST (owners_and_errors, 6)
{
    Balanced bal; alive = 0;
    {
	ustl::shared_ptr<Owned> a, b; int av = -1;
	for (size_t k = 0, n = 1+s.below (10); k < n; ++k) {
	    const int x = int(s.below (1000)); auto keep = [&](const char* nm) { return [&,nm]{ PBT_CHECK (a ? a->v == av && a->t.size() == 30 : av == -1, "%s lost what was owned", nm); int e = (a ? 1 : 0)+(b && b.get() != a.get()); PBT_CHECK (alive == e, "%s: %d objects live, not %d", nm, alive, e); }; };
	    switch (s.below (9)) {
		case 0: run (s, "shared_ptr of new", [&]{ ustl::shared_ptr<Owned> p (new Owned (x)); a = p; }, keep ("shared_ptr of new"), true); av = x; break;
		case 1: run (s, "reset", [&]{ a.reset (new Owned (x)); }, keep ("reset"), true); av = x; break;
		case 2: run (s, "make_shared", [&]{ a = ustl::make_shared<Owned> (x); }, keep ("make_shared"), true); av = x; break;
		case 3: b = a; break; case 4: b.reset(); break;
		case 5: run (s, "make_unique", [&]{ ustl::unique_ptr<Owned> p (ustl::make_unique<Owned> (x)); PBT_CHECK (p->v == x, "make_unique"); }, keep ("make_unique"), true); break;
		case 6: { const std::string full (uh::rbytes (s, 30)); const char* msg = full.c_str(); bool said = true, copied = true;
		    // An error that can not keep its text is still an error
		    auto says = [&](const ustl::runtime_error& e) { return !strcmp (e.what(), msg) || !*e.what(); };
		    run (s, "runtime_error", [&]{ try { throw ustl::runtime_error (msg); } catch (ustl::runtime_error& e) { said = says (e) && !strcmp (e.name(), "runtime error"); try { ustl::runtime_error f (e); copied = says (f); } catch (const ustl::bad_alloc&) {} ustl::string i; e.info (i); } }, [&]{ PBT_CHECK (said && copied, "runtime_error says something else"); keep ("runtime_error")(); });
		    PBT_CHECK (said && copied, "runtime_error says something else"); break; }
		case 7: { ustl::vector<ustl::exception> v; run (s, "copies of errors", [&]{ ustl::libc_exception e ("read"); ustl::libc_exception f (e); f = e; ustl::CBacktrace t, u (t); u = t; ustl::string i; e.info (i); }, keep ("copies of errors")); break; }
		default: { ustl::bitset<70> bs (s.raw()); run (s, "bitset text", [&]{ ustl::string t (bs.to_string()); PBT_CHECK (t.size() == 70, "bitset text"); }, keep ("bitset text")); break; }
	    }
	    keep ("afterwards")();
	}
	if (faults > 2) s.nontrivial();
    }
    PBT_CHECK (!alive, "%d objects are left", alive); bal.done();
}
//}}}
//{{{ Sizes too large

template <typename Op> static void tooLarge (Src& s, const char* name, Op op)
{
    s.step(); I.on = false; I.hits = 0; bool r = false; note ("%s", name);
    try { op(); } catch (const std::bad_alloc&) { r = true; }
    catch (const ustl::length_error&) { r = true; }
    PBT_CHECK (r, "%s was not refused", name); label (name); ++faults;
}
static size_t huge (Src& s, size_t elem)
{
    const size_t most = SIZE_MAX/elem;
    switch (s.below (5)) {
	case 0: return SIZE_MAX-s.below (40); case 1: return most-s.below (40); case 2: return most+1+s.below (most == SIZE_MAX ? 1 : 40);	// what it multiplies to is small
	case 3: return (size_t(1) << (36+s.below (28)))-s.below (3); default: return SIZE_MAX/2+s.below (9);
    }
}
template <typename T> static void hugeVector (Src& s)
{
    Balanced bal;
    {
	ustl::vector<T> v; std::vector<T> m; for (size_t i = 0, n = s.len (10); i < n; ++i) { m.push_back (T(i)); v.push_back (T(i)); }
	for (unsigned k = 0; k < 3; ++k) {
	    size_t n = huge (s, sizeof(T)); if (n < size_t(1)<<34) n = SIZE_MAX; const size_t p = s.below (m.size()+1); note ("%zu elements of %zu bytes", n, sizeof(T));
	    switch (s.below (8)) {
		case 0: tooLarge (s, "reserve", [&]{ v.reserve (n, s.coin()); }); break; case 1: tooLarge (s, "resize", [&]{ v.resize (n); }); break; case 2: tooLarge (s, "resize with value", [&]{ v.resize (n, T(3)); }); break;
		case 3: tooLarge (s, "insert n", [&]{ v.insert (v.begin()+p, n, T(3)); }); break; case 4: tooLarge (s, "reserve", [&]{ v.reserve (n, false); }); break; case 5: tooLarge (s, "assign n", [&]{ v.assign (n, T(3)); }); break;
		case 6: tooLarge (s, "construct n", [&]{ ustl::vector<T> o (n); }); break; default: tooLarge (s, "construct n with value", [&]{ ustl::vector<T> o (n, T(3)); }); break;
	    }
	    PBT_CHECK (v.size() == m.size() && v.capacity() < 10000, "size %zu, not %zu", v.size(), m.size()); for (size_t i = 0; i < m.size(); ++i) PBT_CHECK (v[i] == m[i], "element %zu changed", i);
	    v.push_back (T(k)); m.push_back (T(k));
	}
    }
    bal.done(); s.nontrivial();
}
PBT_TEST (too_large, 4)
{
    switch (s.below (5)) { case 0: return hugeVector<uint8_t> (s); case 1: return hugeVector<uint16_t> (s); case 2: return hugeVector<double> (s); }
    Balanced bal;
    {
	ustl::string v; std::string m; if (s.coin()) { m = uh::rbytes (s, s.len (20)); v.assign (m.data(), m.size()); } ustl::memblock b; std::string mb = uh::rbytes (s, s.len (20)); b.assign (mb.data(), mb.size());
	for (unsigned k = 0; k < 3; ++k) {
	    size_t n = huge (s, 1+s.below (3)); if (n < size_t(1)<<34) n = SIZE_MAX; const size_t p = s.below (m.size()+1), q = s.below (mb.size()+1); note ("%zu", n);
	    switch (s.below (11)) {
		case 0: tooLarge (s, "string resize", [&]{ v.resize (n); }); break; case 1: tooLarge (s, "string reserve", [&]{ v.reserve (n, s.coin()); }); break; case 2: tooLarge (s, "string append n", [&]{ v.append (n, 'x'); }); break;
		case 3: tooLarge (s, "string insert n", [&]{ v.insert (v.begin()+p, n, 'x'); }); break; case 4: tooLarge (s, "string insert wide", [&]{ v.insert (ustl::string::pos_type(p), ustl::string::size_type(n), wchar_t(0x20ac)); }); break; case 5: tooLarge (s, "string construct", [&]{ ustl::string o (n, 'x'); }); break;
		case 6: tooLarge (s, "string replace n", [&]{ v.replace (v.begin()+p, v.end(), "abc", "abc"+3, n); }); break;
		case 7: tooLarge (s, "block resize", [&]{ b.resize (n); }); break; case 8: tooLarge (s, "block reserve", [&]{ b.reserve (n, s.coin()); }); break; case 9: tooLarge (s, "block insert", [&]{ b.insert (b.begin()+q, n); }); break; default: tooLarge (s, "block construct", [&]{ ustl::memblock o (n); }); break;
	    }
	    PBT_CHECK (std::string (v.begin(), v.size()) == m && !v.c_str()[v.size()], "the text changed"); PBT_CHECK (std::string ((const char*) b.begin(), b.size()) == mb, "the block changed");
	    v.append (3, 'y'); m.append (3, 'y');
	}
    }
    bal.done(); s.nontrivial();
}
//}}}
