// C25: iterator adaptors, functors and pairs follow the standard adaptor laws.
#include <limits>
#include <type_traits>
#include "uh.h"

static inline std::string text (const ustl::string& s) { return std::string (s.begin(), s.size()); }
static inline ustl::string utext (const std::string& s) { return ustl::string (s.data(), s.size()); }
static inline std::string show (int v) { return std::to_string (v); }
static inline std::string show (const std::string& v) { return "\""+pbt::esc (v)+"\""; }
static inline std::string show (const ustl::string& v) { return show (text (v)); }

/// How values of each element type are made, in both libraries.
template <typename T> struct Val { typedef T model; static T make (const T& m) { return m; } static T back (const T& v) { return v; } static T gen (Src& s) { return T(s.coin() ? s.below (5) : s.bits64()); } };
template <> struct Val<ustl::string> { typedef std::string model; static ustl::string make (const std::string& m) { return utext (m); } static std::string back (const ustl::string& v) { return text (v); } static std::string gen (Src& s) { return uh::rbytes (s, s.len (20)); } };

//{{{ Walks

/// An adaptor at a place in a sequence of n values, and which element it shows there.
template <typename It, typename M> struct Walk {
    It first;				///< at place 0
    size_t n;
    std::vector<M> seen;		///< what *(first+i) is
};
template <typename It, typename M, typename Read> static void walk (Src& s, const char* name, const Walk<It,M>& w, Read read)
{
    It it [3] = { w.first, w.first, w.first }; size_t at [3] = { 0, 0, 0 }; const size_t steps = 2+s.below (20); label (name);
    for (size_t k = 0; k < steps; ++k) {
	s.step(); const unsigned a = s.below (3), b = s.below (3); size_t& p = at[a]; std::string op;
	const size_t fwd = s.below (w.n-p+1), bwd = s.below (p+1);
	switch (s.below (14)) {
	    case 0: op = "++"; if (p < w.n) { It& r = ++it[a]; ++p; PBT_CHECK (&r == &it[a], "%s: ++ gives another", name); } break;
	    case 1: op = "--"; if (p) { It& r = --it[a]; --p; PBT_CHECK (&r == &it[a], "%s: -- gives another", name); } break;
	    case 2: op = "postfix ++"; if (p < w.n) { It old (it[a]); It r = it[a]++; ++p; PBT_CHECK (r == old, "%s: postfix ++ did not give the old place", name); } break;
	    case 3: op = "postfix --"; if (p) { It old (it[a]); It r = it[a]--; --p; PBT_CHECK (r == old, "%s: postfix -- did not give the old place", name); } break;
	    case 4: op = "+="; { It& r = it[a] += fwd; p += fwd; PBT_CHECK (&r == &it[a], "%s: += gives another", name); } break;
	    case 5: op = "-="; { It& r = it[a] -= bwd; p -= bwd; PBT_CHECK (&r == &it[a], "%s: -= gives another", name); } break;
	    case 6: op = "+"; { It r = it[a]+fwd; PBT_CHECK (size_t(r-w.first) == p+fwd, "%s: + %zu", name, fwd); it[b] = r; at[b] = p+fwd; break; }
	    case 7: op = "-"; { It r = it[a]-bwd; PBT_CHECK (size_t(r-w.first) == p-bwd, "%s: - %zu", name, bwd); it[b] = r; at[b] = p-bwd; break; }
	    case 8: op = "copy"; { It r (it[a]); it[b] = r; at[b] = p; break; }
	    case 9: op = "[]"; if (fwd < w.n-p) PBT_CHECK (read (it[a][fwd]) == w.seen[p+fwd], "%s: [%zu] at %zu is %s, not %s", name, fwd, p, show(read (it[a][fwd])).c_str(), show(w.seen[p+fwd]).c_str()); break;
	    case 10: case 11: op = "*"; if (p < w.n) PBT_CHECK (read (*it[a]) == w.seen[p], "%s: * at %zu is %s, not %s", name, p, show(read (*it[a])).c_str(), show(w.seen[p]).c_str()); break;
	    default: op = "compare"; break;
	}
	note ("%s of %u", op.c_str(), a);
	for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) {
	    const It &x = it[i], &y = it[j];
	    PBT_CHECK ((x == y) == (at[i] == at[j]), "%s: == at %zu and %zu", name, at[i], at[j]); PBT_CHECK ((x != y) == (at[i] != at[j]), "%s: != at %zu and %zu", name, at[i], at[j]);
	    PBT_CHECK ((x < y) == (at[i] < at[j]), "%s: < at %zu and %zu", name, at[i], at[j]); PBT_CHECK ((x > y) == (at[i] > at[j]), "%s: > at %zu and %zu", name, at[i], at[j]);
	    PBT_CHECK ((x <= y) == (at[i] <= at[j]), "%s: <= at %zu and %zu", name, at[i], at[j]); PBT_CHECK ((x >= y) == (at[i] >= at[j]), "%s: >= at %zu and %zu", name, at[i], at[j]);
	    PBT_CHECK (x-y == ptrdiff_t(at[i])-ptrdiff_t(at[j]), "%s: difference at %zu and %zu is %td", name, at[i], at[j], ptrdiff_t(x-y));
	}
    }
    if (w.n > 2 && steps > 4) s.nontrivial();
}
static std::string far (const std::string&, size_t i) { return std::to_string (i); }
template <typename M> static M far (const M&, size_t i) { return M(i*2654435761u); }
template <typename T> static void walks (Src& s, bool large = false)
{
    typedef typename Val<T>::model M; typedef ustl::vector<T> V; const size_t n = large ? 60000+s.below (100000) : s.len (20); V v; std::vector<M> m;
    if (large) { label ("large"); m.reserve (n); v.reserve (n); }
    for (size_t i = 0; i < n; ++i) { m.push_back (large ? far (M(), i) : Val<T>::gen (s)); v.push_back (Val<T>::make (m.back())); }
    std::vector<M> r (m.rbegin(), m.rend()); note ("%zu values", n);
    auto read = [](const T& x) { return Val<T>::back (x); };
    switch (s.below (9)) {
	case 0: { typedef typename V::reverse_iterator It; Walk<It,M> w = { v.rbegin(), n, r }; walk (s, "reverse", w, read); PBT_CHECK (size_t(v.rend()-v.rbegin()) == n && v.rbegin().base() == v.end() && v.rend().base() == v.begin() && ustl::make_reverse_iterator (v.end()) == v.rbegin(), "reverse bounds"); break; }
	case 1: { typedef typename V::const_reverse_iterator It; const V& c = v; Walk<It,M> w = { c.rbegin(), n, r }; walk (s, "const reverse", w, read); PBT_CHECK (size_t(c.rend()-v.crbegin()) == n && c.rbegin() == v.crbegin() && v.crend() == c.rend(), "const reverse bounds"); break; }
	case 2: { typedef ustl::reverse_iterator<typename V::reverse_iterator> It; Walk<It,M> w = { It (v.rend()), n, m }; walk (s, "reverse reverse", w, read); break; }
	case 3: { typedef ustl::move_iterator<typename V::iterator> It; Walk<It,M> w = { It (v.begin()), n, m }; walk (s, "move", w, read); PBT_CHECK (w.first.base() == v.begin() && ustl::make_move_iterator (v.begin()) == w.first, "move base"); break; }
	case 4: { typedef ustl::reverse_iterator<const T*> It; Walk<It,M> w = { It (v.end()), n, r }; walk (s, "pointer reverse", w, read); break; }
	case 5: { typedef ustl::move_iterator<typename V::reverse_iterator> It; Walk<It,M> w = { It (v.rbegin()), n, r }; walk (s, "move reverse", w, read); break; }
	case 6: {	// through indexes, in any order and more than once
	    std::vector<size_t> x; std::vector<M> e; if (n) for (size_t i = 0, k = large ? n : s.len (20); i < k; ++i) { x.push_back (large ? i*40503 % n : s.below (n)); e.push_back (m[x.back()]); }
	    typedef ustl::index_iterate<typename V::iterator, const size_t*> It; Walk<It,M> w = { It (v.begin(), x.data()), x.size(), e };
	    walk (s, "index", w, [](typename V::iterator i) { return Val<T>::back (*i); });
	    PBT_CHECK (w.first.base() == x.data() && ustl::index_iterator (v.begin(), (const size_t*)(x.data())) == w.first, "index base");
	    ustl::vector<size_t> ux; for (auto i : x) ux.push_back (i); ustl::vector<typename V::iterator> ic (s.below (5)); ustl::indexv_to_iteratorv (v.begin(), ux, ic);
	    PBT_CHECK (ic.size() == x.size(), "indexv_to_iteratorv made %zu of %zu", ic.size(), x.size()); for (size_t i = 0; i < x.size(); ++i) PBT_CHECK (ic[i] == v.begin()+x[i], "indexv_to_iteratorv %zu", i);
	    break; }
	case 7: {	// Writing, moving, reaching members through an adaptor
	    auto i = v.rbegin(); size_t k = 0; for (; i != v.rend(); ++i, ++k) if (s.coin()) { M y = Val<T>::gen (s); *i = Val<T>::make (y); m[n-1-k] = y; }
	    if (n) { k = s.below (n); M y = Val<T>::gen (s); v.rbegin()[k] = Val<T>::make (y); m[n-1-k] = y; PBT_CHECK ((v.rbegin()+k).operator->() == &v[n-1-k] && ustl::make_move_iterator (v.begin()+k).operator->() == &v[k], "-> at %zu", k); PBT_CHECK (&*(v.rbegin()+k) == &v[n-1-k], "reverse * at %zu", k); }
	    for (k = 0; k < n; ++k) PBT_CHECK (Val<T>::back (v[k]) == m[k], "after writing through reverse iterators value %zu is %s, not %s", k, show(v[k]).c_str(), show(m[k]).c_str());
	    V d; ustl::copy (ustl::make_move_iterator (v.begin()), ustl::make_move_iterator (v.end()), ustl::back_inserter (d));
	    PBT_CHECK (d.size() == n && v.size() == n, "moved %zu of %zu", d.size(), n); for (k = 0; k < n; ++k) PBT_CHECK (Val<T>::back (d[k]) == m[k], "moved value %zu is %s, not %s", k, show(d[k]).c_str(), show(m[k]).c_str());
	    V q; for (auto p = ustl::make_move_iterator (d.begin()); p != ustl::make_move_iterator (d.end()); ++p) q.push_back (*p);
	    PBT_CHECK (q.size() == n, "moved %zu of %zu", q.size(), n); for (k = 0; k < n; ++k) PBT_CHECK (Val<T>::back (q[k]) == m[k], "value %zu moved one by one", k);
	    if (n > 2) s.nontrivial(); break; }
	default: {	// Loops
	    std::vector<M> a, b, c; foreach (typename V::const_iterator, i, v) a.push_back (Val<T>::back (*i)); eachfor (typename V::reverse_iterator, i, v) b.push_back (Val<T>::back (*i)); const V& cv = v; eachfor (typename V::const_reverse_iterator, i, cv) c.push_back (Val<T>::back (*i));
	    PBT_CHECK (a == m && b == r && c == r, "loops"); PBT_CHECK (ustl::size (v) == n && ustl::empty (v) == !n && ustl::begin (v) == v.begin() && ustl::end (cv) == cv.end() && ustl::cbegin (v) == cv.begin() && ustl::cend (v) == cv.end() && ustl::rbegin (v) == v.rbegin() && ustl::crend (v) == cv.rend() && ustl::data (v) == v.data(), "free range functions");
	    T arr [3] = { T(), T(), T() }; PBT_CHECK (ustl::begin (arr) == arr && ustl::end (arr) == arr+3 && ustl::size (arr) == 3 && ustl::data (arr) == arr && VectorSize (arr) == 3 && ustl::VectorEnd (arr) == arr+3, "free range functions of an array");
	    V o (n); if (n) { size_t k = s.below (n); PBT_CHECK ((ustl::ibyi<V,V> (v.begin()+k, v, o) == o.begin()+k), "ibyi"); PBT_CHECK (ustl::unconst (cv.begin()+k, v) == v.begin()+k, "unconst"); }
	    if (n > 2) s.nontrivial(); break; }
    }
}
PBT_TEST (adaptor_walks, 20) { if (s.below (3)) walks<int> (s); else walks<ustl::string> (s); }
/// The same over distances that do not fit into 16 bits
PBT_TEST (adaptor_far_walks, 0.02) { walks<uint16_t> (s, true); }
//}}}
//{{{ Inserters

template <typename U, typename M> static void same (const U& u, const M& m, const char* what) { PBT_CHECK (u.size() == m.size(), "%s: %zu values, not %zu", what, size_t(u.size()), size_t(m.size())); auto j = u.begin(); size_t k = 0; for (auto i = m.begin(); i != m.end(); ++i, ++j, ++k) PBT_CHECK (*j == *i, "%s: value %zu of %zu differs", what, k, size_t(m.size())); }
struct EqString { std::string v; };
static inline bool operator== (const ustl::string& a, const EqString& b) { return text (a) == b.v; }
template <typename T> struct Elem { typedef T model; static T m (Src& s) { return T(s.below (1000)); } static T u (const T& v) { return v; } };
template <> struct Elem<ustl::string> { typedef EqString model; static EqString m (Src& s) { EqString r; r.v = uh::rbytes (s, s.len (15)); return r; } static ustl::string u (const EqString& v) { return utext (v.v); } };

/// An insert_iterator among other changes made with the container itself.
template <typename U, typename T, bool Back, bool Front> struct Ins {
    template <typename C, typename V> static void back (C& c, V it) { ustl::back_insert_iterator<C> b (ustl::back_inserter (c)); *b++ = it; }
};
template <typename C, typename V> static void viaBack (C& c, const V& v, unsigned how) { ustl::back_insert_iterator<C> b (ustl::back_inserter (c)); if (how == 0) *b++ = v; else if (how == 1) { *b = v; ++b; } else b = v; }
template <typename C, typename V> static void viaFront (C& c, const V& v, unsigned how) { ustl::front_insert_iterator<C> b (ustl::front_inserter (c)); if (how == 0) *b++ = v; else if (how == 1) { *b = v; ++b; } else b = v; }
template <typename C, typename V> static void viaFrontSeq (std::true_type, C& c, const V& v) { ustl::copy (v.begin(), v.end(), ustl::front_inserter (c)); }
template <typename C, typename V> static void viaFrontSeq (std::false_type, C&, const V&) {}
template <typename C, typename V> static void viaFrontOne (std::true_type, C& c, const V& v, unsigned how) { viaFront (c, v, how); }
template <typename C, typename V> static void viaFrontOne (std::false_type, C&, const V&, unsigned) {}

template <typename U, typename T, typename CanFront> static void inserters (Src& s, const char* name)
{
    typedef typename Elem<T>::model MT; U u; std::vector<MT> m; const size_t n = s.len (8), rounds = 1+s.below (6); label (name);
    for (size_t i = 0; i < n; ++i) { m.push_back (Elem<T>::m (s)); u.push_back (Elem<T>::u (m.back())); }
    size_t done = 0;
    for (size_t r = 0; r < rounds; ++r) {
	s.step(); std::vector<MT> more; for (size_t i = 0, k = s.len (12); i < k; ++i) more.push_back (Elem<T>::m (s)); ustl::vector<T> um; for (auto& x : more) um.push_back (Elem<T>::u (x)); done += more.size();
	switch (s.below (CanFront::value ? 7 : 5)) {
	    case 0: { size_t p = s.below (m.size()+1); note ("%s: insert %zu at %zu of %zu", name, more.size(), p, m.size()); ustl::insert_iterator<U> it (ustl::inserter (u, u.begin()+p)); for (size_t i = 0; i < um.size(); ++i) switch (s.below (3)) { case 0: *it++ = um[i]; break; case 1: *it = um[i]; ++it; break; default: it = um[i]; } m.insert (m.begin()+p, more.begin(), more.end()); break; }
	    case 1: { size_t p = s.below (m.size()+1); note ("%s: copy %zu to an inserter at %zu of %zu", name, more.size(), p, m.size()); ustl::copy (um.begin(), um.end(), ustl::inserter (u, u.begin()+p)); m.insert (m.begin()+p, more.begin(), more.end()); break; }
	    case 2: note ("%s: back insert %zu", name, more.size()); for (auto& x : um) viaBack (u, x, s.below (3)); m.insert (m.end(), more.begin(), more.end()); break;
	    case 3: note ("%s: copy %zu to the back", name, more.size()); ustl::copy (um.begin(), um.end(), ustl::back_inserter (u)); m.insert (m.end(), more.begin(), more.end()); break;
	    case 4: { size_t p = s.below (m.size()+1), k = s.below (6); MT x = Elem<T>::m (s); note ("%s: fill_n %zu at %zu", name, k, p); ustl::fill_n (ustl::inserter (u, u.begin()+p), k, Elem<T>::u (x)); m.insert (m.begin()+p, k, x); break; }
	    case 5: note ("%s: front insert %zu", name, more.size()); for (auto& x : um) viaFrontOne (CanFront(), u, x, s.below (3)); m.insert (m.begin(), more.rbegin(), more.rend()); break;
	    default: note ("%s: copy %zu to the front", name, more.size()); viaFrontSeq (CanFront(), u, um); m.insert (m.begin(), more.rbegin(), more.rend()); break;
	}
	same (u, m, name);
    }
    if (rounds > 1 && done > 3) s.nontrivial();
}
/// Sorted containers take the place as a hint only.
template <typename U, typename M> static void sortedInserters (Src& s, const char* name)
{
    U u; M m; size_t total = 0; label (name);
    for (size_t r = 0, k = 1+s.below (6); r < k; ++r) {
	s.step(); ustl::vector<int> more; for (size_t i = 0, n = s.len (12); i < n; ++i) more.push_back (int(s.below (30))); total += more.size(); size_t p = s.below (u.size()+1);
	switch (s.below (3)) {
	    case 0: note ("%s: insert %zu with a hint at %zu", name, more.size(), p); { ustl::insert_iterator<U> it (ustl::inserter (u, u.begin()+p)); for (auto x : more) { *it = x; ++it; } } break;
	    case 1: note ("%s: copy %zu to an inserter", name, more.size()); ustl::copy (more.begin(), more.end(), ustl::inserter (u, u.begin()+p)); break;
	    default: note ("%s: copy %zu to a back inserter", name, more.size()); ustl::copy (more.begin(), more.end(), ustl::back_inserter (u)); break;
	}
	for (auto x : more) m.insert (x);
	same (u, m, name);
    }
    if (total > 4) s.nontrivial();
}
template <typename U, typename M> static void mapInserters (Src& s, const char* name)
{
    U u; M m; size_t total = 0; label (name); typedef ustl::pair<int,int> P;
    for (size_t r = 0, k = 1+s.below (6); r < k; ++r) {
	s.step(); ustl::vector<P> more; for (size_t i = 0, n = s.len (12); i < n; ++i) more.push_back (P (int(s.below (30)), int(s.below (100)))); total += more.size(); size_t p = s.below (u.size()+1); note ("%s: %zu pairs", name, more.size());
	if (s.coin()) { ustl::insert_iterator<U> it (ustl::inserter (u, u.begin()+p)); for (auto& x : more) { *it = x; ++it; } } else ustl::copy (more.begin(), more.end(), ustl::inserter (u, u.begin()+p));
	for (auto& x : more) m.insert (std::make_pair (x.first, x.second));
	PBT_CHECK (u.size() == m.size(), "%s: %zu pairs, not %zu", name, u.size(), m.size()); auto j = u.begin(); for (auto i = m.begin(); i != m.end(); ++i, ++j) PBT_CHECK (j->first == i->first && j->second == i->second, "%s: (%d,%d), not (%d,%d)", name, j->first, j->second, i->first, i->second);
    }
    if (total > 4) s.nontrivial();
}
PBT_TEST (inserters, 10)
{
    switch (s.below (9)) {
	case 0: return inserters<ustl::vector<int>,int,std::false_type> (s, "vector"); case 1: return inserters<ustl::vector<ustl::string>,ustl::string,std::false_type> (s, "vector of strings");
	case 2: return inserters<ustl::list<int>,int,std::true_type> (s, "list"); case 3: return inserters<ustl::list<ustl::string>,ustl::string,std::true_type> (s, "list of strings");
	case 4: return inserters<ustl::string,char,std::false_type> (s, "string"); case 5: return sortedInserters<ustl::set<int>,std::set<int>> (s, "set"); case 6: return sortedInserters<ustl::multiset<int>,std::multiset<int>> (s, "multiset");
	case 7: return mapInserters<ustl::map<int,int>,std::map<int,int>> (s, "map"); default: return mapInserters<ustl::multimap<int,int>,std::multimap<int,int>> (s, "multimap");
    }
}
//}}}
//{{{ Functors

template <typename T> static T fval (Src& s) { return T(s.coin() ? s.bits64() : s.below (6)); }
template <> double fval<double> (Src& s) { return double(int64_t(s.bits64()))/double(1+s.below (50)); }
template <typename T> static void compareOps (const T& a, const T& b, const char* name)
{
    PBT_CHECK (ustl::equal_to<T>()(a,b) == (a == b) && ustl::not_equal_to<T>()(a,b) == !(a == b), "equal_to of %s", name);
    PBT_CHECK (ustl::less<T>()(a,b) == (a < b) && ustl::greater<T>()(a,b) == (b < a), "less and greater of %s", name);
    PBT_CHECK (ustl::less_equal<T>()(a,b) == !(b < a) && ustl::greater_equal<T>()(a,b) == !(a < b), "less_equal and greater_equal of %s", name);
    PBT_CHECK (ustl::compare<T>()(a,b) == (a < b ? -1 : b < a ? 1 : 0), "compare of %s", name);
    PBT_CHECK (ustl::identity<T>()(a) == a && (ustl::project1st<T,T>()(a,b) == a) && (ustl::project2nd<T,T>()(a,b) == b), "identity and projections of %s", name);
    auto lt = ustl::bind1st (ustl::less<T>(), a); PBT_CHECK (lt (b) == (a < b), "bind1st of %s", name); auto gt = ustl::bind2nd (ustl::less<T>(), a); PBT_CHECK (gt (b) == (b < a), "bind2nd of %s", name);
    auto nl = ustl::unary_negator (lt); PBT_CHECK (nl (b) == !(a < b), "unary_negator of %s", name);
    PBT_CHECK (ustl::compose2 (ustl::logical_and<bool>(), lt, ustl::bind2nd (ustl::not_equal_to<T>(), b)) (a) == (a < a && !(a == b)), "compose2 of %s", name);
}
template <typename T> static T neg (T v) { return T(0)-v; }
static int twice (int v) { return int(unsigned(v)*2u); }
static int mixed (int a, int b) { return int(unsigned(a)*3u-unsigned(b)); }
template <typename T, typename W> static void intOps (Src& s, const char* name)
{
    T a = fval<T> (s), b = fval<T> (s); const W x = W(a), y = W(b); note ("%s %lld, %lld", name, (long long)(a), (long long)(b)); label (name);
    // Of values that do not overflow
    const T p = T(a/4), q = T(b/4); PBT_CHECK (ustl::plus<T>()(p,q) == T(p+q) && ustl::minus<T>()(T(p < q ? q : p), T(p < q ? p : q)) == T((p < q ? q : p)-(p < q ? p : q)), "plus and minus of %s", name);
    const T sm = T(a%1000%100), sn = T(b%1000%1); (void) sn; PBT_CHECK (ustl::multiplies<T>()(T(sm%10),T(b%10)) == T(T(sm%10)*T(b%10)), "multiplies of %s", name);
    if (b && !(std::is_signed<T>::value && b == T(-1))) PBT_CHECK (ustl::divides<T>()(a,b) == T(a/b) && ustl::modulus<T>()(a,b) == T(a%b), "divides and modulus of %s", name);
    PBT_CHECK (ustl::logical_and<T>()(a,b) == T(a&&b) && ustl::logical_or<T>()(a,b) == T(a||b) && ustl::logical_not<T>()(a) == T(!a), "logical functors of %s", name);
    PBT_CHECK (ustl::bitwise_or<T>()(a,b) == T(x|y) && ustl::bitwise_and<T>()(a,b) == T(x&y) && ustl::bitwise_xor<T>()(a,b) == T(x^y) && ustl::bitwise_not<T>()(a) == T(~x), "bitwise functors of %s", name);
    PBT_CHECK (ustl::negate<T>()(p) == T(W(0)-W(p)), "negate of %s", name);
    compareOps<T> (a, b, name);
    auto pl = ustl::bind1st (ustl::minus<T>(), p); const T half = T(p/2); PBT_CHECK (pl (half) == T(p-half), "bind1st minus of %s", name); auto mi = ustl::bind2nd (ustl::minus<T>(), half); PBT_CHECK (mi (p) == T(p-half), "bind2nd minus of %s", name);
    auto c1 = ustl::compose1 (ustl::bitwise_not<T>(), ustl::bind2nd (ustl::bitwise_xor<T>(), b)); PBT_CHECK (c1 (a) == T(~(x^y)), "compose1 of %s", name);
    auto c2 = ustl::compose2 (ustl::bitwise_and<T>(), ustl::bind2nd (ustl::bitwise_or<T>(), b), ustl::bitwise_not<T>()); PBT_CHECK (c2 (a) == T((x|y)&~x), "compose2 of %s", name);
    if (!(a == b)) s.nontrivial();
}
PBT_TEST (functors, 8)
{
    switch (s.below (7)) {
	case 0: return intOps<int,unsigned> (s, "int"); case 1: return intOps<unsigned,unsigned> (s, "unsigned"); case 2: return intOps<int64_t,uint64_t> (s, "int64_t"); case 3: return intOps<uint64_t,uint64_t> (s, "uint64_t"); case 4: return intOps<uint8_t,unsigned> (s, "uint8_t");
	case 5: { double a = fval<double> (s), b = fval<double> (s); note ("%.17g, %.17g", a, b); compareOps<double> (a, b, "double"); PBT_CHECK (ustl::plus<double>()(a,b) == a+b && ustl::minus<double>()(a,b) == a-b && ustl::multiplies<double>()(a,b) == a*b && ustl::negate<double>()(a) == -a, "arithmetic of doubles"); if (b != 0) PBT_CHECK (ustl::divides<double>()(a,b) == a/b, "divides of doubles"); s.nontrivial (a != b); return; }
	default: { std::string a = uh::rbytes (s, s.len (20)), b = s.coin() ? uh::rbytes (s, s.len (20)) : a.substr (0, s.below (a.size()+1)); note ("\"%s\", \"%s\"", pbt::esc(a).c_str(), pbt::esc(b).c_str()); ustl::string u = utext (a), v = utext (b); compareOps<ustl::string> (u, v, "string"); PBT_CHECK (text (ustl::plus<ustl::string>()(u,v)) == a+b, "plus of strings"); PBT_CHECK (text (ustl::bind1st (ustl::plus<ustl::string>(), u)(v)) == a+b && text (ustl::bind2nd (ustl::plus<ustl::string>(), u)(v)) == b+a, "bound plus of strings"); s.nontrivial (a != b); return; }
    }
}
struct Obj {
    int a; ustl::string t;
    int get (void) const { return a; }
    int bump (void) { return ++a; }
    int add (int v) { a = int(unsigned(a)+unsigned(v)); return a; }
    int sum (int v) const { return int(unsigned(a)+unsigned(v)); }
    bool operator< (const Obj& o) const { return a < o.a; }
};
PBT_TEST (member_adaptors, 6)
{
    const size_t n = s.len (12); ustl::vector<Obj> v; std::vector<int> m; std::vector<std::string> mt;
    for (size_t i = 0; i < n; ++i) { m.push_back (int(s.coin() ? s.below (6) : s.bits64() >> 34)); mt.push_back (uh::rbytes (s, s.len (6))); Obj o; o.a = m.back(); o.t = utext (mt.back()); v.push_back (o); }
    ustl::vector<Obj*> p; ustl::vector<const Obj*> cp; for (auto& o : v) { p.push_back (&o); cp.push_back (&o); }
    int k = n && s.coin() ? m[s.below (n)] : int(s.below (6)); std::string kt = n && s.coin() ? mt[s.below (n)] : "a"; note ("%zu objects, key %d", n, k);
    ustl::vector<int> r (n); std::vector<int> e (m);
    switch (s.below (12)) {
	case 0: note ("mem_fun_ref const"); ustl::transform (v.begin(), v.end(), r.begin(), ustl::mem_fun_ref (&Obj::get)); break;
	case 1: note ("mem_fun_ref"); ustl::transform (v.begin(), v.end(), r.begin(), ustl::mem_fun_ref (&Obj::bump)); for (auto& x : e) ++x; for (auto& x : m) ++x; break;
	case 2: note ("mem_fun const"); ustl::transform (cp.begin(), cp.end(), r.begin(), ustl::mem_fun (&Obj::get)); break;
	case 3: note ("mem_fun"); ustl::transform (p.begin(), p.end(), r.begin(), ustl::mem_fun (&Obj::bump)); for (auto& x : e) ++x; for (auto& x : m) ++x; break;
	case 4: { note ("mem_fun of an object"); Obj o; o.a = 0; ustl::vector<int> in; for (auto x : m) in.push_back (x); ustl::transform (in.begin(), in.end(), r.begin(), ustl::mem_fun (&o, &Obj::add)); unsigned t = 0; for (size_t i = 0; i < n; ++i) { t += unsigned(m[i]); e[i] = int(t); } break; }
	case 5: { note ("mem_fun of a const object"); Obj o; o.a = k; const Obj& c = o; ustl::vector<int> in; for (auto x : m) in.push_back (x); ustl::transform (in.begin(), in.end(), r.begin(), ustl::mem_fun (&c, &Obj::sum)); for (size_t i = 0; i < n; ++i) e[i] = int(unsigned(k)+unsigned(m[i])); break; }
	case 6: { note ("mem_var_equal_to"); auto i = ustl::find_if (v.begin(), v.end(), ustl::mem_var_equal_to (&Obj::a, k)); size_t j = std::find (m.begin(), m.end(), k)-m.begin(); PBT_CHECK (size_t(i-v.begin()) == j, "found at %zu, not %zu", size_t(i-v.begin()), j); auto t = ustl::find_if (v.begin(), v.end(), ustl::mem_var_equal_to (&Obj::t, utext (kt))); j = std::find (mt.begin(), mt.end(), kt)-mt.begin(); PBT_CHECK (size_t(t-v.begin()) == j, "text found at %zu, not %zu", size_t(t-v.begin()), j); r.resize (0); e.clear(); break; }
	case 7: { note ("mem_var_less"); auto i = ustl::find_if (v.begin(), v.end(), ustl::mem_var_less (&Obj::a, k)); size_t j = 0; while (j < n && !(m[j] < k)) ++j; PBT_CHECK (size_t(i-v.begin()) == j, "found at %zu, not %zu", size_t(i-v.begin()), j); r.resize (0); e.clear(); break; }
	case 8: { note ("ordering by a member"); std::vector<size_t> x; for (size_t i = 0; i < n; ++i) x.push_back (i); auto lt = ustl::mem_var_less (&Obj::a); auto eq = ustl::mem_var_equal_to (&Obj::a); std::sort (x.begin(), x.end(), [&](size_t i, size_t j) { return lt (v[i], v[j]); }); std::sort (e.begin(), e.end()); for (size_t i = 0; i < n; ++i) r[i] = v[x[i]].a; for (size_t i = 1; i < n; ++i) PBT_CHECK (eq (v[x[i-1]], v[x[i]]) == (e[i-1] == e[i]), "mem_var_equal_to of two"); ustl::vector<Obj> w; for (auto i : x) w.push_back (v[i]); Obj key; key.a = k; auto f = ustl::lower_bound (w.begin(), w.end(), key, lt); PBT_CHECK (f-w.begin() == std::lower_bound (e.begin(), e.end(), k)-e.begin(), "lower_bound by a member"); break; }
	case 9: { note ("dereference"); std::vector<Obj*> w (p.begin(), p.end()); auto lt = ustl::dereference (ustl::less<Obj>()); std::sort (w.begin(), w.end(), [&](Obj* i, Obj* j) { return lt (i, j); }); std::sort (e.begin(), e.end()); for (size_t i = 0; i < n; ++i) r[i] = w[i]->a; break; }
	case 10: { note ("dereference of one"); ustl::vector<int> in; for (auto x : m) in.push_back (x); ustl::vector<int*> ip; for (auto& x : in) ip.push_back (&x); ustl::transform (ip.begin(), ip.end(), r.begin(), ustl::dereference (ustl::bind2nd (ustl::bitwise_xor<int>(), k))); for (auto& x : e) x ^= k; break; }
	default: { note ("mem_var1 and functions"); ustl::transform (v.begin(), v.end(), r.begin(), ustl::mem_var1 (&Obj::a, ustl::ptr_fun (&twice))); for (auto& x : e) x = twice (x); ustl::vector<int> in; for (auto x : m) in.push_back (x); ustl::vector<int> out (n); ustl::transform (in.begin(), in.end(), r.begin(), out.begin(), ustl::ptr_fun (&mixed)); for (size_t i = 0; i < n; ++i) PBT_CHECK (out[i] == mixed (m[i], e[i]), "ptr_fun of two"); break; }
    }
    PBT_CHECK (r.size() == e.size(), "size"); for (size_t i = 0; i < r.size(); ++i) PBT_CHECK (r[i] == e[i], "result %zu is %d, not %d", i, r[i], e[i]);
    for (size_t i = 0; i < n; ++i) PBT_CHECK (v[i].a == m[i], "object %zu holds %d, not %d", i, v[i].a, m[i]);
    if (n > 2) s.nontrivial();
}
//}}}
//{{{ Pairs

template <typename A, typename B> static void pairLaws (Src& s, const char* name)
{
    typedef typename Val<A>::model MA; typedef typename Val<B>::model MB; typedef ustl::pair<A,B> P; typedef std::pair<MA,MB> M; label (name);
    auto gen = [&](void) { MA a = Val<A>::gen (s); return M (a, Val<B>::gen (s)); }; auto make = [](const M& m) { return P (Val<A>::make (m.first), Val<B>::make (m.second)); };
    auto is = [](const P& p, const M& m) { return Val<A>::back (p.first) == m.first && Val<B>::back (p.second) == m.second; };
    M m[4]; P p[4]; for (unsigned i = 0; i < 4; ++i) { m[i] = gen(); if (i && s.coin()) m[i].first = m[s.below (i)].first; if (i && s.coin()) m[i].second = m[s.below (i)].second; p[i] = make (m[i]); }
    for (size_t k = 0, n = 1+s.below (10); k < n; ++k) {
	s.step(); unsigned a = s.below (4), b = s.below (4); const char* op = "";
	switch (s.below (8)) {
	    case 0: op = "copy"; { P c (p[b]); p[a] = c; m[a] = m[b]; } break; case 1: op = "assign"; p[a] = p[b]; m[a] = m[b]; break;
	    case 2: op = "move"; if (a != b) { P c (ustl::move (p[b])); p[b] = make (m[b]); p[a] = ustl::move (c); m[a] = m[b]; } break;
	    case 3: op = "swap"; if (a != b) { p[a].swap (p[b]); std::swap (m[a], m[b]); } break; case 4: op = "swap function"; if (a != b) { ustl::swap (p[a], p[b]); std::swap (m[a], m[b]); } break;
	    case 5: op = "make_pair"; { const A x = Val<A>::make (m[b].first); B y = Val<B>::make (m[b].second); auto q = ustl::make_pair (x, y); static_assert (std::is_same<decltype(q),P>::value, "make_pair type"); p[a] = q; m[a] = m[b]; } break;
	    case 6: op = "make_pair of temporaries"; { m[a] = gen(); p[a] = ustl::make_pair (Val<A>::make (m[a].first), Val<B>::make (m[a].second)); } break;
	    default: op = "members"; m[a] = M (m[b].first, gen().second); p[a].first = p[b].first; p[a].second = Val<B>::make (m[a].second); break;
	}
	note ("%s %u %u", op, a, b); for (unsigned i = 0; i < 4; ++i) PBT_CHECK (is (p[i], m[i]), "%s: after %s pair %u is not what it should be", name, op, i);
    }
    for (unsigned i = 0; i < 4; ++i) for (unsigned j = 0; j < 4; ++j) {
	const P &x = p[i], &y = p[j]; PBT_CHECK ((x == y) == (m[i] == m[j]) && (x != y) == (m[i] != m[j]), "%s: == of %u and %u", name, i, j); PBT_CHECK ((x < y) == (m[i] < m[j]), "%s: < of (%s,%s) and (%s,%s)", name, show(m[i].first).c_str(), show(m[i].second).c_str(), show(m[j].first).c_str(), show(m[j].second).c_str()); PBT_CHECK ((x > y) == (m[i] > m[j]) && (x <= y) == (m[i] <= m[j]) && (x >= y) == (m[i] >= m[j]), "%s: order of %u and %u", name, i, j);
    }
    P d; PBT_CHECK (Val<A>::back (d.first) == MA() && Val<B>::back (d.second) == MB(), "%s: default", name); s.nontrivial();
}
PBT_TEST (pairs, 5)
{
    switch (s.below (4)) { case 0: return pairLaws<int,int> (s, "int,int"); case 1: return pairLaws<int,ustl::string> (s, "int,string"); case 2: return pairLaws<ustl::string,int> (s, "string,int"); }
    // Conversions between pair types
    int a = int(s.bits64()); uint8_t b = uint8_t(s.bits64()); ustl::pair<int,uint8_t> p (a, b); ustl::pair<long,int> q (p), r; r = p; PBT_CHECK (q.first == a && q.second == b && r.first == a && r.second == b, "converted pair"); ustl::pair<long,int> t (ustl::make_pair (a, b)); r = ustl::make_pair (short(b), b); PBT_CHECK (t.first == a && t.second == b && r.first == b && r.second == b, "pair converted from a temporary");
    std::string z = uh::rbytes (s, s.len (20)); z.erase (std::remove (z.begin(), z.end(), '\0'), z.end()); const char* lit = z.c_str(); ustl::pair<ustl::string,int> ps (ustl::make_pair (lit, a)); PBT_CHECK (text (ps.first) == z && ps.second == a, "pair with text"); auto ml = ustl::make_pair ("abc", 1); static_assert (std::is_same<decltype(ml),ustl::pair<const char*,int>>::value, "decay"); PBT_CHECK (!strcmp (ml.first, "abc"), "literal in a pair");
    note ("%d %u \"%s\"", a, b, pbt::esc(z).c_str()); s.nontrivial();
}
//}}}
