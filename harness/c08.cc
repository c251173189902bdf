// C08: set, multiset, map and multimap against std containers.
#include "uh.h"

// Element types: i identifies the key class, t tells equal keys apart.
struct Rec { int k; int t; ustl::string s;
    Rec (void) : k(0), t(0), s() {}
    Rec (int nk, int nt) : k(nk), t(nt), s() { s.format ("%d#%d", nk, nt); }
    bool operator== (const Rec& o) const { return k == o.k && t == o.t && s == o.s; }
    bool operator!= (const Rec& o) const { return !(*this == o); }
    bool operator< (const Rec& o) const { return k < o.k; } };
struct Pod { short k; unsigned char t;
    Pod (void) : k(0), t(0) {}
    Pod (int nk, int nt) : k(nk), t(nt) {}
    bool operator== (const Pod& o) const { return k == o.k && t == o.t; }
    bool operator!= (const Pod& o) const { return !(*this == o); }
    bool operator< (const Pod& o) const { return k < o.k; } };

// Key K of a small universe around k
template <typename T> struct mk { static T of (int k, int) { return T(k); } static std::string str (const T& v) { return pbt::fmt ("%lld", (long long) v); } };
template <> struct mk<double> { static double of (int k, int) { return k*0.25; } static std::string str (const double& v) { return pbt::fmt ("%g", v); } };
template <> struct mk<const char*> { static const char* of (int k, int) { static char b[512]; return b+k+200; } static std::string str (const char* const& v) { return pbt::fmt ("%p", (const void*)v); } };
template <> struct mk<Rec> { static Rec of (int k, int t) { return Rec (k,t); } static std::string str (const Rec& v) { return pbt::fmt ("%d#%d", v.k, v.t); } };
template <> struct mk<Pod> { static Pod of (int k, int t) { return Pod (k,t); } static std::string str (const Pod& v) { return pbt::fmt ("%d#%d", v.k, v.t); } };
template <> struct mk<ustl::string> {
    // prefixes and embedded zeros included
    static ustl::string of (int k, int) { std::string r; unsigned u = unsigned(k+256); do { r += "ab\0c"[u%4]; u /= 4; } while (u); return ustl::string (r.data(), r.size()); }
    static std::string str (const ustl::string& v) { return pbt::esc (v.data(), v.size()); } };

// Orderings; std side uses the same objects
struct Div { template <typename T> static int key (const T& v) { return int(v)>>2; } static int key (const Rec& v) { return v.k>>2; } static int key (const Pod& v) { return v.k>>2; } static int key (const ustl::string& v) { return int(v.size()); } static int key (const char* v) { return int(intptr_t(v)>>2); }
    template <typename T> bool operator() (const T& a, const T& b) const { return key(a) < key(b); } };
struct Rev { template <typename T> bool operator() (const T& a, const T& b) const { return b < a; } };

template <typename C, typename M> void same_seq (const C& c, const M& m, const char* op)
{
    typedef typename C::value_type T;
    PBT_CHECK (c.size() == m.size() && c.empty() == m.empty(), "after %s: size %zu, expected %zu", op, size_t(c.size()), m.size());
    PBT_CHECK (size_t(c.end()-c.begin()) == m.size() && c.cend()-c.cbegin() == c.end()-c.begin(), "after %s: begin and end do not span the elements", op);
    auto j = m.begin(); size_t q = 0;
    for (auto i = c.begin(); i != c.end(); ++i, ++j, ++q)
	PBT_CHECK (*i == T(*j), "after %s: element %zu is %s, expected %s", op, q, mk<T>::str(*i).c_str(), mk<T>::str(T(*j)).c_str());
    auto k = m.rbegin();
    for (auto i = c.rbegin(); i != c.rend(); ++i, ++k) PBT_CHECK (*i == T(*k), "after %s: reverse iteration differs", op);
}
template <typename C, typename M> size_t at_std (const M& m, typename M::const_iterator i) { return std::distance (m.begin(), i); }

template <typename T, typename Comp>
void set_case (Src& s)
{
    typedef ustl::set<T,Comp> C; typedef std::set<T,Comp> M;
    static const int spans[] = {3,8,24,100};
    int span = s.among (spans), tag = 0; unsigned dup = 0, rem = 0;
    auto gen = [&]{ return mk<T>::of (int(s.below(span))-span/2, ++tag%100); };
    std::unique_ptr<C> v[2]; M m[2]; for (auto& p : v) p.reset (new C);
    for (unsigned k = 0, n = 2+s.len(40); k < n; ++k) {
	int i = s.below(2); M& b = m[i]; const char* nm = "?"; s.step();
#define a (*v[i])
	switch (s.below(17)) {
	    case 0: case 1: case 2: case 3: { nm = "insert"; T x = gen(); auto e = b.insert (x); typename C::insertrv_t r; T y (x);
		switch (s.below(4)) { case 0: r = a.insert (x); break; case 1: r = a.insert (T(x)); break; case 2: r = a.emplace (x); break; default: r = a.emplace_back (x); }
		dup += !e.second; PBT_CHECK (r.second == e.second, "insert of %s reports %d, expected %d", mk<T>::str(y).c_str(), r.second, e.second);
		size_t at = std::distance (b.begin(), e.first); PBT_CHECK (r.first == a.begin()+at, "insert returned position %td, expected %zu", r.first-a.begin(), at); break; }
	    case 4: { nm = "hint insert"; T x = gen(); auto e = b.insert (x); size_t h = s.below(a.size()+1); typename C::iterator r;
		switch (s.below(3)) { case 0: r = a.insert (a.begin()+h, x); break; case 1: r = a.insert (a.begin()+h, T(x)); break; default: r = a.emplace_hint (a.begin()+h, x); }
		dup += !e.second; PBT_CHECK (r == a.begin()+std::distance (b.begin(), e.first), "hinted insert returned position %td", r-a.begin()); break; }
	    case 5: { nm = "push_back"; T x = gen(); b.insert (x); a.push_back (x); break; }
	    case 6: { nm = "range insert"; std::vector<T> t; for (size_t q = s.len(12); q; --q) t.push_back (gen()); for (auto& x : t) b.insert (x);
		switch (s.below(3)) { case 0: a.insert (t.data(), t.data()+t.size()); break; case 1: { T z[3] = { gen(), gen(), gen() }; b.insert ({z[0],z[1],z[2]}); a.insert (t.data(), t.data()+t.size()); a.insert ({z[0],z[1],z[2]}); break; }
		  default: a.assign (t.data(), t.data()+t.size()); b.clear(); for (auto& x : t) b.insert (x); } break; }
	    case 7: { nm = "erase value"; if (b.empty() || s.coin()) { T x = gen(); rem += b.erase (x); a.erase (x); }
		else { size_t p = s.below(b.size()); auto e = b.begin(); std::advance (e, p); T x (*e); b.erase (e); if (s.coin()) a.erase (x); else a.erase (*(a.cbegin()+p)); ++rem; } break; }
	    case 8: { nm = "erase position"; if (b.empty()) break; size_t p = s.below(b.size()); auto e = b.begin(); std::advance (e, p); b.erase (e); auto r = a.erase (a.begin()+p); PBT_CHECK (r == a.begin()+p, "erase returned %td, expected %zu", r-a.begin(), p); ++rem; break; }
	    case 9: { nm = "erase range"; size_t p = s.below(b.size()+1), c = s.below(b.size()-p+1); if (c > 6) c = 6; auto e = b.begin(); std::advance (e, p); auto f = e; std::advance (f, c); b.erase (e, f); auto r = a.erase (a.begin()+p, a.begin()+p+c); PBT_CHECK (r == a.begin()+p, "range erase returned %td, expected %zu", r-a.begin(), p); break; }
	    case 10: nm = "copy"; switch (s.below(3)) { case 0: v[i].reset (new C (*v[1-i])); break; case 1: a = *v[1-i]; break; default: v[i].reset (new C (v[1-i]->begin(), v[1-i]->end())); } b = m[1-i]; break;
	    case 11: nm = "move construction"; { std::unique_ptr<C> t (new C (ustl::move (*v[1-i]))); v[i].reset (t.release()); v[1-i].reset (new C); b = m[1-i]; m[1-i].clear(); } break;
	    case 12: nm = "swap"; if (s.chance (1,4)) { auto& z = a; if (s.coin()) a = z; else a.swap (z); break; } if (s.coin()) a.swap (*v[1-i]); else ustl::swap (a, *v[1-i]); b.swap (m[1-i]); break;
	    case 13: nm = "move ="; { C t; t = ustl::move (a); v[i].reset (new C); a = ustl::move (t); } break;
	    case 14: if (s.chance(1,4)) { nm = "clear"; a.clear(); b.clear(); } break;
	    case 15: { nm = "initializer list"; if (s.chance(3,4)) break; T x = gen(), y = gen(), z = gen(); v[i].reset (new C {x,y,z}); b = M{x,y,z}; break; }
	    default: { nm = "lookup";
		const C& ca = a; for (int q = 0; q < 4; ++q) {
		    T x = gen(); auto e = b.find (x); size_t ep = e == b.end() ? b.size() : std::distance (b.begin(), e);
		    PBT_CHECK (ca.find (x) == ca.begin()+ep && a.find (x) == a.begin()+ep, "find(%s) gives %td, expected %zu", mk<T>::str(x).c_str(), ca.find(x)-ca.begin(), ep);
		    size_t lo = std::distance (b.begin(), b.lower_bound (x)), hi = std::distance (b.begin(), b.upper_bound (x));
		    PBT_CHECK (ca.lower_bound (x)-ca.begin() == ptrdiff_t(lo) && a.lower_bound (x)-a.begin() == ptrdiff_t(lo), "lower_bound(%s) gives %td, expected %zu", mk<T>::str(x).c_str(), ca.lower_bound(x)-ca.begin(), lo);
		    PBT_CHECK (ca.upper_bound (x)-ca.begin() == ptrdiff_t(hi) && a.upper_bound (x)-a.begin() == ptrdiff_t(hi), "upper_bound(%s) gives %td, expected %zu", mk<T>::str(x).c_str(), ca.upper_bound(x)-ca.begin(), hi);
		    auto r = ca.equal_range (x); auto rn = a.equal_range (x); PBT_CHECK (r.first-ca.begin() == ptrdiff_t(lo) && r.second-ca.begin() == ptrdiff_t(hi) && rn.first-a.begin() == ptrdiff_t(lo) && rn.second-a.begin() == ptrdiff_t(hi), "equal_range(%s) gives %td..%td, expected %zu..%zu", mk<T>::str(x).c_str(), r.first-ca.begin(), r.second-ca.begin(), lo, hi);
		    PBT_CHECK (ca.count (x) == b.count (x), "count(%s) gives %zu", mk<T>::str(x).c_str(), size_t(ca.count(x)));
		    T y = gen(); PBT_CHECK (ca.key_comp()(x,y) == Comp()(x,y) && ca.value_comp()(x,y) == Comp()(x,y), "key_comp");
		}
	    }
	}
	note ("s%d %s -> %zu", i, nm, b.size());
#undef a
	for (int q = 0; q < 2; ++q) same_seq (*v[q], m[q], nm);
	PBT_CHECK ((*v[0] == *v[1]) == (v[0]->size() == v[1]->size() && std::equal (m[0].begin(), m[0].end(), m[1].begin())), "== of two sets");
    }
    s.nontrivial (dup && rem);
}

template <typename T, typename Comp>
void multiset_case (Src& s)
{
    typedef ustl::multiset<T,Comp> C; typedef std::multiset<T,Comp> M;
    static const int spans[] = {2,5,12,60};
    int span = s.among (spans), tag = 0; unsigned dup = 0, rem = 0;
    auto gen = [&]{ return mk<T>::of (int(s.below(span))-span/2, ++tag%100); };
    std::unique_ptr<C> v[2]; M m[2]; for (auto& p : v) p.reset (new C);
    for (unsigned k = 0, n = 2+s.len(40); k < n; ++k) {
	int i = s.below(2); M& b = m[i]; const char* nm = "?"; s.step();
#define a (*v[i])
	switch (s.below(17)) {
	    case 0: case 1: case 2: case 3: { nm = "insert"; const size_t own = !b.empty() && s.chance (1,6) ? s.below (b.size()) : b.size(); T x = gen(); if (own < b.size()) { auto q = b.begin(); std::advance (q, own); x = *q; } dup += b.count (x) > 0; auto e = b.insert (x); typename C::iterator r;
		if (own+1 < b.size()) r = a.insert (*(a.cbegin()+own)); else
		switch (s.below(4)) { case 0: r = a.insert (x); break; case 1: r = a.insert (T(x)); break; case 2: r = a.emplace (x); break; default: r = a.emplace_back (x); }
		size_t at = std::distance (b.begin(), e); PBT_CHECK (r == a.begin()+at, "insert returned position %td, expected %zu", r-a.begin(), at); break; }
	    case 4: { nm = "hint insert"; T x = gen(); auto e = b.insert (x); size_t h = s.below(a.size()+1); typename C::iterator r;
		switch (s.below(3)) { case 0: r = a.insert (a.begin()+h, x); break; case 1: r = a.insert (a.begin()+h, T(x)); break; default: r = a.emplace_hint (a.begin()+h, x); }
		PBT_CHECK (r == a.begin()+std::distance (b.begin(), e), "hinted insert returned position %td", r-a.begin()); break; }
	    case 5: { nm = "push_back"; T x = gen(); b.insert (x); a.push_back (x); break; }
	    case 6: { nm = "range insert"; std::vector<T> t; for (size_t q = s.len(12); q; --q) t.push_back (gen()); for (auto& x : t) b.insert (x);
		switch (s.below(3)) { case 0: a.insert (t.data(), t.data()+t.size()); break; case 1: { T z[3] = { gen(), gen(), gen() }; b.insert ({z[0],z[1],z[2]}); a.insert (t.data(), t.data()+t.size()); a.insert ({z[0],z[1],z[2]}); break; }
		  default: a.assign (t.data(), t.data()+t.size()); b.clear(); for (auto& x : t) b.insert (x); } break; }
	    case 7: { nm = "erase value"; size_t got, want; if (b.empty() || s.coin()) { T x = gen(); want = b.erase (x); got = a.erase (x); }
		else { size_t p = s.below(b.size()); auto e = b.begin(); std::advance (e, p); T x (*e); want = b.erase (x); got = a.erase (x); }
		rem += want; PBT_CHECK (got == want, "erase reports %zu, expected %zu", got, want); break; }
	    case 8: { nm = "erase position"; if (b.empty()) break; size_t p = s.below(b.size()); auto e = b.begin(); std::advance (e, p); b.erase (e); auto r = a.erase (a.begin()+p); PBT_CHECK (r == a.begin()+p, "erase returned %td, expected %zu", r-a.begin(), p); ++rem; break; }
	    case 9: { nm = "erase range"; size_t p = s.below(b.size()+1), c = s.below(b.size()-p+1); if (c > 6) c = 6; auto e = b.begin(); std::advance (e, p); auto f = e; std::advance (f, c); b.erase (e, f); auto r = a.erase (a.begin()+p, a.begin()+p+c); PBT_CHECK (r == a.begin()+p, "range erase returned %td, expected %zu", r-a.begin(), p); break; }
	    case 10: nm = "copy"; switch (s.below(3)) { case 0: v[i].reset (new C (*v[1-i])); break; case 1: a = *v[1-i]; break; default: v[i].reset (new C (v[1-i]->begin(), v[1-i]->end())); } b = m[1-i]; break;
	    case 11: nm = "move construction"; { std::unique_ptr<C> t (new C (ustl::move (*v[1-i]))); v[i].reset (t.release()); v[1-i].reset (new C); b = m[1-i]; m[1-i].clear(); } break;
	    case 12: nm = "swap"; if (s.chance (1,4)) { auto& z = a; if (s.coin()) a = z; else a.swap (z); break; } if (s.coin()) a.swap (*v[1-i]); else ustl::swap (a, *v[1-i]); b.swap (m[1-i]); break;
	    case 13: nm = "move ="; { C t; t = ustl::move (a); v[i].reset (new C); a = ustl::move (t); } break;
	    case 14: if (s.chance(1,4)) { nm = "clear"; a.clear(); b.clear(); } break;
	    case 15: { nm = "initializer list"; if (s.chance(3,4)) break; T x = gen(), y = gen(), z = gen(); v[i].reset (new C {x,y,z}); b = M{x,y,z}; break; }
	    default: { nm = "lookup";
		const C& ca = a; for (int q = 0; q < 4; ++q) {
		    T x = gen(); size_t lo = std::distance (b.begin(), b.lower_bound (x)), hi = std::distance (b.begin(), b.upper_bound (x));
		    size_t ep = lo == hi ? b.size() : lo;
		    PBT_CHECK (ca.find (x) == ca.begin()+ep && a.find (x) == a.begin()+ep, "find(%s) gives %td, expected %zu", mk<T>::str(x).c_str(), ca.find(x)-ca.begin(), ep);
		    PBT_CHECK (ca.lower_bound (x)-ca.begin() == ptrdiff_t(lo) && a.lower_bound (x)-a.begin() == ptrdiff_t(lo), "lower_bound(%s) gives %td, expected %zu", mk<T>::str(x).c_str(), ca.lower_bound(x)-ca.begin(), lo);
		    PBT_CHECK (ca.upper_bound (x)-ca.begin() == ptrdiff_t(hi) && a.upper_bound (x)-a.begin() == ptrdiff_t(hi), "upper_bound(%s) gives %td, expected %zu", mk<T>::str(x).c_str(), ca.upper_bound(x)-ca.begin(), hi);
		    auto r = ca.equal_range (x); auto rn = a.equal_range (x); PBT_CHECK (r.first-ca.begin() == ptrdiff_t(lo) && r.second-ca.begin() == ptrdiff_t(hi) && rn.first-a.begin() == ptrdiff_t(lo) && rn.second-a.begin() == ptrdiff_t(hi), "equal_range(%s) gives %td..%td, expected %zu..%zu", mk<T>::str(x).c_str(), r.first-ca.begin(), r.second-ca.begin(), lo, hi);
		    PBT_CHECK (ca.count (x) == b.count (x), "count(%s) gives %zu", mk<T>::str(x).c_str(), size_t(ca.count(x)));
		    T y = gen(); PBT_CHECK (ca.key_comp()(x,y) == Comp()(x,y) && ca.value_comp()(x,y) == Comp()(x,y), "key_comp");
		}
	    }
	}
	note ("s%d %s -> %zu", i, nm, b.size());
#undef a
	for (int q = 0; q < 2; ++q) same_seq (*v[q], m[q], nm);
    }
    s.nontrivial (dup && rem);
}

template <typename C, typename M> void same_map (const C& c, const M& m, const char* op)
{
    typedef typename C::key_type K; typedef typename C::data_type V;
    PBT_CHECK (c.size() == m.size() && c.empty() == m.empty() && size_t(c.end()-c.begin()) == m.size(), "after %s: size %zu, expected %zu", op, size_t(c.size()), m.size());
    auto j = m.begin(); size_t q = 0;
    for (auto i = c.begin(); i != c.end(); ++i, ++j, ++q)
	PBT_CHECK (i->first == j->first && i->second == j->second, "after %s: element %zu is (%s,%s), expected (%s,%s)", op, q, mk<K>::str(i->first).c_str(), mk<V>::str(i->second).c_str(), mk<K>::str(j->first).c_str(), mk<V>::str(j->second).c_str());
}
#define LOOKUP_BOUNDS(x) \
    size_t lo = std::distance (b.begin(), b.lower_bound (x)), hi = std::distance (b.begin(), b.upper_bound (x)); size_t ep = lo == hi ? b.size() : lo; \
    PBT_CHECK (ca.find (x) == ca.begin()+ep && a.find (x) == a.begin()+ep, "find(%s) gives %td, expected %zu", mk<K>::str(x).c_str(), ca.find(x)-ca.begin(), ep); \
    PBT_CHECK (ca.lower_bound (x)-ca.begin() == ptrdiff_t(lo) && a.lower_bound (x)-a.begin() == ptrdiff_t(lo), "lower_bound(%s) gives %td, expected %zu", mk<K>::str(x).c_str(), ca.lower_bound(x)-ca.begin(), lo); \
    PBT_CHECK (ca.upper_bound (x)-ca.begin() == ptrdiff_t(hi) && a.upper_bound (x)-a.begin() == ptrdiff_t(hi), "upper_bound(%s) gives %td, expected %zu", mk<K>::str(x).c_str(), ca.upper_bound(x)-ca.begin(), hi); \
    auto r = ca.equal_range (x); auto rn = a.equal_range (x); PBT_CHECK (r.first-ca.begin() == ptrdiff_t(lo) && r.second-ca.begin() == ptrdiff_t(hi) && rn.first-a.begin() == ptrdiff_t(lo) && rn.second-a.begin() == ptrdiff_t(hi), "equal_range(%s) gives %td..%td, expected %zu..%zu", mk<K>::str(x).c_str(), r.first-ca.begin(), r.second-ca.begin(), lo, hi); \
    PBT_CHECK (ca.count (x) == b.count (x), "count(%s) gives %zu", mk<K>::str(x).c_str(), size_t(ca.count(x)));

template <typename K, typename V, typename Comp>
void map_case (Src& s)
{
    typedef ustl::map<K,V,Comp> C; typedef std::map<K,V,Comp> M; typedef typename C::value_type P;
    static const int spans[] = {3,8,24,100};
    int span = s.among (spans), tag = 0; unsigned dup = 0, rem = 0;
    auto gen = [&]{ return mk<K>::of (int(s.below(span))-span/2, ++tag%100); };
    auto gval = [&]{ return mk<V>::of (int(s.below(20)), ++tag%100); };
    std::unique_ptr<C> v[2]; M m[2]; for (auto& p : v) p.reset (new C);
    for (unsigned k = 0, n = 2+s.len(40); k < n; ++k) {
	int i = s.below(2); M& b = m[i]; const char* nm = "?"; s.step();
#define a (*v[i])
	switch (s.below(18)) {
	    case 0: case 1: case 2: { nm = "insert"; K x = gen(); V d = gval(); auto e = b.insert (std::make_pair (x,d)); typename C::insertrv_t r; P p (x,d);
		switch (s.below(4)) { case 0: r = a.insert (p); break; case 1: r = a.insert (P(x,d)); break; case 2: r = a.emplace (x,d); break; default: r = a.emplace_back (x,d); }
		dup += !e.second; PBT_CHECK (r.second == e.second, "insert of %s reports %d, expected %d", mk<K>::str(x).c_str(), r.second, e.second);
		size_t at = std::distance (b.begin(), e.first); PBT_CHECK (r.first == a.begin()+at, "insert returned position %td, expected %zu", r.first-a.begin(), at); break; }
	    case 3: case 4: { nm = "operator[]"; K x = gen(); if (s.coin()) { V d = gval(); a[x] = d; b[x] = d; } else { V d (a[x]); V e (b[x]); PBT_CHECK (d == e, "[%s] is %s, expected %s", mk<K>::str(x).c_str(), mk<V>::str(d).c_str(), mk<V>::str(e).c_str()); } break; }
	    case 5: { nm = "hint insert"; K x = gen(); V d = gval(); auto e = b.insert (std::make_pair (x,d)); size_t h = s.below(a.size()+1); typename C::iterator r; P p (x,d);
		switch (s.below(3)) { case 0: r = a.insert (a.begin()+h, p); break; case 1: r = a.insert (a.begin()+h, P(x,d)); break; default: r = a.emplace_hint (a.begin()+h, x, d); }
		PBT_CHECK (r == a.begin()+std::distance (b.begin(), e.first), "hinted insert returned position %td", r-a.begin()); break; }
	    case 6: { nm = "push_back"; K x = gen(); V d = gval(); b.insert (std::make_pair (x,d)); a.push_back (P(x,d)); break; }
	    case 7: { nm = "range insert"; std::vector<P> t; for (size_t q = s.len(12); q; --q) { K x = gen(); t.push_back (P (x, gval())); }
		if (s.coin()) a.insert (t.data(), t.data()+t.size()); else { a.assign (t.data(), t.data()+t.size()); b.clear(); } for (auto& x : t) b.insert (std::make_pair (x.first, x.second)); break; }
	    case 8: { nm = "erase key"; if (b.empty() || s.coin()) { K x = gen(); rem += b.erase (x); a.erase (x); }
		else { size_t p = s.below(b.size()); auto e = b.begin(); std::advance (e, p); K x (e->first); b.erase (e); a.erase (x); ++rem; } break; }
	    case 9: { nm = "erase position"; if (b.empty()) break; size_t p = s.below(b.size()); auto e = b.begin(); std::advance (e, p); b.erase (e); auto r = a.erase (a.begin()+p); PBT_CHECK (r == a.begin()+p, "erase returned %td, expected %zu", r-a.begin(), p); ++rem; break; }
	    case 10: { nm = "erase range"; size_t p = s.below(b.size()+1), c = s.below(b.size()-p+1); if (c > 6) c = 6; auto e = b.begin(); std::advance (e, p); auto f = e; std::advance (f, c); b.erase (e, f); auto r = a.erase (a.begin()+p, a.begin()+p+c); PBT_CHECK (r == a.begin()+p, "range erase returned %td, expected %zu", r-a.begin(), p); break; }
	    case 11: nm = "copy"; switch (s.below(3)) { case 0: v[i].reset (new C (*v[1-i])); break; case 1: a = *v[1-i]; break; default: v[i].reset (new C (v[1-i]->begin(), v[1-i]->end())); } b = m[1-i]; break;
	    case 12: nm = "move construction"; { std::unique_ptr<C> t (new C (ustl::move (*v[1-i]))); v[i].reset (t.release()); v[1-i].reset (new C); b = m[1-i]; m[1-i].clear(); } break;
	    case 13: nm = "swap"; if (s.chance (1,4)) { auto& z = a; if (s.coin()) a = z; else a.swap (z); break; } if (s.coin()) a.swap (*v[1-i]); else ustl::swap (a, *v[1-i]); b.swap (m[1-i]); break;
	    case 14: nm = "move ="; { C t; t = ustl::move (a); v[i].reset (new C); a = ustl::move (t); } break;
	    case 15: if (s.chance(1,4)) { nm = "clear"; a.clear(); b.clear(); } break;
	    case 16: { nm = "initializer list"; if (s.chance(3,4)) break; K x = gen(), y = gen(); V c = gval(), d = gval(); if (s.coin()) { v[i].reset (new C {P(x,c),P(y,d)}); b.clear(); } else a.insert ({P(x,c),P(y,d)}); b.insert (std::make_pair(x,c)); b.insert (std::make_pair(y,d)); break; }
	    default: { nm = "lookup";
		const C& ca = a; for (int q = 0; q < 4; ++q) {
		    K x = gen(); LOOKUP_BOUNDS(x)
		    if (lo != hi) { V e (b.find(x)->second); PBT_CHECK (ca.at(x) == e && a.at(x) == e && ca[x] == e && a[x] == e, "value of %s is %s, expected %s", mk<K>::str(x).c_str(), mk<V>::str(ca.at(x)).c_str(), mk<V>::str(e).c_str()); if (s.coin()) { V d = gval(); a.at(x) = d; b.find(x)->second = d; } }
		    V d = gval(); size_t f = s.below(b.size()+1), l = f+s.below(b.size()-f+1); bool dflt = s.coin() || !l || f == b.size(); if (dflt) f = 0, l = b.size();
		    auto e = b.begin(); std::advance (e, f); size_t w = f; for (; w < l && !(e->second == d); ++w) ++e;
		    ptrdiff_t g = dflt ? (s.coin() ? ca.find_data (d)-ca.begin() : a.find_data (d)-a.begin()) : (s.coin() ? ca.find_data (d, ca.begin()+f, ca.begin()+l)-ca.begin() : a.find_data (d, a.begin()+f, a.begin()+l)-a.begin());
		    PBT_CHECK (g == ptrdiff_t(w), "find_data gives %td, expected %zu", g, w);
		    K y = gen(); V z = gval(); PBT_CHECK (ca.key_comp()(x,y) == Comp()(x,y) && ca.value_comp()(P(x,z),P(y,d)) == Comp()(x,y), "key_comp");
		}
	    }
	}
	note ("m%d %s -> %zu", i, nm, b.size());
#undef a
	for (int q = 0; q < 2; ++q) same_map (*v[q], m[q], nm);
    }
    s.nontrivial (dup && rem);
}

template <typename K, typename V, typename Comp>
void multimap_case (Src& s)
{
    typedef ustl::multimap<K,V,Comp> C; typedef std::multimap<K,V,Comp> M; typedef typename C::value_type P;
    static const int spans[] = {2,5,12,60};
    int span = s.among (spans), tag = 0; unsigned dup = 0, rem = 0;
    auto gen = [&]{ return mk<K>::of (int(s.below(span))-span/2, ++tag%100); };
    auto gval = [&]{ return mk<V>::of (int(s.below(20)), ++tag%100); };
    std::unique_ptr<C> v[2]; M m[2]; for (auto& p : v) p.reset (new C);
    for (unsigned k = 0, n = 2+s.len(40); k < n; ++k) {
	int i = s.below(2); M& b = m[i]; const char* nm = "?"; s.step();
#define a (*v[i])
	switch (s.below(16)) {
	    case 0: case 1: case 2: case 3: { nm = "insert"; K x = gen(); V d = gval(); dup += b.count (x) > 0; auto e = b.insert (std::make_pair (x,d)); typename C::iterator r; P p (x,d);
		switch (s.below(4)) { case 0: r = a.insert (p); break; case 1: r = a.insert (P(x,d)); break; case 2: r = a.emplace (x,d); break; default: r = a.emplace_back (x,d); }
		size_t at = std::distance (b.begin(), e); PBT_CHECK (r == a.begin()+at, "insert returned position %td, expected %zu", r-a.begin(), at); break; }
	    case 4: { nm = "hint insert"; K x = gen(); V d = gval(); auto e = b.insert (std::make_pair (x,d)); size_t h = s.below(a.size()+1); typename C::iterator r;
		if (s.coin()) r = a.insert (a.begin()+h, P(x,d)); else r = a.emplace_hint (a.begin()+h, x, d);
		PBT_CHECK (r == a.begin()+std::distance (b.begin(), e), "hinted insert returned position %td", r-a.begin()); break; }
	    case 5: { nm = "push_back"; K x = gen(); V d = gval(); b.insert (std::make_pair (x,d)); a.push_back (P(x,d)); break; }
	    case 6: { nm = "range insert"; std::vector<P> t; for (size_t q = s.len(12); q; --q) { K x = gen(); t.push_back (P (x, gval())); }
		if (s.coin()) a.insert (t.data(), t.data()+t.size()); else { a.assign (t.data(), t.data()+t.size()); b.clear(); } for (auto& x : t) b.insert (std::make_pair (x.first, x.second)); break; }
	    case 7: { nm = "erase key"; if (b.empty() || s.coin()) { K x = gen(); rem += b.erase (x); a.erase (x); }
		else { size_t p = s.below(b.size()); auto e = b.begin(); std::advance (e, p); K x (e->first); rem += b.erase (x); a.erase (x); } break; }
	    case 8: { nm = "erase position"; if (b.empty()) break; size_t p = s.below(b.size()); auto e = b.begin(); std::advance (e, p); b.erase (e); auto r = a.erase (a.begin()+p); PBT_CHECK (r == a.begin()+p, "erase returned %td, expected %zu", r-a.begin(), p); ++rem; break; }
	    case 9: { nm = "erase range"; size_t p = s.below(b.size()+1), c = s.below(b.size()-p+1); if (c > 6) c = 6; auto e = b.begin(); std::advance (e, p); auto f = e; std::advance (f, c); b.erase (e, f); auto r = a.erase (a.begin()+p, a.begin()+p+c); PBT_CHECK (r == a.begin()+p, "range erase returned %td, expected %zu", r-a.begin(), p); break; }
	    case 10: nm = "copy"; switch (s.below(3)) { case 0: v[i].reset (new C (*v[1-i])); break; case 1: a = *v[1-i]; break; default: v[i].reset (new C (v[1-i]->begin(), v[1-i]->end())); } b = m[1-i]; break;
	    case 11: nm = "move construction"; { std::unique_ptr<C> t (new C (ustl::move (*v[1-i]))); v[i].reset (t.release()); v[1-i].reset (new C); b = m[1-i]; m[1-i].clear(); } break;
	    case 12: nm = "swap"; if (s.chance (1,4)) { auto& z = a; if (s.coin()) a = z; else a.swap (z); break; } if (s.coin()) a.swap (*v[1-i]); else ustl::swap (a, *v[1-i]); b.swap (m[1-i]); break;
	    case 13: nm = "move ="; { C t; t = ustl::move (a); v[i].reset (new C); a = ustl::move (t); } break;
	    case 14: if (s.chance(1,4)) { nm = "clear"; a.clear(); b.clear(); break; } if (s.coin()) { nm = "initializer list"; K x = gen(), y = gen(); V c = gval(), d = gval(); if (s.coin()) { v[i].reset (new C {P(x,c),P(y,d)}); b.clear(); } else a.insert ({P(x,c),P(y,d)}); b.insert (std::make_pair(x,c)); b.insert (std::make_pair(y,d)); } break;
	    default: { nm = "lookup"; const C& ca = a;
		for (int q = 0; q < 4; ++q) { K x = gen(); LOOKUP_BOUNDS(x) K y = gen(); V z = gval(), d = gval(); PBT_CHECK (ca.key_comp()(x,y) == Comp()(x,y) && ca.value_comp()(P(x,z),P(y,d)) == Comp()(x,y), "key_comp"); }
	    }
	}
	note ("m%d %s -> %zu", i, nm, b.size());
#undef a
	for (int q = 0; q < 2; ++q) same_map (*v[q], m[q], nm);
    }
    s.nontrivial (dup && rem);
}

template <typename C> struct WMap : C { struct value_type : C::value_type { value_type (void) {} template <typename P> explicit value_type (const P& p) : C::value_type (p.first, p.second) {} }; WMap (const value_type*, const value_type*) {}
    template <typename X> void insert (const X& x) { C::insert (typename C::value_type (x)); } void insert (typename C::const_iterator h, const value_type& x) { C::insert (h, typename C::value_type (x)); } };
/// Containers with more elements than 16 bits count: positions and sizes.
template <typename C, typename M, typename E> void wide_case (Src& s, bool multi, E elem)
{
    static const size_t near[] = { 65536, 65536, 32768, 256, 131072 }; size_t n = s.chance (3,4) ? s.among (near)+s.below(5)-2 : s.below (140000); unsigned per = multi ? 1+s.below(4) : 1; if (multi && s.chance (1,6)) per = 70000;
    std::vector<typename C::value_type> init; init.reserve (n); M b; for (size_t i = 0; i < n; ++i) { auto e = elem (int(i/per*2)); init.push_back (typename C::value_type (e)); b.insert (b.end(), e); }
    C a (init.data(), init.data()+0); for (auto& x : init) a.insert (a.end(), x);
    auto whole = [&](const char* nm) { PBT_CHECK (a.size() == b.size(), "after %s: size %zu, expected %zu", nm, size_t(a.size()), b.size()); size_t q = 0; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j, ++q) PBT_CHECK (*i == typename C::value_type (*j), "after %s: element %zu", nm, q); };
    note ("%zu elements, %u to a key", n, per); whole ("building");
    for (unsigned k = 0; k < 6; ++k) {
	s.step(); int key = int(s.below (n/per*2+4)); if (n && s.coin()) key = int((n-1-s.below (n < 4 ? n : 4))/per*2);
	auto x = elem (key); auto kx = M::key_compare::of (x);
	size_t lo = std::distance (b.begin(), b.lower_bound (kx)), hi = std::distance (b.begin(), b.upper_bound (kx)); const C& ca = a;
	switch (s.below (4)) {
	    case 0: { PBT_CHECK (ca.lower_bound (kx)-ca.begin() == ptrdiff_t(lo) && ca.upper_bound (kx)-ca.begin() == ptrdiff_t(hi), "bounds of %d are %td and %td, expected %zu and %zu", key, ca.lower_bound (kx)-ca.begin(), ca.upper_bound (kx)-ca.begin(), lo, hi);
		PBT_CHECK (ca.count (kx) == hi-lo, "count of %d is %zu, expected %zu", key, size_t(ca.count (kx)), hi-lo); auto f = ca.find (kx); PBT_CHECK (lo == hi ? f == ca.end() : f == ca.begin()+lo, "find of %d gives %td, expected %zu", key, f-ca.begin(), lo); break; }
	    case 1: { a.insert (typename C::value_type (x)); b.insert (x); whole ("insert"); break; }
	    case 2: { a.erase (kx); b.erase (kx); whole ("erase of a key"); break; }
	    default: { size_t f = s.below (b.size()+1), c = s.below (b.size()-f+1); auto p = b.begin(); std::advance (p, f); auto q = p; std::advance (q, c); b.erase (p, q); auto r = a.erase (a.begin()+f, a.begin()+f+c); PBT_CHECK (r == a.begin()+f, "erase returned %td", r-a.begin()); whole ("erase of a range"); n = b.size(); break; }
	}
    }
    s.nontrivial (n > 300);
}
struct WLess : std::less<int> { static int of (int x) { return x; } static int of (const std::pair<int,short>& x) { return x.first; } static int of (const std::pair<const int,short>& x) { return x.first; } };
PBT_TEST(wide,0.03)
{
    auto i = [](int k) { return k; }; auto p = [](int k) { return std::pair<int,short> (k, short(k/3)); };
    (void) p;
    switch (s.below (4)) {
	case 0: wide_case<ustl::set<int>,std::set<int,WLess>> (s, false, i); break;
	case 1: wide_case<ustl::multiset<int>,std::multiset<int,WLess>> (s, true, i); break;
	case 2: wide_case<WMap<ustl::map<int,short>>,std::map<int,short,WLess>> (s, false, p); break;
	default: wide_case<WMap<ustl::multimap<int,short>>,std::multimap<int,short,WLess>> (s, true, p); break;
    }
}
using ustl::less; using ustl::greater;
PBT_TEST(set_int,2)		{ switch (s.below(4)) { case 0: set_case<int,less<int>> (s); break; case 1: set_case<int,greater<int>> (s); break; case 2: set_case<signed char,less<signed char>> (s); break; default: set_case<unsigned,less<unsigned>> (s); } }
PBT_TEST(set_equiv,3)		{ switch (s.below(4)) { case 0: set_case<Rec,less<Rec>> (s); break; case 1: set_case<Rec,Div> (s); break; case 2: set_case<Pod,Div> (s); break; default: set_case<int,Div> (s); } }
PBT_TEST(set_string,2)		{ switch (s.below(3)) { case 0: set_case<ustl::string,less<ustl::string>> (s); break; case 1: set_case<ustl::string,Rev> (s); break; default: set_case<double,less<double>> (s); } }
PBT_TEST(multiset_int,2)	{ switch (s.below(3)) { case 0: multiset_case<int,less<int>> (s); break; case 1: multiset_case<short,greater<short>> (s); break; default: multiset_case<uint64_t,less<uint64_t>> (s); } }
PBT_TEST(multiset_equiv,3)	{ switch (s.below(5)) { case 0: multiset_case<Rec,less<Rec>> (s); break; case 1: multiset_case<Rec,Div> (s); break; case 2: multiset_case<Pod,Div> (s); break; case 3: multiset_case<Pod,Rev> (s); break; default: multiset_case<ustl::string,Div> (s); } }
PBT_TEST(map_int,2)		{ switch (s.below(3)) { case 0: map_case<int,int,less<int>> (s); break; case 1: map_case<int,ustl::string,greater<int>> (s); break; default: map_case<unsigned char,double,less<unsigned char>> (s); } }
PBT_TEST(map_string,2)		{ switch (s.below(3)) { case 0: map_case<ustl::string,int,less<ustl::string>> (s); break; case 1: map_case<ustl::string,ustl::string,Rev> (s); break; default: map_case<ustl::string,Pod,less<ustl::string>> (s); } }
PBT_TEST(map_equiv,2)		{ switch (s.below(3)) { case 0: map_case<Rec,Rec,Div> (s); break; case 1: map_case<Pod,int,Div> (s); break; default: map_case<int,Rec,Div> (s); } }
PBT_TEST(multimap_int,2)	{ switch (s.below(3)) { case 0: multimap_case<int,int,less<int>> (s); break; case 1: multimap_case<int,ustl::string,greater<int>> (s); break; default: multimap_case<unsigned char,double,less<unsigned char>> (s); } }
PBT_TEST(multimap_equiv,3)	{ switch (s.below(4)) { case 0: multimap_case<Rec,Rec,Div> (s); break; case 1: multimap_case<Pod,int,Div> (s); break; case 2: multimap_case<ustl::string,int,Rev> (s); break; default: multimap_case<int,Rec,Div> (s); } }
