// C10: list (and its alias deque) against std::list.
#include "uh.h"

// == and < look at the key only; t tells equal elements apart
struct Kt { int k, t; Kt (void) : k(0), t(0) {} Kt (int nk, int nt) : k(nk), t(nt) {}
    bool operator== (const Kt& o) const { return k == o.k; } bool operator!= (const Kt& o) const { return k != o.k; } bool operator< (const Kt& o) const { return k < o.k; } };
struct Ks { int k; ustl::string t; Ks (void) : k(0), t() {} Ks (int nk, int nt) : k(nk), t() { t.format ("%d", nt); }
    bool operator== (const Ks& o) const { return k == o.k; } bool operator!= (const Ks& o) const { return k != o.k; } bool operator< (const Ks& o) const { return k < o.k; } };
template <typename T> struct mk { static T of (int k, int) { return T(k); } static int id (const T& v) { return int(v)*1000; } static int key (const T& v) { return int(v); } };
template <> struct mk<Kt> { static Kt of (int k, int t) { return Kt (k,t); } static int id (const Kt& v) { return v.k*1000+v.t; } static int key (const Kt& v) { return v.k; } };
template <> struct mk<Ks> { static Ks of (int k, int t) { return Ks (k,t); } static int id (const Ks& v) { return v.k*1000+atoi (v.t.c_str()); } static int key (const Ks& v) { return v.k; } };
template <> struct mk<ustl::string> { static ustl::string of (int k, int) { ustl::string r; r.format ("%+04d", k); return r; } static int id (const ustl::string& v) { return key(v)*1000; } static int key (const ustl::string& v) { return v.empty() ? 0 : atoi (v.c_str()); } };

template <typename T> struct Odd { int r; bool operator() (const T& v) const { return abs(mk<T>::key (v))%3 == r; } };

template <typename T, typename C>
void list_case (Src& s)
{
    typedef std::list<T> M;
    std::unique_ptr<C> v[2]; M m[2]; for (auto& p : v) p.reset (new C);
    int tag = 0; const int span = s.among ({2,5,20,100}); unsigned whole = 0, inner = 0;
    auto gen = [&]{ return mk<T>::of (int(s.below(span))-span/3, ++tag%1000); };
    for (unsigned k = 0, n = 2+s.len(40); k < n; ++k) {
	int i = s.below(2); M &b = m[i], &p = m[1-i]; const char* nm = "?"; s.step();
#define a (*v[i])
#define o (*v[1-i])
	auto bat = [&](M& l, size_t at) { auto j = l.begin(); std::advance (j, at); return j; };
	switch (s.below(24)) {
	    case 0: case 1: { nm = "push_front"; T x = gen(); b.push_front (x); switch (s.below(3)) { case 0: a.push_front (x); break; case 1: a.push_front (T(x)); break; default: a.emplace_front (x); } break; }
	    case 2: case 3: { nm = "push_back"; if (!b.empty() && s.chance (1,5)) { nm = "push own element"; const size_t q = s.below (b.size()); const T t (*bat (b,q)); if (s.coin()) { b.push_back (t); a.push_back (a[q]); } else { b.push_front (t); a.push_front (a[q]); } break; } T x = gen(); b.push_back (x); switch (s.below(3)) { case 0: a.push_back (x); break; case 1: a.push_back (T(x)); break; default: a.emplace_back (x); } break; }
	    case 4: nm = "pop_front"; if (!b.empty()) { b.pop_front(); a.pop_front(); } break;
	    case 5: nm = "pop_back"; if (!b.empty()) { b.pop_back(); a.pop_back(); } break;
	    case 6: { nm = "insert"; size_t at = s.below(b.size()+1); T x = gen(); b.insert (bat(b,at), x); auto r = s.coin() ? a.insert (a.begin()+at, x) : a.emplace (a.begin()+at, x); PBT_CHECK (size_t(r-a.begin()) == at, "insert returned %td, expected %zu", r-a.begin(), at); inner += at && at+1 < b.size(); break; }
	    case 7: { nm = "insert n"; size_t at = s.below(b.size()+1), c = s.len(10); T x = gen(); b.insert (bat(b,at), c, x); a.insert (a.begin()+at, c, x); break; }
	    case 8: { nm = "insert range"; size_t at = s.below(b.size()+1); std::vector<T> t; for (size_t q = s.len(10); q; --q) t.push_back (gen()); b.insert (bat(b,at), t.begin(), t.end()); a.insert (a.begin()+at, t.data(), t.data()+t.size()); break; }
	    case 9: { nm = "erase"; if (b.empty()) break; size_t at = s.below(b.size()); b.erase (bat(b,at)); auto r = a.erase (a.begin()+at); PBT_CHECK (size_t(r-a.begin()) == at, "erase returned %td, expected %zu", r-a.begin(), at); break; }
	    case 10: { nm = "erase range"; size_t at = s.below(b.size()+1), c = s.below(b.size()-at+1); if (c > 5) c = 5; b.erase (bat(b,at), bat(b,at+c)); a.erase (a.begin()+at, a.begin()+at+c); inner += at && c; break; }
	    case 11: { nm = "splice"; size_t at = s.below(b.size()+1), f = 0, l = p.size();
		switch (s.below(3)) { case 0: a.splice (a.begin()+at, o); break; case 1: f = s.below(p.size()+1); if (p.empty()) { a.splice (a.begin()+at, o); break; } a.splice (a.begin()+at, o, o.begin()+f); break;
		    default: f = s.below(p.size()+1); l = f + s.below(p.size()-f+1); if (p.empty()) { a.splice (a.begin()+at, o); break; } a.splice (a.begin()+at, o, o.begin()+f, o.begin()+l); }
		b.splice (bat(b,at), p, bat(p,f), bat(p,l)); ++whole; break; }
	    case 12: { nm = "remove"; if (!b.empty() && s.chance (1,3)) { nm = "remove own element"; const size_t q = s.below (b.size()); b.remove (T (*bat (b,q))); a.remove (a[q]); ++whole; break; } T x = gen(); b.remove (x); a.remove (x); ++whole; break; }
	    case 13: { nm = "remove_if"; Odd<T> pr { int(s.below(3)) }; b.remove_if (pr); a.remove_if (pr); ++whole; break; }
	    case 14: nm = "reverse"; b.reverse(); a.reverse(); ++whole; break;
	    case 15: nm = "unique"; b.unique(); a.unique(); ++whole; break;
	    case 16: { nm = "sort"; std::vector<int> e, r; for (auto& x : a) e.push_back (mk<T>::id(x)); a.sort(); for (auto& x : a) r.push_back (mk<T>::id(x)); std::sort (e.begin(), e.end());
		PBT_CHECK (std::is_sorted (a.begin(), a.end()), "sort left the list unsorted"); std::sort (r.begin(), r.end()); PBT_CHECK (r == e, "sort changed the elements");
		b.assign (a.begin(), a.end()); ++whole; break; } // the order of equal elements is not specified
	    case 17: { nm = "merge"; a.sort(); o.sort(); b.assign (a.begin(), a.end()); p.assign (o.begin(), o.end()); b.merge (p); a.merge (o); ++whole; break; }
	    case 18: { nm = "copy"; switch (s.below(4)) { case 0: v[i].reset (new C (o)); break; case 1: a = o; break; case 2: v[i].reset (new C (o.begin(), o.end())); break; default: a.assign (o.begin(), o.end()); } b = p; break; }
	    case 19: { nm = "move"; if (s.coin()) { C* q = new C (ustl::move (o)); v[i].reset (q); b = p; p.clear(); v[1-i].reset (new C); } else { C t; t = ustl::move (a); v[i].reset (new C); a = ustl::move (t); } break; }
	    case 20: nm = "swap"; if (s.chance (1,4)) { auto& z = a; if (s.coin()) a = z; else a.swap (z); break; } if (s.coin()) a.swap (o); else ustl::swap (a, o); b.swap (p); break;
	    case 21: { nm = "resize/assign/clear"; size_t c = s.len(15); switch (s.below(4)) { case 0: { a.resize (c); size_t was = b.size(); b.resize (c); size_t q = 0; for (auto& x : b) { if (q >= was) { T y = gen(); a[q] = y; x = y; } ++q; } break; } case 1: { T x = gen(); a.assign (c, x); b.assign (c, x); break; } case 2: if (s.chance(1,3)) { a.clear(); b.clear(); } break; default: { T x = gen(); v[i].reset (new C (c, x)); b.assign (c, x); } } break; }
	    case 22: { nm = "initializer list"; T x = gen(), y = gen(); v[i].reset (new C {x,y,x}); b = M{x,y,x}; break; }
	    default: { nm = "rewrite"; if (b.empty()) break; T x = gen(); size_t at = s.below(b.size()); switch (s.below(3)) { case 0: a.front() = x; b.front() = x; break; case 1: a.back() = x; b.back() = x; break; default: a[at] = x; *bat(b,at) = x; } }
	}
	note ("l%d %s -> %zu", i, nm, b.size());
#undef a
#undef o
	for (int q = 0; q < 2; ++q) {
	    const C& c = *v[q]; M& e = m[q];
	    PBT_CHECK (c.size() == e.size() && c.empty() == e.empty() && size_t(c.end()-c.begin()) == e.size(), "after %s: size %zu, expected %zu", nm, size_t(c.size()), e.size());
	    size_t j = 0; for (auto& x : e) { PBT_CHECK (mk<T>::id(c[j]) == mk<T>::id(x), "after %s: element %zu is %d, expected %d", nm, j, mk<T>::id(c[j]), mk<T>::id(x)); ++j; }
	    if (!e.empty()) PBT_CHECK (mk<T>::id(c.front()) == mk<T>::id(e.front()) && mk<T>::id(c.back()) == mk<T>::id(e.back()), "after %s: front or back", nm);
	    auto r = c.rbegin(); for (auto x = e.rbegin(); x != e.rend(); ++x, ++r) PBT_CHECK (r != c.rend() && mk<T>::id(*r) == mk<T>::id(*x), "after %s: reverse iteration", nm);
	    PBT_CHECK (r == c.rend(), "after %s: reverse iteration does not end", nm);
	}
	PBT_CHECK ((*v[0] == *v[1]) == (m[0] == m[1]), "after %s: == gives %d", nm, *v[0] == *v[1]);
    }
    s.nontrivial (whole && inner);
}
PBT_TEST(list_pod,3) { switch (s.below(3)) { case 0: list_case<int,ustl::list<int>> (s); break; case 1: list_case<Kt,ustl::list<Kt>> (s); break; default: list_case<short,ustl::deque<short>> (s); } }
PBT_TEST(list_obj,2) { switch (s.below(2)) { case 0: list_case<Ks,ustl::list<Ks>> (s); break; default: list_case<ustl::string,ustl::list<ustl::string>> (s); } }
/// More elements than 16 bits count.
PBT_TEST(wide,0.05)
{
    static const size_t near[] = { 65536, 65536, 32768, 256, 131072 }; size_t n = s.chance (3,4) ? s.among (near)+s.below(5)-2 : s.below (140000); uint64_t x = s.below (1000); auto val = [&](size_t i) { return int(pbt::mix (x+i)%30); };
    ustl::list<int> a, o; std::vector<int> b, p; for (size_t i = 0; i < n; ++i) { a.push_back (val(i)); b.push_back (val(i)); } for (size_t i = s.coin() ? 66000 : s.below (100); i--;) { o.push_back (val(i+7)); p.push_back (val(i+7)); }
    for (unsigned k = 0; k < 4; ++k) {
	s.step(); const char* nm = "?"; size_t at = s.coin() ? s.below (b.size()+1) : b.size() - std::min (b.size(), size_t(s.below (4)));
	switch (s.below (9)) {
	    case 0: { nm = "splice"; size_t f = s.below (p.size()+1), l = f+s.below (p.size()-f+1); if (p.empty()) break; a.splice (a.begin()+at, o, o.begin()+f, o.begin()+l); b.insert (b.begin()+at, p.begin()+f, p.begin()+l); p.erase (p.begin()+f, p.begin()+l); break; }
	    case 1: nm = "remove"; a.remove (3); b.erase (std::remove (b.begin(), b.end(), 3), b.end()); break;
	    case 2: nm = "unique"; a.unique(); b.erase (std::unique (b.begin(), b.end()), b.end()); break;
	    case 3: nm = "reverse"; a.reverse(); std::reverse (b.begin(), b.end()); break;
	    case 4: nm = "sort"; a.sort(); std::sort (b.begin(), b.end()); break;
	    case 5: { nm = "merge"; a.sort(); o.sort(); std::sort (b.begin(), b.end()); std::sort (p.begin(), p.end()); if (p.size() > 200) { o.resize (50); p.resize (50); } b.insert (b.end(), p.begin(), p.end()); std::sort (b.begin(), b.end()); p.clear(); a.merge (o); PBT_CHECK (o.empty(), "the merged list has elements"); break; }
	    case 6: nm = "push and pop in front"; a.push_front (77); b.insert (b.begin(), 77); if (s.coin()) { a.pop_front(); b.erase (b.begin()); } break;
	    case 7: { nm = "erase range"; size_t c = s.below (b.size()-at+1); a.erase (a.begin()+at, a.begin()+at+c); b.erase (b.begin()+at, b.begin()+at+c); break; }
	    default: nm = "remove_if"; a.remove_if ([](int v) { return v%7 == 2; }); b.erase (std::remove_if (b.begin(), b.end(), [](int v) { return v%7 == 2; }), b.end()); break;
	}
	note ("%s at %zu -> %zu, %zu", nm, at, b.size(), p.size());
	PBT_CHECK (a.size() == b.size() && o.size() == p.size(), "after %s: sizes %zu and %zu, expected %zu and %zu", nm, size_t(a.size()), size_t(o.size()), b.size(), p.size());
	PBT_CHECK (std::equal (b.begin(), b.end(), a.begin()) && std::equal (p.begin(), p.end(), o.begin()), "after %s: different elements", nm);
    }
    s.nontrivial (n > 300);
}
