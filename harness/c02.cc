// C02: every element constructed once, destroyed once; all memory returned.
#include "track.h"
static size_t cmax (size_t a, size_t b) { return a > b ? a : b; }
static size_t cmin (size_t a, size_t b) { return a < b ? a : b; }

/// Runs body in a scope, then requires that nothing is left alive or allocated.
template <typename F>
static void balanced (Src& s, F body)
{
    R().reset();
    size_t before = pbt::heap_bytes();
    body();
    reg_check ("destruction of the containers", 0);
    size_t after = pbt::heap_bytes();
    PBT_CHECK (after == before, "%zd bytes of heap not returned", ssize_t(after-before));
}
static int val (Src& s) { return s.coin() ? s.below(6) : s.below(200); }

template <typename C> static void same (const C& c, const std::vector<int>& m, const char* op)
{
    PBT_CHECK (c.size() == m.size(), "after %s: size %zu, expected %zu", op, size_t(c.size()), m.size());
    for (size_t i = 0; i < m.size(); ++i) {
	PBT_CHECK (c.begin()[i].ok ("element access"), "after %s: element %zu is not alive", op, i);
	PBT_CHECK (c.begin()[i].v == m[i], "after %s: element %zu is %d, expected %d", op, i, c.begin()[i].v, m[i]);
    }
}

//{{{ vector and list (list shares vector's operations)
template <typename V>
static void vec_machine (Src& s)
{
    balanced (s, [&]{
	typedef ustl::vector<Tr> Base;
	V v[2]; std::vector<int> m[2]; s.scaled (600, 10);
	unsigned mids = 0, shr = 0;
	for (unsigned k = 0, n = 1+s.hist(30); k < n; ++k) {
	    int i = s.below(2); V& a = v[i]; auto& b = m[i]; Base& ab = a;
	    const size_t sz = b.size(); const char* nm = "?";
	    switch (s.below(18)) {
		case 0: { nm = "push_back const&"; int x = val(s); { const Tr t (x); a.push_back (t); } b.push_back (x); break; }
		case 1: { nm = "push_back &&"; int x = val(s); a.push_back (Tr(x)); b.push_back (x); break; }
		case 2: { nm = "insert"; int x = val(s); size_t p = s.below(sz+1); mids += p < sz; { const Tr t (x); ab.insert (a.begin()+p, t); } b.insert (b.begin()+p, x); break; }
		case 3: { nm = "insert n"; int x = val(s); size_t p = s.below(sz+1), c = s.blen(6); mids += p < sz; { const Tr t (x); ab.insert (a.begin()+p, c, t); } b.insert (b.begin()+p, c, x); break; }
		case 4: { nm = "insert range"; size_t p = s.below(sz+1), c = s.len(6); mids += p < sz; { Base src; std::vector<int> ms; for (size_t q = 0; q < c; ++q) { int x = val(s); src.push_back (Tr(x)); ms.push_back (x); } ab.insert (a.begin()+p, src.begin(), src.end()); b.insert (b.begin()+p, ms.begin(), ms.end()); } break; }
		case 5: { nm = "emplace"; int x = val(s); size_t p = s.below(sz+1); mids += p < sz; ab.emplace (a.begin()+p, x); b.insert (b.begin()+p, x); break; }
		case 6: { nm = "insert list"; size_t p = s.below(sz+1); int x = val(s); ab.insert (a.begin()+p, {Tr(x),Tr(x+1)}); b.insert (b.begin()+p, {x,x+1}); break; }
		case 7: { nm = "erase"; if (!sz) break; size_t p = s.below(sz), c = s.below(sz-p+1); mids += c && p+c < sz; shr += c; ab.erase (a.begin()+p, c); b.erase (b.begin()+p, b.begin()+p+c); break; }
		case 8: { nm = "resize"; size_t c = s.blen(20); shr += c < sz; if (s.coin()) { a.resize (c); b.resize (c); } else { int x = val(s); a.resize (c, Tr(x)); b.resize (c, x); } break; }
		case 9: { nm = "reserve/shrink"; if (s.coin()) a.reserve (s.len(30), s.coin()); else if (sz) a.shrink_to_fit(); break; }
		case 10: { nm = "assign"; if (s.coin()) { size_t c = s.blen(10); int x = val(s); a.assign (c, Tr(x)); b.assign (c, x); } else { const V& o = v[1-i]; size_t c = s.below(m[1-i].size()+1); a.assign (o.begin(), o.begin()+c); b.assign (m[1-i].begin(), m[1-i].begin()+c); } break; }
		case 11: { nm = "operator="; if (s.chance (1,5)) { auto& z = a; a = z; break; } a = v[1-i]; b = m[1-i]; break; }
		case 12: { nm = "swap"; v[0].swap (v[1]); m[0].swap (m[1]); break; }
		case 13: { nm = "copy"; { V c (a); same (c, b, "copy construction"); if (s.coin()) { V d (ustl::move(c)); same (d, b, "move construction"); } } break; }
		case 14: { nm = "move ="; a = ustl::move (v[1-i]); v[1-i].clear(); b = m[1-i]; m[1-i].clear(); break; }
		case 15: { nm = "clear"; if (s.below(3)) break; shr += sz; if (s.coin()) a.clear(); else a.deallocate(); b.clear(); break; }
		case 16: { nm = "pop_back"; if (!sz) break; ++shr; a.pop_back(); b.pop_back(); break; }
		case 17: { nm = "construct"; size_t c = s.blen(10); int x = val(s); { V d (c, Tr(x)); V e (c); same (d, std::vector<int>(c,x), "V(n,v)"); same (e, std::vector<int>(c,0), "V(n)"); if (s.coin()) { a.swap (d); b.assign (c, x); } } break; }
	    }
	    note ("v%d %s -> size %zu", i, nm, m[i].size());
	    s.step();
	    same (v[0], m[0], nm); same (v[1], m[1], nm);
	    reg_check (nm, m[0].size() + m[1].size());
	}
	s.nontrivial (mids && shr);
    });
}
PBT_TEST(life_vector,4) { vec_machine<ustl::vector<Tr>>(s); }

PBT_TEST(life_list,3)
{
    balanced (s, [&]{
	ustl::list<Tr> a, o; std::vector<int> b, p; unsigned sp = 0, rm = 0;
	for (unsigned k = 0, n = 1+s.len(30); k < n; ++k) {
	    const char* nm = "?";
	    switch (s.below(13)) {
		case 0: { nm = "push_front"; int x = val(s); if (s.coin()) a.push_front (Tr(x)); else { const Tr t(x); a.push_front (t); } b.insert (b.begin(), x); break; }
		case 1: case 2: { nm = "push_back"; int x = val(s); a.push_back (Tr(x)); b.push_back (x); break; }
		case 3: { nm = "pop_front"; if (b.empty()) break; a.pop_front(); b.erase (b.begin()); ++rm; break; }
		case 4: { nm = "other.push_back"; for (unsigned c = s.below(5); c; --c) { int x = val(s); o.push_back (Tr(x)); p.push_back (x); } break; }
		case 5: { nm = "splice"; size_t at = s.below(b.size()+1), f = s.below(p.size()+1), l = f + s.below(p.size()-f+1); if (p.empty()) break; ++sp; a.splice (a.begin()+at, o, o.begin()+f, o.begin()+l); b.insert (b.begin()+at, p.begin()+f, p.begin()+l); p.erase (p.begin()+f, p.begin()+l); break; }
		case 6: { nm = "remove"; int x = val(s); { Tr t (x); a.remove (t); } rm += std::count (b.begin(), b.end(), x); b.erase (std::remove (b.begin(), b.end(), x), b.end()); break; }
		case 7: { nm = "unique"; a.unique(); auto e = std::unique (b.begin(), b.end()); rm += e != b.end(); b.erase (e, b.end()); break; }
		case 8: { nm = "sort"; a.sort(); std::sort (b.begin(), b.end()); break; }
		case 9: { nm = "reverse"; a.reverse(); std::reverse (b.begin(), b.end()); break; }
		case 10: { nm = "merge"; a.sort(); o.sort(); std::sort (b.begin(), b.end()); std::sort (p.begin(), p.end()); a.merge (o); o.clear(); std::vector<int> r; std::merge (b.begin(), b.end(), p.begin(), p.end(), std::back_inserter (r)); b = r; p.clear(); ++sp; break; }
		case 11: { nm = "remove_if"; int x = s.below(6); a.remove_if ([x](const Tr& t){ return t.v < x; }); b.erase (std::remove_if (b.begin(), b.end(), [x](int t){ return t < x; }), b.end()); break; }
		case 12: { nm = "swap/copy"; { ustl::list<Tr> c (a); o.swap (c); } p = b; break; }
	    }
	    note ("%s -> %zu/%zu", nm, b.size(), p.size());
	    s.step();
	    same (a, b, nm); same (o, p, nm); reg_check (nm, b.size()+p.size());
	}
	s.nontrivial (sp && rm);
    });
}
//}}}
//{{{ set, multiset, map, multimap
template <typename C, bool Multi>
static void set_machine (Src& s)
{
    balanced (s, [&]{
	C a, o; std::multiset<int> b, p; unsigned dup = 0, er = 0;
	auto ins = [&](std::multiset<int>& m, int x){ if (Multi || !m.count (x)) m.insert (x); else ++dup; };
	auto chk = [&](const C& c, const std::multiset<int>& m, const char* nm){ same (c, std::vector<int>(m.begin(), m.end()), nm); };
	for (unsigned k = 0, n = 1+s.len(30); k < n; ++k) {
	    const char* nm = "?"; int x = val(s);
	    switch (s.below(11)) {
		case 0: { nm = "insert const&"; const Tr t (x); a.insert (t); ins (b,x); break; }
		case 1: { nm = "insert &&"; a.insert (Tr(x)); ins (b,x); break; }
		case 2: { nm = "emplace"; a.emplace (x); ins (b,x); break; }
		case 3: { nm = "insert range"; { ustl::vector<Tr> src; for (unsigned c = s.below(5); c; --c) { int y = val(s); src.push_back (Tr(y)); ins (b,y); } a.insert (src.begin(), src.end()); } break; }
		case 4: { nm = "insert list"; a.insert ({Tr(x), Tr(x+1), Tr(x)}); ins (b,x); ins (b,x+1); ins (b,x); break; }
		case 5: { nm = "erase value"; { Tr t (x); a.erase (t); } er += b.erase (x); break; }
		case 6: { nm = "erase at"; if (b.empty()) break; size_t q = s.below(b.size()); a.erase (a.begin()+q); b.erase (std::next (b.begin(), q)); ++er; break; }
		case 7: { nm = "erase range"; size_t q = s.below(b.size()+1), r = q + s.below(b.size()-q+1); a.erase (a.begin()+q, a.begin()+r); b.erase (std::next (b.begin(),q), std::next (b.begin(),r)); er += r-q; break; }
		case 8: { nm = "assign/copy"; if (s.coin()) { o = a; p = b; } else { C c (a); chk (c, b, "copy"); o = ustl::move (c); p = b; } break; }
		case 9: { nm = "swap"; a.swap (o); b.swap (p); break; }
		case 10: { nm = "lookup"; Tr t (x); a.find (t); a.count (t); a.lower_bound (t); break; }
	    }
	    note ("%s %d -> %zu", nm, x, b.size());
	    s.step();
	    chk (a, b, nm); chk (o, p, nm); reg_check (nm, b.size()+p.size());
	}
	s.nontrivial (er && (Multi || dup));
    });
}
PBT_TEST(life_set,2) { set_machine<ustl::set<Tr>,false>(s); }
PBT_TEST(life_multiset,2) { set_machine<ustl::multiset<Tr>,true>(s); }

template <typename C, bool Multi>
static void map_ins (C& a, std::multimap<int,int>& b, int k, int v) { if (Multi || !b.count (k)) b.emplace (k, v); a.insert (ustl::pair<Tr,Tr>(Tr(k), Tr(v))); }
template <typename C> static void map_chk (const C& c, const std::multimap<int,int>& m, const char* nm)
{
    PBT_CHECK (c.size() == m.size(), "after %s: size %zu, expected %zu", nm, size_t(c.size()), m.size());
    auto j = m.begin();
    for (auto i = c.begin(); i != c.end(); ++i, ++j)
	PBT_CHECK (i->first.ok ("key") && i->second.ok ("value") && i->first.v == j->first && i->second.v == j->second, "after %s: entry %td is %d:%d", nm, i-c.begin(), i->first.v, i->second.v);
}
PBT_TEST(life_map,3)
{
    balanced (s, [&]{
	typedef ustl::map<Tr,Tr> C; C a, o; std::multimap<int,int> b, p; unsigned dup = 0, er = 0;
	for (unsigned k = 0, n = 1+s.len(30); k < n; ++k) {
	    const char* nm = "?"; int x = val(s), y = val(s);
	    switch (s.below(9)) {
		case 0: case 1: { nm = "insert"; dup += b.count (x); map_ins<C,false> (a, b, x, y); break; }
		case 2: case 3: { nm = "operator[]"; { Tr t (x), u (y); a[t] = u; } auto i = b.find (x); if (i == b.end()) b.emplace (x, y); else i->second = y, ++dup; break; }
		case 4: { nm = "erase key"; { Tr t (x); a.erase (t); } er += b.erase (x); break; }
		case 5: { nm = "erase range"; size_t q = s.below(b.size()+1), r = q + s.below(b.size()-q+1); a.erase (a.begin()+q, a.begin()+r); b.erase (std::next (b.begin(),q), std::next (b.begin(),r)); er += r-q; break; }
		case 6: { nm = "assign/copy"; if (s.chance (1,6)) { auto& z = a; a = z; break; } if (s.coin()) o = a; else { C c (a); o = ustl::move (c); } p = b; break; }
		case 7: { nm = "swap"; a.swap (o); b.swap (p); break; }
		case 8: { nm = "insert const&"; { const ustl::pair<Tr,Tr> t ((Tr(x)), Tr(y)); a.insert (t); if (!b.count (x)) b.emplace (x, y); if (s.coin()) a.insert (o.begin(), o.end()); else break; for (auto& e : p) if (!b.count (e.first)) b.insert (e); } break; }
	    }
	    note ("%s %d:%d -> %zu", nm, x, y, b.size());
	    s.step();
	    map_chk (a, b, nm); map_chk (o, p, nm); reg_check (nm, 2*(b.size()+p.size()));
	}
	s.nontrivial (er && dup);
    });
}
PBT_TEST(life_multimap,2)
{
    balanced (s, [&]{
	typedef ustl::multimap<Tr,Tr> C; C a, o; std::multimap<int,int> b, p; unsigned er = 0;
	for (unsigned k = 0, n = 1+s.len(30); k < n; ++k) {
	    const char* nm = "?"; int x = val(s), y = val(s);
	    switch (s.below(6)) {
		case 0: case 1: { nm = "insert"; map_ins<C,true> (a, b, x, y); break; }
		case 2: { nm = "erase key"; { Tr t (x); a.erase (t); } er += b.erase (x); break; }
		case 3: { nm = "erase range"; size_t q = s.below(b.size()+1), r = q + s.below(b.size()-q+1); a.erase (a.begin()+q, a.begin()+r); b.erase (std::next (b.begin(),q), std::next (b.begin(),r)); er += r-q; break; }
		case 4: { nm = "assign/copy"; if (s.chance (1,6)) { auto& z = a; a = z; break; } if (s.coin()) o = a; else { C c (a); o = ustl::move (c); } p = b; break; }
		case 5: { nm = "swap"; a.swap (o); b.swap (p); break; }
	    }
	    note ("%s %d:%d -> %zu", nm, x, y, b.size());
	    s.step();
	    map_chk (a, b, nm); map_chk (o, p, nm); reg_check (nm, 2*(b.size()+p.size()));
	}
	s.nontrivial (er);
    });
}
//}}}
//{{{ elements copied by the compiler, with a destructor of their own
static int g_ends = 0;
struct Ended { int v; Ended (void) : v(7) {} explicit Ended (int i) : v(i) {} ~Ended (void) { ++g_ends; } };
PBT_TEST(life_ended,2)
{
    size_t before = pbt::heap_bytes(); int need = 0; unsigned gone = 0;
    // Counts the destructions of elements: temporaries are made outside of the counted parts
    auto counted = [&](const char* nm, int expect, const std::function<void()>& f) { int b = g_ends; f(); PBT_CHECK (g_ends-b == expect, "%s ended %d elements, expected %d", nm, g_ends-b, expect); need += expect; gone += expect; };
    s.scaled (600);
    {
	ustl::vector<Ended>* p = new ustl::vector<Ended>; ustl::vector<Ended>& a = *p; std::vector<int> b;
	for (unsigned k = 0, n = 1+s.hist(25); k < n; ++k) {
	    const char* nm = "?"; size_t sz = b.size(); Ended x (val(s)); s.step();
	    auto chk = [&]{ PBT_CHECK (a.size() == b.size(), "after %s: size %zu, expected %zu", nm, size_t(a.size()), b.size()); for (size_t i = 0; i < b.size(); ++i) PBT_CHECK (a[i].v == b[i], "after %s: element %zu is %d, expected %d", nm, i, a[i].v, b[i]); };
	    switch (s.below(9)) {
		case 0: case 1: { nm = "push_back"; a.reserve (sz+1); counted (nm, 0, [&]{ a.push_back (x); }); b.push_back (x.v); break; }
		case 2: { nm = "resize"; size_t c = s.blen(20); a.reserve (cmax (c,sz)); counted (nm, c < sz ? int(sz-c) : 0, [&]{ a.resize (c); }); b.resize (c, 7); break; }
		case 3: { nm = "pop_back"; if (!sz) break; counted (nm, 1, [&]{ a.pop_back(); }); b.pop_back(); break; }
		case 4: { nm = "clear"; if (s.coin()) break; counted (nm, int(sz), [&]{ a.clear(); }); b.clear(); break; }
		case 5: { nm = "deallocate"; if (s.coin()) break; counted (nm, int(sz), [&]{ a.deallocate(); }); b.clear(); break; }
		case 6: { nm = "copy"; std::unique_ptr<ustl::vector<Ended>> c (new ustl::vector<Ended> (a)); PBT_CHECK (c->size() == sz, "copy"); for (size_t i = 0; i < sz; ++i) PBT_CHECK ((*c)[i].v == b[i], "copy element %zu", i); counted ("destruction of a copy", int(sz), [&]{ c.reset(); }); break; }
		case 7: { nm = "construct"; size_t c = s.blen(12); std::unique_ptr<ustl::vector<Ended>> q (new ustl::vector<Ended> (c)); for (size_t i = 0; i < c; ++i) PBT_CHECK ((*q)[i].v == 7, "vector(%zu): element %zu is %d", c, i, (*q)[i].v); counted ("destruction", int(c), [&]{ q.reset(); }); break; }
		default: { nm = "raw storage"; size_t c = s.blen(12); Ended* r = (Ended*) malloc (c*sizeof(Ended)+1); if (s.coin()) ustl::uninitialized_fill_n (r, c, x); else ustl::uninitialized_copy (a.begin(), a.begin()+(c = cmin (c,sz)), r); counted ("destroy", int(c), [&]{ if (s.coin()) ustl::destroy (r, r+c); else ustl::destroy_n (r, c); }); free (r); break; }
	    }
	    note ("%s -> %zu", nm, b.size());
	    chk();
	}
	counted ("destruction of the vector", int(b.size()), [&]{ delete p; });
    }
    { // other owners of elements
	size_t c = s.len(8);
	{ auto* q = new ustl::list<Ended>; for (size_t i = 0; i < c; ++i) { q->reserve (i+1); q->push_back (Ended (int(i))); } counted ("destruction of a list", int(c), [&]{ delete q; }); }
	{ auto* q = new ustl::queue<Ended>; for (size_t i = 0; i < c; ++i) { Ended e; q->push (e); } counted ("destruction of a queue", int(c), [&]{ delete q; }); }
	{ auto* q = new ustl::tuple<3,Ended>; counted ("destruction of a tuple", 3, [&]{ delete q; }); }
	{ auto* q = new ustl::pair<Ended,int>; counted ("destruction of a pair", 1, [&]{ delete q; }); }
	{ auto q = new ustl::unique_ptr<Ended> (new Ended); counted ("destruction of a unique_ptr", 1, [&]{ delete q; }); }
    }
    PBT_CHECK (pbt::heap_bytes() == before, "%zd bytes of heap not returned", ssize_t(pbt::heap_bytes()-before));
    s.nontrivial (gone > 3);
}
//}}}
//{{{ adaptors
PBT_TEST(life_adaptors,2)
{
    balanced (s, [&]{
	ustl::queue<Tr> q; std::deque<int> mq; ustl::stack<Tr> st; std::vector<int> ms; ustl::priority_queue<Tr> pq; std::multiset<int> mp; unsigned pops = 0;
	for (unsigned k = 0, n = 1+s.len(40); k < n; ++k) {
	    int x = val(s);
	    switch (s.below(9)) {
		case 0: { Tr t (x); q.push (t); mq.push_back (x); break; }
		case 1: q.emplace (x); mq.push_back (x); break;
		case 2: if (!mq.empty()) { q.pop(); mq.pop_front(); ++pops; } break;
		case 3: { Tr t (x); st.push (t); ms.push_back (x); break; }
		case 4: if (!ms.empty()) { st.pop(); ms.pop_back(); ++pops; } break;
		case 5: { Tr t (x); pq.push (t); mp.insert (x); break; }
		case 6: if (!mp.empty()) { pq.pop(); mp.erase (std::prev (mp.end())); ++pops; } break;
		case 7: { ustl::stack<Tr> c (st); st.swap (c); ustl::stack<Tr> d (ustl::move (c)); break; }
		case 8: { st.emplace (x); ms.push_back (x); break; }
	    }
	    s.step();
	    reg_check ("adaptor operation");
	    PBT_CHECK (q.size() == mq.size() && st.size() == ms.size() && pq.size() == mp.size(), "sizes");
	    if (!mq.empty()) PBT_CHECK (q.front().ok ("front") && q.back().ok ("back") && q.front().v == mq.front() && q.back().v == mq.back(), "queue front %d expected %d", q.front().v, mq.front());
	    if (!ms.empty()) PBT_CHECK (st.top().ok ("top") && st.top().v == ms.back(), "stack top");
	    if (!mp.empty()) PBT_CHECK (pq.top().ok ("pq top") && pq.top().v == *mp.rbegin(), "priority_queue top %d expected %d", pq.top().v, *mp.rbegin());
	}
	s.nontrivial (pops > 2);
    });
}
//}}}
//{{{ raw storage algorithms
PBT_TEST(life_raw,2)
{
    balanced (s, [&]{
	size_t n = s.len(12);
	Tr* raw = (Tr*) malloc (n*sizeof(Tr)+1);
	{
	    ustl::vector<Tr> src; std::vector<int> m;
	    for (size_t i = 0; i < n; ++i) { int x = val(s); src.push_back (Tr(x)); m.push_back (x); }
	    Tr fillv (77);
	    unsigned form = s.below(8); Tr* e = raw+n;
	    note ("form %u n %zu", form, n);
	    switch (form) {
		case 0: e = ustl::uninitialized_copy (src.begin(), src.end(), raw); break;
		case 1: e = ustl::uninitialized_copy_n (src.begin(), n, raw); break;
		case 2: ustl::uninitialized_fill (raw, raw+n, fillv); m.assign (n, 77); break;
		case 3: e = ustl::uninitialized_fill_n (raw, n, fillv); m.assign (n, 77); break;
		case 4: e = ustl::uninitialized_move (src.begin(), src.end(), raw); break;
		case 5: e = ustl::uninitialized_move_n (src.begin(), n, raw); break;
		case 6: ustl::uninitialized_default_construct (raw, raw+n); m.assign (n, 0); break;
		case 7: ustl::uninitialized_value_construct_n (raw, n); m.assign (n, 0); break;
	    }
	    PBT_CHECK (e == raw+n, "returned position %td of %zu", e-raw, n);
	    reg_check ("raw construction", 2*n+1);
	    for (size_t i = 0; i < n; ++i) PBT_CHECK (raw[i].ok ("raw") && raw[i].v == m[i], "form %u element %zu", form, i);
	    if (s.coin()) ustl::destroy (raw, raw+n); else ustl::destroy_n (raw, n);
	    reg_check ("raw destruction", n+1);
	    if (n) { // single object forms
		ustl::construct_at (raw); ustl::destroy_at (raw);
		ustl::construct_at (raw, fillv); PBT_CHECK (raw->v == 77, "construct_at copy"); ustl::destroy (raw);
		ustl::construct_at (raw, Tr(5)); PBT_CHECK (raw->v == 5, "construct_at move"); ustl::destroy_at (raw);
		reg_check ("construct_at and destroy_at", n+1);
	    }
	}
	free (raw);
	s.nontrivial (n > 1);
    });
}
//}}}
//{{{ memory of strings and blocks
PBT_TEST(heap_strings,3)
{
    balanced (s, [&]{
	ustl::string a, b; ustl::memblock m, m2; ustl::vector<ustl::string> v; ustl::map<ustl::string,ustl::string> mp; unsigned big = 0;
	static const char link[] = "linked text that is not owned";
	for (unsigned k = 0, n = 1+s.len(30); k < n; ++k) {
	    size_t c = s.below(4) ? s.below(40) : s.below(2000);
	    big += c > 32;
	    std::string t (c, 'x');
	    s.step();
	    switch (s.below(20)) {
		case 0: a.append (t.data(), c); break;
		case 1: a = ustl::string (t.data(), c); break;
		case 2: a = b; break;
		case 3: b = ustl::move (a); a.clear(); break;
		case 4: a.swap (b); break;
		case 5: a.resize (c); break;
		case 6: a.deallocate(); a.resize (0); break;
		case 7: a.shrink_to_fit(); a.resize (a.size()); break;
		case 8: a.format ("%s-%d", t.c_str(), int(c)); break;
		case 9: v.push_back (a); break;
		case 10: if (!v.empty()) v.erase (v.begin()+s.below(v.size())); break;
		case 11: v.insert (v.begin()+s.below(v.size()+1), 2, b); break;
		case 12: mp[a] = b; break;
		case 13: if (!mp.empty()) mp.erase (mp.begin()); break;
		case 14: m.resize (c); break;
		case 15: m = m2; break;
		case 16: m2.assign (t.data(), c); break;
		case 17: m.swap (m2); break;
		case 18: { ustl::memblock q (t.data(), c); m2 = ustl::move (q); break; }
		case 19: { ustl::string l; l.link (link, sizeof(link)-1); l += 'x'; a = l; break; }
	    }
	}
	s.nontrivial (big > 3);
    });
}
//}}}
