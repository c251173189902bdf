// C09: queue, stack, priority_queue and the heap algorithms.
#include "uh.h"

struct El { int k, t; ustl::string s;
    El (void) : k(0), t(0), s() {}
    El (int nk, int nt) : k(nk), t(nt), s() { s.format ("%d/%d", nk, nt); }
    bool operator== (const El& o) const { return k == o.k && t == o.t && s == o.s; }
    bool operator!= (const El& o) const { return !(*this == o); }
    bool operator< (const El& o) const { return k < o.k; } };
template <typename T> struct mk { static T of (int k, int) { return T(k); } static int key (const T& v) { return int(v); } static int id (const T& v) { return int(v); } };
template <> struct mk<El> { static El of (int k, int t) { return El (k,t); } static int key (const El& v) { return v.k; } static int id (const El& v) { return v.k*1000+v.t; } };
template <> struct mk<ustl::string> { static ustl::string of (int k, int) { ustl::string r; r.format ("%03d", k+500); return r; } static int key (const ustl::string& v) { return atoi (v.c_str())-500; } static int id (const ustl::string& v) { return key(v); } };
template <> struct mk<ustl::pair<int,ustl::string>> { typedef ustl::pair<int,ustl::string> P; static P of (int k, int) { return P (k, mk<ustl::string>::of (k,0)); } static int key (const P& v) { return v.first; } static int id (const P& v) { return v.second == mk<ustl::string>::of (v.first,0) ? v.first : -12345; } };

// Element-by-element view of an adapter, made by emptying a copy
template <typename T, typename Q> std::vector<int> drain (Q& q, unsigned lim)
{
    std::vector<int> r; while (!q.empty() && lim--) { r.push_back (mk<T>::id (q.front())); q.pop(); } return r;
}

//{{{ queue
template <typename T, typename C>
void queue_case (Src& s)
{
    typedef ustl::queue<T,C> Q; typedef std::deque<int> M;
    std::unique_ptr<Q> v[2]; M m[2]; for (auto& p : v) p.reset (new Q);
    int tag = 0; unsigned pops = 0, compact = 0;
    unsigned popw = s.among ({2u,5u,8u}), bias = s.below(60);
    for (unsigned k = 0, n = 2+s.len(70); k < n; ++k) {
	int i = s.below(2); M& b = m[i]; const char* nm = "?"; s.step();
#define a (*v[i])
	switch (s.pick ({5,popw,1,1,1,1,1,1,1})) {
	    case 0: { nm = "push"; for (unsigned q = 1+s.len(bias/10); q; --q) { T x = mk<T>::of (int(s.below(50))-10, ++tag%1000); b.push_back (mk<T>::id(x)); if (s.coin()) a.push (x); else a.emplace (x); } if (s.chance (1,5) && !b.empty()) { b.push_back (mk<T>::id (a.front())); a.push (a.front()); } break; }
	    case 1: { nm = "pop"; for (unsigned q = 1+s.len(4); q && !b.empty(); --q) { PBT_CHECK (mk<T>::id(a.front()) == b.front(), "front is %d, expected %d", mk<T>::id(a.front()), b.front()); a.pop(); b.pop_front(); ++pops; } if (pops > 2) compact = 1; break; }
	    case 2: nm = "copy construction"; v[i].reset (new Q (*v[1-i])); b = m[1-i]; break;
	    case 3: nm = "assignment"; if (s.chance (1,5)) { auto& z = a; a = z; break; } a = *v[1-i]; b = m[1-i]; break;
	    case 4: nm = "move construction"; { Q* q = new Q (ustl::move (*v[1-i])); v[i].reset (q); b = m[1-i]; m[1-i].clear(); if (s.coin()) v[1-i].reset (new Q); } break;
	    case 5: nm = "swap"; if (s.chance (1,4)) { auto& z = a; a.swap (z); break; } if (s.coin()) a.swap (*v[1-i]); else { Q t; t = ustl::move (a); a = ustl::move (*v[1-i]); *v[1-i] = ustl::move (t); } b.swap (m[1-i]); break;
	    case 6: { nm = "from container"; C c; b.clear(); for (size_t q = s.len(9); q; --q) { c.push_back (mk<T>::of (int(s.below(9)), ++tag%1000)); b.push_back (mk<T>::id(c.back())); } v[i].reset (s.coin() ? new Q (c) : new Q (ustl::move (c))); break; }
	    case 7: { nm = "rewrite ends"; if (b.empty()) break; T x = mk<T>::of (int(s.below(9)), ++tag%1000), y = mk<T>::of (int(s.below(9)), ++tag%1000); a.front() = x; b.front() = mk<T>::id(x); a.back() = y; b.back() = mk<T>::id(y); break; }
	    default: { nm = "comparison"; // the same elements, reached by another history
		Q c; size_t pre = s.below(5); for (size_t q = 0; q < pre; ++q) c.push (mk<T>::of (7,0)); Q d (a); while (!d.empty()) { c.push (d.front()); d.pop(); if (pre && s.coin()) { c.pop(); --pre; } } while (pre--) c.pop();
		PBT_CHECK (c == a && a == c, "queues holding the same elements compare unequal");
		PBT_CHECK ((*v[0] == *v[1]) == (m[0] == m[1]), "== gives %d", *v[0] == *v[1]);
		c.push (mk<T>::of (3,1)); PBT_CHECK (!(c == a), "a longer queue compares equal"); break; }
	}
	note ("q%d %s -> %zu", i, nm, b.size());
#undef a
	for (int q = 0; q < 2; ++q) {
	    const Q& c = *v[q]; M& e = m[q];
	    PBT_CHECK (c.size() == e.size() && c.empty() == e.empty(), "after %s: size %zu, expected %zu", nm, size_t(c.size()), e.size());
	    if (e.empty()) continue;
	    PBT_CHECK (mk<T>::id(c.front()) == e.front() && mk<T>::id(v[q]->front()) == e.front(), "after %s: front is %d, expected %d", nm, mk<T>::id(c.front()), e.front());
	    PBT_CHECK (mk<T>::id(c.back()) == e.back() && mk<T>::id(v[q]->back()) == e.back(), "after %s: back is %d, expected %d", nm, mk<T>::id(c.back()), e.back());
	}
    }
    for (int q = 0; q < 2; ++q) {
	std::vector<int> r = drain<T> (*v[q], m[q].size()+1);
	PBT_CHECK (r.size() == m[q].size() && std::equal (r.begin(), r.end(), m[q].begin()), "elements come out in the wrong order");
    }
    s.nontrivial (compact && tag > 4);
}
PBT_TEST(queue,3) { switch (s.below(4)) { case 0: queue_case<int,ustl::vector<int>> (s); break; case 1: queue_case<El,ustl::vector<El>> (s); break; case 2: queue_case<ustl::string,ustl::list<ustl::string>> (s); break; default: queue_case<unsigned char,ustl::deque<unsigned char>> (s); } }
//}}}
//{{{ stack
template <typename T, typename C>
void stack_case (Src& s)
{
    typedef ustl::stack<T,C> Q; typedef std::vector<int> M;
    std::unique_ptr<Q> v[2]; M m[2]; for (auto& p : v) p.reset (new Q);
    int tag = 0; unsigned pops = 0;
    for (unsigned k = 0, n = 2+s.len(60); k < n; ++k) {
	int i = s.below(2); M& b = m[i]; const char* nm = "?"; s.step();
#define a (*v[i])
	switch (s.pick ({5,4,1,1,1,1,1,1,1})) {
	    case 0: { nm = "push"; for (unsigned q = 1+s.len(4); q; --q) { T x = mk<T>::of (int(s.below(50))-10, ++tag%1000); b.push_back (mk<T>::id(x)); if (s.coin()) a.push (x); else a.emplace (x); } if (s.chance (1,5) && !b.empty()) { b.push_back (mk<T>::id (a.top())); a.push (a.top()); } break; }
	    case 1: { nm = "pop"; for (unsigned q = 1+s.len(4); q && !b.empty(); --q) { PBT_CHECK (mk<T>::id(a.top()) == b.back(), "top is %d, expected %d", mk<T>::id(a.top()), b.back()); a.pop(); b.pop_back(); ++pops; } break; }
	    case 2: nm = "copy construction"; v[i].reset (new Q (*v[1-i])); b = m[1-i]; break;
	    case 3: nm = "assignment"; if (s.chance (1,5)) { auto& z = a; a = z; break; } a = *v[1-i]; b = m[1-i]; break;
	    case 4: nm = "move construction"; { Q* q = new Q (ustl::move (*v[1-i])); v[i].reset (q); b = m[1-i]; m[1-i].clear(); if (s.coin()) v[1-i].reset (new Q); } break;
	    case 5: nm = "swap"; if (s.chance (1,4)) { auto& z = a; a.swap (z); break; } if (s.coin()) a.swap (*v[1-i]); else { Q t; t = ustl::move (a); a = ustl::move (*v[1-i]); *v[1-i] = ustl::move (t); } b.swap (m[1-i]); break;
	    case 6: { nm = "from container"; C c; b.clear(); for (size_t q = s.len(9); q; --q) { c.push_back (mk<T>::of (int(s.below(9)), ++tag%1000)); b.push_back (mk<T>::id(c.back())); } v[i].reset (s.coin() ? new Q (c) : new Q (ustl::move (c))); break; }
	    case 7: { nm = "rewrite top"; if (b.empty()) break; T x = mk<T>::of (int(s.below(9)), ++tag%1000); a.top() = x; b.back() = mk<T>::id(x); break; }
	    default: { nm = "comparison"; Q c; M r; { Q d (a); while (!d.empty() && r.size() <= b.size()) { r.push_back (mk<T>::id(d.top())); d.pop(); } } std::reverse (r.begin(), r.end()); PBT_CHECK (r == b, "elements come out in the wrong order");
		PBT_CHECK ((*v[0] == *v[1]) == (m[0] == m[1]), "== gives %d", *v[0] == *v[1]); { const Q &x = *v[0], &y = *v[1]; Q z (x); PBT_CHECK (!(x < x) && !(x < z) && !(z < x) && !((x < y) && (y < x)) && !(x == y && (x < y || y < x)), "< is not an order"); } break; }
	}
	note ("s%d %s -> %zu", i, nm, b.size());
#undef a
	for (int q = 0; q < 2; ++q) {
	    const Q& c = *v[q]; M& e = m[q];
	    PBT_CHECK (c.size() == e.size() && c.empty() == e.empty(), "after %s: size %zu, expected %zu", nm, size_t(c.size()), e.size());
	    if (!e.empty()) PBT_CHECK (mk<T>::id(c.top()) == e.back() && mk<T>::id(v[q]->top()) == e.back(), "after %s: top is %d, expected %d", nm, mk<T>::id(c.top()), e.back());
	}
    }
    s.nontrivial (pops > 2 && tag > 4);
}
PBT_TEST(stack,2) { switch (s.below(3)) { case 0: stack_case<int,ustl::vector<int>> (s); break; case 1: stack_case<El,ustl::vector<El>> (s); break; default: stack_case<ustl::string,ustl::list<ustl::string>> (s); } }
//}}}
//{{{ priority_queue
// Orderings: by state, so that the queue has to use the object it was given
struct ByState { int mode; ByState (int m = 0) : mode(m) {}
    static int w (int k, int mode) { return mode == 0 ? k : mode == 1 ? -k : mode == 2 ? abs(k-20) : k/4; }
    template <typename T> bool operator() (const T& a, const T& b) const { return w (mk<T>::key(a), mode) < w (mk<T>::key(b), mode); } };
template <typename Comp> struct cmpof { static Comp of (int) { return Comp(); } };
template <> struct cmpof<ByState> { static ByState of (int m) { return ByState (m); } };

template <typename T, typename Comp>
void pq_case (Src& s)
{
    typedef ustl::vector<T> C; typedef ustl::priority_queue<T,C,Comp> Q;
    Comp cmp[2] = { cmpof<Comp>::of (s.below(4)), cmpof<Comp>::of (s.below(4)) };
    std::unique_ptr<Q> v[2]; std::vector<T> m[2]; for (int q = 0; q < 2; ++q) v[q].reset (new Q (cmp[q]));
    int tag = 0; unsigned pops = 0; int span = s.among ({3,10,60});
    auto gen = [&]{ return mk<T>::of (int(s.below(span))-span/4, ++tag%1000); };
    auto popcheck = [&](Q& a, std::vector<T>& b, Comp& c) {	// top is a greatest element; remove it from the model
	const T x (a.top()); size_t at = b.size();
	for (size_t q = 0; q < b.size(); ++q) { PBT_CHECK (!c (x, b[q]), "top %d is less than %d", mk<T>::id(x), mk<T>::id(b[q])); if (mk<T>::id (b[q]) == mk<T>::id (x)) at = q; }
	PBT_CHECK (at < b.size(), "top %d is not an element of the queue", mk<T>::id(x));
	a.pop(); b.erase (b.begin()+at); };
    for (unsigned k = 0, n = 2+s.len(50); k < n; ++k) {
	int i = s.below(2); std::vector<T>& b = m[i]; const char* nm = "?"; s.step();
#define a (*v[i])
	switch (s.pick ({6,5,1,1,1})) {
	    case 0: { nm = "push"; for (unsigned q = 1+s.len(6); q; --q) { T x = gen(); b.push_back (x); if (s.coin()) a.push (x); else a.emplace (x); } if (s.chance (1,5) && !b.empty()) { b.push_back (T (a.top())); a.push (a.top()); } break; }
	    case 1: { nm = "pop"; for (unsigned q = 1+s.len(6); q && !b.empty(); --q) { popcheck (a, b, cmp[i]); ++pops; } break; }
	    case 2: nm = "move construction"; { Q* q = new Q (ustl::move (*v[1-i])); v[i].reset (q); b = m[1-i]; cmp[i] = cmp[1-i]; m[1-i].clear(); if (s.coin()) v[1-i].reset (new Q (cmp[1-i])); } break;
	    case 3: nm = "swap"; if (s.chance (1,4)) { auto& z = a; a.swap (z); break; } if (s.coin()) a.swap (*v[1-i]); else { Q t; t = ustl::move (a); a = ustl::move (*v[1-i]); *v[1-i] = ustl::move (t); } b.swap (m[1-i]); std::swap (cmp[0], cmp[1]); break;
	    default: { nm = "from container"; C c; b.clear(); for (size_t q = s.len(25); q; --q) { c.push_back (gen()); b.push_back (c.back()); }
		cmp[i] = cmpof<Comp>::of (s.below(4));
		switch (s.below(4)) { case 0: v[i].reset (new Q (cmp[i], c)); break; case 1: v[i].reset (new Q (c.begin(), c.end(), cmp[i])); break; case 2: v[i].reset (new Q (cmp[i], ustl::move (c))); break;
		    default: { C d; for (size_t q = s.len(9); q; --q) { d.push_back (gen()); b.push_back (d.back()); } v[i].reset (new Q (d.begin(), d.end(), cmp[i], ustl::move (c))); } } }
	}
	note ("pq%d %s -> %zu", i, nm, b.size());
#undef a
	for (int q = 0; q < 2; ++q) {
	    const Q& c = *v[q];
	    PBT_CHECK (c.size() == m[q].size() && c.empty() == m[q].empty(), "after %s: size %zu, expected %zu", nm, size_t(c.size()), m[q].size());
	    if (!m[q].empty()) for (auto& x : m[q]) PBT_CHECK (!cmp[q] (c.top(), x), "after %s: top %d is less than %d", nm, mk<T>::id(c.top()), mk<T>::id(x));
	}
    }
    for (int q = 0; q < 2; ++q) { while (!m[q].empty()) popcheck (*v[q], m[q], cmp[q]); PBT_CHECK (v[q]->empty(), "elements left"); }
    s.nontrivial (pops > 3);
}
PBT_TEST(priority_queue,3) { switch (s.below(6)) { case 0: pq_case<int,ustl::less<int>> (s); break; case 1: pq_case<El,ustl::less<El>> (s); break; case 2: pq_case<int,ustl::greater<int>> (s); break; case 3: pq_case<int,ByState> (s); break; case 4: pq_case<ustl::string,ustl::greater<ustl::string>> (s); break; default: pq_case<El,ByState> (s); } }
//}}}
//{{{ heap algorithms
template <typename T> std::vector<int> ids (const T* f, const T* l) { std::vector<int> r; for (; f != l; ++f) r.push_back (mk<T>::id (*f)); std::sort (r.begin(), r.end()); return r; }

template <typename T, typename Comp, bool Dflt>
void heap_case (Src& s)
{
    Comp cmp = cmpof<Comp>::of (s.below(4)); int span = s.among ({2,5,20,200}), tag = 0;
    ustl::vector<T> c; size_t n = s.len(70); for (size_t i = 0; i < n; ++i) c.push_back (mk<T>::of (int(s.below(span))-span/3, ++tag%1000));
    T* f = c.begin(); T* l = c.end(); const std::vector<int> before = ids (f, l);
#define HEAP(fn,F,L) (Dflt ? ustl::fn (F,L) : ustl::fn (F,L,cmp))
    // is_heap agrees on arbitrary, partly and fully ordered ranges
    if (s.coin()) std::make_heap (f, f+s.below(n+1), cmp);
    if (n && s.coin()) { std::make_heap (f, l, cmp); if (s.coin()) c[s.below(n)] = mk<T>::of (int(s.below(span))-span/3, ++tag%1000); }
    const std::vector<int> start = ids (f, l);
    PBT_CHECK (HEAP (is_heap,f,l) == std::is_heap (f,l,cmp), "is_heap gives %d for %zu elements", int(HEAP (is_heap,f,l)), n);
    HEAP (make_heap,f,l);
    PBT_CHECK (ids (f,l) == start, "make_heap changed the elements"); PBT_CHECK (std::is_heap (f,l,cmp) && HEAP (is_heap,f,l), "make_heap did not make a heap of %zu elements", n);
    for (unsigned k = 0; k < 4; ++k) {
	size_t h = s.below(n+1);
	std::make_heap (f, f+h, cmp);
	if (h < n) { HEAP (push_heap,f,f+h+1); PBT_CHECK (ids (f,l) == start, "push_heap changed the elements"); PBT_CHECK (std::is_heap (f,f+h+1,cmp), "push_heap of element %zu left no heap", h); ++h; }
	if (h) { const T top (*f); std::vector<int> in = ids (f,f+h); HEAP (pop_heap,f,f+h); PBT_CHECK (ids (f,f+h) == in && ids (f,l) == start, "pop_heap changed the elements"); PBT_CHECK (std::is_heap (f,f+h-1,cmp), "pop_heap of %zu left no heap", h); PBT_CHECK (mk<T>::id (f[h-1]) == mk<T>::id (top), "pop_heap did not put the top at the end"); }
    }
    std::make_heap (f, l, cmp);
    HEAP (sort_heap,f,l);
    PBT_CHECK (ids (f,l) == start, "sort_heap changed the elements"); PBT_CHECK (std::is_sorted (f,l,cmp), "sort_heap of %zu elements is not sorted", n);
    s.nontrivial (n > 3);
}
PBT_TEST(heap,2) { switch (s.below(5)) { case 0: heap_case<int,ustl::less<int>,true> (s); break; case 1: heap_case<El,ByState,false> (s); break; case 2: heap_case<int,ByState,false> (s); break; case 3: heap_case<ustl::string,ustl::less<ustl::string>,true> (s); break; default: heap_case<signed char,ustl::greater<signed char>,false> (s); } }
//}}}
/// More elements than 16 bits count.
PBT_TEST(wide,0.05)
{
    static const size_t near[] = { 65536, 65536, 32768, 256, 131072 }; size_t n = s.chance (3,4) ? s.among (near)+s.below(5)-2 : s.below (140000); uint64_t x = s.below (1000); auto val = [&](size_t i) { return int(pbt::mix (x+i)%100000); };
    size_t out = s.coin() ? s.below (n+1) : n - std::min (n, size_t(s.below (4)));
    note ("%zu elements, %zu taken out", n, out);
    switch (s.below (4)) {
	case 0: { ustl::queue<int> q; std::deque<int> m; for (size_t i = 0; i < n; ++i) { q.push (val(i)); m.push_back (val(i)); }
	    for (size_t i = 0; i < out; ++i) { PBT_CHECK (q.front() == m.front() && q.size() == m.size(), "front %zu is %d, expected %d", i, q.front(), m.front()); q.pop(); m.pop_front(); if (i%97 == 0) { q.push (int(i)); m.push_back (int(i)); } }
	    ustl::queue<int> c (q); if (s.coin()) { q = c; } PBT_CHECK (c == q && q.size() == m.size(), "a copy"); while (!m.empty()) { PBT_CHECK (c.front() == m.front() && c.back() == m.back(), "front is %d, expected %d", c.front(), m.front()); c.pop(); m.pop_front(); } PBT_CHECK (c.empty(), "elements left"); break; }
	case 1: { ustl::stack<int> q; for (size_t i = 0; i < n; ++i) q.push (val(i)); ustl::stack<int> c (q); PBT_CHECK (c == q, "a copy"); for (size_t i = n; i--;) { PBT_CHECK (q.top() == val(i) && q.size() == i+1, "top %zu is %d, expected %d", i, q.top(), val(i)); q.pop(); } PBT_CHECK (q.empty() && c.size() == n, "sizes"); break; }
	case 2: { ustl::priority_queue<int> q; std::vector<int> m; for (size_t i = 0; i < n; ++i) { m.push_back (val(i)); if (i%2) q.push (val(i)); else q.emplace (val(i)); } std::make_heap (m.begin(), m.end());
	    for (size_t i = 0; i < out; ++i) { PBT_CHECK (q.top() == m.front() && q.size() == m.size(), "top %zu is %d, expected %d", i, q.top(), m.front()); q.pop(); std::pop_heap (m.begin(), m.end()); m.pop_back(); } PBT_CHECK (m.empty() ? q.empty() : q.top() == m.front(), "top"); break; }
	default: { std::vector<int> m; for (size_t i = 0; i < n; ++i) m.push_back (val(i)); uh::exact<int> b (m); PBT_CHECK (ustl::is_heap (b.begin(), b.end()) == std::is_heap (m.begin(), m.end()), "is_heap"); ustl::make_heap (b.begin(), b.end()); PBT_CHECK (std::is_heap (b.begin(), b.end()) && ustl::is_heap (b.begin(), b.end()), "make_heap of %zu elements", n);
	    if (n) { ustl::pop_heap (b.begin(), b.end()); PBT_CHECK (b[n-1] == *std::max_element (m.begin(), m.end()) && std::is_heap (b.begin(), b.end()-1), "pop_heap of %zu elements", n); b[n-1] = val (n); m.push_back (val(n)); ustl::push_heap (b.begin(), b.end()); PBT_CHECK (std::is_heap (b.begin(), b.end()), "push_heap"); m.erase (std::max_element (m.begin(), m.end())); }
	    if (n > 3) b[n/2] += 100001, m[std::find (m.begin(), m.end(), b[n/2]-100001)-m.begin()] += 100001; PBT_CHECK (ustl::is_heap (b.begin(), b.end()) == std::is_heap (b.begin(), b.end()), "is_heap of a damaged heap"); ustl::make_heap (b.begin(), b.end()); ustl::sort_heap (b.begin(), b.end()); std::sort (m.begin(), m.end()); PBT_CHECK (std::equal (m.begin(), m.end(), b.begin()), "sort_heap of %zu elements", n); }
    }
    s.nontrivial (n > 300);
}
