// C01: ustl::vector against std::vector, over generated operation histories.
#include "uh.h"

struct P3  { uint8_t b[3];  bool operator== (const P3& o) const { return !memcmp(b,o.b,3); } bool operator< (const P3& o) const { return memcmp(b,o.b,3) < 0; } };
struct P12 { uint32_t b[3]; bool operator== (const P12& o) const { return !memcmp(b,o.b,12); } bool operator< (const P12& o) const { return memcmp(b,o.b,12) < 0; } };
struct P40 { uint64_t b[5]; bool operator== (const P40& o) const { return !memcmp(b,o.b,40); } bool operator< (const P40& o) const { return memcmp(b,o.b,40) < 0; } };

// Value maker: U is the element of the tested vector, M of the model.
template <typename U> struct Mk { typedef U M; static U make (uint64_t x) { return U(x); } static M model (uint64_t x) { return M(x); } static bool eq (const U& a, const M& b) { return a == b; } static std::string show (const U& v) { return pbt::fmt ("%llu", (unsigned long long) v); } };
template <typename B> struct MkPod { typedef B M; static B make (uint64_t x) { B r; memset (&r, 0, sizeof r); uint8_t* p = (uint8_t*) &r; for (size_t i = 0; i < sizeof r; ++i) p[i] = x ? uint8_t(x*31+i*7+(x>>8)) : 0; return r; }
    static M model (uint64_t x) { return make(x); } static bool eq (const B& a, const B& b) { return a == b; } static std::string show (const B& v) { return pbt::hex (&v, sizeof v); } };
template <> struct Mk<P3> : MkPod<P3> {};
template <> struct Mk<P12> : MkPod<P12> {};
template <> struct Mk<P40> : MkPod<P40> {};
template <> struct Mk<double> { typedef double M; static double make (uint64_t x) { return double(int64_t(x%2000))/4; } static double model (uint64_t x) { return make(x); } static bool eq (double a, double b) { return a == b; } static std::string show (double v) { return pbt::fmt ("%g", v); } };
template <> struct Mk<ustl::string> {
    typedef std::string M;
    static std::string model (uint64_t x) { std::string r; if (!x) return r; r.assign (x % 23, char('a'+x%26)); r += pbt::fmt ("%x", unsigned(x & 0xffff)); return r; }
    static ustl::string make (uint64_t x) { std::string m = model(x); return ustl::string (m.data(), m.size()); }
    static bool eq (const ustl::string& a, const std::string& b) { return a.size() == b.size() && !memcmp (a.c_str(), b.data(), b.size()) && !a.c_str()[a.size()]; }
    static std::string show (const ustl::string& v) { return pbt::esc (v.c_str(), v.size()); }
};
// Elements that are vectors themselves
typedef ustl::vector<uint16_t> VV;
template <> struct Mk<VV> {
    typedef std::vector<uint16_t> M;
    static M model (uint64_t x) { M r; for (uint64_t i = 0; i < x%6; ++i) r.push_back (uint16_t(x*7+i)); return r; }
    static VV make (uint64_t x) { VV r; M m = model(x); for (auto i : m) r.push_back (i); return r; }
    static bool eq (const VV& a, const M& b) { return a.size() == b.size() && std::equal (b.begin(), b.end(), a.begin()); }
    static std::string show (const VV& v) { return pbt::fmt ("vec%zu", v.size()); }
};

template <typename T>
struct Machine {
    typedef Mk<T> K;
    typedef typename K::M M;
    typedef ustl::vector<T> V;
    typedef std::vector<M> MV;
    Src& s;
    std::unique_ptr<V> v[2];
    MV m[2];
    size_t resv[2];	// capacity known to be available
    const T* base[2];	// and where it was
    unsigned grows, mids;

    explicit Machine (Src& src) : s(src), grows(0), mids(0) { for (int i = 0; i < 2; ++i) { v[i].reset (new V); resv[i] = 0; base[i] = nullptr; } }

    uint64_t val (void)			{ return s.below(4) ? s.below(1000) : s.bits64(); }
    std::vector<uint64_t> vals (size_t mx) { size_t n = s.blen (mx); std::vector<uint64_t> r (n); if (n <= 64) for (auto& x : r) x = val(); else { uint64_t x0 = val(); for (size_t k = 0; k < n; ++k) r[k] = x0 + k*7 + k/251; } return r; }
    /// The number of elements to erase at p: one, any, or those that leave few
    size_t span (size_t mx) { switch (s.below(4)) { case 0: return std::min<size_t> (1, mx); case 1: return mx - std::min<size_t> (mx, s.below(4)); case 2: if (s.scale_mode()) return std::min (mx, s.blen (mx)); default: return s.below(mx+1); } }
    size_t place (size_t n) { switch (s.scale_mode() ? s.below(4) : 3) { case 0: return 0; case 1: return n; case 2: return std::min (n, s.blen (n)); default: return s.below(n+1); } }

    void check (int i, const char* op) {
	const V& a = *v[i]; const MV& b = m[i];
	PBT_CHECK (a.size() == b.size(), "after %s: size %zu, expected %zu", op, a.size(), b.size());
	PBT_CHECK (a.empty() == b.empty(), "after %s: empty", op);
	PBT_CHECK (a.capacity() >= a.size(), "after %s: capacity %zu < size %zu", op, a.capacity(), a.size());
	for (size_t k = 0; k < b.size(); ++k)
	    PBT_CHECK (K::eq (a[k], b[k]), "after %s: element %zu of %zu is %s", op, k, b.size(), K::show(a[k]).c_str());
	PBT_CHECK (size_t(a.end()-a.begin()) == b.size(), "after %s: end-begin", op);
	if (resv[i] && base[i] && b.size() <= resv[i]) {
	    PBT_CHECK (a.begin() == base[i], "after %s: reallocated although %zu elements were reserved and size is %zu", op, resv[i], b.size());
	    PBT_CHECK (a.capacity() >= resv[i], "after %s: capacity %zu below the %zu reserved", op, a.capacity(), resv[i]);
	}
	if (resv[i] && b.size() > resv[i]) resv[i] = 0;
	if (!b.empty()) {
	    PBT_CHECK (K::eq (a.front(), b.front()) && K::eq (a.back(), b.back()), "after %s: front/back", op);
	    PBT_CHECK (K::eq (*a.rbegin(), b.back()), "after %s: rbegin", op);
	    PBT_CHECK (K::eq (*(a.rend()-1), b.front()), "after %s: rend", op);
	    PBT_CHECK (a.data() == a.begin() && a.cbegin() == a.begin() && a.iat(b.size()) == a.end() && &a.at(b.size()-1) == a.end()-1, "after %s: access forms", op);
	}
    }
    void pos (int i, const char* op, typename V::iterator it, size_t want) {
	PBT_CHECK (it == v[i]->begin()+want, "%s returned position %td, expected %zu", op, it - v[i]->begin(), want);
    }
    void forget (int i) { resv[i] = 0; base[i] = nullptr; }
    void mid (size_t at, size_t n, int i) { if (n && at < m[i].size()) ++mids; }

    void op (void) {
	const int i = s.below(2); V& a = *v[i]; MV& b = m[i];
	const size_t oc = a.capacity(), n = b.size();
	const char* nm = "?";
	switch (s.pick ({10,4,8,8,8,4,8,6,4,4,4,3,3,3,3,2,2,2,2,2,4,4,3,3,2,5})) {
	    case 0: { nm = "push_back"; uint64_t x = val(); a.push_back (K::make(x)); b.push_back (K::model(x)); note ("v%d.push_back(%s)", i, K::show(a.back()).c_str()); break; }
	    case 1: { nm = "push_back(lvalue)"; uint64_t x = val(); T t (K::make(x)); const T& ct = t; note ("v%d.push_back(const %s&)", i, K::show(t).c_str()); a.push_back (ct); b.push_back (K::model(x)); PBT_CHECK (K::eq (t, K::model(x)), "push_back changed its argument"); break; }
	    case 2: { nm = "insert"; size_t p = place(n); uint64_t x = val(); T t (K::make(x)); const T& ct = t; note ("v%d.insert(%zu,%s) size %zu", i, p, K::show(t).c_str(), n); mid (p,1,i); auto r = a.insert (a.begin()+p, ct); b.insert (b.begin()+p, K::model(x)); pos (i, nm, r, p); break; }
	    case 3: { nm = "insert n"; size_t p = place(n), c = s.blen(20); uint64_t x = val(); T t (K::make(x)); note ("v%d.insert(%zu,%zu,%s) size %zu", i, p, c, K::show(t).c_str(), n); mid (p,c,i); auto r = a.insert (a.begin()+p, c, t); b.insert (b.begin()+p, c, K::model(x)); pos (i, nm, r, p); break; }
	    case 4: { nm = "insert range"; size_t p = place(n); auto xs = vals(24); V src; MV ms; for (auto x : xs) { src.push_back (K::make(x)); ms.push_back (K::model(x)); } note ("v%d.insert(%zu,range of %zu) size %zu", i, p, xs.size(), n); mid (p,xs.size(),i);
		const V& cs = src; auto r = a.insert (a.begin()+p, cs.begin(), cs.end()); b.insert (b.begin()+p, ms.begin(), ms.end()); pos (i, nm, r, p); break; }
	    case 5: { nm = "insert(T&&)/emplace"; size_t p = place(n); uint64_t x = val(); note ("v%d.insert/emplace(%zu, move %llu) size %zu", i, p, (unsigned long long) x, n); mid (p,1,i); auto r = s.coin() ? a.insert (a.begin()+p, K::make(x)) : a.emplace (a.begin()+p, K::make(x)); b.insert (b.begin()+p, K::model(x)); pos (i, nm, r, p); break; }
	    case 6: { nm = "erase"; if (!n) return; size_t p = s.below(n), c = span (n-p); note ("v%d.erase(%zu,%zu) size %zu", i, p, c, n); mid (p+c,c,i); auto r = c == 1 && s.coin() ? a.erase (a.begin()+p) : a.erase (a.begin()+p, c); b.erase (b.begin()+p, b.begin()+p+c); pos (i, nm, r, p); break; }
	    case 7: { nm = "erase range"; size_t p = place(n), c = span (n-p); note ("v%d.erase(%zu..%zu) size %zu", i, p, p+c, n); mid (p+c,c,i); auto r = a.erase (a.begin()+p, a.begin()+p+c); b.erase (b.begin()+p, b.begin()+p+c); pos (i, nm, r, p); break; }
	    case 8: { nm = "resize"; size_t c = s.blen(60); note ("v%d.resize(%zu) size %zu", i, c, n); a.resize (c); b.resize (c, K::model(0)); break; }
	    case 9: { nm = "resize v"; size_t c = s.blen(60); uint64_t x = val(); T t (K::make(x)); note ("v%d.resize(%zu,%s) size %zu", i, c, K::show(t).c_str(), n); a.resize (c, t); b.resize (c, K::model(x)); break; }
	    case 10: { nm = "reserve"; size_t c = s.blen(100); bool ex = s.coin(); note ("v%d.reserve(%zu,%d)", i, c, ex); a.reserve (c, ex); if (c) PBT_CHECK (a.capacity() >= c, "reserve(%zu) left capacity %zu", c, a.capacity());
		if (a.capacity() >= c && c > 0) { resv[i] = a.capacity(); base[i] = a.begin(); } break; }
	    case 11: { nm = "shrink_to_fit"; note ("v%d.shrink_to_fit()", i); forget(i); if (!n) return; a.shrink_to_fit(); PBT_CHECK (a.capacity() >= n, "capacity"); break; }
	    case 12: { nm = "assign range"; auto xs = vals(30); V src; b.clear(); for (auto x : xs) { src.push_back (K::make(x)); b.push_back (K::model(x)); } note ("v%d.assign(range of %zu)", i, xs.size()); a.assign (src.begin(), src.end()); break; }
	    case 13: { nm = "assign n"; size_t c = s.blen(30); uint64_t x = val(); T t (K::make(x)); note ("v%d.assign(%zu,%s)", i, c, K::show(t).c_str()); a.assign (c, t); b.assign (c, K::model(x)); break; }
	    case 14: { nm = "copy assignment"; const int o = s.chance (1,5) ? i : 1-i; note ("v%d = v%d", i, o); if (s.coin()) a = *v[o]; else a.assign (v[o]->cbegin(), v[o]->cend()); if (o != i) b = m[o]; break; }
	    case 15: { nm = "move assignment"; note ("v%d = move(v%d)", i, 1-i); a = ustl::move(*v[1-i]); b = std::move(m[1-i]); forget (0); forget (1); if (s.coin()) v[1-i]->clear(); else { V e; *v[1-i] = e; } m[1-i].clear(); break; }
	    case 16: { nm = "swap"; note ("swap"); if (s.chance (1,6)) { if (s.coin()) a.swap (a); else ustl::swap (a, a); break; } if (s.coin()) a.swap (*v[1-i]); else ustl::swap (*v[0], *v[1]); m[0].swap (m[1]); std::swap (resv[0], resv[1]); std::swap (base[0], base[1]); break; }
	    case 17: { nm = "copy construction"; note ("v%d = V(v%d)", i, 1-i); v[i].reset (new V (*v[1-i])); b = m[1-i]; forget(i); break; }
	    case 18: { nm = "move construction"; note ("v%d = V(move(v%d))", i, 1-i); v[i].reset (new V (ustl::move(*v[1-i]))); b = m[1-i]; m[1-i].clear(); forget (0); forget (1); check (1-i, "moved-from"); break; }
	    case 19: { nm = "construction"; forget(i); size_t c = s.blen(40); uint64_t x = val(); unsigned k = s.below(4); note ("v%d = V(form %u, %zu, %llu)", i, k, c, (unsigned long long) x);
		if (k == 0) { v[i].reset (new V (c)); b.assign (c, K::model(0)); }
		else if (k == 1) { T t (K::make(x)); v[i].reset (new V (c, t)); b.assign (c, K::model(x)); }
		else if (k == 2) { v[i].reset (new V {K::make(x), K::make(x+1), K::make(x+2)}); b = MV {K::model(x), K::model(x+1), K::model(x+2)}; }
		else { const V& o = *v[1-i]; size_t p = s.below(m[1-i].size()+1), q = p+s.below(m[1-i].size()-p+1); v[i].reset (new V (o.begin()+p, o.begin()+q)); b = MV (m[1-i].begin()+p, m[1-i].begin()+q); }
		break; }
	    case 20: { nm = "pop_back"; if (!n) return; note ("v%d.pop_back()", i); a.pop_back(); b.pop_back(); break; }
	    case 21: { nm = "emplace_back"; uint64_t x = val(); note ("v%d.emplace_back(%llu)", i, (unsigned long long) x); a.emplace_back (K::make(x)); b.push_back (K::model(x)); break; }
	    case 22: { nm = "set element"; if (!n) return; size_t p = s.below(n); uint64_t x = val(); note ("v%d[%zu]=%llu", i, p, (unsigned long long) x); switch (s.below(3)) { case 0: a[p] = K::make(x); break; case 1: a.at(p) = K::make(x); break; default: *(a.rbegin()+(n-1-p)) = K::make(x); } b[p] = K::model(x); break; }
	    case 23: { nm = "clear/deallocate"; note ("v%d.clear()", i); if (s.coin()) a.clear(); else { a.deallocate(); forget(i); } b.clear(); break; }
	    case 24: { nm = "insert list"; size_t p = place(n); uint64_t x = val(); mid (p,3,i); note ("v%d.insert(%zu,{3 of %llu})", i, p, (unsigned long long) x); auto r = a.insert (a.begin()+p, {K::make(x), K::make(x+9), K::make(x+1)}); b.insert (b.begin()+p, {K::model(x), K::model(x+9), K::model(x+1)}); pos (i, nm, r, p); break; }
	    case 25: { nm = "own element"; if (!n) return; const size_t k = s.below (n), p = place (n), c = 1+s.blen (9); const T& own = s.coin() ? a[k] : *(a.cbegin()+k); const auto y = MV (b.begin()+k, b.begin()+k+1); const unsigned f = s.below (8); static const char* const fn[] = { "push_back", "insert", "insert n", "resize", "push_back moved", "emplace_back", "emplace", "insert moved" };
		note ("v%d.%s(%zu,%zu,v%d[%zu]) size %zu", i, fn[f], p, c, i, k, n); typename V::iterator r = a.begin();
		switch (f) {
		    case 0: a.push_back (own); b.push_back (y[0]); break;
		    case 1: r = a.insert (a.begin()+p, own); b.insert (b.begin()+p, y[0]); pos (i, nm, r, p); break;
		    case 2: r = a.insert (a.begin()+p, c, own); b.insert (b.begin()+p, c, y[0]); pos (i, nm, r, p); break;
		    case 3: a.resize (n+c, own); b.resize (n+c, y[0]); break;
		    case 5: a.emplace_back (own); b.push_back (y[0]); break;
		    case 6: r = a.emplace (a.begin()+p, own); b.insert (b.begin()+p, y[0]); pos (i, nm, r, p); break;
		    case 7: { uint64_t x = val(); r = a.insert (a.begin()+p, ustl::move (a[k])); b.insert (b.begin()+p, y[0]); pos (i, nm, r, p); const size_t kk = k < p ? k : k+1; a[kk] = K::make (x); b[kk] = K::model (x); break; }
		    default: { uint64_t x = val(); a.push_back (ustl::move (a[k])); b.push_back (y[0]); a[k] = K::make (x); b[k] = K::model (x); }
		} break; }
	}
	s.step();
	if (v[i]->capacity() > oc) ++grows;
	check (0, nm); check (1, nm);
	// equality agrees with the models
	bool e = (*v[0] == *v[1]);
	PBT_CHECK (e == (m[0] == m[1]), "after %s: == gives %d", nm, e);
	if (s.below(6) == 0) { V c (*v[i]); PBT_CHECK (c == *v[i], "a copy is not equal to its source after %s", nm); PBT_CHECK (!(c != *v[i]), "!= on equal after %s", nm); }
    }
    void run (void) {
	s.scaled (sizeof(T) <= 4 ? 70000 : 600, sizeof(T) <= 4 ? 20 : 8, 3);
	if (s.scale_mode() == 2) for (int i = 0; i < 2; ++i) { auto xs = vals (10); note ("v%d of %zu", i, xs.size()); for (auto x : xs) { v[i]->push_back (K::make(x)); m[i].push_back (K::model(x)); } }
	unsigned n = 1 + s.hist (40);
	for (unsigned k = 0; k < n; ++k) op();
	if (grows) label ("grew");
	if (mids) label ("middle insert or erase");
	s.nontrivial (mids >= 1 && grows >= 1);
    }
};

#define VT(name,T,w) PBT_TEST(name,w) { Machine<T> m (s); m.run(); }
VT(vec_u8, uint8_t, 3)
VT(vec_u16, uint16_t, 2)
VT(vec_u32, uint32_t, 2)
VT(vec_u64, uint64_t, 2)
VT(vec_double, double, 1)
VT(vec_pod3, P3, 2)
VT(vec_pod12, P12, 1)
VT(vec_pod40, P40, 1)
VT(vec_string, ustl::string, 2)
VT(vec_vector, VV, 1)

// Lexicographic order of vectors is that of the standard.
PBT_TEST(vec_order,1)
{
    ustl::vector<int> a, b; std::vector<int> x, y;
    size_t n = s.len(8), k = s.len(8);
    for (size_t i = 0; i < n; ++i) { int v = s.range(-2,2); a.push_back (v); x.push_back (v); }
    for (size_t i = 0; i < k; ++i) { int v = s.coin() && i < n ? x[i] : int(s.range(-2,2)); b.push_back (v); y.push_back (v); }
    PBT_CHECK ((a == b) == (x == y) && (a != b) == (x != y), "equality of int vectors of %zu and %zu", n, k);
    s.nontrivial (n && k);
}

// Large vectors: growth across many reallocations, wide moves.
PBT_TEST(vec_large,1)
{
    ustl::vector<uint32_t> a; std::vector<uint32_t> m;
    size_t n = 200 + s.below(4000);
    uint32_t x = s.below(1000);
    for (size_t i = 0; i < n; ++i) { a.push_back (x+i*7); m.push_back (x+i*7); }
    for (unsigned k = 0, e = 1+s.below(12); k < e; ++k) {
	size_t p = s.below(m.size()+1), c = s.below(300);
	if (s.coin()) { a.insert (a.begin()+p, c, uint32_t(k)); m.insert (m.begin()+p, c, uint32_t(k)); }
	else { c = std::min (c, m.size()-p); a.erase (a.begin()+p, c); m.erase (m.begin()+p, m.begin()+p+c); }
	note ("size %zu at %zu count %zu", m.size(), p, c);
	PBT_CHECK (a.size() == m.size() && std::equal (m.begin(), m.end(), a.begin()), "large vector differs after op at %zu of %zu elements", p, c);
    }
    s.nontrivial();
}
