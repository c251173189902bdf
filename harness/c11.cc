// C11: non-modifying algorithms against their std counterparts.
#include "alg.h"
using ustl::reverse_iterator;

#define SAME(what, got, base, want) do { ptrdiff_t g_ = (got)-(base), w_ = (want); PBT_CHECK (g_ == w_, "%s gives position %td, expected %td in %s", what, g_, w_, show(v).c_str()); } while (0)

template <typename T> void find_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (60), pat = g.some<T> (5); Buf<T> a (v), p (pat); const T x = g.one<T>(); IsMod pr = ismod (s); EqMod eq = eqmod (s);
    const T *f = a.b(), *l = a.e(); auto at = [&](typename std::vector<T>::iterator i) { return i - v.begin(); };
    SAME ("find", ustl::find (f, l, x), f, at (std::find (v.begin(), v.end(), x)));
    SAME ("find_if", ustl::find_if (f, l, pr), f, at (std::find_if (v.begin(), v.end(), pr)));
    PBT_CHECK (ustl::count (f, l, x) == size_t(std::count (v.begin(), v.end(), x)), "count %zu", ustl::count (f, l, x));
    PBT_CHECK (ustl::count_if (f, l, pr) == size_t(std::count_if (v.begin(), v.end(), pr)), "count_if %zu", ustl::count_if (f, l, pr));
    SAME ("adjacent_find", ustl::adjacent_find (f, l), f, at (std::adjacent_find (v.begin(), v.end())));
    SAME ("adjacent_find with predicate", ustl::adjacent_find (f, l, eq), f, at (std::adjacent_find (v.begin(), v.end(), eq)));
    LtMod lt = ltmod (s); SAME ("adjacent_find with ordering", ustl::adjacent_find (f, l, lt), f, at (std::adjacent_find (v.begin(), v.end(), lt)));
    SAME ("find_first_of", ustl::find_first_of (f, l, p.b(), p.e()), f, at (std::find_first_of (v.begin(), v.end(), pat.begin(), pat.end())));
    SAME ("find_first_of with predicate", ustl::find_first_of (f, l, p.b(), p.e(), eq), f, at (std::find_first_of (v.begin(), v.end(), pat.begin(), pat.end(), eq)));
    // through reverse iterators
    typedef reverse_iterator<const T*> R; R rf (l), rl (f);
    SAME ("reverse find", ustl::find (rf, rl, x), rf, std::find (v.rbegin(), v.rend(), x) - v.rbegin());
    SAME ("reverse find_if", ustl::find_if (rf, rl, pr), rf, std::find_if (v.rbegin(), v.rend(), pr) - v.rbegin());
    SAME ("reverse adjacent_find", ustl::adjacent_find (rf, rl), rf, std::adjacent_find (v.rbegin(), v.rend()) - v.rbegin());
    // container forms
    ustl::vector<T> c (f, l); const ustl::vector<T>& cc = c;
    SAME ("find in container", ustl::find (cc, x), cc.begin(), at (std::find (v.begin(), v.end(), x))); SAME ("find in container", ustl::find (c, x), c.begin(), at (std::find (v.begin(), v.end(), x)));
    SAME ("find_if in container", ustl::find_if (cc, pr), cc.begin(), at (std::find_if (v.begin(), v.end(), pr))); SAME ("find_if in container", ustl::find_if (c, pr), c.begin(), at (std::find_if (v.begin(), v.end(), pr)));
    PBT_CHECK (ustl::count (cc, x) == size_t(std::count (v.begin(), v.end(), x)) && ustl::count_if (cc, pr) == size_t(std::count_if (v.begin(), v.end(), pr)), "count in container");
    // for_each visits in order, each once
    std::vector<int> seen; ustl::for_each (f, l, [&](const T& e) { seen.push_back (mk<T>::id(e)); }); PBT_CHECK (seen == ids (v), "for_each visits other elements");
    seen.clear(); ustl::for_each (cc, [&](const T& e) { seen.push_back (mk<T>::id(e)); }); PBT_CHECK (seen == ids (v), "for_each over a container visits other elements");
    s.nontrivial (v.size() > 2);
}
template <typename T> void compare_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (40), w = s.coin() ? v : g.some<T> (40); if (!w.empty() && s.coin()) w[s.below(w.size())] = g.one<T>();
    switch (s.below(4)) { case 0: w.resize (s.below(w.size()+1)); break; case 1: w.push_back (g.one<T>()); }
    EqMod eq = eqmod (s); LtMod lt = ltmod (s); Buf<T> a (v), b (w); const T *f = a.b(), *l = a.e(), *f2 = b.b(), *l2 = b.e();
    PBT_CHECK (ustl::lexicographical_compare (f, l, f2, l2) == std::lexicographical_compare (v.begin(), v.end(), w.begin(), w.end()), "lexicographical_compare %s %s", show(v).c_str(), show(w).c_str());
    PBT_CHECK (ustl::lexicographical_compare (f, l, f2, l2, lt) == std::lexicographical_compare (v.begin(), v.end(), w.begin(), w.end(), lt), "lexicographical_compare with ordering %s %s", show(v).c_str(), show(w).c_str());
    if (v.size() > w.size()) { std::swap (f, f2); std::swap (l, l2); std::swap (v, w); }	// second range at least as long
    auto e = std::mismatch (v.begin(), v.end(), w.begin()); auto r = ustl::mismatch (f, l, f2);
    SAME ("mismatch", r.first, f, e.first-v.begin()); SAME ("mismatch second", r.second, f2, e.second-w.begin());
    auto e2 = std::mismatch (v.begin(), v.end(), w.begin(), eq); auto r2 = ustl::mismatch (f, l, f2, eq);
    SAME ("mismatch with predicate", r2.first, f, e2.first-v.begin()); SAME ("mismatch with predicate, second", r2.second, f2, e2.second-w.begin());
    PBT_CHECK (ustl::equal (f, l, f2) == std::equal (v.begin(), v.end(), w.begin()), "equal %s %s", show(v).c_str(), show(w).c_str());
    PBT_CHECK (ustl::equal (f, l, f2, eq) == std::equal (v.begin(), v.end(), w.begin(), eq), "equal with predicate %s %s", show(v).c_str(), show(w).c_str());
    s.nontrivial (v.size() > 1 && w.size() > 1 && mk<T>::id(v[0]) == mk<T>::id(w[0]));
}
template <typename T> void search_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (50), pat; switch (s.below(4)) { case 0: pat = g.some<T> (5); break; default: pat = g.piece<T> (v); }
    Buf<T> a (v), p (pat); EqMod eq = eqmod (s); const T *f = a.b(), *l = a.e(); auto at = [&](typename std::vector<T>::iterator i) { return i - v.begin(); };
    note ("pattern %s", show(pat).c_str());
    SAME ("search", ustl::search (f, l, p.b(), p.e()), f, at (std::search (v.begin(), v.end(), pat.begin(), pat.end())));
    SAME ("search with predicate", ustl::search (f, l, p.b(), p.e(), eq), f, at (std::search (v.begin(), v.end(), pat.begin(), pat.end(), eq)));
    SAME ("find_end", ustl::find_end (f, l, p.b(), p.e()), f, at (std::find_end (v.begin(), v.end(), pat.begin(), pat.end())));
    SAME ("find_end with predicate", ustl::find_end (f, l, p.b(), p.e(), eq), f, at (std::find_end (v.begin(), v.end(), pat.begin(), pat.end(), eq)));
    size_t n = s.below(5); T x = v.empty() || s.coin() ? g.one<T>() : v[s.below(v.size())];
    SAME ("search_n", ustl::search_n (f, l, n, x), f, at (std::search_n (v.begin(), v.end(), n, x)));
    SAME ("search_n with predicate", ustl::search_n (f, l, n, x, eq), f, at (std::search_n (v.begin(), v.end(), n, x, eq)));
    typedef reverse_iterator<const T*> R; R rf (l), rl (f);
    SAME ("reverse search", ustl::search (rf, rl, p.b(), p.e()), rf, std::search (v.rbegin(), v.rend(), pat.begin(), pat.end()) - v.rbegin());
    SAME ("reverse find_end", ustl::find_end (rf, rl, p.b(), p.e()), rf, std::find_end (v.rbegin(), v.rend(), pat.begin(), pat.end()) - v.rbegin());
    SAME ("reverse search_n", ustl::search_n (rf, rl, n, x), rf, std::search_n (v.rbegin(), v.rend(), n, x) - v.rbegin());
    s.nontrivial (pat.size() > 1 && std::search (v.begin(), v.end(), pat.begin(), pat.end()) != v.end());
}
template <typename T> void bounds_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (80); LtMod lt = ltmod (s); const T x = g.one<T>();
    { std::stable_sort (v.begin(), v.end()); Buf<T> a (v); const T *f = a.b(), *l = a.e(); ustl::vector<T> c (f, l); const ustl::vector<T>& cc = c;
    ptrdiff_t lo = std::lower_bound (v.begin(), v.end(), x)-v.begin(), hi = std::upper_bound (v.begin(), v.end(), x)-v.begin();
    SAME ("lower_bound", ustl::lower_bound (f, l, x), f, lo); SAME ("upper_bound", ustl::upper_bound (f, l, x), f, hi);
    auto r = ustl::equal_range (f, l, x); SAME ("equal_range", r.first, f, lo); SAME ("equal_range", r.second, f, hi);
    PBT_CHECK (ustl::binary_search (f, l, x) == (lo != hi), "binary_search gives %d in %s for %d", lo == hi, show(v).c_str(), mk<T>::id(x));
    SAME ("lower_bound in container", ustl::lower_bound (cc, x), cc.begin(), lo); SAME ("upper_bound in container", ustl::upper_bound (cc, x), cc.begin(), hi); SAME ("lower_bound in container", ustl::lower_bound (c, x), c.begin(), lo); SAME ("upper_bound in container", ustl::upper_bound (c, x), c.begin(), hi);
    auto rc = ustl::equal_range (c, x); SAME ("equal_range in container", rc.first, c.begin(), lo); SAME ("equal_range in container", rc.second, c.begin(), hi); auto rcc = ustl::equal_range (cc, x); SAME ("equal_range in container", rcc.first, cc.begin(), lo); SAME ("equal_range in container", rcc.second, cc.begin(), hi);
    PBT_CHECK (ustl::binary_search (cc, x) == (lo != hi) && ustl::binary_search (c, x) == (lo != hi), "binary_search in container"); }
    { std::stable_sort (v.begin(), v.end(), lt); Buf<T> a (v); const T *f = a.b(), *l = a.e(); int k = mk<T>::key (x);
    ptrdiff_t lo = std::lower_bound (v.begin(), v.end(), x, lt)-v.begin(), hi = std::upper_bound (v.begin(), v.end(), x, lt)-v.begin();
    SAME ("lower_bound with ordering", ustl::lower_bound (f, l, x, lt), f, lo); SAME ("upper_bound with ordering", ustl::upper_bound (f, l, x, lt), f, hi);
    SAME ("lower_bound with key", ustl::lower_bound (f, l, k, lt), f, lo); SAME ("upper_bound with key", ustl::upper_bound (f, l, k, lt), f, hi);
    auto r = ustl::equal_range (f, l, x, lt); SAME ("equal_range with ordering", r.first, f, lo); SAME ("equal_range with ordering", r.second, f, hi);
    PBT_CHECK (ustl::binary_search (f, l, x, lt) == (lo != hi), "binary_search with ordering gives %d in %s for %d", lo == hi, show(v).c_str(), mk<T>::id(x)); }
    // partitioned ranges that are not sorted: bounds depend on the value only
    { std::stable_partition (v.begin(), v.end(), [&](const T& e) { return e < x; }); Buf<T> a (v); SAME ("lower_bound in a partitioned range", ustl::lower_bound ((const T*) a.b(), (const T*) a.e(), x), a.b(), std::lower_bound (v.begin(), v.end(), x)-v.begin()); }
    s.nontrivial (v.size() > 2);
}
template <typename T> void extremes_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (50); LtMod lt = ltmod (s); Buf<T> a (v); const T *f = a.b(), *l = a.e(); auto at = [&](typename std::vector<T>::iterator i) { return i - v.begin(); };
    SAME ("max_element", ustl::max_element (f, l), f, at (std::max_element (v.begin(), v.end()))); SAME ("min_element", ustl::min_element (f, l), f, at (std::min_element (v.begin(), v.end())));
    SAME ("max_element with ordering", ustl::max_element (f, l, lt), f, at (std::max_element (v.begin(), v.end(), lt))); SAME ("min_element with ordering", ustl::min_element (f, l, lt), f, at (std::min_element (v.begin(), v.end(), lt)));
    auto e = std::minmax_element (v.begin(), v.end()); auto r = ustl::minmax_element (f, l); SAME ("minmax_element first", r.first, f, at (e.first)); SAME ("minmax_element second", r.second, f, at (e.second));
    auto e2 = std::minmax_element (v.begin(), v.end(), lt); auto r2 = ustl::minmax_element (f, l, lt); SAME ("minmax_element with ordering first", r2.first, f, at (e2.first)); SAME ("minmax_element with ordering second", r2.second, f, at (e2.second));
    PBT_CHECK (ustl::is_sorted (f, l) == std::is_sorted (v.begin(), v.end()) && ustl::is_sorted (f, l, lt) == std::is_sorted (v.begin(), v.end(), lt), "is_sorted");
    T x = g.one<T>(), y = g.one<T>(), z = g.one<T>();
    auto id = [](const T& q) { return mk<T>::id (q); };
    { auto m = ustl::minmax (x, y); bool sw = y < x; PBT_CHECK (&m.first == (sw ? &y : &x) && &m.second == (sw ? &x : &y), "minmax(%d,%d) gives %d,%d", id(x), id(y), id(m.first), id(m.second)); }
    { const T &cx = x, &cy = y; auto m = ustl::minmax (cx, cy); bool sw = y < x; PBT_CHECK (&m.first == (sw ? &y : &x) && &m.second == (sw ? &x : &y), "minmax(%d,%d) gives %d,%d", id(x), id(y), id(m.first), id(m.second)); }
    { auto m = ustl::minmax (x, y, lt); bool sw = lt (y,x); PBT_CHECK (&m.first == (sw ? &y : &x) && &m.second == (sw ? &x : &y), "minmax with ordering (%d,%d) gives %d,%d", id(x), id(y), id(m.first), id(m.second)); }
    { auto m = ustl::minmax ({x,y,z}); auto w = std::minmax ({x,y,z}); PBT_CHECK (mk<T>::key(m.first) == mk<T>::key(w.first) && mk<T>::key(m.second) == mk<T>::key(w.second), "minmax of a list"); }
    { auto m = ustl::minmax ({x,y,z}, lt); auto w = std::minmax ({x,y,z}, lt); PBT_CHECK (!lt (m.first, w.first) && !lt (w.first, m.first) && !lt (m.second, w.second) && !lt (w.second, m.second), "minmax of a list with ordering"); }
    PBT_CHECK (mk<T>::key (ustl::min (x, y)) == mk<T>::key (std::min (x, y)), "min(%d,%d) gives %d", id(x), id(y), id(ustl::min (x,y)));
    PBT_CHECK (mk<T>::key (ustl::max (x, y)) == mk<T>::key (std::max (x, y)), "max(%d,%d) gives %d", id(x), id(y), id(ustl::max (x,y)));
    if (!(z < y)) PBT_CHECK (id (ustl::clamp (x, y, z)) == id (x < y ? y : z < x ? z : x), "clamp(%d,%d,%d)", id(x), id(y), id(z));
    if (!lt (z, y)) PBT_CHECK (id (ustl::clamp (x, y, z, lt)) == id (lt(x,y) ? y : lt(z,x) ? z : x), "clamp with ordering (%d,%d,%d)", id(x), id(y), id(z));
    s.nontrivial (v.size() > 2);
}
template <typename T> void includes_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (40), w; LtMod lt = ltmod (s);
    if (s.coin()) for (auto& x : v) { if (s.chance(1,3)) w.push_back (x); } else w = g.some<T> (6);
    if (s.chance(1,3)) w.push_back (g.one<T>());
    std::stable_sort (v.begin(), v.end()); std::stable_sort (w.begin(), w.end());
    { Buf<T> a (v), b (w); PBT_CHECK (ustl::includes ((const T*)a.b(), (const T*)a.e(), (const T*)b.b(), (const T*)b.e()) == std::includes (v.begin(), v.end(), w.begin(), w.end()), "includes %s %s", show(v).c_str(), show(w).c_str()); }
    std::stable_sort (v.begin(), v.end(), lt); std::stable_sort (w.begin(), w.end(), lt);
    { Buf<T> a (v), b (w); PBT_CHECK (ustl::includes ((const T*)a.b(), (const T*)a.e(), (const T*)b.b(), (const T*)b.e(), lt) == std::includes (v.begin(), v.end(), w.begin(), w.end(), lt), "includes with ordering %s %s", show(v).c_str(), show(w).c_str()); }
    s.nontrivial (w.size() > 1 && v.size() > w.size());
}
#define EACH(fn) switch (s.below(4)) { case 0: fn<int> (s); break; case 1: fn<Kt> (s); break; case 2: fn<Ks> (s); break; default: fn<signed char> (s); }
PBT_TEST(find,2)	{ EACH(find_case) }
PBT_TEST(compare,1)	{ EACH(compare_case) }
PBT_TEST(search,3)	{ EACH(search_case) }
PBT_TEST(bounds,2)	{ EACH(bounds_case) }
PBT_TEST(extremes,2)	{ EACH(extremes_case) }
PBT_TEST(includes,1)	{ EACH(includes_case) }
/// One algorithm on a long range: positions beyond 16 bits.
template <typename T> void wide_case (Src& s)
{
    Wide g (s); size_t n = Wide::length (s, 140000); std::vector<T> v = g.template many<T> (n); const T x = mk<T>::of (-30, 1); size_t at = n ? (s.coin() ? n-1-s.below(n < 4 ? n : 4) : s.below(n)) : 0; bool put = n && s.coin();
    unsigned alg = s.below(20); IsMod pr = ismod (s); LtMod lt = ltmod (s); static const int hit = -5000;
    auto cut = [&](const std::vector<T>& q) { std::vector<T> r (q); return r; };
    note ("algorithm %u, %zu elements, %zu", alg, n, at);
    std::vector<T> sorted (v); if (alg >= 12 && alg <= 15) { std::stable_sort (sorted.begin(), sorted.end()); v = sorted; }
    else if (alg < 8 && put && !std::is_same<T,signed char>::value) v[at] = mk<T>::of (hit, 1);
    const T h = std::is_same<T,signed char>::value ? x : mk<T>::of (hit, 1);
    Buf<T> a (v); const T *f = a.b(), *l = a.e(); auto pos = [&](typename std::vector<T>::iterator i) { return i - v.begin(); }; auto ish = [&](const T& q) { return q == h; };
    typedef reverse_iterator<const T*> R; R rf (l), rl (f);
    switch (alg) {
	case 0: SAME ("find", ustl::find (f, l, h), f, pos (std::find (v.begin(), v.end(), h))); break;
	case 1: SAME ("find_if", ustl::find_if (f, l, ish), f, pos (std::find_if (v.begin(), v.end(), ish))); break;
	case 2: PBT_CHECK (ustl::count (f, l, h) == size_t(std::count (v.begin(), v.end(), h)), "count"); PBT_CHECK (n == 0 || ustl::count (f, l, v[0]) == size_t(std::count (v.begin(), v.end(), v[0])), "count of the first"); break;
	case 3: PBT_CHECK (ustl::count_if (f, l, pr) == size_t(std::count_if (v.begin(), v.end(), pr)), "count_if"); break;
	case 4: { auto same = [&](const T& p, const T& q) { return q == h || p == h; }; SAME ("adjacent_find", ustl::adjacent_find (f, l, same), f, pos (std::adjacent_find (v.begin(), v.end(), same))); break; }
	case 5: { std::vector<T> p (1, h); Buf<T> b (p); SAME ("find_first_of", ustl::find_first_of (f, l, b.b(), b.e()), f, pos (std::find_first_of (v.begin(), v.end(), p.begin(), p.end()))); break; }
	case 6: { size_t c = n ? s.below(n-at < 6 ? n-at+1 : 7) : 0; if (s.chance (1,4)) { at = n ? s.below (n/3+1) : 0; c = n-at-s.below (n ? n/4+1 : 1); } std::vector<T> p (v.begin()+at, v.begin()+at+c); Buf<T> b (p); SAME ("search", ustl::search (f, l, b.b(), b.e()), f, pos (std::search (v.begin(), v.end(), p.begin(), p.end()))); break; }
	case 7: { size_t c = n ? s.below(n-at < 6 ? n-at+1 : 7) : 0; if (s.chance (1,4)) { at = n ? s.below (n/3+1) : 0; c = n-at-s.below (n ? n/4+1 : 1); } std::vector<T> p (v.begin()+at, v.begin()+at+c); Buf<T> b (p); SAME ("find_end", ustl::find_end (f, l, b.b(), b.e()), f, pos (std::find_end (v.begin(), v.end(), p.begin(), p.end()))); break; }
	case 8: { std::vector<T> w = cut (v); if (n && s.coin()) w[at] = h; Buf<T> b (w); PBT_CHECK (ustl::equal (f, l, (const T*) b.b()) == (v == w), "equal"); SAME ("mismatch", ustl::mismatch (f, l, (const T*) b.b()).first, f, pos (std::mismatch (v.begin(), v.end(), w.begin()).first)); break; }
	case 9: { std::vector<T> w = cut (v); if (n && s.coin()) w[at] = h; else w.resize (at); Buf<T> b (w); PBT_CHECK (ustl::lexicographical_compare (f, l, (const T*) b.b(), (const T*) b.e()) == std::lexicographical_compare (v.begin(), v.end(), w.begin(), w.end()), "lexicographical_compare"); PBT_CHECK (ustl::lexicographical_compare ((const T*) b.b(), (const T*) b.e(), f, l) == std::lexicographical_compare (w.begin(), w.end(), v.begin(), v.end()), "lexicographical_compare"); break; }
	case 10: SAME ("max_element", ustl::max_element (f, l), f, pos (std::max_element (v.begin(), v.end()))); SAME ("min_element", ustl::min_element (f, l, lt), f, pos (std::min_element (v.begin(), v.end(), lt))); break;
	case 11: { auto e = std::minmax_element (v.begin(), v.end()); auto r = ustl::minmax_element (f, l); SAME ("minmax_element first", r.first, f, pos (e.first)); SAME ("minmax_element second", r.second, f, pos (e.second)); break; }
	case 12: { const T k = n ? v[at] : h; SAME ("lower_bound", ustl::lower_bound (f, l, k), f, pos (std::lower_bound (v.begin(), v.end(), k))); SAME ("upper_bound", ustl::upper_bound (f, l, k), f, pos (std::upper_bound (v.begin(), v.end(), k))); break; }
	case 13: { const T k = n ? v[at] : h; auto r = ustl::equal_range (f, l, k); SAME ("equal_range", r.first, f, pos (std::lower_bound (v.begin(), v.end(), k))); SAME ("equal_range", r.second, f, pos (std::upper_bound (v.begin(), v.end(), k))); PBT_CHECK (ustl::binary_search (f, l, k) == (n > 0), "binary_search"); break; }
	case 14: { std::vector<T> w; for (size_t i = 0; i < n; i += 1+pbt::mix(i+at)%7) w.push_back (v[i]); if (s.chance(1,3) && n) w.back() = mk<T>::of (g.span, 0); Buf<T> b (w); PBT_CHECK (ustl::includes (f, l, (const T*) b.b(), (const T*) b.e()) == std::includes (v.begin(), v.end(), w.begin(), w.end()), "includes"); break; }
	case 15: { bool sw = n && s.coin(); Buf<T> b (v); if (sw) b.b()[at] = mk<T>::of (-60, 1); PBT_CHECK (ustl::is_sorted (b.b(), b.e()) == std::is_sorted (b.b(), b.e()), "is_sorted"); break; }
	case 16: SAME ("reverse find", ustl::find (rf, rl, v.empty() ? h : v[at]), rf, std::find (v.rbegin(), v.rend(), v.empty() ? h : v[at]) - v.rbegin()); break;
	case 17: { uint64_t sum = 0, z = 0; ustl::for_each (f, l, [&](const T& q) { sum = sum*31+mk<T>::id(q); }); for (auto& q : v) z = z*31+mk<T>::id(q); PBT_CHECK (sum == z, "for_each over %zu", n); break; }
	case 18: { size_t c = s.below(4); const T k = n ? v[at] : h; SAME ("search_n", ustl::search_n (f, l, c, k), f, pos (std::search_n (v.begin(), v.end(), c, k))); if (n > 70000) { std::vector<T> w (n, k); Buf<T> b (w); c = n - s.below(300); v = w; SAME ("search_n of many", ustl::search_n ((const T*) b.b(), (const T*) b.e(), c, k), b.b(), 0); } break; }
	default: PBT_CHECK (ustl::distance (f, l) == ptrdiff_t(n) && ustl::distance (rf, rl) == ptrdiff_t(n), "distance"); { const T* p = f; ustl::advance (p, ptrdiff_t(at)); PBT_CHECK (p == f+at, "advance"); } break;
    }
    s.nontrivial (n > 100);
}
PBT_TEST(wide,0.04) { switch (s.below(3)) { case 0: wide_case<int> (s); break; case 1: wide_case<Kt> (s); break; default: wide_case<signed char> (s); } }

/// Ranges of more than 2 and 4 billion elements: zeros, with an ordered end.
PBT_TEST(far,0.5)
{
    uh::Far m (s); if (!m) { label ("no memory to map"); return; }
    typedef unsigned char T; const size_t n = m.n, k = 1+s.below (200); T* b = (T*) m.p; T* e = b+n; std::vector<T> tl (k); unsigned span = 1+s.below (40); for (auto& c : tl) c = T(1+s.below (span)); std::sort (tl.begin(), tl.end()); std::copy (tl.begin(), tl.end(), e-k); const std::vector<T>& v (tl);
    const T x = s.coin() ? tl[s.below (k)] : T(1+s.below (span+2)); const T *f = b, *l = e; note ("%zu elements, %zu of them not 0, looking for %u", n, k, x);
    size_t lo = n-k+(std::lower_bound (tl.begin(), tl.end(), x)-tl.begin()), hi = n-k+(std::upper_bound (tl.begin(), tl.end(), x)-tl.begin()), at = n-k+s.below (k); auto gt = [](T p, T q) { return p < q; };
    SAME ("lower_bound", ustl::lower_bound (f, l, x), f, ptrdiff_t(lo)); SAME ("upper_bound", ustl::upper_bound (f, l, x), f, ptrdiff_t(hi)); SAME ("upper_bound of 0", ustl::upper_bound (f, l, T(0)), f, ptrdiff_t(n-k)); SAME ("lower_bound with ordering", ustl::lower_bound (f, l, x, gt), f, ptrdiff_t(lo)); SAME ("upper_bound with ordering", ustl::upper_bound (f, l, x, gt), f, ptrdiff_t(hi));
    { auto r = ustl::equal_range (f, l, x); SAME ("equal_range", r.first, f, ptrdiff_t(lo)); SAME ("equal_range", r.second, f, ptrdiff_t(hi)); }
    PBT_CHECK (ustl::binary_search (f, l, x) == (lo != hi) && ustl::binary_search (f, l, T(0)) && ustl::binary_search (f, l, x, gt) == (lo != hi), "binary_search");
    PBT_CHECK (ustl::distance (f, l) == ptrdiff_t(n) && ustl::abs_distance (l, f) == ptrdiff_t(n) && ustl::distance ((const void*) f, (const void*) l) == ptrdiff_t(n), "distance is %td", ustl::distance (f, l));
    { const T* p = f; ustl::advance (p, ptrdiff_t(at)); PBT_CHECK (p == f+at && ustl::advance_ptr (f, ptrdiff_t(at)) == f+at, "advance by %zu", at); ustl::advance (p, -ptrdiff_t(at)); PBT_CHECK (p == f, "advance back by %zu", at); }
    typedef reverse_iterator<const T*> R; R rf (l), rl (f); PBT_CHECK (ustl::distance (rf, rl) == ptrdiff_t(n) && (rf+at).base() == l-at && size_t(rl-rf) == n && *(rl-1) == 0 && rf[n-1-at] == *(f+at), "reverse iterators"); SAME ("reverse find", ustl::find (rf, rl, x > tl.back() ? tl.front() : lo != hi ? x : tl[0]), rf, std::find (tl.rbegin(), tl.rend(), x > tl.back() ? tl.front() : lo != hi ? x : tl[0])-tl.rbegin());
    // and a container over all of it
    { ustl::memlink c; c.link (b, n); PBT_CHECK (c.size() == n && c.end() == c.begin()+n && c.iat (at) == c.begin()+at && c.readable_size() == n, "a link to %zu bytes has %zu", n, size_t(c.size())); ustl::cmemlink d (c), g; g.swap (d); PBT_CHECK (g.size() == n && d.size() == 0 && g.begin() == c.begin(), "links swapped");
      ustl::memblock h; h.link (b, n); PBT_CHECK (h.size() == n && h.is_linked() && h.capacity() == 0, "a block linked to %zu bytes has %zu", n, size_t(h.size())); ustl::memblock j; j.swap (h); PBT_CHECK (j.size() == n && !h.size(), "blocks swapped"); }
    s.nontrivial (lo != hi && k > 2);
}
