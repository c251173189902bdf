// C12: modifying, sorting, set and numeric algorithms against std.
#include "alg.h"
static size_t cmin (size_t a, size_t b) { return a < b ? a : b; }
using ustl::reverse_iterator;

#define EQV(what, buf, want) do { auto g_ = (buf).id(); auto w_ = ids (want); if (g_ != w_) { std::vector<T> gv_ = (buf).v(); PBT_CHECK (g_ == w_, "%s gives %s, expected %s", what, show(gv_).c_str(), show(want).c_str()); } } while (0)
#define AT(what, got, base, want) do { ptrdiff_t g_ = (got)-(base), w_ = ptrdiff_t(want); PBT_CHECK (g_ == w_, "%s returns position %td, expected %td", what, g_, w_); } while (0)
template <typename T> std::vector<int> sids (const std::vector<T>& v) { auto r = ids (v); std::sort (r.begin(), r.end()); return r; }

template <typename T> void copy_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (60); size_t n = v.size(); std::vector<T> d = g.many<T> (n+s.below(3)); LtMod lt = ltmod (s); IsMod pr = ismod (s); (void) lt;
    { Buf<T> a (v), o (d); auto r = ustl::copy ((const T*)a.b(), (const T*)a.e(), o.b()); AT ("copy", r, o.b(), n); std::vector<T> w (d); std::copy (v.begin(), v.end(), w.begin()); EQV ("copy", o, w); EQV ("copy source", a, v); }
    { Buf<T> a (v), o (d); auto r = ustl::copy (a.b(), a.e(), o.b()); AT ("copy", r, o.b(), n); std::vector<T> w (d); std::copy (v.begin(), v.end(), w.begin()); EQV ("copy of mutable", o, w); }
    { Buf<T> a (v), o (d); size_t c = s.below(n+1); auto r = ustl::copy_n ((const T*)a.b(), c, o.b()); AT ("copy_n", r, o.b(), c); std::vector<T> w (d); std::copy_n (v.begin(), c, w.begin()); EQV ("copy_n", o, w); }
    { Buf<T> a (v), o (d); auto r = ustl::copy_backward ((const T*)a.b(), (const T*)a.e(), o.e()); AT ("copy_backward", r, o.b(), d.size()-n); std::vector<T> w (d); std::copy_backward (v.begin(), v.end(), w.end()); EQV ("copy_backward", o, w); }
    if (n) { // overlapping, in the direction each supports
	size_t f = s.below(n), c = s.below(n-f+1), to = s.below(f+1), back = f+c+s.below(n-f-c+1);
	{ Buf<T> a (v); ustl::copy (a.b()+f, a.b()+f+c, a.b()+to); std::vector<T> w (v); std::copy (v.begin()+f, v.begin()+f+c, w.begin()+to); EQV ("overlapping copy", a, w); }
	{ Buf<T> a (v); ustl::copy_backward (a.b()+f, a.b()+f+c, a.b()+back); std::vector<T> w (v); std::copy_backward (v.begin()+f, v.begin()+f+c, w.begin()+back); EQV ("overlapping copy_backward", a, w); }
    }
    { Buf<T> a (v), o (d); auto r = ustl::copy_if (a.b(), a.e(), o.b(), pr); std::vector<T> w (d); auto e = std::copy_if (v.begin(), v.end(), w.begin(), pr); AT ("copy_if", r, o.b(), e-w.begin()); EQV ("copy_if", o, w); }
    const T x = g.one<T>();
    { Buf<T> o (d); size_t f = s.below(d.size()+1), c = s.below(d.size()-f+1); ustl::fill (o.b()+f, o.b()+f+c, x); std::vector<T> w (d); std::fill (w.begin()+f, w.begin()+f+c, x); EQV ("fill", o, w); auto r = ustl::fill_n (o.b(), f, x); AT ("fill_n", r, o.b(), f); std::fill_n (w.begin(), f, x); EQV ("fill_n", o, w); }
    { Buf<T> o (d); int k = 0; auto gen = [&]{ return mk<T>::of (k++%50, k); }; ustl::generate (o.b(), o.e(), gen); std::vector<T> w; for (int j = 0; w.size() < d.size();) { T t = mk<T>::of (j%50, j+1); ++j; w.push_back (t); } PBT_CHECK (k == int(d.size()), "generate called %d times", k);
      for (size_t q = 0; q < w.size(); ++q) PBT_CHECK (mk<T>::key (o.b()[q]) == mk<T>::key (w[q]), "generate element %zu", q); size_t c = s.below(d.size()+1); k = 7; auto r = ustl::generate_n (o.b(), c, gen); AT ("generate_n", r, o.b(), c); PBT_CHECK (k == int(7+c), "generate_n called %d times for %zu", k-7, c); for (size_t q = 0; q < c; ++q) PBT_CHECK (mk<T>::key (o.b()[q]) == mk<T>::key (mk<T>::of ((7+int(q))%50,0)), "generate_n element %zu", q); }
    { ustl::vector<T> c; ustl::copy (ustl::vector<T> (v.data(), v.data()+n), ustl::back_inserter (c)); Buf<T> b (std::vector<T> (c.begin(), c.end())); EQV ("copy of a container to back_inserter", b, v); ustl::fill (c, x); std::vector<T> w (n, x); Buf<T> b2 (std::vector<T> (c.begin(), c.end())); EQV ("fill of a container", b2, w); }
    s.nontrivial (n > 2);
}
template <typename T> void change_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (50), v2 = g.many<T> (v.size()); size_t n = v.size(); const T x = g.one<T>(), y = g.one<T>(); IsMod pr = ismod (s); EqMod eq = eqmod (s);
    std::vector<T> d = g.many<T> (n+1);
    auto up = [](const T& q) { return mk<T>::of (mk<T>::key(q)/2+1, 7); }; auto sum = [](const T& p, const T& q) { return mk<T>::of ((mk<T>::key(p)-mk<T>::key(q))/2, 9); };
    { Buf<T> a (v), o (d); auto r = ustl::transform (a.b(), a.e(), o.b(), up); std::vector<T> w (d); std::transform (v.begin(), v.end(), w.begin(), up); AT ("transform", r, o.b(), n); EQV ("transform", o, w); }
    { Buf<T> a (v), b (v2), o (d); auto r = ustl::transform (a.b(), a.e(), b.b(), o.b(), sum); std::vector<T> w (d); std::transform (v.begin(), v.end(), v2.begin(), w.begin(), sum); AT ("binary transform", r, o.b(), n); EQV ("binary transform", o, w); }
    { Buf<T> a (v); ustl::replace (a.b(), a.e(), x, y); std::vector<T> w (v); std::replace (w.begin(), w.end(), x, y); EQV ("replace", a, w); }
    { Buf<T> a (v); ustl::replace_if (a.b(), a.e(), pr, y); std::vector<T> w (v); std::replace_if (w.begin(), w.end(), pr, y); EQV ("replace_if", a, w); }
    { Buf<T> a (v), o (d); auto r = ustl::replace_copy (a.b(), a.e(), o.b(), x, y); std::vector<T> w (d); std::replace_copy (v.begin(), v.end(), w.begin(), x, y); AT ("replace_copy", r, o.b(), n); EQV ("replace_copy", o, w); }
    { Buf<T> a (v), o (d); auto r = ustl::replace_copy_if (a.b(), a.e(), o.b(), pr, y); std::vector<T> w (d); std::replace_copy_if (v.begin(), v.end(), w.begin(), pr, y); AT ("replace_copy_if", r, o.b(), n); EQV ("replace_copy_if", o, w); }
    { Buf<T> a (v); std::vector<T> w (v); auto r = ustl::remove (a.b(), a.e(), x); auto e = std::remove (w.begin(), w.end(), x); AT ("remove", r, a.b(), e-w.begin()); std::vector<T> k (w.begin(), e); Buf<T> b (std::vector<T> (a.b(), r)); EQV ("remove", b, k); }
    { Buf<T> a (v); std::vector<T> w (v); auto r = ustl::remove_if (a.b(), a.e(), pr); auto e = std::remove_if (w.begin(), w.end(), pr); AT ("remove_if", r, a.b(), e-w.begin()); std::vector<T> k (w.begin(), e); Buf<T> b (std::vector<T> (a.b(), r)); EQV ("remove_if", b, k); }
    { Buf<T> a (v), o (d); auto r = ustl::remove_copy (a.b(), a.e(), o.b(), x); std::vector<T> w (d); auto e = std::remove_copy (v.begin(), v.end(), w.begin(), x); AT ("remove_copy", r, o.b(), e-w.begin()); EQV ("remove_copy", o, w); }
    { Buf<T> a (v), o (d); auto r = ustl::remove_copy_if (a.b(), a.e(), o.b(), pr); std::vector<T> w (d); auto e = std::remove_copy_if (v.begin(), v.end(), w.begin(), pr); AT ("remove_copy_if", r, o.b(), e-w.begin()); EQV ("remove_copy_if", o, w); }
    { // removal of listed positions: a sorted list of iterators, possibly repeated
	Buf<T> a (v), o (d); std::vector<const T*> li; for (size_t q = 0; q < n; ++q) if (s.chance(1,3)) { li.push_back (a.b()+q); if (s.chance(1,5)) li.push_back (a.b()+q); }
	auto r = ustl::remove_copy ((const T*)a.b(), (const T*)a.e(), o.b(), li.begin(), li.end()); std::vector<T> w; for (size_t q = 0; q < n; ++q) if (!std::count (li.begin(), li.end(), a.b()+q)) w.push_back (v[q]);
	AT ("remove_copy of a list", r, o.b(), w.size()); Buf<T> b (std::vector<T> (o.b(), r)); EQV ("remove_copy of a list", b, w); }
    { Buf<T> a (v); std::vector<T> w (v); auto r = ustl::unique (a.b(), a.e()); auto e = std::unique (w.begin(), w.end()); AT ("unique", r, a.b(), e-w.begin()); std::vector<T> k (w.begin(), e); Buf<T> b (std::vector<T> (a.b(), r)); EQV ("unique", b, k); }
    { Buf<T> a (v); std::vector<T> w (v); auto r = ustl::unique (a.b(), a.e(), eq); auto e = std::unique (w.begin(), w.end(), eq); AT ("unique with predicate", r, a.b(), e-w.begin()); std::vector<T> k (w.begin(), e); Buf<T> b (std::vector<T> (a.b(), r)); EQV ("unique with predicate", b, k); }
    { Buf<T> a (v), o (d); auto r = ustl::unique_copy (a.b(), a.e(), o.b()); std::vector<T> w (d); auto e = std::unique_copy (v.begin(), v.end(), w.begin()); AT ("unique_copy", r, o.b(), e-w.begin()); EQV ("unique_copy", o, w); }
    { Buf<T> a (v), o (d); auto r = ustl::unique_copy (a.b(), a.e(), o.b(), eq); std::vector<T> w (d); auto e = std::unique_copy (v.begin(), v.end(), w.begin(), eq); AT ("unique_copy with predicate", r, o.b(), e-w.begin()); EQV ("unique_copy with predicate", o, w); }
    { Buf<T> a (v), b (v2); auto r = ustl::swap_ranges (a.b(), a.e(), b.b()); AT ("swap_ranges", r, b.b(), n); EQV ("swap_ranges", a, v2); EQV ("swap_ranges", b, v); }
    // container forms
    { ustl::vector<T> c (v.data(), v.data()+n); std::vector<T> w (v); auto chk = [&](const char* nm) { Buf<T> b (std::vector<T> (c.begin(), c.end())); EQV (nm, b, w); };
	switch (s.below(9)) { case 0: ustl::remove (c, x); w.erase (std::remove (w.begin(), w.end(), x), w.end()); chk ("remove in container"); break; case 1: ustl::remove_if (c, pr); w.erase (std::remove_if (w.begin(), w.end(), pr), w.end()); chk ("remove_if in container"); break;
	  case 2: ustl::unique (c); w.erase (std::unique (w.begin(), w.end()), w.end()); chk ("unique in container"); break; case 3: ustl::unique (c, eq); w.erase (std::unique (w.begin(), w.end(), eq), w.end()); chk ("unique in container with predicate"); break;
	  case 4: ustl::replace (c, x, y); std::replace (w.begin(), w.end(), x, y); chk ("replace in container"); break; case 5: ustl::replace_if (c, pr, y); std::replace_if (w.begin(), w.end(), pr, y); chk ("replace_if in container"); break;
	  case 6: ustl::transform (c, up); std::transform (w.begin(), w.end(), w.begin(), up); chk ("transform of container"); break;
	  case 7: { std::vector<T*> li; std::vector<T> k; for (size_t q = 0; q < n; ++q) if (s.chance(1,3)) li.push_back (c.begin()+q); else k.push_back (v[q]); w = k; ustl::remove (c, li.begin(), li.end()); chk ("remove of a list in container"); break; }
	  default: { ustl::vector<T> e; const ustl::vector<T>& cc = c; std::vector<T> k; if (s.coin()) { ustl::replace_copy (cc, ustl::back_inserter (e), x, y); std::replace_copy (v.begin(), v.end(), std::back_inserter (k), x, y); } else { ustl::remove_copy (cc, ustl::back_inserter (e), x); std::remove_copy (v.begin(), v.end(), std::back_inserter (k), x); } Buf<T> b (std::vector<T> (e.begin(), e.end())); EQV ("copying form on container", b, k); } } }
    s.nontrivial (n > 3);
}
template <typename T> void order_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (60); size_t n = v.size(), m = s.below(n+1); IsMod pr = ismod (s); std::vector<T> d = g.many<T> (n+1);
    typedef reverse_iterator<T*> R;
    { Buf<T> a (v); std::vector<T> w (v); ustl::reverse (a.b(), a.e()); std::reverse (w.begin(), w.end()); EQV ("reverse", a, w); ustl::reverse (R (a.e()), R (a.b())); EQV ("reverse through reverse iterators", a, v); }
    { Buf<T> a (v), o (d); std::vector<T> w (d); auto r = ustl::reverse_copy (a.b(), a.e(), o.b()); std::reverse_copy (v.begin(), v.end(), w.begin()); AT ("reverse_copy", r, o.b(), n); EQV ("reverse_copy", o, w); }
    { Buf<T> a (v); std::vector<T> w (v); auto r = ustl::rotate (a.b(), a.b()+m, a.e()); std::rotate (w.begin(), w.begin()+m, w.end()); EQV ("rotate", a, w); AT ("rotate", r, a.b(), n-m); }
    { Buf<T> a (v); std::vector<T> w (v); auto r = ustl::rotate (R (a.e()), R (a.e()-m), R (a.b())); auto e = std::rotate (w.rbegin(), w.rbegin()+m, w.rend()); EQV ("rotate through reverse iterators", a, w); AT ("rotate through reverse iterators", r.base(), a.b(), e.base()-w.begin()); }
    { Buf<T> a (v), o (d); std::vector<T> w (d); auto r = ustl::rotate_copy (a.b(), a.b()+m, a.e(), o.b()); std::rotate_copy (v.begin(), v.begin()+m, v.end(), w.begin()); AT ("rotate_copy", r, o.b(), n); EQV ("rotate_copy", o, w); }
    if (n) { ustl::vector<T> c (v.data(), v.data()+n); long k = s.range (-long(n-1), n-1); std::vector<T> w (v); if (k > 0) std::rotate (w.begin(), w.end()-k, w.end()); else std::rotate (w.begin(), w.begin()-k, w.end()); ustl::rotate (c, k); Buf<T> b (std::vector<T> (c.begin(), c.end())); EQV ("rotate of container", b, w); ustl::reverse (c); std::reverse (w.begin(), w.end()); Buf<T> b2 (std::vector<T> (c.begin(), c.end())); EQV ("reverse of container", b2, w); }
    { Buf<T> a (v); std::vector<T> w (v); auto r = ustl::stable_partition (a.b(), a.e(), pr); auto e = std::stable_partition (w.begin(), w.end(), pr); AT ("stable_partition", r, a.b(), e-w.begin()); EQV ("stable_partition", a, w); }
    { Buf<T> a (v); auto r = ustl::partition (a.b(), a.e(), pr); size_t c = std::count_if (v.begin(), v.end(), pr); AT ("partition", r, a.b(), c); PBT_CHECK (std::all_of (a.b(), r, pr) && std::none_of (r, a.e(), pr), "partition mixed the parts"); PBT_CHECK (sids (a.v()) == sids (v), "partition changed the elements"); }
    { Buf<T> a (v); std::vector<T> w (v); auto r = ustl::stable_partition (R (a.e()), R (a.b()), pr); auto e = std::stable_partition (w.rbegin(), w.rend(), pr); AT ("reverse stable_partition", r.base(), a.b(), e.base()-w.begin()); EQV ("reverse stable_partition", a, w); }
    { srand (s.below(1000)); Buf<T> a (v); ustl::random_shuffle (a.b(), a.e()); PBT_CHECK (sids (a.v()) == sids (v), "random_shuffle changed the elements"); }
    s.nontrivial (n > 2 && m && m < n);
}
template <typename T> void sort_case (Src& s)
{
    Gen g (s); std::vector<T> v = s.chance(1,20) ? g.many<T> (600) : g.some<T> (80); size_t n = v.size(), m = s.below(n+1); LtMod lt = ltmod (s); typedef ustl::less<T> L; typedef ustl::greater<T> G;
    std::vector<T> w (v), wl (v); std::stable_sort (w.begin(), w.end()); std::stable_sort (wl.begin(), wl.end(), lt);
    auto gt = [](const T& p, const T& q) { return q < p; };
    { Buf<T> a (v); ustl::sort (a.b(), a.e()); auto r = a.v(); PBT_CHECK (std::is_sorted (r.begin(), r.end()) && sids (r) == sids (v), "sort gives %s", show(r).c_str()); }
    { Buf<T> a (v); ustl::sort (a.b(), a.e(), G()); auto r = a.v(); PBT_CHECK (std::is_sorted (r.begin(), r.end(), gt) && sids (r) == sids (v), "sort with greater gives %s", show(r).c_str()); }
    { Buf<T> a (v); ustl::stable_sort (a.b(), a.e()); EQV ("stable_sort", a, w); }
    { Buf<T> a (v); ustl::stable_sort (a.b(), a.e(), lt); EQV ("stable_sort with ordering", a, wl); }
    { Buf<T> a (v); typedef reverse_iterator<T*> R; std::vector<T> r (v); ustl::stable_sort (R (a.e()), R (a.b()), lt); std::stable_sort (r.rbegin(), r.rend(), lt); EQV ("stable_sort through reverse iterators", a, r); }
    auto check_partial = [&](const char* nm, std::vector<T> r, size_t k, bool ord) { PBT_CHECK (sids (r) == sids (v), "%s changed the elements", nm); for (size_t q = 0; q < k; ++q) { if (ord) PBT_CHECK (!lt (r[q], wl[q]) && !lt (wl[q], r[q]), "%s: element %zu is %d, expected an equal of %d", nm, q, mk<T>::id(r[q]), mk<T>::id(wl[q])); else PBT_CHECK (r[q] == w[q], "%s: element %zu is %d, expected an equal of %d", nm, q, mk<T>::id(r[q]), mk<T>::id(w[q])); } };
    { Buf<T> a (v); ustl::partial_sort (a.b(), a.b()+m, a.e()); check_partial ("partial_sort", a.v(), m, false); }
    { Buf<T> a (v); ustl::partial_sort (a.b(), a.b()+m, a.e(), lt); check_partial ("partial_sort with ordering", a.v(), m, true); }
    { Buf<T> a (v); ustl::nth_element (a.b(), a.b()+m, a.e()); auto r = a.v(); PBT_CHECK (sids (r) == sids (v), "nth_element changed the elements"); if (m < n) { PBT_CHECK (r[m] == w[m], "nth_element %zu is %d, expected %d", m, mk<T>::id(r[m]), mk<T>::id(w[m])); for (size_t q = 0; q < n; ++q) PBT_CHECK (q < m ? !(r[m] < r[q]) : !(r[q] < r[m]), "nth_element: element %zu on the wrong side", q); } }
    { Buf<T> a (v); ustl::nth_element (a.b(), a.b()+m, a.e(), G()); auto r = a.v(); PBT_CHECK (sids (r) == sids (v), "nth_element changed the elements"); if (m < n) for (size_t q = 0; q < n; ++q) PBT_CHECK (q < m ? !(r[q] < r[m]) : !(r[m] < r[q]), "nth_element with greater: element %zu on the wrong side", q); }
    { size_t k = s.below(n+3); std::vector<T> d = g.many<T> (k); { Buf<T> a (v), o (d); auto r = ustl::partial_sort_copy (a.b(), a.e(), o.b(), o.e()); size_t c = k < n ? k : n; AT ("partial_sort_copy", r, o.b(), c); for (size_t q = 0; q < k; ++q) PBT_CHECK (q < c ? o.b()[q] == w[q] : mk<T>::id (o.b()[q]) == mk<T>::id (d[q]), "partial_sort_copy: element %zu is %d", q, mk<T>::id (o.b()[q])); }
      { Buf<T> a (v), o (d); auto r = ustl::partial_sort_copy (a.b(), a.e(), o.b(), o.e(), lt); size_t c = k < n ? k : n; AT ("partial_sort_copy with ordering", r, o.b(), c); for (size_t q = 0; q < k; ++q) PBT_CHECK (q < c ? !lt (o.b()[q], wl[q]) && !lt (wl[q], o.b()[q]) : mk<T>::id (o.b()[q]) == mk<T>::id (d[q]), "partial_sort_copy with ordering: element %zu is %d", q, mk<T>::id (o.b()[q]));
	std::vector<int> all = sids (v); for (size_t q = 0; q < c; ++q) { auto f = std::find (all.begin(), all.end(), mk<T>::id (o.b()[q])); PBT_CHECK (f != all.end(), "partial_sort_copy: element %zu is not from the source", q); all.erase (f); } } }
    { ustl::vector<T> c (v.data(), v.data()+n); switch (s.below(4)) { case 0: ustl::sort (c); break; case 1: ustl::stable_sort (c); break; case 2: ustl::sort (c, L()); break; default: ustl::stable_sort (c, L()); } PBT_CHECK (std::is_sorted (c.begin(), c.end()), "sort of container"); PBT_CHECK (sids (std::vector<T> (c.begin(), c.end())) == sids (v), "sort of container changed the elements"); }
    s.nontrivial (n > 4);
}
template <typename T> void set_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.some<T> (40), w = g.some<T> (40); LtMod lt = ltmod (s); if (s.coin()) for (auto& x : v) if (s.chance(1,2)) w.push_back (mk<T>::of (mk<T>::key(x), ++g.tag%1000));
    std::vector<T> d = g.many<T> (v.size()+w.size());
    for (int ord = 0; ord < 2; ++ord) {
	if (ord) { std::stable_sort (v.begin(), v.end(), lt); std::stable_sort (w.begin(), w.end(), lt); } else { std::stable_sort (v.begin(), v.end()); std::stable_sort (w.begin(), w.end()); }
	Buf<T> a (v), b (w);
#define SETOP(fn) { Buf<T> o (d); std::vector<T> e (d); auto r = ord ? ustl::fn (a.b(), a.e(), b.b(), b.e(), o.b(), lt) : ustl::fn (a.b(), a.e(), b.b(), b.e(), o.b()); auto x = ord ? std::fn (v.begin(), v.end(), w.begin(), w.end(), e.begin(), lt) : std::fn (v.begin(), v.end(), w.begin(), w.end(), e.begin()); note ("%s %s", show(v).c_str(), show(w).c_str()); AT (#fn, r, o.b(), x-e.begin()); EQV (#fn, o, e); \
	    ustl::vector<T> i; if (ord) ustl::fn (a.b(), a.e(), b.b(), b.e(), ustl::back_inserter (i), lt); else ustl::fn (a.b(), a.e(), b.b(), b.e(), ustl::back_inserter (i)); std::vector<T> k (e.begin(), x); Buf<T> bi (std::vector<T> (i.begin(), i.end())); EQV (#fn " to back_inserter", bi, k); \
	    i.clear(); if (ord) ustl::fn (a.b(), a.e(), b.b(), b.e(), ustl::inserter (i, i.begin()), lt); else ustl::fn (a.b(), a.e(), b.b(), b.e(), ustl::inserter (i, i.begin())); Buf<T> bj (std::vector<T> (i.begin(), i.end())); EQV (#fn " to inserter", bj, k); }
	SETOP(set_union) SETOP(set_intersection) SETOP(set_difference) SETOP(set_symmetric_difference)
	if (!ord) {
	    Buf<T> o (d); std::vector<T> e (d); auto r = ustl::merge (a.b(), a.e(), b.b(), b.e(), o.b()); std::merge (v.begin(), v.end(), w.begin(), w.end(), e.begin()); AT ("merge", r, o.b(), d.size()); EQV ("merge", o, e);
	    std::vector<T> c (v); c.insert (c.end(), w.begin(), w.end()); Buf<T> i (c); std::inplace_merge (c.begin(), c.begin()+v.size(), c.end()); ustl::inplace_merge (i.b(), i.b()+v.size(), i.e()); EQV ("inplace_merge", i, c); }
    }
    s.nontrivial (v.size() > 1 && w.size() > 1);
}
template <typename T> void perm_case (Src& s)
{
    Gen g (s); std::vector<T> v = g.many<T> (s.below(8)); LtMod lt = ltmod (s); Buf<T> a (v), b (v), c (v), d (v); std::vector<T> wa (v), wb (v), wc (v), wd (v);
    bool up = s.coin(); if (up) { std::sort (wa.begin(), wa.end()); std::sort (a.b(), a.e()); }
    for (unsigned k = 0; k < 6; ++k) {
	bool r = ustl::next_permutation (a.b(), a.e()), e = std::next_permutation (wa.begin(), wa.end()); PBT_CHECK (r == e, "next_permutation returns %d", r); EQV ("next_permutation", a, wa);
	r = ustl::prev_permutation (b.b(), b.e()), e = std::prev_permutation (wb.begin(), wb.end()); PBT_CHECK (r == e, "prev_permutation returns %d", r); EQV ("prev_permutation", b, wb);
	r = ustl::next_permutation (c.b(), c.e(), lt), e = std::next_permutation (wc.begin(), wc.end(), lt); PBT_CHECK (r == e, "next_permutation with ordering returns %d", r); EQV ("next_permutation with ordering", c, wc);
	r = ustl::prev_permutation (d.b(), d.e(), lt), e = std::prev_permutation (wd.begin(), wd.end(), lt); PBT_CHECK (r == e, "prev_permutation with ordering returns %d", r); EQV ("prev_permutation with ordering", d, wd);
    }
    s.nontrivial (v.size() > 2);
}
//{{{ numeric
template <typename T> std::string nshow (const std::vector<T>& v) { std::string r; for (auto& x : v) r += pbt::fmt (" %g", double(x)); return r; }
template <typename T> void numeric_case (Src& s)
{
    // small values: exact in every type used, without overflow
    std::vector<T> v (s.len(24)), w; for (auto& x : v) x = T(s.below(9)); w = v; for (auto& x : w) x = T(s.below(9)); size_t n = v.size(); std::vector<T> d (n+1, T(5));
    struct NBuf { size_t n; uh::exact<T> e; explicit NBuf (const std::vector<T>& q) : n(q.size()), e(q) {} T* b (void) { return e.begin(); } T* end (void) { return e.end(); } std::vector<T> v (void) { return std::vector<T> (b(), end()); } };
    NBuf a (v), b (w); const T *f = a.b(), *l = a.end();
    auto op = [](T p, T q) { return T(2*p-q); }; auto op2 = [](T p, T q) { return T(p+3*q); };
    auto wop = [](double p, T q) { return p*0.5-q; };
    PBT_CHECK (ustl::accumulate (f, l, 3.0) == std::accumulate (v.begin(), v.end(), 3.0), "accumulate"); PBT_CHECK (ustl::accumulate (f, l, 1.0, wop) == std::accumulate (v.begin(), v.end(), 1.0, wop), "accumulate with operation");
    PBT_CHECK (ustl::accumulate (f, l, T(1)) == std::accumulate (v.begin(), v.end(), T(1)), "accumulate");
    PBT_CHECK (ustl::inner_product (f, l, (const T*) b.b(), 7.0) == std::inner_product (v.begin(), v.end(), w.begin(), 7.0), "inner_product");
    auto dsum = [](double p, double q) { return p-2*q; };
    PBT_CHECK (ustl::inner_product (f, l, (const T*) b.b(), 7.0, dsum, op) == std::inner_product (v.begin(), v.end(), w.begin(), 7.0, dsum, op), "inner_product with operations");
    { NBuf o (d); T x = T(s.below(60)); ustl::iota (o.b(), o.end(), x); std::vector<T> e (d); std::iota (e.begin(), e.end(), x); PBT_CHECK (o.v() == e, "iota"); }
#define NUM(fn,...) { NBuf o (d); std::vector<T> e (d); auto r = ustl::fn (f, l, o.b() __VA_ARGS__); auto x = std::fn (v.begin(), v.end(), e.begin() __VA_ARGS__); PBT_CHECK (o.v() == e, #fn #__VA_ARGS__ " gives%s, expected%s", nshow (o.v()).c_str(), nshow (e).c_str()); PBT_CHECK (r-o.b() == x-e.begin(), #fn " returns position %td, expected %td", r-o.b(), x-e.begin()); \
    NBuf i (v); std::vector<T> ie (v); auto ir = ustl::fn (i.b(), i.end(), i.b() __VA_ARGS__); std::fn (ie.begin(), ie.end(), ie.begin() __VA_ARGS__); PBT_CHECK (i.v() == ie && ir == i.end(), "in-place " #fn #__VA_ARGS__ " gives%s, expected%s", nshow (i.v()).c_str(), nshow (ie).c_str()); }
#define COMMA ,
    NUM(partial_sum,) NUM(adjacent_difference,) NUM(partial_sum,COMMA op2) NUM(adjacent_difference,COMMA op)
    s.nontrivial (n > 2);
}
template <typename T, typename M> static T wpower (T x, uint64_t n, M mul) { T r (1); while (n) { if (n & 1) r = mul (r, x); x = mul (x, x); n >>= 1; } return r; }
PBT_TEST(power,1)
{
    unsigned n = s.bits64(); if (s.coin()) n %= 20; else if (s.coin()) n %= 5000; uint64_t x = s.bits64(), e;
    auto mul64 = [](uint64_t p, uint64_t q) { return p*q; }; e = wpower (x, n, mul64);
    PBT_CHECK (ustl::power (x, n) == e, "power(%lu,%u) gives %lu, expected %lu", x, n, ustl::power (x, n), e);
    { uint32_t y = x, w = uint32_t(e); PBT_CHECK (ustl::power (y, n) == w, "power(%u,%u) of 32 bits gives %u, expected %u", y, n, ustl::power (y, n), w); }
    double fx = double(s.below(5))-2, fe = 1; unsigned fn = n%20; for (unsigned i = 0; i < fn; ++i) fe *= fx; PBT_CHECK (ustl::power (fx, fn) == fe, "power(%g,%u) gives %g", fx, fn, ustl::power (fx, fn));
    PBT_CHECK (ustl::power (1.0, n) == 1.0 && ustl::power (-1.0, n) == (n%2 ? -1.0 : 1.0), "power(-1,%u) gives %g", n, ustl::power (-1.0, n));
    const uint64_t M = 1000003; auto mul = [=](uint64_t p, uint64_t q) { return p*q%M; }; uint64_t y = x%M; e = wpower (y, n, mul); PBT_CHECK (ustl::power (y, n, mul) == e, "power(%lu,%u) mod %lu gives %lu, expected %lu", y, n, M, ustl::power (y, n, mul), e);
    if (n) { auto add = [](uint64_t p, uint64_t q) { return p+q; }; PBT_CHECK (ustl::power (x, n, add) == x*n, "%u-fold sum of %lu gives %lu", n, x, ustl::power (x, n, add)); }
    s.nontrivial (n > 2);
}
/// One algorithm on a long range: sizes beyond 16 bits.
template <typename T> void wide_case (Src& s)
{
    unsigned alg = s.below(41); bool quad = alg >= 28 && alg < 33, nlogn = alg >= 24 && alg < 33;
    Wide g (s); size_t n = Wide::length (s, quad ? 1500 : nlogn ? 20000 : 140000), m = s.below(4) ? s.below(n+1) : s.coin() ? n/2 : n - cmin (n, s.below(4)); const T x = mk<T>::of (int(s.below(g.span))-g.span/3, 1), y = mk<T>::of (-7, 2); IsMod pr = ismod (s); LtMod lt = ltmod (s); EqMod eq = eqmod (s);
    std::vector<T> v = g.template many<T> (n), d = g.template many<T> (n+1), w (d), k; Buf<T> a (v), o (d); const T *f = a.b(), *l = a.e(); typename std::vector<T>::iterator e;
    note ("algorithm %u, %zu elements, %zu", alg, n, m);
    typedef reverse_iterator<T*> R; typedef reverse_iterator<const T*> CR;
    auto head = [](const T* p, const T* q) { return std::vector<T> (p, q); };
#define OUT(nm,got,want) { auto r_ = got; auto e_ = want; AT (nm, r_, o.b(), e_-w.begin()); EQV (nm, o, w); }
#define IN(nm,got,want) { auto r_ = got; auto e_ = want; AT (nm, r_, a.b(), e_-v.begin()); Buf<T> h_ (head (a.b(), r_)); std::vector<T> k_ (v.begin(), e_); EQV (nm, h_, k_); }
    switch (alg) {
	case 0: ustl::reverse (a.b(), a.e()); std::reverse (v.begin(), v.end()); EQV ("reverse", a, v); break;
	case 1: ustl::reverse (R (a.e()), R (a.b())); std::reverse (v.begin(), v.end()); EQV ("reverse through reverse iterators", a, v); break;
	case 2: OUT ("reverse_copy", ustl::reverse_copy (f, l, o.b()), std::reverse_copy (v.begin(), v.end(), w.begin())) break;
	case 3: { auto r = ustl::rotate (a.b(), a.b()+m, a.e()); std::rotate (v.begin(), v.begin()+m, v.end()); EQV ("rotate", a, v); AT ("rotate", r, a.b(), n-m); break; }
	case 4: { auto r = ustl::rotate (R (a.e()), R (a.e()-m), R (a.b())); auto q = std::rotate (v.rbegin(), v.rbegin()+m, v.rend()); EQV ("rotate through reverse iterators", a, v); AT ("rotate", r.base(), a.b(), q.base()-v.begin()); break; }
	case 5: OUT ("rotate_copy", ustl::rotate_copy (f, f+m, l, o.b()), std::rotate_copy (v.begin(), v.begin()+m, v.end(), w.begin())) break;
	case 6: OUT ("copy", ustl::copy (f, l, o.b()), std::copy (v.begin(), v.end(), w.begin())) break;
	case 7: OUT ("copy from reverse iterators", ustl::copy (CR (l), CR (f), o.b()), std::copy (v.rbegin(), v.rend(), w.begin())) break;
	case 8: OUT ("copy_n", ustl::copy_n (f, m, o.b()), std::copy_n (v.begin(), m, w.begin())) break;
	case 9: OUT ("copy_backward", ustl::copy_backward (f, l, o.e()), std::copy_backward (v.begin(), v.end(), w.end())) break;
	case 10: OUT ("copy_if", ustl::copy_if (f, l, o.b(), pr), std::copy_if (v.begin(), v.end(), w.begin(), pr)) break;
	case 11: ustl::fill (o.b()+m, o.e(), x); std::fill (w.begin()+m, w.end(), x); EQV ("fill", o, w); break;
	case 12: OUT ("fill_n", ustl::fill_n (o.b(), m, x), std::fill_n (w.begin(), m, x)) break;
	case 13: ustl::replace (a.b(), a.e(), x, y); std::replace (v.begin(), v.end(), x, y); EQV ("replace", a, v); break;
	case 14: OUT ("replace_copy", ustl::replace_copy (f, l, o.b(), x, y), std::replace_copy (v.begin(), v.end(), w.begin(), x, y)) break;
	case 15: IN ("remove", ustl::remove (a.b(), a.e(), x), std::remove (v.begin(), v.end(), x)) break;
	case 16: IN ("remove_if", ustl::remove_if (a.b(), a.e(), pr), std::remove_if (v.begin(), v.end(), pr)) break;
	case 17: OUT ("remove_copy", ustl::remove_copy (f, l, o.b(), x), std::remove_copy (v.begin(), v.end(), w.begin(), x)) break;
	case 18: IN ("unique", ustl::unique (a.b(), a.e()), std::unique (v.begin(), v.end())) break;
	case 19: OUT ("unique_copy with predicate", ustl::unique_copy (f, l, o.b(), eq), std::unique_copy (v.begin(), v.end(), w.begin(), eq)) break;
	case 20: { std::vector<T> v2 = g.template many<T> (n); Buf<T> b (v2); auto r = ustl::swap_ranges (a.b(), a.e(), b.b()); AT ("swap_ranges", r, b.b(), n); EQV ("swap_ranges", a, v2); EQV ("swap_ranges", b, v); break; }
	case 21: { auto up = [](const T& q) { return mk<T>::of (mk<T>::key(q)/2+1, 7); }; OUT ("transform", ustl::transform (f, l, o.b(), up), std::transform (v.begin(), v.end(), w.begin(), up)) break; }
	case 22: { auto r = ustl::partition (a.b(), a.e(), pr); AT ("partition", r, a.b(), std::count_if (v.begin(), v.end(), pr)); PBT_CHECK (std::all_of (a.b(), r, pr) && std::none_of (r, a.e(), pr), "partition mixed the parts"); PBT_CHECK (sids (a.v()) == sids (v), "partition changed the elements"); break; }
	case 23: { srand (s.below(1000)); ustl::random_shuffle (a.b(), a.e()); PBT_CHECK (sids (a.v()) == sids (v), "random_shuffle changed the elements"); break; }
	case 24: { ustl::sort (a.b(), a.e()); PBT_CHECK (std::is_sorted (a.b(), a.e()) && sids (a.v()) == sids (v), "sort of %zu elements", n); break; }
	case 25: { ustl::partial_sort (a.b(), a.b()+m, a.e()); std::stable_sort (v.begin(), v.end()); PBT_CHECK (std::equal (v.begin(), v.begin()+m, a.b()) && sids (a.v()) == sids (v), "partial_sort of %zu elements", n); break; }
	case 26: { ustl::nth_element (a.b(), a.b()+m, a.e()); std::stable_sort (v.begin(), v.end()); PBT_CHECK (m == n || (a.b()[m] == v[m] && std::none_of (a.b(), a.b()+m, [&](const T& q) { return a.b()[m] < q; })), "nth_element %zu of %zu elements", m, n); break; }
	case 27: { std::vector<T> v2 = g.template many<T> (m), d2 = g.template many<T> (n+m+1), w2 (d2); std::stable_sort (v.begin(), v.end()); std::stable_sort (v2.begin(), v2.end()); Buf<T> p (v), q (v2), o2 (d2);
#define W2(i,fn) case i: { auto r = ustl::fn (p.b(), p.e(), q.b(), q.e(), o2.b()); auto z = std::fn (v.begin(), v.end(), v2.begin(), v2.end(), w2.begin()); AT (#fn, r, o2.b(), z-w2.begin()); EQV (#fn, o2, w2); break; }
	    switch (s.below(5)) { W2(0,merge) W2(1,set_union) W2(2,set_intersection) W2(3,set_difference) default: W2(4,set_symmetric_difference) } break; }
	case 28: { ustl::stable_sort (a.b(), a.e(), lt); std::stable_sort (v.begin(), v.end(), lt); EQV ("stable_sort", a, v); break; }
	case 29: { std::stable_sort (v.begin(), v.begin()+m); std::stable_sort (v.begin()+m, v.end()); Buf<T> c (v); ustl::inplace_merge (c.b(), c.b()+m, c.e()); std::inplace_merge (v.begin(), v.begin()+m, v.end()); EQV ("inplace_merge", c, v); break; }
	case 30: { auto r = ustl::stable_partition (a.b(), a.e(), pr); auto z = std::stable_partition (v.begin(), v.end(), pr); AT ("stable_partition", r, a.b(), z-v.begin()); EQV ("stable_partition", a, v); break; }
	case 31: { bool r = ustl::next_permutation (a.b(), a.e()), z = std::next_permutation (v.begin(), v.end()); PBT_CHECK (r == z, "next_permutation returns %d", r); EQV ("next_permutation", a, v); r = ustl::prev_permutation (a.b(), a.e()), z = std::prev_permutation (v.begin(), v.end()); PBT_CHECK (r == z, "prev_permutation returns %d", r); EQV ("prev_permutation", a, v); break; }
	case 32: { uint64_t t = 0, z = 0; t = ustl::accumulate (f, l, t, [](uint64_t p, const T& q) { return p*31+mk<T>::key(q); }); z = std::accumulate (v.begin(), v.end(), z, [](uint64_t p, const T& q) { return p*31+mk<T>::key(q); }); PBT_CHECK (t == z, "accumulate over %zu elements", n); break; }
	case 33: { int q = 0, z = 0; auto r = ustl::generate_n (o.b(), m, [&]{ return mk<T>::of (q++%100, 3); }); auto t = std::generate_n (w.begin(), m, [&]{ return mk<T>::of (z++%100, 3); }); AT ("generate_n", r, o.b(), t-w.begin()); EQV ("generate_n", o, w); break; }
	case 34: { int q = 0, z = 0; ustl::generate (o.b()+m, o.e(), [&]{ return mk<T>::of (q++%100, 3); }); std::generate (w.begin()+m, w.end(), [&]{ return mk<T>::of (z++%100, 3); }); EQV ("generate", o, w); break; }
	case 35: ustl::replace_if (a.b(), a.e(), pr, y); std::replace_if (v.begin(), v.end(), pr, y); EQV ("replace_if", a, v); break;
	case 36: OUT ("replace_copy_if", ustl::replace_copy_if (f, l, o.b(), pr, y), std::replace_copy_if (v.begin(), v.end(), w.begin(), pr, y)) break;
	case 37: OUT ("remove_copy_if", ustl::remove_copy_if (f, l, o.b(), pr), std::remove_copy_if (v.begin(), v.end(), w.begin(), pr)) break;
	case 38: { std::vector<T> v2 = g.template many<T> (n); Buf<T> b (v2); auto add = [](const T& p, const T& q) { return mk<T>::of ((mk<T>::key(p)+mk<T>::key(q))%50, 7); }; OUT ("transform of two ranges", ustl::transform (f, l, (const T*) b.b(), o.b(), add), std::transform (v.begin(), v.end(), v2.begin(), w.begin(), add)) break; }
	case 39: OUT ("unique_copy", ustl::unique_copy (f, l, o.b()), std::unique_copy (v.begin(), v.end(), w.begin())) break;
	default: { ustl::vector<T> c (f, l); ustl::remove_if (c, pr); v.erase (std::remove_if (v.begin(), v.end(), pr), v.end()); Buf<T> b (std::vector<T> (c.begin(), c.end())); EQV ("remove_if in container", b, v); break; }
    }
    s.nontrivial (n > 100);
}
PBT_TEST(wide,0.04) { switch (s.below(3)) { case 0: wide_case<int> (s); break; case 1: wide_case<Kt> (s); break; default: wide_case<short> (s); } }
PBT_TEST(wide_numeric,0.03)
{
    size_t n = Wide::length (s, 140000); uint64_t x = s.below(1000); std::vector<uint32_t> v (n), w; for (size_t i = 0; i < n; ++i) v[i] = pbt::mix (x*1000003+i); w.assign (n+1, 7); uh::exact<uint32_t> a (v), o (w); const uint32_t *f = a.begin(), *l = a.end(); auto ret = [&](const char* nm, uint32_t* r, bool all = true) { PBT_CHECK (r == o.begin()+(all ? n : 0), "%s returns position %td", nm, r-o.begin()); for (size_t i = 0; i <= n; ++i) PBT_CHECK (o[i] == w[i], "%s of %zu: element %zu is %u, expected %u", nm, n, i, o[i], w[i]); };
    switch (s.below(5)) {
	case 0: std::partial_sum (v.begin(), v.end(), w.begin()); ret ("partial_sum", ustl::partial_sum (f, l, o.begin())); break;
	case 1: std::adjacent_difference (v.begin(), v.end(), w.begin()); ret ("adjacent_difference", ustl::adjacent_difference (f, l, o.begin())); break;
	case 2: std::iota (w.begin(), w.begin()+n, uint32_t(x)); ustl::iota (o.begin(), o.begin()+n, uint32_t(x)); ret ("iota", o.begin(), false); break;
	case 3: PBT_CHECK (ustl::accumulate (f, l, 1u) == std::accumulate (v.begin(), v.end(), 1u), "accumulate"); break;
	default: PBT_CHECK (ustl::inner_product (f, l, f, 1u) == std::inner_product (v.begin(), v.end(), v.begin(), 1u), "inner_product"); break;
    }
    s.nontrivial (n > 100);
}
#define EACH(fn) switch (s.below(4)) { case 0: fn<int> (s); break; case 1: fn<Kt> (s); break; case 2: fn<Ks> (s); break; default: fn<short> (s); }
PBT_TEST(copying,2)	{ EACH(copy_case) }
PBT_TEST(changing,3)	{ EACH(change_case) }
PBT_TEST(ordering,2)	{ EACH(order_case) }
PBT_TEST(sorting,2)	{ EACH(sort_case) }
PBT_TEST(sets,2)	{ switch (s.below(3)) { case 0: set_case<int> (s); break; case 1: set_case<Kt> (s); break; default: set_case<Ks> (s); } }
PBT_TEST(permutations,1){ switch (s.below(2)) { case 0: perm_case<Kt> (s); break; default: perm_case<Ks> (s); } }
PBT_TEST(numeric,2)	{ switch (s.below(3)) { case 0: numeric_case<int> (s); break; case 1: numeric_case<double> (s); break; default: numeric_case<uint8_t> (s); } }
