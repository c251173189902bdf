// Element types, predicates and range generators shared by C11 and C12.
#pragma once
#include "uh.h"

// == and < look at the key only; t tells equal elements apart
struct Kt { int k, t; Kt (void) : k(0), t(0) {} Kt (int nk, int nt = 0) : k(nk), t(nt) {}
    bool operator== (const Kt& o) const { return k == o.k; } bool operator!= (const Kt& o) const { return k != o.k; } bool operator< (const Kt& o) const { return k < o.k; } };
template <typename T> struct mk { static T of (int k, int) { return T(k); } static int id (const T& v) { return int(v)*1000; } static int key (const T& v) { return int(v); } };
template <> struct mk<Kt> { static Kt of (int k, int t) { return Kt (k,t); } static int id (const Kt& v) { return v.k*1000+v.t; } static int key (const Kt& v) { return v.k; } };
struct Ks { ustl::string s; Ks (void) : s() {} explicit Ks (int k) : s() { s.format ("%04d", k+2000); } int key (void) const { return s.empty() ? -5000 : atoi (s.c_str())-2000; }
    bool operator== (const Ks& o) const { return s == o.s; } bool operator!= (const Ks& o) const { return !(s == o.s); } bool operator< (const Ks& o) const { return s < o.s; } };
template <> struct mk<Ks> { static Ks of (int k, int) { return Ks (k); } static int key (const Ks& v) { return v.key(); } static int id (const Ks& v) { return key(v)*1000; } };
template <> struct mk<double> { static double of (int k, int) { return k*0.5; } static int id (const double& v) { return int(v*2)*1000; } static int key (const double& v) { return int(v*2); } };

// Predicates with state
struct EqMod { int m; template <typename A, typename B> bool operator() (const A& a, const B& b) const { return (mk<A>::key(a)-mk<B>::key(b))%m == 0; } };
struct LtMod { int m; static int q (int k, int m) { return m < 0 ? -k/(-m) : (k+4000)/m; } template <typename A, typename B> bool operator() (const A& a, const B& b) const { return q (mk<A>::key(a),m) < q (mk<B>::key(b),m); } };
struct IsMod { int m, r; template <typename A> bool operator() (const A& a) const { return abs(mk<A>::key(a))%m == r; } };
inline EqMod eqmod (Src& s) { return EqMod { int(1+s.below(4)) }; }
inline LtMod ltmod (Src& s) { static const int ms[] = {1,2,3,-1,-3}; return LtMod { s.among (ms) }; }
inline IsMod ismod (Src& s) { IsMod r { int(1+s.below(4)), 0 }; r.r = s.below(r.m); return r; }

struct Gen { Src& s; int span, tag;
    explicit Gen (Src& src) : s(src), span (0), tag (0) { static const int sp[] = {1,2,3,8,60}; span = s.among (sp); }
    template <typename T> T one (void) { return mk<T>::of (int(s.below(span))-span/3, ++tag%1000); }
    template <typename T> std::vector<T> many (size_t n) { std::vector<T> r; while (n--) r.push_back (one<T>()); return r; }
    template <typename T> std::vector<T> some (size_t mx) { return many<T> (s.len (mx)); }
    /// A piece of t, possibly with one element changed
    template <typename T> std::vector<T> piece (const std::vector<T>& t) {
	size_t p = s.below(t.size()+1), c = s.below(t.size()-p+1); if (c > 6 && s.coin()) c = s.below(7);
	std::vector<T> r (t.begin()+p, t.begin()+p+c); if (!r.empty() && s.chance(1,3)) r[s.below(r.size())] = one<T>(); if (s.chance(1,8)) r.push_back (one<T>()); return r; }
};
/// Long ranges, made from a few choices: runs, few values, or sorted but for a few places.
struct Wide { Src& s; int span; uint64_t x; unsigned kind;
    explicit Wide (Src& src) : s(src) { static const int sp[] = {2,60,1000}; span = s.among (sp); x = s.below(1000)*7919; kind = s.below(4); }
    static size_t length (Src& s, size_t cap) { static const size_t near[] = { 65536, 32768, 131072, 256, 1024, 4096 }; size_t r = s.below(3) ? s.among (near) + s.below(5) - 2 : s.below(cap+1); return r > cap ? cap - s.below(3) : r; }
    template <typename T> std::vector<T> many (size_t n) { std::vector<T> r; r.reserve (n); ++x;
	for (size_t i = 0; i < n; ++i) { uint64_t h = pbt::mix (x*100003+i); int k = kind == 0 ? int(h%span) : kind == 1 ? int(pbt::mix (x*100003+i/50)%span) : int(uint64_t(i)*span/(n+1)); if (kind == 3 && h%1000 == 0) k = int((h>>20)%span); r.push_back (mk<T>::of (k-span/3, int(i%1000))); } return r; }
};
template <typename T> std::string show (const std::vector<T>& v) { std::string r = "["; for (auto& x : v) if (r.size() > 2500) { r += "..."; break; } else r += pbt::fmt ("%s%d", r.size() > 1 ? " " : "", mk<T>::id(x)); return r+"]"; }
template <typename T> std::vector<int> ids (const T* f, const T* l) { std::vector<int> r; for (; f != l; ++f) r.push_back (mk<T>::id (*f)); return r; }
template <typename T> std::vector<int> ids (const std::vector<T>& v) { return ids (v.data(), v.data()+v.size()); }

/// Exactly sized copy: reading or writing outside it is caught. (std::vector's own memory is not exact)
template <typename T> struct Buf {
    explicit Buf (const std::vector<T>& v) : n(v.size()), raw (malloc (n*sizeof(T)+(n?0:1))), p (n ? (T*) raw : (T*)((char*)raw+1)) { for (size_t i = 0; i < n; ++i) new (p+i) T (v[i]); }
    ~Buf (void) { for (size_t i = 0; i < n; ++i) p[i].~T(); free (raw); }
    Buf (const Buf&) = delete;
    T* b (void) const { return p; }
    T* e (void) const { return p+n; }
    std::vector<T> v (void) const { return std::vector<T> (p, p+n); }
    std::vector<int> id (void) const { return ids<T> (p, p+n); }
    size_t n; void* raw; T* p;
};
