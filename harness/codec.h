// A reference binary layout for the streamable types, written from the rules in
// the headers' documentation, with generators of values. Shared by C14 and C15.
#pragma once
#include "uh.h"

enum Color { red, green = 77, blue = 200, lastcolor = 0xffff };
enum Wide : uint32_t { w0, w1 = 0x12345678, w2 = 0xffffffff };
CAST_STREAMABLE (Color, uint16_t)
ALIGNOF (Color, 2)
INTEGRAL_STREAMABLE (Wide)
/// A class with its own streaming methods.
struct Rec { uint32_t a; uint16_t b; ustl::string s; Rec (void) : a(0), b(0), s() {}
    void read (ustl::istream& is) { is >> a >> b >> s; is.align (4); }
    void write (ustl::ostream& os) const { os << a << b << s; os.align (4); }
    size_t stream_size (void) const { return ustl::Align (6+ustl::stream_size_of (s), 4); } };

struct Enc { std::vector<uint8_t> b; bool misplaced; Enc (void) : b(), misplaced (false) {}
    void raw (const void* p, size_t n) { b.insert (b.end(), (const uint8_t*) p, (const uint8_t*) p+n); }
    void pad (size_t g) { while (b.size() % g) b.push_back (0); } };

inline void utf8_num (Enc& e, uint32_t v)
{
    if (v < 0x80) { e.b.push_back (v); return; }
    unsigned n = v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6;
    e.b.push_back (uint8_t(0xff00 >> n) | uint8_t(v >> (6*(n-1))));
    for (unsigned i = n-1; i--;) e.b.push_back (0x80 | ((v >> (6*i)) & 0x3f));
}

/// gen: a value; enc: its bytes; al: alignment the library gives it; ta: alignment at which its size is exact
template <typename T> struct Cd {
    static T gen (Src& s, unsigned) { uint64_t v = s.coin() ? s.bits64() : s.raw(); T r; memcpy (&r, &v, sizeof(r)); return r; }
    static void enc (Enc& e, const T& v) { if (e.b.size() % ta()) e.misplaced = true; e.raw (&v, sizeof(v)); }
    enum { A = alignof(T) }; static size_t al (void) { return alignof(T); } static size_t ta (void) { return alignof(T); } };
template <> struct Cd<bool> { static bool gen (Src& s, unsigned) { return s.coin(); } static void enc (Enc& e, bool v) { e.b.push_back (v); } static size_t al (void) { return 1; } static size_t ta (void) { return 1; } };
template <> struct Cd<Color> { static Color gen (Src& s, unsigned) { static const Color c[] = {red,green,blue}; return s.among (c); } static void enc (Enc& e, Color v) { if (e.b.size() % 2) e.misplaced = true; uint16_t x = v; e.raw (&x, 2); } static size_t al (void) { return 2; } static size_t ta (void) { return 2; } };
template <> struct Cd<ustl::string> {
    static ustl::string gen (Src& s, unsigned d) { size_t n = d ? s.len (12) : s.blen (60); if (!d && s.chance (1,12)) { static const size_t b[] = {126,127,128,129,2046,2047,2048,2049,5000}; n = s.among (b); } if (!d && s.chance (1,150)) { static const size_t b[] = {65534,65535,65536,65537,70000,131200}; n = s.among (b); } ustl::string r; r.resize (n); unsigned m = s.below(3); if (n > 600) { unsigned x = s.below (1000); for (size_t i = 0; i < n; ++i) r[i] = char (pbt::mix (x+i)); return r; } for (size_t i = 0; i < n; ++i) r[i] = m ? char('a'+s.below(26)) : char(s.below(256)); return r; }
    static void enc (Enc& e, const ustl::string& v) { utf8_num (e, v.size()); e.raw (v.begin(), v.size()); }
    static size_t al (void) { return 1; } static size_t ta (void) { return 1; } };
template <> struct Cd<ustl::memblock> {
    static ustl::memblock gen (Src& s, unsigned d) { size_t n = d ? s.len (12) : s.blen (90); ustl::memblock r (n); if (n > 600) { unsigned x = s.below (1000); for (size_t i = 0; i < n; ++i) r.begin()[i] = char (pbt::mix (x+i)); return r; } for (size_t i = 0; i < n; ++i) r.begin()[i] = s.below(256); return r; }
    static void enc (Enc& e, const ustl::memblock& v) { if (e.b.size() % 4) e.misplaced = true; uint32_t n = v.size(); e.raw (&n, 4); e.raw (v.begin(), n); e.pad (4); }
    static size_t al (void) { return 4; } static size_t ta (void) { return 4; } };
template <> struct Cd<Rec> {
    static Rec gen (Src& s, unsigned d) { Rec r; r.a = s.bits64(); r.b = s.bits64(); r.s = Cd<ustl::string>::gen (s, d+1); return r; }
    static void enc (Enc& e, const Rec& v) { if (e.b.size() % 4) e.misplaced = true; e.raw (&v.a, 4); e.raw (&v.b, 2); Cd<ustl::string>::enc (e, v.s); e.pad (4); }
    static size_t al (void) { return 4; } static size_t ta (void) { return 4; } };
inline size_t cmax (size_t a, size_t b) { return a > b ? a : b; }
template <typename C, typename V> struct CdCont {
    static void enc (Enc& e, const C& v) { if (e.b.size() % ta()) e.misplaced = true; uint32_t n = v.size(); e.raw (&n, 4); if (Cd<V>::al() > 4) e.pad (Cd<V>::al()); for (auto i = v.begin(); i != v.end(); ++i) Cd<V>::enc (e, *i); e.pad (4); }
    static size_t al (void) { return 4; } static size_t ta (void) { return cmax (4, Cd<V>::ta()); }
    static size_t count (Src& s, unsigned d) { return d ? s.len (5) : s.blen (20); } };
template <typename T> struct Cd<ustl::vector<T> > : CdCont<ustl::vector<T>,T> { static ustl::vector<T> gen (Src& s, unsigned d) { ustl::vector<T> r; for (size_t n = CdCont<ustl::vector<T>,T>::count (s, d); n--;) { T v (Cd<T>::gen (s, d+1)); r.push_back (v); } return r; } };
template <typename T> struct Cd<ustl::list<T> > : CdCont<ustl::list<T>,T> { static ustl::list<T> gen (Src& s, unsigned d) { ustl::list<T> r; for (size_t n = CdCont<ustl::list<T>,T>::count (s, d); n--;) { T v (Cd<T>::gen (s, d+1)); r.push_back (v); } return r; } };
template <typename T> struct Cd<ustl::set<T> > : CdCont<ustl::set<T>,T> { static ustl::set<T> gen (Src& s, unsigned d) { ustl::set<T> r; for (size_t n = CdCont<ustl::set<T>,T>::count (s, d); n--;) { T v (Cd<T>::gen (s, d+1)); r.insert (v); } return r; } };
template <typename T> struct Cd<ustl::multiset<T> > : CdCont<ustl::multiset<T>,T> { static ustl::multiset<T> gen (Src& s, unsigned d) { ustl::multiset<T> r; for (size_t n = CdCont<ustl::multiset<T>,T>::count (s, d); n--;) { T v (Cd<T>::gen (s, d+1)); r.insert (v); } return r; } };
template <typename K, typename T> struct Cd<ustl::pair<K,T> > {
    static ustl::pair<K,T> gen (Src& s, unsigned d) { K k (Cd<K>::gen (s, d+1)); T v (Cd<T>::gen (s, d+1)); ustl::pair<K,T> r; r.first = k; r.second = v; return r; }
    static void enc (Enc& e, const ustl::pair<K,T>& v) { if (e.b.size() % ta()) e.misplaced = true; Cd<K>::enc (e, v.first); e.pad (Cd<T>::al()); Cd<T>::enc (e, v.second); e.pad (Cd<K>::al()); }
    static size_t al (void) { return 4; } static size_t ta (void) { return cmax (cmax (Cd<K>::ta(), Cd<T>::ta()), cmax (Cd<K>::al(), Cd<T>::al())); } };
template <typename K, typename T> struct Cd<ustl::map<K,T> > : CdCont<ustl::map<K,T>,ustl::pair<K,T> > { static ustl::map<K,T> gen (Src& s, unsigned d) { ustl::map<K,T> r; for (size_t n = s.len (d ? 4 : 12); n--;) { K k (Cd<K>::gen (s, d+1)); T v (Cd<T>::gen (s, d+1)); r[k] = v; } return r; } };
template <typename K, typename T> struct Cd<ustl::multimap<K,T> > : CdCont<ustl::multimap<K,T>,ustl::pair<K,T> > { static ustl::multimap<K,T> gen (Src& s, unsigned d) { ustl::multimap<K,T> r; for (size_t n = s.len (d ? 4 : 12); n--;) { ustl::pair<K,T> v (Cd<ustl::pair<K,T> >::gen (s, d)); r.insert (v); } return r; } };
template <typename C, typename V> struct CdFix {
    static C gen (Src& s, unsigned d) { C r; for (auto i = r.begin(); i != r.end(); ++i) *i = Cd<V>::gen (s, d+1); return r; }
    static void enc (Enc& e, const C& v) { if (e.b.size() % Cd<V>::ta()) e.misplaced = true; for (auto i = v.begin(); i != v.end(); ++i) Cd<V>::enc (e, *i); }
    static size_t ta (void) { return Cd<V>::ta(); } };
template <size_t N, typename T> struct Cd<ustl::tuple<N,T> > : CdFix<ustl::tuple<N,T>,T> { static size_t al (void) { return Cd<T>::al(); } };
template <typename T, size_t N> struct Cd<ustl::array<T,N> > : CdFix<ustl::array<T,N>,T> { static size_t al (void) { return 4; } };
template <size_t NX, size_t NY, typename T> struct Cd<ustl::matrix<NX,NY,T> > : CdFix<ustl::matrix<NX,NY,T>,T> { static size_t al (void) { return 4; } };
template <size_t N> struct Cd<ustl::bitset<N> > {
    static ustl::bitset<N> gen (Src& s, unsigned) { ustl::bitset<N> r; for (size_t i = 0; i < N; ++i) if (s.coin()) r.set (i); return r; }
    static void enc (Enc& e, const ustl::bitset<N>& v) { if (e.b.size() % 4) e.misplaced = true; for (size_t i = 0; i < N; i += 8) { unsigned x = 0; for (size_t j = 0; j < 8 && i+j < N; ++j) x |= unsigned(v.test(i+j)) << j; e.b.push_back (x); } while (e.b.size() % 4) e.b.push_back (0); }
    static size_t al (void) { return 4; } static size_t ta (void) { return 4; } };
typedef ustl::chrono::duration<int64_t,ustl::milli> Ms; typedef ustl::chrono::duration<int32_t,ustl::ratio<60> > Mins;
template <typename R, typename P> struct Cd<ustl::chrono::duration<R,P> > {
    typedef ustl::chrono::duration<R,P> D;
    static D gen (Src& s, unsigned d) { return D (Cd<R>::gen (s, d)); }
    static void enc (Enc& e, const D& v) { Cd<R>::enc (e, v.count()); } static size_t al (void) { return 4; } static size_t ta (void) { return cmax (4, alignof(R)); } };

using ustl::vector; using ustl::string; using ustl::pair; using ustl::set; using ustl::multiset; using ustl::map; using ustl::multimap; using ustl::tuple; using ustl::array; using ustl::matrix; using ustl::bitset; using ustl::memblock;
#define C2(...) __VA_ARGS__
#define STREAMED_TYPES(X) \
    X(int8_t) X(uint8_t) X(char) X(int16_t) X(uint16_t) X(int32_t) X(uint32_t) X(int64_t) X(uint64_t) X(long) X(unsigned long long) X(wchar_t) X(float) X(double) X(bool) X(Color) X(Wide) X(Rec) \
    X(string) X(memblock) X(vector<uint8_t>) X(vector<int16_t>) X(vector<uint32_t>) X(vector<uint64_t>) X(vector<double>) X(vector<bool>) X(vector<string>) X(vector<Rec>) X(vector<Color>) X(vector<memblock>) \
    X(vector<vector<uint8_t> >) X(vector<vector<string> >) X(C2(vector<pair<uint16_t,uint32_t> >)) X(C2(vector<pair<string,uint16_t> >)) X(C2(vector<tuple<3,uint8_t> >)) X(C2(vector<array<uint16_t,3> >)) \
    X(set<int32_t>) X(set<string>) X(multiset<uint16_t>) X(set<uint64_t>) X(C2(map<string,string>)) X(C2(map<uint32_t,string>)) X(C2(map<string,vector<uint32_t> >)) X(C2(map<uint16_t,uint8_t>)) X(C2(multimap<uint8_t,uint32_t>)) X(C2(map<uint32_t,uint64_t>)) \
    X(C2(pair<uint8_t,uint32_t>)) X(C2(pair<uint32_t,uint8_t>)) X(C2(pair<uint64_t,uint8_t>)) X(C2(pair<string,uint32_t>)) X(C2(pair<uint16_t,string>)) X(C2(pair<string,pair<string,uint8_t> >)) X(C2(pair<vector<uint16_t>,memblock>)) \
    X(C2(tuple<2,uint32_t>)) X(C2(tuple<3,float>)) X(C2(tuple<4,int32_t>)) X(C2(tuple<4,float>)) X(C2(tuple<5,uint8_t>)) X(C2(tuple<2,string>)) X(C2(tuple<3,uint64_t>)) X(C2(tuple<8,uint16_t>)) \
    X(C2(array<uint8_t,5>)) X(C2(array<uint32_t,3>)) X(C2(array<string,2>)) X(C2(array<double,2>)) X(C2(array<vector<uint32_t>,2>)) X(C2(matrix<2,3,float>)) X(C2(matrix<4,4,float>)) X(C2(matrix<2,2,int32_t>)) \
    X(bitset<7>) X(bitset<32>) X(bitset<33>) X(bitset<100>) X(Ms) X(Mins) X(C2(vector<Mins>)) X(ustl::list<uint16_t>) X(ustl::list<string>)
