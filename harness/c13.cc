// C13: raw copies, fills and rotations touch exactly the bytes asked for.
#include "uh.h"

/// One region between two inaccessible pages, the rest of it watched.
struct Arena {
    enum { PG = 4096 };
    size_t pages; uint8_t* base; uint8_t* p; size_t n; std::vector<uint8_t> want;
    size_t had[2]; uint8_t* at[2];	// one region for the usual lengths, one for the long ones
    Arena (void) : pages(0), base(nullptr), p(nullptr), n(0), had{0,0}, at{nullptr,nullptr} {}
    void room (size_t bytes) {
	size_t need = (bytes+PG-1)/PG; bool big = need > 20;
	if (need > had[big]) {
	    if (at[big]) munmap (at[big]-PG, (had[big]+2)*PG);
	    uint8_t* q = (uint8_t*) mmap (nullptr, (need+2)*PG, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	    if (q == MAP_FAILED) abort();
	    at[big] = q+PG; had[big] = need;
	    mprotect (at[big], need*PG, PROT_READ|PROT_WRITE);
	}
	base = at[big]; pages = had[big];
    }
    /// where: 0 = against the end, 1 = against the start, 2 = inside at an alignment
    void place (Src& s, size_t bytes, unsigned grain) {
	room (bytes+256); n = bytes;
	switch (s.pick ({1,1,3})) { case 0: p = base + pages*PG - n; p -= (uintptr_t(p) % grain); if (n % grain) p = base + pages*PG - n; break; case 1: p = base; break;
	    default: p = base + 64 + s.below(64/grain)*grain; }
	uint32_t x = s.below(1000)*2654435761u + 99;
	want.assign (size_t(pages)*PG, 0);
	for (auto& b : want) { x = x*1664525u+1013904223u; b = x >> 24; }
	memcpy (base, want.data(), want.size());
    }
    uint8_t* w (void) { return want.data() + (p-base); }
    void check (const char* what) {
	if (!memcmp (base, want.data(), want.size())) return;
	for (size_t i = 0; i < want.size(); ++i) if (base[i] != want[i]) PBT_CHECK (false, "%s: byte %td of the %zu byte range is %d, expected %d", what, base+i-p, n, base[i], want[i]);
    }
};
static Arena A, B;

static void cpu_state (const char* what)
{
    unsigned long fl; asm volatile ("pushfq\n\tpopq %0" : "=r"(fl) :: "memory");
    if (fl & 0x400) asm volatile ("cld");
    PBT_CHECK (!(fl & 0x400), "%s leaves the direction flag set", what);
    long double one = 0; asm volatile ("fld1\n\tfstpt %0" : "=m"(one));
    if (!(one == 1.0L)) asm volatile ("emms");
    PBT_CHECK (one == 1.0L, "%s leaves the floating point unit unusable", what);
}
static size_t length (Src& s)
{
    if (s.chance (1,600)) return s.coin() ? 65536+s.below(7)-3 : 60000+s.below(30000);
    switch (s.pick ({6,3,2,1})) { case 0: return s.below(80); case 1: return s.below(300); case 2: return 32*s.below(40) + s.below(3) - (s.coin() ? 0 : 1) + 1; default: return s.below(9000); }
}
#define RET(what, got, base, w) do { ptrdiff_t g_ = (got)-(base), w_ = ptrdiff_t(w); PBT_CHECK (g_ == w_, "%s returns position %td, expected %td", what, g_, w_); } while (0)

/// Copies between two places, for one element type.
template <typename T> static void copy_case (Src& s, const char* tn)
{
    size_t n = length (s), nb = n*sizeof(T);
    A.place (s, nb, alignof(T)); B.place (s, nb, alignof(T));
    T *f = (T*) A.p, *d = (T*) B.p; const T* cf = f;
    unsigned how = s.below(6);
    note ("%s how %u, %zu elements, source %% 32 = %u, target %% 32 = %u", tn, how, n, unsigned(uintptr_t(f)%32), unsigned(uintptr_t(d)%32));
    if (nb) memcpy (B.w(), A.w(), nb);
    switch (how) {
	case 0: RET ("copy", ustl::copy (cf, cf+n, d), d, n); break;
	case 1: RET ("copy of mutable", ustl::copy (f, f+n, d), d, n); break;
	case 2: RET ("copy_n", ustl::copy_n (cf, n, d), d, n); break;
	case 3: RET ("copy_n of mutable", ustl::copy_n (f, n, d), d, n); break;
	case 4: RET ("copy_backward", ustl::copy_backward (cf, cf+n, d+n), d, 0); break;
	default: RET ("copy_backward of mutable", ustl::copy_backward (f, f+n, d+n), d, 0); break;
    }
    B.check (how < 4 ? "copy target" : "copy_backward target"); A.check ("copy source"); cpu_state ("copy");
    s.nontrivial (nb > 16);
}
template <typename T> static void overlap_case (Src& s, const char* tn)
{
    size_t n = length (s)+1, nb = n*sizeof(T);
    A.place (s, nb, alignof(T)); T* p = (T*) A.p; T* w = (T*) A.w();
    size_t c = s.below(n+1), f = s.below(n-c+1); bool back = s.coin();
    size_t to = back ? f + s.below(n-c-f+1) : s.below(f+1); if (s.coin()) to = back ? std::min (f + s.below(40), n-c) : f - std::min (f, size_t(s.below(40)));
    note ("%s overlapping %s: [%zu,+%zu) to %zu of %zu, address %% 32 = %u", tn, back ? "copy_backward" : "copy", f, c, to, n, unsigned(uintptr_t(p)%32));
    memmove (w+to, w+f, c*sizeof(T));
    if (back) RET ("copy_backward", ustl::copy_backward ((const T*)p+f, (const T*)p+f+c, p+to+c), p, to);
    else if (s.coin()) RET ("copy", ustl::copy ((const T*)p+f, (const T*)p+f+c, p+to), p, to+c);
    else RET ("copy_n", ustl::copy_n ((const T*)p+f, c, p+to), p, to+c);
    A.check (back ? "overlapping copy_backward" : "overlapping copy"); cpu_state ("copy");
    s.nontrivial (c*sizeof(T) > 16 && to != f && (to > f ? to-f : f-to) < c);
}
template <typename T> static void fill_case (Src& s, const char* tn)
{
    size_t n = length (s), nb = n*sizeof(T);
    A.place (s, nb, alignof(T)); T* p = (T*) A.p; T v; { uint64_t b = s.bits64()*0x9E3779B97F4A7C15ull; if (s.chance(1,4)) b = s.below(256); memcpy (&v, &b, sizeof(v) < 8 ? sizeof(v) : 8); }
    size_t f = s.chance(1,2) ? 0 : s.below(n+1), c = n-f; 
    note ("%s fill [%zu,%zu), address %% 32 = %u", tn, f, n, unsigned(uintptr_t(p)%32));
    for (size_t i = f; i < n; ++i) memcpy (A.w()+i*sizeof(T), &v, sizeof(T));
    if (s.coin()) ustl::fill (p+f, p+n, v); else RET ("fill_n", ustl::fill_n (p+f, c, v), p, n);
    A.check ("fill"); cpu_state ("fill");
    s.nontrivial (c*sizeof(T) > 16);
}
template <typename T> static void rotate_case (Src& s, const char* tn)
{
    size_t n = length (s); if (s.chance(1,40)) n = (60000 + s.below(260000))/sizeof(T);
    size_t m = s.below(n+1); if (s.chance(1,4)) m = s.coin() ? std::min (n, size_t(s.below(20))) : n - std::min (n, size_t(s.below(20)));
    A.place (s, n*sizeof(T), alignof(T)); T *p = (T*) A.p; uint8_t* w = A.w();
    note ("%s rotate %zu of %zu, address %% 32 = %u", tn, m, n, unsigned(uintptr_t(p)%32));
    std::rotate (w, w+m*sizeof(T), w+n*sizeof(T));
    RET ("rotate", ustl::rotate (p, p+m, p+n), p, n-m);
    A.check ("rotate"); cpu_state ("rotate");
    s.nontrivial (n*sizeof(T) > 16 && m && m < n);
    if (std::min (m, n-m)*sizeof(T) > 65536) label ("rotation of large halves");
}
struct Odd { uint8_t b[7]; }; 
#define TYPES(fn) switch (s.below(13)) { \
    case 0: fn<uint8_t> (s, "uint8_t"); break; case 1: fn<int8_t> (s, "int8_t"); break; case 2: fn<char> (s, "char"); break; \
    case 3: fn<uint16_t> (s, "uint16_t"); break; case 4: fn<int16_t> (s, "int16_t"); break; case 5: fn<uint32_t> (s, "uint32_t"); break; \
    case 6: fn<int32_t> (s, "int32_t"); break; case 7: fn<float> (s, "float"); break; case 8: fn<uint64_t> (s, "uint64_t"); break; \
    case 9: fn<double> (s, "double"); break; case 10: fn<wchar_t> (s, "wchar_t"); break; case 11: fn<Odd> (s, "struct of 7 bytes"); break; default: fn<long long> (s, "long long"); break; }

PBT_TEST (copy, 12) { TYPES (copy_case) }
PBT_TEST (overlap, 12) { TYPES (overlap_case) }
PBT_TEST (fill, 10) { TYPES (fill_case) }
PBT_TEST (rotate, 10) { TYPES (rotate_case) }

PBT_TEST (raw, 14)
{
    size_t n = length (s);
    A.place (s, n, 1); B.place (s, n, 1);
    note ("%zu bytes, source %% 32 = %u, target %% 32 = %u", n, unsigned(uintptr_t(A.p)%32), unsigned(uintptr_t(B.p)%32));
    void *f = A.p, *d = B.p; const void* cf = f; void* fe = A.p+n; const void* cfe = fe;
    if (n) memcpy (B.w(), A.w(), n);
    switch (s.below(8)) {
	case 0: ustl::copy_n_fast (cf, n, d); break;
	case 1: ustl::copy_backward_fast (cf, cfe, B.p+n); break;
	case 2: RET ("copy of void", (uint8_t*) ustl::copy (cf, cfe, d), B.p, n); break;
	case 3: RET ("copy of void", (uint8_t*) ustl::copy (f, fe, d), B.p, n); break;
	case 4: RET ("copy_n of void", (uint8_t*) ustl::copy_n (cf, n, d), B.p, n); break;
	case 5: RET ("copy_n of void", (uint8_t*) ustl::copy_n (f, n, d), B.p, n); break;
	case 6: RET ("copy_backward of void", (uint8_t*) ustl::copy_backward (cf, cfe, (void*)(B.p+n)), B.p, 0); break;
	default: RET ("copy_backward of void", (uint8_t*) ustl::copy_backward (f, fe, (void*)(B.p+n)), B.p, 0); break;
    }
    B.check ("copy target"); A.check ("copy source"); cpu_state ("copy");
    // fills and rotations of bytes given as void or by the raw functions
    unsigned how = s.below(8); uint8_t v = s.below(256);
    if (how < 4) memset (A.w(), v, n);
    switch (how) {
	case 0: ustl::fill_n8_fast (A.p, n, v); break;
	case 1: ustl::fill (f, fe, v); break;
	case 2: ustl::fill (f, fe, char(v)); break;
	case 3: RET ("fill_n of void", (uint8_t*) ustl::fill_n (f, n, v), A.p, n); break;
	case 4: case 5: { size_t m = s.below(n+1); std::rotate (A.w(), A.w()+m, A.w()+n); ustl::rotate_fast (f, A.p+m, fe); break; }
	case 6: if (!(uintptr_t(A.p) % 2)) { uint16_t x = s.below(65536); for (size_t i = 0; i+2 <= n; i += 2) memcpy (A.w()+i, &x, 2); ustl::fill_n16_fast ((uint16_t*) A.p, n/2, x); } break;
	default: if (!(uintptr_t(A.p) % 4)) { uint32_t x = s.raw(); for (size_t i = 0; i+4 <= n; i += 4) memcpy (A.w()+i, &x, 4); ustl::fill_n32_fast ((uint32_t*) A.p, n/4, x); } break;
    }
    A.check ("fill or rotation"); cpu_state ("fill or rotation");
    s.nontrivial (n > 16);
}

/// Every alignment of source and target with every short length, for bytes.
PBT_TEST (grid, 1)
{
    unsigned fn = s.below(4), sa = s.below(32), da = s.below(32); bool whole = s.coin();
    note ("function %u, source %% 32 = %u, target %% 32 = %u", fn, sa, da);
    static uint8_t src[512] __attribute__((aligned(64))), dst[512] __attribute__((aligned(64))), w[512];
    for (unsigned i = 0; i < 512; ++i) src[i] = i*7+3;
    for (unsigned n = 0; n <= (whole ? 200u : 80u); ++n) {
	for (unsigned i = 0; i < 512; ++i) w[i] = dst[i] = i*13+5;
	uint8_t *a = src+64+sa, *b = dst+64+da;
	switch (fn) {
	    case 0: memcpy (w+64+da, a, n); ustl::copy_n_fast (a, n, b); break;
	    case 1: memcpy (w+64+da, a, n); ustl::copy_backward_fast (a, a+n, b+n); break;
	    case 2: memset (w+64+da, sa, n); ustl::fill_n8_fast (b, n, sa); break;
	    default: { unsigned m = n ? (sa*7)%n : 0; std::rotate (w+64+da, w+64+da+m, w+64+da+n); ustl::rotate_fast (b, b+m, b+n); }
	}
	PBT_CHECK (!memcmp (w, dst, 512), "length %u", n);
    }
    cpu_state ("grid");
    s.nontrivial();
}
