// Shared by all harnesses: standard headers first, then uSTL, then the engine.
#pragma once
#include <algorithm>
#include <bitset>
#include <deque>
#include <functional>
#include <iomanip>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <vector>
#include <math.h>
#include <limits.h>
#include <float.h>
#include <sys/mman.h>
#include "ustl.h"
#include "pbt.h"

using pbt::Src;
using pbt::note;
using pbt::label;

namespace uh {
/// A position or count beyond any text.
inline size_t farpos (pbt::Src& s) { static const size_t v[] = { 0x7fffffff, 0xffffffff, size_t(1)<<32, (size_t(1)<<32)+2, (size_t(1)<<40)+1 }; return s.among (v); }

/// More than 4 GB of zeros, of which only what is touched takes up memory; clean again when this goes out of scope.
struct Far {
    enum : size_t { room = (size_t(1)<<32)+(1<<20) };
    char* p; size_t n;
    Far (pbt::Src& s, size_t unit = 1) : p (mem()) {
	static const size_t v[] = { size_t(1)<<31, size_t(1)<<32, 3ul<<30, (size_t(1)<<31)-1, (size_t(1)<<31)+1, (size_t(1)<<32)-1, (size_t(1)<<32)+1, (size_t(1)<<32)+300, (size_t(1)<<32)+70000 };
	n = s.among (v); if (s.chance (1,3)) n += s.below (3000); n /= unit;
    }
    ~Far (void) { if (p) madvise (p, room, MADV_DONTNEED); }
    explicit operator bool (void) const { return p; }
private:
    static char* mem (void) {
	static char* m = nullptr; static bool tried = false;
	if (!tried) { tried = true; void* q = mmap (nullptr, room, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); if (q != MAP_FAILED) { m = (char*) q; madvise (m, room, MADV_NOHUGEPAGE); } }
	return m;
    }
};

/// A heap copy of exactly n elements: reads or writes beyond it are caught by ASAN.
template <typename T>
class exact {
public:
    explicit exact (size_t n) : _n(n), _p((T*) malloc (n*sizeof(T) ? n*sizeof(T) : 1)), _q(n ? _p : (T*)(((char*)_p)+1)) {}
    template <typename C> explicit exact (const C& c) : exact (c.size()) { size_t i = 0; for (auto& v : c) _q[i++] = v; }
    ~exact (void) { free (_p); }
    exact (const exact&) = delete;
    T* begin (void)	{ return _q; }
    T* end (void)	{ return _q+_n; }
    size_t size (void) const { return _n; }
    T& operator[] (size_t i) { return _q[i]; }
private:
    size_t _n; T* _p; T* _q;
};

/// Buffer with guard bytes on both sides, for flavors without ASAN and for
/// writes that stay inside an allocation.
class guarded {
public:
    enum { G = 96 };
    guarded (size_t n, unsigned align) : _n(n), _b(n+2*G+64) {
	uintptr_t p = (uintptr_t(&_b[0]) + 63) & ~uintptr_t(63);
	_off = (p - uintptr_t(&_b[0])) + G - 32 + align;
	for (size_t i = 0; i < _b.size(); ++i) _b[i] = pat(i);
    }
    uint8_t* p (void)	{ return &_b[_off]; }
    bool intact (void) const {
	for (size_t i = 0; i < _b.size(); ++i)
	    if ((i < _off || i >= _off+_n) && _b[i] != pat(i)) return false;
	return true;
    }
    std::vector<uint8_t> content (void) const { return std::vector<uint8_t>(_b.begin()+_off, _b.begin()+_off+_n); }
private:
    static uint8_t pat (size_t i) { return uint8_t(i*37+11); }
    size_t _n, _off; std::vector<uint8_t> _b;
};

inline std::string rbytes (Src& s, size_t n)
{
    std::string r (n, 0);
    unsigned mode = s.below(4);
    if (n > 600) { uint64_t x = s.below (1000); for (size_t i = 0; i < n; ++i) { unsigned v = unsigned(pbt::mix (x+i)); r[i] = mode == 0 ? char('a'+v%3) : mode == 1 ? char(32+v%95) : char(v); } return r; }
    for (auto& c : r)
	switch (mode) {
	    case 0: c = char('a' + s.below(3)); break;
	    case 1: c = char(32 + s.below(95)); break;
	    default: c = char(s.below(256)); break;
	}
    return r;
}

} // namespace uh
