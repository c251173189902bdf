// Guarded allocator for the flavors without ASAN.
//
// The library moves memory with inline assembly, which sanitizers do not see.
// malloc, realloc, calloc and free are wrapped at link time (-Wl,--wrap): each
// block has canaries on both sides, checked when it is freed or resized and at
// the end of every case, fresh memory is filled with 0xBE and freed memory
// with 0xDD.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <stdlib.h>
#include <errno.h>
#include <sys/mman.h>

extern "C" {
void* __real_malloc (size_t);
void* __real_calloc (size_t, size_t);
void* __real_realloc (void*, size_t);
void __real_free (void*);
}

namespace gm {

enum : size_t { ARENA = size_t(1)<<30, MAXSMALL = size_t(1)<<18, TAIL = 16, PAGE = 4096 };
enum : uint64_t { LIVE = 0x6c6976656c697665ull, DEAD = 0x6465616464656164ull };

struct Head { Head *prev, *next; size_t n; uint64_t magic; };	// 32 bytes, directly before the block
struct State {
    char *base, *cur, *end;
    void* freel [40];		// by size class
    Head live;
    size_t bytes, blocks, count;
    bool on;
    int lock;
    bool (*deny)(size_t);	// says which allocations fail, if set
};
inline State& S (void) { static State s; return s; }

inline void die (const char* what, const void* p, size_t n)
{
    char b[160]; int k = snprintf (b, sizeof b, "GUARD: %s at block %p of %zu bytes\n", what, p, n);
    if (write (2, b, k)) {}
    _exit (97);
}
struct Lk { Lk (void) { while (__atomic_exchange_n (&S().lock, 1, __ATOMIC_ACQUIRE)) {} } ~Lk (void) { __atomic_store_n (&S().lock, 0, __ATOMIC_RELEASE); } };

inline void init (void)
{
    State& s = S();
    if (s.base) return;
    s.base = (char*) mmap (nullptr, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (s.base == MAP_FAILED) _exit (96);
    s.cur = s.base; s.end = s.base + ARENA;
    s.live.prev = s.live.next = &s.live;
}
inline bool ours (const void* p) { State& s = S(); return s.base && (char*) p >= s.base && (char*) p < s.end; }
inline unsigned cls (size_t tot) { unsigned c = 0; size_t k = 64; while (k < tot) { k <<= 1; ++c; } return c; }

inline void verify (Head* h)
{
    if (h->magic != LIVE) die (h->magic == DEAD ? "use of a freed block" : "memory before the block was overwritten", h+1, h->n);
    const unsigned char* t = (const unsigned char*)(h+1) + h->n;
    for (unsigned i = 0; i < TAIL; ++i)
	if (t[i] != 0xA5) die ("memory after the block was overwritten", h+1, h->n);
}
inline void check (void)
{
    if (!S().base) return;
    Lk l;
    for (Head* h = S().live.next; h != &S().live; h = h->next) verify (h);
}
inline void* alloc (size_t n)
{
    init(); State& s = S();
    if (n > MAXSMALL) return nullptr;
    Lk l;
    const size_t tot = n + sizeof(Head) + TAIL;
    const unsigned c = cls (tot);
    const size_t sz = size_t(64) << c;
    void* m = s.freel[c];
    if (m) s.freel[c] = *(void**)((char*) m + sizeof(Head));	// link kept inside the dead block
    else {
	if (s.cur + sz > s.end) return nullptr;
	m = s.cur; s.cur += sz;
    }
    Head* h = (Head*) m;
    h->n = n; h->magic = LIVE;
    h->next = s.live.next; h->prev = &s.live; s.live.next->prev = h; s.live.next = h;
    memset (h+1, 0xBE, n);
    memset ((char*)(h+1)+n, 0xA5, TAIL);
    s.bytes += n; ++s.blocks; ++s.count;
    return h+1;
}
inline void release (void* p)
{
    State& s = S(); Lk l;
    Head* h = (Head*) p - 1;
    if (uintptr_t(p) % 16 || h->magic == DEAD) die ("invalid or double free", p, 0);
    verify (h);
    h->prev->next = h->next; h->next->prev = h->prev;
    h->magic = DEAD;
    s.bytes -= h->n; --s.blocks;
    const unsigned c = cls (h->n + sizeof(Head) + TAIL);
    memset (p, 0xDD, h->n);
    *(void**) p = s.freel[c]; s.freel[c] = h;
}

} // namespace gm

extern "C" {
inline __attribute__((used)) void* __wrap_malloc (size_t n) { if (gm::S().deny && gm::S().deny (n)) { errno = ENOMEM; return nullptr; } void* p = gm::alloc (n); return p ? p : __real_malloc (n); }
inline __attribute__((used)) void* __wrap_calloc (size_t a, size_t b) { if (b && a > SIZE_MAX/b) return nullptr; if (gm::S().deny && gm::S().deny (a*b)) { errno = ENOMEM; return nullptr; } void* p = gm::alloc (a*b); if (!p) return __real_calloc (a,b); memset (p, 0, a*b); return p; }
inline __attribute__((used)) void __wrap_free (void* p) { if (gm::ours (p)) gm::release (p); else __real_free (p); }
inline __attribute__((used)) void* __wrap_realloc (void* p, size_t n)
{
    if (!p) return __wrap_malloc (n);
    if (!gm::ours (p)) { if (gm::S().deny && gm::S().deny (n)) { errno = ENOMEM; return nullptr; } return __real_realloc (p, n); }
    if (!n) { gm::release (p); return nullptr; }
    size_t on = ((gm::Head*) p - 1)->n;
    gm::verify ((gm::Head*) p - 1);
    void* q = __wrap_malloc (n);	// always moves
    if (!q) return nullptr;
    memcpy (q, p, on < n ? on : n);
    gm::release (p);
    return q;
}
}
