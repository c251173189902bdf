// Element type whose every construction and destruction is accounted for.
// Objects may be moved bitwise (uSTL containers do that), so identity is a
// token carried by the object, not its address.
#pragma once
#include "uh.h"

struct Reg {
    enum { MAX = 1<<16 };
    uint8_t alive [MAX];
    unsigned next, live;
    const char* bad;
    void reset (void) { memset (alive, 0, next < MAX ? next+1 : MAX); next = 0; live = 0; bad = nullptr; }
};
inline Reg& R (void) { static Reg r; return r; }

struct Tr {
    uint32_t id, tag; int v; int* heap;
    enum { TAG = 0x54724f4b };
    void birth (int nv) {
	if (R().next >= Reg::MAX) throw pbt::Discard();
	id = R().next++; tag = TAG ^ id; v = nv; heap = (int*) malloc (sizeof(int)); *heap = nv;
	R().alive[id] = 1; ++R().live;
    }
    static void flag (const char* w) { if (!R().bad) R().bad = w; }
    bool ok (const char* w) const {
	if (tag != (TAG ^ id) || id >= R().next) { flag (w); return false; }
	if (!R().alive[id]) { flag (w); return false; }
	if (!heap || *heap != v) { flag (w); return false; }
	return true;
    }
    Tr (void) { birth (0); }
    Tr (int nv) { birth (nv); }
    Tr (const Tr& o) { birth (o.ok ("copy from an object that is not alive") ? o.v : -99); }
    Tr (Tr&& o) { birth (o.ok ("move from an object that is not alive") ? o.v : -99); if (o.heap) { o.v = -1; *o.heap = -1; } }
    Tr& operator= (const Tr& o) { o.ok ("assignment from an object that is not alive"); if (ok ("assignment to an object that is not alive")) { v = o.v; *heap = v; } return *this; }
    Tr& operator= (Tr&& o) {
	o.ok ("move assignment from an object that is not alive");
	if (this != &o && ok ("move assignment to an object that is not alive")) { v = o.v; *heap = v; o.v = -1; if (o.heap) *o.heap = -1; }
	return *this; }
    ~Tr (void) {
	if (!ok ("destruction of an object that is not alive")) return;
	R().alive[id] = 0; --R().live; tag = 0; free (heap); heap = nullptr;
    }
    bool operator== (const Tr& o) const { ok ("comparison"); o.ok ("comparison"); return v == o.v; }
    bool operator< (const Tr& o) const { ok ("comparison"); o.ok ("comparison"); return v < o.v; }
};
inline bool operator!= (const Tr& a, const Tr& b) { return !(a == b); }

inline void reg_check (const char* op, long want = -1)
{
    PBT_CHECK (!R().bad, "during %s: %s", op, R().bad);
    if (want >= 0)
	PBT_CHECK (long(R().live) == want, "after %s: %u elements alive, %ld held", op, R().live, want);
}
