// C23: smart pointers and scope guards release each object exactly once.
#include <thread>
#include <atomic>
#include <mutex>
#include "uh.h"

//{{{ Tracked objects

struct Obj;
struct Registry {
    struct Rec { int made, gone; };
    std::vector<Rec> recs; std::string bad;
    std::function<std::string (Obj*)> onGone;	///< Says what is wrong with destroying it now.
    static Registry& I (void) { static Registry r; return r; }
    void clear (void) { recs.clear(); bad.clear(); onGone = nullptr; }
};
struct Obj {
    uint32_t magic; int id, val; ustl::shared_ptr<Obj> next; ustl::unique_ptr<Obj> child;
    explicit Obj (int v = 0) : magic(0x600df00d), id(int(Registry::I().recs.size())), val(v), next(), child() { Registry::I().recs.push_back ({1,0}); }
    Obj (int a, const ustl::string& b) : Obj (a + int(b.size())) {}
    Obj (const Obj&) = delete;
    ~Obj (void) {
	Registry& r (Registry::I());
	if (magic != 0x600df00d || id < 0 || size_t(id) >= r.recs.size()) { if (r.bad.empty()) r.bad = "something that is not an object was destroyed"; return; }
	if (++r.recs[id].gone != 1 && r.bad.empty()) r.bad = pbt::fmt ("object %d was destroyed %d times", id, r.recs[id].gone);
	if (r.onGone) { std::string w (r.onGone (this)); if (!w.empty() && r.bad.empty()) r.bad = w; }
	magic = 0xdead;
    }
};
//}}}
//{{{ Histories over a pool of owners

struct Pool {
    enum { NU = 3, NA = 2, NS = 5, NP = 2 };
    std::unique_ptr<ustl::unique_ptr<Obj>> u[NU]; std::unique_ptr<ustl::auto_ptr<Obj>> a[NA]; std::unique_ptr<ustl::shared_ptr<Obj>> sh[NS]; std::unique_ptr<ustl::unique_ptr<Obj[]>> ar[NP];
    std::vector<Obj*> loose;
    // The model: who holds what. -1 for nothing.
    int mu[NU], ma[NA], ms[NS], mar[NP], marn[NP]; std::map<int,int> mnext, mchild;
    std::map<int,Obj*> obj;
    Pool (void) { for (int i = 0; i < NU; ++i) { u[i].reset (new ustl::unique_ptr<Obj>); mu[i] = -1; } for (int i = 0; i < NA; ++i) { a[i].reset (new ustl::auto_ptr<Obj>); ma[i] = -1; } for (int i = 0; i < NS; ++i) { sh[i].reset (new ustl::shared_ptr<Obj>); ms[i] = -1; } for (int i = 0; i < NP; ++i) { ar[i].reset (new ustl::unique_ptr<Obj[]>); mar[i] = -1; marn[i] = 0; } }
    Obj* make (int v) { Obj* o = new Obj (v); obj[o->id] = o; return o; }
    int count (int id) const { int n = 0; for (int i : ms) n += i == id; for (auto& k : mnext) n += k.second == id && reachable (k.first); return n; }
    bool reachable (int id) const {	// held by something alive
	for (int i : mu) if (i == id) return true; for (int i : ma) if (i == id) return true; for (int i : ms) if (i == id) return true;
	for (int i = 0; i < NP; ++i) if (mar[i] >= 0 && id >= mar[i] && id < mar[i]+marn[i]) return true;
	for (Obj* o : loose) if (o->id == id) return true;
	for (auto& k : mnext) if (k.second == id && reachable (k.first)) return true;
	for (auto& k : mchild) if (k.second == id && reachable (k.first)) return true;
	return false;
    }
    bool reaches (int from, int to) const { if (from < 0) return false; if (from == to) return true; auto n = mnext.find (from); if (n != mnext.end() && reaches (n->second, to)) return true; auto c = mchild.find (from); return c != mchild.end() && reaches (c->second, to); }
    void verify (const char* when) {
	Registry& r (Registry::I());
	PBT_CHECK (r.bad.empty(), "%s: %s", when, r.bad.c_str());
	for (size_t i = 0; i < r.recs.size(); ++i) { bool live = reachable (int(i)); PBT_CHECK (r.recs[i].gone == (live ? 0 : 1), "%s: object %zu is %s but was destroyed %d times", when, i, live ? "owned" : "not owned", r.recs[i].gone); if (!live) { mnext.erase (int(i)); mchild.erase (int(i)); } }
	for (int i = 0; i < NU; ++i) { PBT_CHECK (u[i]->get() == (mu[i] < 0 ? nullptr : obj[mu[i]]) && bool(*u[i]) == (mu[i] >= 0), "%s: unique_ptr %d does not hold object %d", when, i, mu[i]); if (mu[i] >= 0) PBT_CHECK ((**u[i]).id == mu[i] && (*u[i])->id == mu[i] && *u[i] == obj[mu[i]] && !(*u[i] != obj[mu[i]]), "%s: unique_ptr %d", when, i); }
	for (int i = 0; i < NA; ++i) { PBT_CHECK (a[i]->get() == (ma[i] < 0 ? nullptr : obj[ma[i]]), "%s: auto_ptr %d does not hold object %d", when, i, ma[i]); if (ma[i] >= 0) PBT_CHECK ((**a[i]).id == ma[i] && (*a[i])->id == ma[i] && *a[i] == obj[ma[i]], "%s: auto_ptr %d", when, i); }
	for (int i = 0; i < NS; ++i) { PBT_CHECK (sh[i]->get() == (ms[i] < 0 ? nullptr : obj[ms[i]]) && bool(*sh[i]) == (ms[i] >= 0), "%s: shared_ptr %d does not hold object %d", when, i, ms[i]); size_t c = ms[i] < 0 ? 0 : size_t(count (ms[i])); PBT_CHECK (sh[i]->use_count() == c && sh[i]->unique() == (c == 1), "%s: use count of object %d is %zu, not %zu", when, ms[i], sh[i]->use_count(), c); if (ms[i] >= 0) PBT_CHECK ((**sh[i]).id == ms[i] && (*sh[i])->id == ms[i] && (*sh[i])[0].id == ms[i] && *sh[i] == obj[ms[i]], "%s: shared_ptr %d", when, i); }
	for (int i = 0; i < NP; ++i) { PBT_CHECK (bool(*ar[i]) == (mar[i] >= 0), "%s: array pointer %d", when, i); for (int k = 0; k < marn[i]; ++k) PBT_CHECK ((*ar[i])[k].id == mar[i]+k, "%s: element %d of array pointer %d", when, k, i); }
	for (int i = 0; i < NS; ++i) for (int j = 0; j < NS; ++j) PBT_CHECK ((*sh[i] == *sh[j]) == (ms[i] == ms[j]) && (*sh[i] < *sh[j]) == (sh[i]->get() < sh[j]->get()), "%s: comparison of shared_ptr %d and %d", when, i, j);
	for (int i = 0; i < NU; ++i) for (int j = 0; j < NU; ++j) PBT_CHECK ((*u[i] == *u[j]) == (mu[i] == mu[j]) && (*u[i] < *u[j]) == (u[i]->get() < u[j]->get()), "%s: comparison of unique_ptr %d and %d", when, i, j);
	for (int i = 0; i < NA; ++i) for (int j = 0; j < NA; ++j) PBT_CHECK ((*a[i] == *a[j]) == (ma[i] == ma[j]) && (*a[i] < *a[j]) == (a[i]->get() < a[j]->get()), "%s: comparison of auto_ptr %d and %d", when, i, j);
    }
};
static int nobj (void) { return int(Registry::I().recs.size()); }

PBT_TEST (histories, 20)
{
    Registry& reg (Registry::I()); reg.clear();
    {
	Pool p; size_t n = 2+s.below (40); unsigned acts = 0, drops = 0;
	// while the last owner lets go, it does not show the object any more
	reg.onGone = [&p](Obj* o) -> std::string { for (int i = 0; i < Pool::NU; ++i) if (p.u[i] && p.u[i]->get() == o) return pbt::fmt ("unique_ptr %d still shows object %d while it is destroyed", i, o->id); for (int i = 0; i < Pool::NS; ++i) if (p.sh[i] && p.sh[i]->get() == o) return pbt::fmt ("shared_ptr %d still owns object %d while it is destroyed", i, o->id); return std::string(); };
	for (size_t k = 0; k < n; ++k) {
	    s.step(); std::string when; int i = int(s.below (Pool::NU)), j = int(s.below (Pool::NU)), x = int(s.below (Pool::NS)), y = int(s.below (Pool::NS)), q = int(s.below (Pool::NA)), w = int(s.below (Pool::NA)), e = int(s.below (Pool::NP)), f = int(s.below (Pool::NP));
	    const int g0 = nobj(); int gone0 = 0; for (auto& r : reg.recs) gone0 += r.gone;
	    switch (s.pick ({4,3,3,2,2,2,2,1, 4,4,4,3,3,2,2,2,2, 2,2,2,1,1, 2,2,1,1,1, 2,2,1})) {
		// unique_ptr
		case 0: when = pbt::fmt ("unique %d reset to a new object", i); { Obj* o = p.make (1); p.mu[i] = o->id; if (s.coin()) p.u[i]->reset (o); else *p.u[i] = o; } break;
		case 1: when = pbt::fmt ("unique %d moved to %d", i, j); *p.u[j] = std::move (*p.u[i]); if (i != j) { p.mu[j] = p.mu[i]; p.mu[i] = -1; } break;
		case 2: when = pbt::fmt ("unique %d swapped with %d", i, j); p.u[i]->swap (*p.u[j]); std::swap (p.mu[i], p.mu[j]); break;
		case 3: when = pbt::fmt ("unique %d reset", i); p.mu[i] = -1; if (s.coin()) p.u[i]->reset(); else *p.u[i] = nullptr; break;
		case 4: when = pbt::fmt ("unique %d released", i); { Obj* o = p.u[i]->release(); PBT_CHECK (o == (p.mu[i] < 0 ? nullptr : p.obj[p.mu[i]]), "release gave another"); if (o) p.loose.push_back (o); p.mu[i] = -1; } break;
		case 5: when = pbt::fmt ("unique %d made by moving %d", i, j); { auto np = new ustl::unique_ptr<Obj> (std::move (*p.u[j])); int m = p.mu[j]; p.mu[j] = -1; p.mu[i] = -1; p.u[i].reset(); p.u[i].reset (np); p.mu[i] = m; } break;
		case 6: when = pbt::fmt ("unique %d made with arguments", i); { auto t (ustl::make_unique<Obj> (3, ustl::string ("four"))); PBT_CHECK (t->val == 7, "arguments were not given to the constructor"); p.obj[t->id] = t.get(); p.mu[i] = t->id; *p.u[i] = std::move (t); } break;
		case 7: when = pbt::fmt ("unique %d destroyed", i); p.mu[i] = -1; p.u[i].reset(); p.u[i].reset (new ustl::unique_ptr<Obj>); break;
		// shared_ptr
		case 8: when = pbt::fmt ("shared %d reset to a new object", x); { Obj* o = p.make (2); p.ms[x] = o->id; if (s.coin()) p.sh[x]->reset (o); else *p.sh[x] = o; } break;
		case 9: when = pbt::fmt ("shared %d copied to %d", x, y); { const ustl::shared_ptr<Obj>& src (*p.sh[x]); *p.sh[y] = src; p.ms[y] = p.ms[x]; } break;
		case 10: when = pbt::fmt ("shared %d copy made from %d", y, x); { auto np = new ustl::shared_ptr<Obj> (*p.sh[x]); int m = p.ms[x]; p.sh[y].reset(); p.ms[y] = -1; p.sh[y].reset (np); p.ms[y] = m; } break;
		case 11: when = pbt::fmt ("shared %d moved to %d", x, y); *p.sh[y] = std::move (*p.sh[x]); std::swap (p.ms[x], p.ms[y]); break;	// documented by the code: the source keeps the other's object
		case 12: when = pbt::fmt ("shared %d swapped with %d", x, y); p.sh[x]->swap (*p.sh[y]); std::swap (p.ms[x], p.ms[y]); break;
		case 13: when = pbt::fmt ("shared %d reset", x); p.ms[x] = -1; if (s.coin()) p.sh[x]->reset(); else *p.sh[x] = nullptr; break;
		case 14: when = pbt::fmt ("shared %d made by moving %d", y, x); { auto np = new ustl::shared_ptr<Obj> (std::move (*p.sh[x])); int m = p.ms[x]; p.ms[x] = -1; p.ms[y] = -1; p.sh[y].reset(); p.sh[y].reset (np); p.ms[y] = m; } break;
		case 15: when = pbt::fmt ("shared %d made with arguments", x); { auto t (ustl::make_shared<Obj> (3, ustl::string ("four"))); PBT_CHECK (t->val == 7 && t.use_count() == 1, "made object"); p.obj[t->id] = t.get(); p.ms[x] = t->id; *p.sh[x] = t; } break;
		case 16: when = pbt::fmt ("shared %d destroyed", x); p.ms[x] = -1; p.sh[x].reset(); p.sh[x].reset (new ustl::shared_ptr<Obj>); break;
		// auto_ptr
		case 17: when = pbt::fmt ("auto %d reset to a new object", q); { Obj* o = p.make (3); p.ma[q] = o->id; if (s.coin()) p.a[q]->reset (o); else *p.a[q] = o; } break;
		case 18: when = pbt::fmt ("auto %d assigned to %d", q, w); *p.a[w] = *p.a[q]; if (q != w) { p.ma[w] = p.ma[q]; p.ma[q] = -1; } break;
		case 19: when = pbt::fmt ("auto %d made from %d", q, w); { auto np = new ustl::auto_ptr<Obj> (*p.a[w]); int m = p.ma[w]; p.ma[w] = -1; p.ma[q] = -1; p.a[q].reset(); p.a[q].reset (np); p.ma[q] = m; } break;
		case 20: when = pbt::fmt ("auto %d released", q); { Obj* o = p.a[q]->release(); PBT_CHECK (o == (p.ma[q] < 0 ? nullptr : p.obj[p.ma[q]]), "release gave another"); if (o) p.loose.push_back (o); p.ma[q] = -1; } break;
		case 21: when = pbt::fmt ("auto %d reset to what it holds, or nothing", q); if (s.coin()) p.a[q]->reset (p.a[q]->get()); else { p.ma[q] = -1; p.a[q]->reset (nullptr); } break;
		// arrays
		case 22: when = pbt::fmt ("array %d made", e); { size_t m = 1+s.below (4); p.mar[e] = -1; p.marn[e] = 0; int b = nobj(); auto t (ustl::make_unique<Obj[]> (m)); for (size_t z = 0; z < m; ++z) p.obj[t[z].id] = &t[z]; *p.ar[e] = std::move (t); p.mar[e] = b; p.marn[e] = int(m); } break;
		case 23: when = pbt::fmt ("array %d moved to %d", e, f); *p.ar[f] = std::move (*p.ar[e]); if (e != f) { p.mar[f] = p.mar[e]; p.marn[f] = p.marn[e]; p.mar[e] = -1; p.marn[e] = 0; } break;
		case 24: when = pbt::fmt ("array %d swapped with %d", e, f); p.ar[e]->swap (*p.ar[f]); std::swap (p.mar[e], p.mar[f]); std::swap (p.marn[e], p.marn[f]); break;
		case 25: when = pbt::fmt ("array %d reset", e); p.mar[e] = -1; p.marn[e] = 0; if (s.coin()) p.ar[e]->reset (nullptr); else *p.ar[e] = nullptr; break;
		case 26: when = pbt::fmt ("array %d released and taken back", e); { Obj* o = p.ar[e]->release(); PBT_CHECK (!*p.ar[e], "still holds"); p.ar[e]->reset (o); } break;
		// chains
		case 27: if (p.ms[x] < 0 || p.reaches (p.ms[y], p.ms[x])) continue; when = pbt::fmt ("next of shared %d is shared %d", x, y); { int own = p.ms[x]; (*p.sh[x])->next = *p.sh[y]; if (p.ms[y] < 0) p.mnext.erase (own); else p.mnext[own] = p.ms[y]; } break;
		case 28: if (p.ms[x] < 0 || p.mu[i] < 0 || p.reaches (p.mu[i], p.ms[x])) continue; when = pbt::fmt ("child of shared %d is unique %d", x, i); { int own = p.ms[x], c = p.mu[i]; p.mchild[own] = c; p.mu[i] = -1; (*p.sh[x])->child = std::move (*p.u[i]); } break;
		default: if (p.loose.empty()) continue; { Obj* o = p.loose.back(); p.loose.pop_back(); if (s.coin()) { when = "loose object deleted"; delete o; } else if (p.ms[x] < 0) { when = pbt::fmt ("loose object to shared %d", x); p.ms[x] = o->id; p.sh[x]->reset (o); } else { when = pbt::fmt ("loose object to unique %d", i); p.mu[i] = o->id; p.u[i]->reset (o); } } break;
	    }
	    note ("%s", when.c_str()); p.verify (when.c_str()); ++acts;
	    int gone1 = 0; for (auto& r : reg.recs) gone1 += r.gone; if (gone1 > gone0 && nobj() >= g0) ++drops;
	}
	reg.onGone = nullptr; for (Obj* o : p.loose) delete o;
	if (acts > 4 && drops > 1) s.nontrivial();
    }
    PBT_CHECK (reg.bad.empty(), "at the end: %s", reg.bad.c_str());
    for (size_t i = 0; i < reg.recs.size(); ++i) PBT_CHECK (reg.recs[i].gone == 1, "object %zu was destroyed %d times in the end", i, reg.recs[i].gone);
    reg.clear();
}
//}}}
//{{{ Scope guards and resources

struct Closer { std::vector<int>* log; int tag; void operator() (int r) const { log->push_back (r*10+tag); } };
typedef ustl::unique_resource<int,Closer> Res;
PBT_TEST (resources, 10)
{
    std::vector<int> log, want; std::unique_ptr<Res> r[3]; int val[3] = {-1,-1,-1}, tag[3] = {0,0,0}; bool on[3] = {}; int next = 1; size_t n = 1+s.below (25); unsigned acts = 0;
    auto end = [&](int i) { if (r[i] && on[i]) want.push_back (val[i]*10+tag[i]); on[i] = false; };
    for (size_t k = 0; k < n; ++k) {
	s.step(); int i = int(s.below (3)), j = int(s.below (3)); std::string when; bool live = bool(r[i]);
	switch (s.pick ({3,2,2,3,2,2,1,1})) {
	    case 0: { int v = next++, t = int(s.below (10)); when = pbt::fmt ("make %d of %d", i, v); end (i); r[i].reset(); switch (s.below (4)) { case 0: r[i].reset (new Res (ustl::make_unique_resource (int(v), Closer{&log,t}))); on[i] = true; break; case 1: r[i].reset (new Res (std::move (v), Closer{&log,t})); on[i] = true; break; case 2: { bool good = s.coin(); r[i].reset (new Res (ustl::make_unique_resource_checked (v, good ? -1 : v, Closer{&log,t}))); on[i] = good; break; } default: { int vv = v; r[i].reset (new Res (std::move (vv), Closer{&log,t}, false)); on[i] = false; } } val[i] = v; tag[i] = t; break; }
	    case 1: if (!live) continue; when = pbt::fmt ("reset %d", i); end (i); r[i]->reset(); break;
	    case 2: { if (!live) continue; int v = next++; when = pbt::fmt ("reset %d to %d", i, v); end (i); int vv = v; r[i]->reset (std::move (vv)); val[i] = v; on[i] = true; break; }
	    case 3: if (!live || !r[j] || i == j) continue; when = pbt::fmt ("move %d to %d", i, j); end (j); *r[j] = std::move (*r[i]); val[j] = val[i]; tag[j] = tag[i]; on[j] = on[i]; on[i] = false; break;
	    case 4: if (!live) continue; when = pbt::fmt ("release %d", i); { int v = r[i]->release(); PBT_CHECK (v == val[i], "released %d, not %d", v, val[i]); on[i] = false; } break;
	    case 5: if (!live) continue; when = pbt::fmt ("destroy %d", i); end (i); r[i].reset(); break;
	    case 6: if (!live) continue; when = pbt::fmt ("make %d by moving %d", j, i); { auto np = new Res (std::move (*r[i])); int v = val[i], t = tag[i]; bool o = on[i]; on[i] = false; end (j); r[j].reset(); r[j].reset (np); val[j] = v; tag[j] = t; on[j] = o; } break;
	    default: if (!live) continue; when = "get"; PBT_CHECK (r[i]->get() == val[i] && int(*r[i]) == val[i] && r[i]->get_deleter().tag == tag[i], "resource %d is %d of %d", i, r[i]->get(), r[i]->get_deleter().tag); break;
	}
	note ("%s", when.c_str()); ++acts;
	PBT_CHECK (log == want, "%s: %zu resources were let go, not %zu (or in another order)", when.c_str(), log.size(), want.size());
    }
    for (int i = 0; i < 3; ++i) { end (i); r[i].reset(); }
    PBT_CHECK (log == want, "at the end %zu resources were let go, not %zu", log.size(), want.size());
    if (acts > 5 && log.size() > 1) s.nontrivial();
}
struct GuardErr { int v; };
static void guards (Src& s, std::vector<int>& log, std::vector<int>& want, unsigned depth, bool& thrown)
{
    int id = int(log.size()+want.size()*100)+int(depth)*7; bool rel = s.chance (1,4), mv = s.chance (1,3), inner = depth < 6 && s.chance (2,3), thr = s.chance (1,8); size_t at = 0;
    try {
	auto g (ustl::make_scope_exit ([&log,id]{ log.push_back (id); }));
	if (mv) { bool early = rel && s.coin(); if (early) g.release(); auto h1 (std::move (g)); if (s.coin()) g.release(); auto h (std::move (h1)); if (rel && !early) h.release(); if (s.chance (1,4)) h1.release(); if (inner) guards (s, log, want, depth+1, thrown); at = log.size(); if (!rel) want.push_back (id); if (thr && !thrown) { thrown = true; throw GuardErr {id}; } }
	else { if (rel) g.release(); if (inner) guards (s, log, want, depth+1, thrown); at = log.size(); if (!rel) want.push_back (id); if (thr && !thrown) { thrown = true; throw GuardErr {id}; } }
    } catch (GuardErr& e) { PBT_CHECK (log.size() == at + !rel, "guards did not run while the exception passed"); }
    PBT_CHECK (log == want, "%zu guards ran at depth %u, not %zu", log.size(), depth, want.size());
}
PBT_TEST (scope_guards, 5)
{
    std::vector<int> log, want; bool thrown = false; guards (s, log, want, 0, thrown);
    if (want.size() > 1) s.nontrivial();
}
//}}}
//{{{ Concurrent programs

struct Start {	// spins: the threads must begin together
    std::atomic<unsigned> n; unsigned m; explicit Start (unsigned k) : n(0), m(k) {}
    void wait (void) { n.fetch_add (1); while (n.load() < m) ; }
};
template <typename F> static void together (unsigned n, F f)
{
    Start st (n); std::vector<std::thread> t; for (unsigned i = 0; i < n; ++i) t.emplace_back ([&st,&f,i]{ st.wait(); f (i); }); for (auto& x : t) x.join();
}
struct Counted { std::atomic<int>* gone; uint32_t magic; int payload[4]; explicit Counted (std::atomic<int>* g) : gone(g), magic(0x600df00d) { for (int i = 0; i < 4; ++i) payload[i] = i; } ~Counted (void) { gone->fetch_add (1); magic = 0; } };
typedef ustl::shared_ptr<Counted> CP;
enum { SL = 3 };
PBT_TEST (shared_threads, 2)
{
    const unsigned nt = 2+unsigned(s.below (5)), rounds = 4+unsigned(s.below (12)); const unsigned nobj = 1+unsigned(s.below (3));
    struct Op { uint8_t what, a, b; }; std::vector<std::vector<Op>> prog (nt); size_t total = 0;
    for (auto& p : prog) { size_t n = s.below (10); for (size_t i = 0; i < n; ++i) { p.push_back ({uint8_t(s.below (6)), uint8_t(s.below (SL)), uint8_t(s.below (SL))}); } total += n; }
    note ("%u threads, %u objects, %u rounds, %zu operations", nt, nobj, rounds, total);
    for (unsigned r = 0; r < rounds; ++r) {
	std::atomic<int> gone[3]; for (auto& g : gone) g = 0; std::atomic<int> bad (0);
	std::vector<CP> first; for (unsigned i = 0; i < nobj; ++i) first.push_back (CP (new Counted (&gone[i])));
	// every thread gets copies of its own before they start, and drops them by itself
	std::vector<std::vector<CP>> own (nt); for (unsigned t = 0; t < nt; ++t) for (unsigned i = 0; i < SL; ++i) own[t].push_back (first[i % nobj]);
	size_t expect[3] = {0,0,0}; for (unsigned t = 0; t < nt; ++t) for (unsigned i = 0; i < SL; ++i) ++expect[i % nobj];
	for (unsigned i = 0; i < nobj; ++i) PBT_CHECK (first[i].use_count() == expect[i]+1, "use count is %zu, not %zu", first[i].use_count(), expect[i]+1);
	first.clear();
	together (nt, [&](unsigned t) {
	    std::vector<CP>& c (own[t]);
	    for (const Op& o : prog[t]) {
		switch (o.what) {
		    case 0: c[o.a] = c[o.b]; break;
		    case 1: { CP x (c[o.a]); if (x && x->magic != 0x600df00d) bad = 1; break; }
		    case 2: c[o.a].reset(); break;
		    case 3: c[o.a].swap (c[o.b]); break;
		    case 4: { CP x (c[o.a]), y (std::move (x)); c[o.b] = y; break; }
		    default: if (c[o.a] && (c[o.a]->magic != 0x600df00d || c[o.a]->payload[3] != 3 || !c[o.a].use_count())) bad = 1; break;
		}
	    }
	    for (auto& x : c) { if (x && x->magic != 0x600df00d) bad = 1; x.reset(); }
	});
	PBT_CHECK (!bad, "an object was destroyed while owned");
	for (unsigned i = 0; i < nobj; ++i) PBT_CHECK (gone[i] == 1, "object %u was destroyed %d times", i, gone[i].load());
    }
    if (total > 3) s.nontrivial();
}
template <typename T> static void atomics (Src& s)
{
    const unsigned nt = 2+unsigned(s.below (5)), reps = 20+unsigned(s.below (200)); T init = T(s.bits64()); ustl::atomic<T> sum (init), bits (0), xr (init), cas (init), mx (0);
    std::vector<T> add (nt), val (nt); for (auto& v : add) v = T(s.below (100)); for (unsigned i = 0; i < nt; ++i) val[i] = T(T(1) << i); unsigned how = unsigned(s.below (8)); note ("%u threads, %u repetitions, way %u", nt, reps, how);
    std::vector<std::vector<T>> taken (nt); ustl::atomic<T> token (0); std::atomic<int> bad (0);
    std::vector<std::vector<T>> prev (nt);
    together (nt, [&](unsigned t) {
	for (unsigned r = 0; r < reps; ++r) {
	    switch (how) {
		case 0: sum += add[t]; break; case 1: sum.fetch_add (add[t]); break; case 2: sum.add_fetch (add[t]); break; case 3: sum -= T(-add[t]); break;
		case 4: for (T i = 0; i < add[t] % 8; ++i) ++sum; for (T i = add[t] % 8; i < add[t]; ++i) sum++; break;
		case 5: sum.sub_fetch (T(-add[t])); break; case 6: sum.fetch_sub (T(-add[t])); break;
		default: for (T i = 0; i < add[t]; ++i) { if (r % 2) { --sum; sum--; ++sum; } else sum++; if (r % 2) { sum++; ++sum; } } break;
	    }
	    if (r % 2) bits |= val[t]; else bits.fetch_or (val[t]);
	    switch (r % 3) { case 0: xr ^= T(r*31+t); break; case 1: xr.fetch_xor (T(r*31+t)); break; default: xr.xor_fetch (T(r*31+t)); }
	    T e = cas.load(); if (r % 2) { while (!cas.compare_exchange_weak (e, T(e+add[t]))) ; } else { while (!cas.compare_exchange_strong (e, T(e+add[t]), ustl::memory_order_seq_cst, ustl::memory_order_seq_cst)) ; }
	    prev[t].push_back (token.exchange (T(1+t*reps+r)));
	    if (r+1 == reps) { if (t % 2) bits &= T(~val[t]); else bits.fetch_and (T(~val[t])); T l (bits); if (l & val[t]) bad = 1; }
	}
    });
    T es = init, ex = init; for (unsigned t = 0; t < nt; ++t) for (unsigned r = 0; r < reps; ++r) { es = T(es+add[t]); ex = T(ex ^ T(r*31+t)); }
    PBT_CHECK (sum.load() == es, "sum is %llu, not %llu", (unsigned long long)(sum.load()), (unsigned long long)(es));
    PBT_CHECK (T(cas) == es, "exchanged sum is %llu, not %llu", (unsigned long long)(cas.load()), (unsigned long long)(es));
    PBT_CHECK (xr.load() == ex, "exclusive or is %llu, not %llu", (unsigned long long)(xr.load()), (unsigned long long)(ex));
    PBT_CHECK (!bad && bits.load() == 0, "bits are %llx", (unsigned long long)(bits.load()));
    // every value put in with exchange comes out once, or stays
    std::vector<T> all; for (auto& v : prev) all.insert (all.end(), v.begin(), v.end()); all.push_back (token.load()); std::sort (all.begin(), all.end()); std::vector<T> ea (1, T(0)); for (unsigned i = 0; i < nt*reps; ++i) ea.push_back (T(1+i)); std::sort (ea.begin(), ea.end());
    PBT_CHECK (all == ea, "exchanged values were lost or came twice");
    if (reps > 20) s.nontrivial();
}
PBT_TEST (atomic_threads, 1)
{
    switch (s.below (6)) {
	case 0: return atomics<uint32_t> (s); case 1: return atomics<int> (s); case 2: return atomics<uint64_t> (s); case 3: return atomics<uint16_t> (s); case 4: return atomics<uint8_t> (s); default: return atomics<size_t> (s);
    }
}
PBT_TEST (flag_threads, 1)
{
    const unsigned nt = 2+unsigned(s.below (5)), reps = 10+unsigned(s.below (60)); ustl::atomic_flag f (false); long counter = 0; int tas = 0; unsigned how = unsigned(s.below (2)); note ("%u threads, %u repetitions, lock %u", nt, reps, how);
    if (how) { PBT_CHECK (!f.test_and_set() && f.test_and_set(), "flag does not stay set"); f.clear(); PBT_CHECK (!f.test_and_set(), "flag stays set after clear"); f.clear(); }
    together (nt, [&](unsigned) {
	for (unsigned r = 0; r < reps; ++r) {
	    while (f.test_and_set (ustl::memory_order_acquire)) std::this_thread::yield();
	    ++counter;
	    f.clear (ustl::memory_order_release);
	}
    });
    PBT_CHECK (counter == long(nt)*long(reps), "%ld increments under the lock, not %u", counter, nt*reps);
    (void) tas; if (reps > 20) s.nontrivial();
}
/// Values handed over with release and acquire carry everything written before.
PBT_TEST (handover, 1)
{
    const unsigned n = 1+unsigned(s.below (60)); ustl::atomic<uint32_t> turn (0); std::vector<int> data (n, 0); std::atomic<int> bad (0); bool x = s.coin(); note ("%u values", n);
    together (2, [&](unsigned t) {
	for (unsigned i = 0; i < n; ++i) {
	    if (t) { while (turn.load (ustl::memory_order_acquire) != 2*i+1) std::this_thread::yield(); if (data[i] != int(i)+1) bad = 1; turn.store (2*i+2, ustl::memory_order_release); }
	    else { data[i] = int(i)+1; if (x) turn.store (2*i+1, ustl::memory_order_release); else turn.fetch_add (1, ustl::memory_order_acq_rel); while (turn.load (ustl::memory_order_acquire) != 2*i+2) std::this_thread::yield(); }
	}
    });
    PBT_CHECK (!bad, "a value was not there when handed over"); if (n > 2) s.nontrivial();
}
/// The result of each single operation.
template <typename T> static void atomicOps (Src& s)
{
    T m = T(s.bits64()); ustl::atomic<T> a (m); size_t n = 1+s.below (30);
    for (size_t k = 0; k < n; ++k) {
	s.step(); T v = T(s.coin() ? s.bits64() : s.below (4)), o = m, r = 0, e = 0; std::string when;
	switch (s.below (24)) {
	    case 0: when = "fetch_add"; r = a.fetch_add (v); m = T(m+v); e = o; break; case 1: when = "fetch_sub"; r = a.fetch_sub (v); m = T(m-v); e = o; break;
	    case 2: when = "fetch_and"; r = a.fetch_and (v); m = T(m&v); e = o; break; case 3: when = "fetch_or"; r = a.fetch_or (v); m = T(m|v); e = o; break; case 4: when = "fetch_xor"; r = a.fetch_xor (v); m = T(m^v); e = o; break;
	    case 5: when = "add_fetch"; r = a.add_fetch (v); m = T(m+v); e = m; break; case 6: when = "sub_fetch"; r = a.sub_fetch (v); m = T(m-v); e = m; break;
	    case 7: when = "and_fetch"; r = a.and_fetch (v); m = T(m&v); e = m; break; case 8: when = "or_fetch"; r = a.or_fetch (v); m = T(m|v); e = m; break; case 9: when = "xor_fetch"; r = a.xor_fetch (v); m = T(m^v); e = m; break;
	    case 10: when = "exchange"; r = a.exchange (v); m = v; e = o; break; case 11: when = "store"; a.store (v); m = v; break; case 12: when = "="; a = v; m = v; break;
	    case 13: when = "++"; r = T(++a); m = T(m+1); e = m; break; case 14: when = "--"; r = T(--a); m = T(m-1); e = m; break; case 15: when = "postfix ++"; r = T(a++); m = T(m+1); e = o; break; case 16: when = "postfix --"; r = T(a--); m = T(m-1); e = o; break;
	    case 17: when = "+="; r = T(a += v); m = T(m+v); e = m; break; case 18: when = "-="; r = T(a -= v); m = T(m-v); e = m; break; case 19: when = "&="; r = T(a &= v); m = T(m&v); e = m; break; case 20: when = "|="; r = T(a |= v); m = T(m|v); e = m; break; case 21: when = "^="; r = T(a ^= v); m = T(m^v); e = m; break;
	    case 22: { when = "compare_exchange_strong"; T x = s.coin() ? m : v; bool eq = x == m, g = a.compare_exchange_strong (x, v, ustl::memory_order_acq_rel, ustl::memory_order_acquire); PBT_CHECK (g == eq && x == o, "compare_exchange_strong gave %d", g); if (eq) m = v; break; }
	    default: { when = "compare_exchange_weak"; T x = T(m+1+T(s.below (3))); if (x == m) break; PBT_CHECK (!a.compare_exchange_weak (x, v) && x == m, "compare_exchange_weak changed another value"); unsigned tries = 0; while (!a.compare_exchange_weak (x, v, ustl::memory_order_seq_cst, ustl::memory_order_relaxed)) { PBT_CHECK (x == m && ++tries < 10000, "compare_exchange_weak never changes"); } m = v; break; }
	}
	note ("%s %llu", when.c_str(), (unsigned long long)(v)); PBT_CHECK (r == e, "%s gave %llu, not %llu", when.c_str(), (unsigned long long)(r), (unsigned long long)(e)); PBT_CHECK (a.load() == m && T(a) == m, "%s left %llu, not %llu", when.c_str(), (unsigned long long)(a.load()), (unsigned long long)(m));
    }
    PBT_CHECK (a.is_lock_free() && sizeof(a) == sizeof(T), "not lock free"); if (n > 3) s.nontrivial();
}
PBT_TEST (atomic_results, 5)
{
    switch (s.below (6)) { case 0: return atomicOps<uint8_t> (s); case 1: return atomicOps<int16_t> (s); case 2: return atomicOps<uint32_t> (s); case 3: return atomicOps<int> (s); case 4: return atomicOps<uint64_t> (s); default: return atomicOps<long> (s); }
}
//}}}
