// C18: files hold and give exactly the bytes transferred, whatever the system calls do.
#include <limits>
#include "uh.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/ioctl.h>

typedef ustl::ios_base B;

//{{{ Faults -----------------------------------------------------------

enum Kind { RD, WR, SY, CL, SK, MM };
enum Act { full_, part, intr, again, err, zero };
struct Call { Kind k; long ret; int e; bool injected; };
static struct Faults {
    bool on; std::vector<unsigned> plan; size_t next; std::vector<Call> log; bool hard;
    unsigned act (void) { return next < plan.size() ? plan[next++] : 0; }
    void start (void) { log.clear(); on = true; }
    void stop (void) { on = false; }
    long done (Kind k) const { long t = 0; for (auto& c : log) if (c.k == k && c.ret > 0) t += c.ret; return t; }
    const Call* last (Kind k) const { for (size_t i = log.size(); i--;) if (log[i].k == k) return &log[i]; return nullptr; }
    bool hit (int e) const { for (auto& c : log) if (c.ret < 0 && c.e == e) return true; return false; }
    bool failed_already (void) const { for (auto& c : log) if (c.ret < 0 && c.e != EINTR && c.e != EAGAIN) return true; return false; }	// a failing close while unwinding is asserted against
    unsigned injected (void) const { unsigned n = 0; for (auto& c : log) n += c.injected; return n; }
} F;
static unsigned totalinj;
static const int rderrs[] = { EIO, EISDIR, ENXIO, EBADF }, wrerrs[] = { ENOSPC, EIO, EPIPE, EDQUOT, EFBIG };
static long logged (Kind k, long r, bool inj) { F.log.push_back (Call { k, r, r < 0 ? errno : 0, inj }); totalinj += inj; return r; }
static long failed (Kind k, int e) { errno = e; return logged (k, -1, true); }
/// Stands in for the three standard descriptors, when on.
static struct Std { bool on; std::string in, out[3]; size_t taken, cap, due; bool late, closed; std::string missing; } ST;
extern "C" {
ssize_t __real_read (int, void*, size_t); ssize_t __real_write (int, const void*, size_t); int __real_fsync (int); int __real_close (int); off_t __real_lseek (int, off_t, int); void* __real_mmap (void*, size_t, int, int, int, off_t);
ssize_t __wrap_read (int fd, void* p, size_t n)
{
    if (ST.on && fd == STDIN_FILENO) { if (ST.out[1].size() < ST.due) ST.late = true; n = std::min (std::min (n, ST.cap), ST.in.size()-ST.taken); memcpy (p, ST.in.data()+ST.taken, n); ST.taken += n; return n; }
    if (!F.on) return __real_read (fd, p, n);
    unsigned a = F.act(); switch (a%8) { case part: if (n > 1) return logged (RD, __real_read (fd, p, 1+(a/8)%(n-1)), true); break; case intr: return failed (RD, EINTR); case again: return failed (RD, EAGAIN); case err: return failed (RD, rderrs[a/8%4]); }
    return logged (RD, __real_read (fd, p, n), false);
}
ssize_t __wrap_write (int fd, const void* p, size_t n)
{
    if (ST.on && (fd == STDOUT_FILENO || fd == STDERR_FILENO)) { n = std::min (n, ST.cap); ST.out[fd].append ((const char*) p, n); return n; }
    if (!F.on) return __real_write (fd, p, n);
    unsigned a = F.act(); switch (a%8) { case part: if (n > 1) return logged (WR, __real_write (fd, p, 1+(a/8)%(n-1)), true); break; case intr: return failed (WR, EINTR); case again: return failed (WR, EAGAIN); case err: return failed (WR, wrerrs[a/8%5]); case zero: return logged (WR, 0, true); }
    return logged (WR, __real_write (fd, p, n), false);
}
int __wrap_fsync (int fd) { if (!F.on) return __real_fsync (fd); unsigned a = F.act(); if (a%8 == err) return failed (SY, EIO); return logged (SY, __real_fsync (fd), false); }
int __wrap_close (int fd) { if (ST.on && fd <= STDERR_FILENO) { ST.closed = true; return 0; } if (!F.on) return __real_close (fd); unsigned a = F.act(); if (a%8 == err && !F.failed_already()) { __real_close (fd); return failed (CL, EIO); } return logged (CL, __real_close (fd), false); }
off_t __wrap_lseek (int fd, off_t o, int w) { if (!F.on) return __real_lseek (fd, o, w); return logged (SK, __real_lseek (fd, o, w), false); }
void* __wrap_mmap (void* a, size_t n, int p, int f, int fd, off_t o) { if (!F.on || fd < 0) return __real_mmap (a, n, p, f, fd, o); if (F.act()%8 == err) { failed (MM, ENOMEM); return MAP_FAILED; } void* r = __real_mmap (a, n, p, f, fd, o); logged (MM, r == MAP_FAILED ? -1 : 0, false); return r; }
}
struct Injecting { Injecting (void) { F.start(); } ~Injecting (void) { F.stop(); } };
/// Makes the plan of what the coming calls do; kinds of faults allowed by mask.
static void plan (Src& s, size_t n, bool eagain, bool hard, bool zeros = false)
{
    F.on = false; F.next = 0; F.log.clear(); F.plan.clear(); totalinj = 0; if (s.chance (1,5)) return;
    for (size_t i = 0; i < n; ++i) { unsigned a = 0; switch (s.pick ({6,6,3,2,1,1})) { case 1: a = part+8*(s.coin() ? s.below (4) : s.below (5000)); break; case 2: a = intr; break; case 3: if (eagain) a = again; break; case 4: if (hard) a = err+8*s.below (5); break; case 5: if (zeros) a = zero; } F.plan.push_back (a); }
}
//}}}
/// A file without a name.
struct File {
    int fd; char path [40];
    File (void) { fd = memfd_create ("c18", 0); if (fd < 0) pbt::fail ("memfd_create failed"); snprintf (path, sizeof path, "/proc/self/fd/%d", fd); }
    ~File (void) { ::close (fd); }
    File (const File&) = delete;
    std::string content (void) const { struct stat st; fstat (fd, &st); std::string r (st.st_size, 0); if (r.size() && pread (fd, &r[0], r.size(), 0) != ssize_t(r.size())) pbt::fail ("pread failed"); return r; }
    void fill (const std::string& t) { if (ftruncate (fd, 0) || pwrite (fd, t.data(), t.size(), 0) != ssize_t(t.size())) pbt::fail ("pwrite failed"); }
};
static std::string bytes (Src& s, size_t max)
{
    size_t n = s.chance (1,5) ? s.below (max+1) : s.len (max < 200 ? max : 200); std::string r (n, 0); unsigned b = s.below (256), m = s.below (3);
    for (size_t i = 0; i < n; ++i) r[i] = m == 0 ? char('a'+(b+i)%26) : m == 1 ? char(b+i*7+(i>>8)) : char(pbt::mix (b+i)); return r;
}
static void same (const std::string& got, const std::string& want, const char* what)
{
    if (got == want) return;
    size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
    pbt::fail (pbt::fmt ("%s: %zu bytes instead of %zu, first difference at %zu: '%s' instead of '%s'", what, got.size(), want.size(), i, pbt::esc (got.substr (i, 20)).c_str(), pbt::esc (want.substr (i, 20)).c_str()));
}
static const uint32_t masks[] = { 0, 0, B::failbit, B::badbit, B::eofbit, B::allbadbits };

/// Histories of a raw file stream against a byte image and the log of what the system calls did.
PBT_TEST (raw, 5)
{
    File f; std::string img (bytes (s, 6000)), name; f.fill (img); plan (s, 60, true, true, true); const bool faults = !F.plan.empty();
    ustl::fstream* st = nullptr; size_t pos = 0; bool rd = false, wr = false, app = false; uint32_t mask = s.among (masks); unsigned n = 2+s.len (25), moved = 0;
    auto reopen = [&] (void) {
	static const uint32_t modes[] = { B::in|B::out, B::in|B::out, B::in, B::out, B::in|B::out|B::trunc, B::out|B::trunc, B::out|B::app, B::in|B::out|B::app, B::in|B::out|B::nocreate, B::out|B::nonblock };
	uint32_t m = s.among (modes); bool second = st && s.coin(), missing = s.chance (1,10); note ("open with mode %x%s%s", m, second ? " while open" : "", missing ? ", missing" : ""); const char* p = missing ? "/proc/self/fd/9999" : f.path; name = p;
	if (!second) { delete st; st = nullptr; st = new ustl::fstream; st->exceptions (mask); } st->clear();
	bool thrown = false; int before = st->fd(); { Injecting in; try { st->open (p, m|(missing ? B::nocreate : 0)); } catch (ustl::file_exception& e) { thrown = true; F.stop(); PBT_CHECK (e.Errno() == (F.hit (EIO) ? EIO : ENOENT), "the exception says %d", e.Errno()); } } bool cfail = F.hit (EIO);
	PBT_CHECK (!(missing || cfail) || st->bad(), "a failed open left the state at %x", unsigned(st->rdstate())); PBT_CHECK (missing || cfail || st->good(), "open left the state at %x", unsigned(st->rdstate())); PBT_CHECK (thrown == bool((st->rdstate() & mask) && (missing || cfail)), "open threw %d with state %x and mask %x", thrown, unsigned(st->rdstate()), mask);
	PBT_CHECK (thrown || st->is_open() == !missing, "after opening a %s file, the stream is open: %d", missing ? "missing" : "good", st->is_open());
	if (!thrown || (missing && !cfail)) PBT_CHECK (!strcmp (st->name().c_str(), name.c_str()), "the file is called '%s', not '%s'", st->name().c_str(), name.c_str());
	if (!missing && (m & B::trunc)) img.clear();	// open truncates before the previous file is closed
	if (!st->is_open()) { rd = wr = false; return; } pos = 0; rd = m & B::in; wr = m & B::out; app = m & B::app; PBT_CHECK (fcntl (st->fd(), F_GETFD) >= 0, "the stream has a closed file descriptor"); (void) before; };
    reopen();
    for (unsigned i = 0; i < n; ++i) {
	s.step(); if (s.chance (4,5)) st->clear(); const uint32_t was = st->rdstate(); unsigned op = s.pick ({8,8,5,6,2,2,2,1,2,2,1}); bool thrown = false, open = st->is_open(); int eno = 0; char ekind = 0; long ret = -7; uh::exact<char> b (s.chance (1,8) ? 1+s.below (9000) : s.len (300)); size_t nb = b.size(); std::string data; off_t seekto = 0; unsigned whence = 0; const char* nm = "";
	const bool offend = op == 3 && s.chance (1,12);
	if (op == 0) { data = bytes (s, 9000); } if (op == 3) { whence = s.below (3); seekto = long(s.below (img.size()+20)); if (whence == 1) seekto -= long(pos); if (whence == 2) seekto -= long(img.size()); if (offend) { whence = 0; seekto = -1-long(s.below (9)); } }
	{ Injecting in; try { switch (op) {
	    case 0: nm = "write"; ret = st->write (data.data(), data.size()); break;
	    case 1: nm = "read"; if (!was || nb == 0) ret = st->read (b.begin(), nb); else { F.stop(); st->clear(); F.start(); ret = st->read (b.begin(), nb); } break;
	    case 2: nm = "readsome"; ret = st->readsome (b.begin(), nb ? nb : (nb = 0)); break;
	    case 3: nm = "seek"; if (s.coin()) ret = st->seek (seekto, B::seekdir (whence)); else { if (s.coin()) st->seekg (seekto, B::seekdir (whence)); else st->seekp (seekto, B::seekdir (whence)); ret = -8; } break;
	    case 4: nm = "size"; ret = open ? long(st->size()) : 0; break;
	    case 5: nm = "sync"; if (s.coin()) st->sync(); else st->flush(); break;
	    case 6: nm = "pos"; ret = s.coin() ? st->pos() : s.coin() ? st->tellg() : st->tellp(); break;
	    case 7: nm = "close"; st->close(); break;
	    case 8: nm = "reopen"; F.stop(); reopen(); break;
	    case 9: nm = "mmap"; if (rd && wr && img.size()) { size_t want = 1+s.below (img.size()); ustl::memlink l (st->mmap (want)); F.stop(); if (F.hit (ENOMEM)) PBT_CHECK (!l.size() && !l.data() && st->fail(), "a failed mapping has %zu bytes", size_t(l.size())); else { PBT_CHECK (l.size() == want && !memcmp (l.data(), img.data(), want), "the mapping differs from the file"); size_t o = s.below (want); ((char*) l.data())[o] = 'M'; img[o] = 'M'; F.start(); st->msync (l); st->munmap (l); PBT_CHECK (!l.size() && st->rdstate() == was, "munmap left %zu bytes and state %x", size_t(l.size()), unsigned(st->rdstate())); } } break;
	    default: nm = "control"; if (open) { ret = st->fcntl (FCNTLID (F_GETFL)); st->set_nonblock (true); int fl = fcntl (st->fd(), F_GETFL); st->set_nonblock (false); int fn = fcntl (st->fd(), F_GETFL); F.stop(); PBT_CHECK ((fl & O_NONBLOCK) && !(fn & O_NONBLOCK) && st->rdstate() == was, "set_nonblock gave flags %x and %x", fl, fn); } }
	    } catch (ustl::file_exception& e) { F.stop(); thrown = true; ekind = 'f'; eno = e.Errno(); PBT_CHECK (!strcmp (e.Filename(), name.c_str()) || !open, "the exception names '%s'", e.Filename()); }
	      catch (ustl::stream_bounds_exception& e) { F.stop(); thrown = true; ekind = 'b'; } }
	const uint32_t now = st->rdstate(), fresh = now; note ("%s of %zu: %ld, state %x%s; %zu calls, %u injected", nm, op ? nb : data.size(), ret, now, thrown ? ", thrown" : "", F.log.size(), F.injected());
	if (op != 8) PBT_CHECK (!thrown || (now & mask), "%s threw with state %x and mask %x", nm, now, mask);
	bool reported = false;
	switch (op) {
	    case 0: { long t = F.done (WR); const Call* c = F.last (WR); PBT_CHECK (thrown || ret == t, "write returned %ld, %ld bytes went to the file", ret, t); bool complete = t == long(data.size());
		if (app && t) pos = img.size(); if (t) { if (pos+t > img.size()) img.resize (pos+t); memcpy (&img[pos], data.data(), t); pos += t; ++moved; }
		PBT_CHECK (complete || (c && ((c->ret < 0 && c->e != EINTR) || !c->ret)), "write of %zu bytes stopped after %ld without a reason", data.size(), t);
		if (complete) PBT_CHECK (!thrown && now == was, "a complete write changed the state from %x to %x", was, now);
		else { reported = c->e != EAGAIN; PBT_CHECK (reported == bool(now & (B::failbit|B::badbit)) || was, "an incomplete write, errno %d, left the state at %x", c->e, now); if (thrown && c->ret < 0) PBT_CHECK (ekind == 'f' && eno == c->e, "write failed with %d, the exception says %d", c->e, eno); } break; }
	    case 1: case 2: { long t = F.done (RD); const Call* c = F.last (RD); PBT_CHECK (thrown || ret == t, "%s returned %ld, %ld bytes came from the file", nm, ret, t); PBT_CHECK (!t || !memcmp (b.begin(), img.data()+pos, t), "%s gave other bytes than the file has at %zu", nm, pos); pos += t; moved += t > 0;
		if (op == 1) PBT_CHECK (t == long(nb) || (c && ((c->ret < 0 && c->e != EINTR && c->e != EAGAIN) || !c->ret)), "read of %zu bytes stopped after %ld without a reason", nb, t);
		if (t == long(nb) && nb) PBT_CHECK (!thrown && (now == was || op == 1), "a complete %s changed the state from %x to %x", nm, was, now);
		if (c && !c->ret && nb) { reported = true; PBT_CHECK (now & B::eofbit, "%s at the end left the state at %x", nm, now); }
		if (c && c->ret < 0 && c->e != EAGAIN && c->e != EINTR) { reported = true; PBT_CHECK (now & (B::failbit|B::badbit), "%s failed with %d and left the state at %x", nm, c->e, now); if (thrown) PBT_CHECK (ekind == 'f' && eno == c->e, "%s failed with %d, the exception says %d", nm, c->e, eno); } break; }
	    case 3: { bool bad = !open || offend; reported = bad; if (bad) PBT_CHECK ((now & B::failbit) && (thrown || ret < 0), "a seek that can not be done returned %ld", ret); else { pos = whence == 0 ? seekto : whence == 1 ? long(pos)+seekto : long(img.size())+seekto; PBT_CHECK (!thrown && now == was && (ret == long(pos) || ret == -8), "seek returned %ld, not %zu", ret, pos); } break; }
	    case 4: PBT_CHECK (!open || ret == long(img.size()), "the size is %ld, not %zu", ret, img.size()); break;
	    case 5: { reported = F.hit (EIO) || !open; PBT_CHECK (!reported == !(now & ~was) || (was && reported), "sync left the state at %x", now); break; }
	    case 6: PBT_CHECK (ret == (open ? long(pos) : -1l), "the position is %ld, not %zu", ret, pos); break;
	    case 7: reported = F.hit (EIO); PBT_CHECK (!st->is_open() && (reported ? bool(now & B::badbit) : now == was), "close left the state at %x, open %d", now, st->is_open()); { int k = 0; for (auto& c : F.log) k += c.k == CL; PBT_CHECK (k == int(open), "close closed %d times", k); } break; }
	if (op != 8 && op < 9 && reported && !was) PBT_CHECK (thrown == bool(fresh & mask), "%s left state %x, threw %d with mask %x", nm, fresh, thrown, mask);
	if (st->is_open() && op != 8) { off_t p = lseek (st->fd(), 0, SEEK_CUR); PBT_CHECK (p == off_t(pos), "%s left the file at %ld, not %zu", nm, long(p), pos); }
	same (f.content(), img, nm);
	if (op == 7) { F.stop(); if (st->is_open()) st->detach(); reopen(); } }
    { int fd = st->fd(); st->clear(); if (s.coin() && fd >= 0) { st->detach(); PBT_CHECK (!st->is_open() && fcntl (fd, F_GETFD) >= 0, "detach closed the file"); ::close (fd); } delete st; if (fd >= 0) PBT_CHECK (fcntl (fd, F_GETFD) < 0, "the destructor left the file open"); }
    if (moved > 2 && (!faults || totalinj)) s.nontrivial(); if (totalinj) label ("faulty");
}

/// Buffered text output: the file gets the text, or a beginning of it and the stream says so.
PBT_TEST (output, 5)
{
    File f; std::string text; bool hard = s.coin(); plan (s, 80, true, hard, false); const bool faults = !F.plan.empty(); unsigned mask = s.chance (1,3) ? uint32_t(B::allbadbits) : 0, n = 2+s.len (30), threw = 0, flushed = 0; size_t at = 0, unit = 0; bool seeks = !hard && s.coin();
    std::string old; if (s.coin()) { old = bytes (s, 3000); f.fill (old); text = old; }	// without trunc, the old text stays
    ustl::ofstream* os = s.coin() ? new ustl::ofstream (f.path) : new ustl::ofstream (open (f.path, O_WRONLY)); if (s.chance (1,6)) { os->close(); os->open (f.path, s.coin() ? B::out : B::out|B::in); } os->exceptions (mask);
    auto put = [&] (const std::string& t) { if (at+t.size() > text.size()) text.resize (at+t.size()); memcpy (&text[at], t.data(), t.size()); at += t.size(); };
    for (unsigned i = 0; i < n; ++i) {
	s.step(); std::string before (text); size_t at0 = at; unsigned op = s.pick ({6,4,3,2,3,1,unsigned(seeks*2)}); bool thrown = false; int eno = 0; std::string t; bool whole = false; off_t to = 0; int v = int(s.bits64());
	switch (op) { case 0: t = bytes (s, s.chance (1,4) ? 12000 : 600); put (t); break; case 1: { char b[40]; snprintf (b, sizeof b, "%d", v); put (b); break; } case 2: { t = bytes (s, 300); for (auto& c : t) if (!c || (unsigned char) c > 126) c = 'x'; char b[40]; snprintf (b, sizeof b, "%d", v); put ("["+t+"|"+b+"]"); break; } case 3: put ("\n"); break; case 6: to = s.below (text.size()+1); break; }
	{ Injecting in; try { switch (op) {
	    case 0: if (s.coin()) os->write (t.data(), t.size()); else *os << ustl::string (t.data(), t.size()); break;
	    case 1: *os << v; break;
	    case 2: os->format ("[%s|%d]", t.c_str(), v); break;
	    case 3: *os << ustl::endl; whole = true; break;
	    case 4: os->flush(); whole = true; break;
	    case 5: *os << ustl::flush; whole = true; break;
	    case 6: { unsigned wh = s.below (3); os->seekp (wh == 0 ? to : wh == 1 ? to-off_t(at) : to-off_t(text.size()), B::seekdir (wh)); whole = true; at = to; break; } }
	    } catch (ustl::file_exception& e) { thrown = true; eno = e.Errno(); ++threw; } catch (ustl::stream_bounds_exception&) { thrown = true; ++threw; } }
	int hit = 0; for (auto& c : F.log) if (c.k == WR && c.ret < 0 && c.e != EINTR && c.e != EAGAIN) { hit = c.e; break; }
	note ("output %u: %zu bytes of text, state %x%s, %zu calls, %u injected, error %d", op, text.size(), unsigned(os->rdstate()), thrown ? ", thrown" : "", F.log.size(), F.injected(), hit);
	PBT_CHECK (!hit == !(os->rdstate() & (B::failbit|B::badbit)), "writing failed with %d, the state is %x", hit, unsigned(os->rdstate())); PBT_CHECK (thrown == bool(hit && mask), "writing failed with %d, threw %d", hit, thrown); PBT_CHECK (!thrown || !eno || eno == hit, "writing failed with %d, the exception says %d", hit, eno);
	std::string file (f.content()); size_t nbuf = os->pos(); std::string buf ((const char*) os->cdata(), nbuf);
	if (whole && !hit) { PBT_CHECK (!nbuf, "%zu bytes remain after a flush", nbuf); same (file, text, "flushed file"); ++flushed; if (op != 6) { off_t p = os->tellp(); PBT_CHECK (p == off_t(at), "tellp is %ld, not %zu", long(p), at); } }
	else { // what is in the file and what is buffered make up the text so far, possibly without the end of the last piece
	    size_t o = lseek (os->fd(), 0, SEEK_CUR); std::string both (file); if (o+nbuf > both.size()) both.resize (o+nbuf); memcpy (&both[o], buf.data(), nbuf); size_t end = o+nbuf;
	    if (!hit) { same (both, text, "written and buffered text"); PBT_CHECK (off_t(os->tellp()) == off_t(at), "tellp is %ld, not %zu", long(os->tellp()), at); }
	    else { PBT_CHECK (end >= at0 && end <= at, "after a failed write %zu bytes are accounted for, not %zu to %zu", end, at0, at); std::string w (before); if (end > w.size()) w.resize (end); memcpy (&w[at0], text.data()+at0, end-at0); same (both, w, "written and buffered text after a failure"); text = w; at = end; } }
	if (hit) os->clear();
	unit += !F.log.empty(); }
    if (s.coin()) { bool thrown = false; { Injecting in; try { os->close(); } catch (ustl::file_exception&) { thrown = true; } } if (F.hit (EIO) || F.hit (ENOSPC) || F.hit (EPIPE) || F.hit (EDQUOT) || F.hit (EFBIG)) PBT_CHECK ((os->fail() || thrown) && thrown == bool(mask), "close failed, the state is %x, threw %d", unsigned(os->rdstate()), thrown); else { PBT_CHECK (!thrown && os->good() && !os->is_open(), "close left the state at %x", unsigned(os->rdstate())); same (f.content(), text, "closed file"); }
	os->clear(); F.stop(); delete os; }
    else { { Injecting in; for (size_t i = F.next; i < F.plan.size(); ++i) if (F.plan[i]%8 == err) F.plan[i] = 0; delete os; } same (f.content(), text, "file after the destructor"); }
    if (flushed && text.size() > 200 && (!faults || totalinj)) s.nontrivial(); if (totalinj) label ("faulty"); if (threw) label ("threw");
}

/// Buffered text input: everything read is what the file has, in order, with nothing left out.
PBT_TEST (input, 5)
{
    File f; std::string img (bytes (s, s.chance (1,3) ? 15000 : 2000)); const bool big = s.chance (1,80); if (big) { size_t n = 150000+s.below (150000), b = s.below (1000); img.resize (n); for (size_t i = 0; i < n; ++i) img[i] = char(pbt::mix (b+i)%90+30); } if (s.coin()) for (auto& c : img) if (c%9 == 0) c = '\n'; f.fill (img); bool hard = s.coin(), ag = s.chance (1,3); plan (s, 80, ag, hard); const bool faults = !F.plan.empty(); unsigned mask = s.chance (1,3) ? uint32_t(B::allbadbits) : 0, n = 2+s.len (40), got = 0; size_t pos = 0;
    ustl::ifstream* is = s.coin() ? new ustl::ifstream (f.path) : new ustl::ifstream (open (f.path, O_RDONLY)); if (s.chance (1,6)) { char c; is->get (c); if (s.chance (2,3)) { is->close(); PBT_CHECK (!is->is_open() && !is->remaining(), "a closed file leaves %u characters to read", unsigned(is->remaining())); } is->open (f.path, B::in); PBT_CHECK (!is->tellg() && !is->remaining(), "a newly opened file starts at %ld", long(is->tellg())); } if (big || s.coin()) { size_t z = big ? 60000+s.below (150000) : 1+s.len (600); is->set_buffer_size (z); note ("buffer of %zu", z); } is->exceptions (mask);
    for (unsigned i = 0; i < n; ++i) {
	s.step(); is->clear(); unsigned op = s.pick ({4,4,4,3,3,2,2,1,1}); bool thrown = false, counted = true; int eno = 0; size_t want = s.chance (1,6) ? 1+s.below (big ? 90000 : 9000) : s.len (500); std::string g; off_t to = s.below (img.size()+1); unsigned how = s.below (2); ustl::string str; uh::exact<char> b (want+1); int c = 0; size_t rs = 0;
	{ Injecting in; try { switch (op) {
	    case 0: is->get (str, '\n'); g.assign (str.data(), str.size()); break;
	    case 1: is->getline (str, '\n'); g.assign (str.data(), str.size()); if (is->gcount() == g.size()+1) g += '\n'; break;
	    case 2: is->read (b.begin(), want); g.assign (b.begin(), is->gcount()); break;
	    case 3: rs = is->readsome (b.begin(), want); g.assign (b.begin(), rs); break;
	    case 4: c = is->get(); if (is->gcount()) g.assign (1, char(c)); break;
	    case 5: is->ignore (want, char(1)); rs = is->gcount(); g = img.substr (pos, rs); break;
	    case 6: if (how) is->seekg (to); else if (s.coin()) is->seekg (to-long(pos), B::cur); else is->seekg (to-long(img.size()), B::end); break;
	    case 7: if (pos) { is->unget(); g = "u"; } break;
	    default: is->sync(); } } catch (ustl::file_exception& e) { F.stop(); thrown = true; eno = e.Errno(); } catch (ustl::stream_bounds_exception& e) { F.stop(); thrown = true; } }
	int hit = 0; for (auto& k : F.log) if (k.k == RD && k.ret < 0 && k.e != EINTR && k.e != EAGAIN) { hit = k.e; break; } bool blocked = F.hit (EAGAIN); bool eof = false; for (auto& k : F.log) eof = eof || (k.k == RD && !k.ret);
	note ("input %u of %zu at %zu: %zu bytes, state %x%s, %zu calls, %u injected, error %d", op, want, pos, g.size(), unsigned(is->rdstate()), thrown ? ", thrown" : "", F.log.size(), F.injected(), hit);
	PBT_CHECK (!hit || is->fail(), "reading failed with %d, the state is %x", hit, unsigned(is->rdstate())); PBT_CHECK (!thrown || (is->rdstate() & mask), "input threw with state %x and mask %x", unsigned(is->rdstate()), mask); PBT_CHECK (!hit || !mask || thrown, "reading failed with %d and did not throw", hit); PBT_CHECK (!eno || !hit || eno == hit, "reading failed with %d, the exception says %d", hit, eno);
	if (op == 7) { if (pos && is->good()) --pos; }
	else if (op == 6) { if (!thrown) pos = to; }
	else if (op == 8) { off_t p = is->tellg(); PBT_CHECK (p >= off_t(pos) && p <= off_t(img.size()), "sync moved to %ld", long(p)); pos = p; }
	else if (!thrown) { same (g, img.substr (pos, g.size()), "text read"); bool ended = pos+g.size() == img.size(); pos += g.size(); got += !g.empty();
	    if (op < 2) { bool delim = op == 1 ? !g.empty() && g.back() == '\n' : pos < img.size() && img[pos] == '\n'; PBT_CHECK (delim || ended || hit || blocked, "a line ended early at %zu of %zu", pos, img.size()); PBT_CHECK (g.find ('\n') == std::string::npos || g.find ('\n') == g.size()-(op == 1), "a line contains the delimiter"); }
	    else if (op != 5) PBT_CHECK (g.size() == (op == 4 ? 1 : want) || ended || hit || blocked, "input of %zu gave %zu bytes at %zu of %zu", want, g.size(), pos, img.size());
	    else PBT_CHECK (g.size() == want || ended || hit || blocked || (!g.empty() && g.back() == 1), "ignore of %zu stopped after %zu", want, g.size()); }
	else { off_t p = is->tellg(); PBT_CHECK (p >= off_t(pos) && p <= off_t(img.size()), "an exception left the position at %ld", long(p)); size_t k = p-pos; if (op < 2) { F.stop(); same (str.size() ? std::string (str.data(), str.size()) : std::string(), img.substr (pos, k), "text read before an exception"); } pos = p; }
	PBT_CHECK (off_t(is->tellg()) == off_t(pos), "tellg is %ld, not %zu, after input %u", long(is->tellg()), pos, op); (void) counted; }
    // without faults, everything that remains comes
    F.on = false; is->exceptions (0); is->clear(); std::string rest; for (int c; c = is->get(), is->gcount();) rest += char(c); same (rest, img.substr (pos), "rest of the file"); PBT_CHECK (is->eof(), "the end of the file left the state at %x", unsigned(is->rdstate()));
    delete is; if (got > 2 && (!faults || totalinj)) s.nontrivial(); if (totalinj) label ("faulty");
}

/// Opening with every mode: what becomes of the file, how the descriptor is opened, and where writing and reading start.
PBT_TEST (modes, 3)
{
    struct Dir { char d [300]; std::string p; Dir (void) { const char* t = getenv ("PBT_TMP"); snprintf (d, sizeof d, "%s/c18.XXXXXX", t ? t : "/tmp"); if (!mkdtemp (d)) pbt::fail ("mkdtemp failed"); p = std::string (d)+"/f"; } ~Dir (void) { ::unlink (p.c_str()); rmdir (d); } } d; const char* path = d.p.c_str();
    const bool exists = s.chance (2,3); std::string old (exists ? bytes (s, 2000) : std::string()), t (bytes (s, 3000)+"z"), want (old); unsigned cls = s.below (4); bool def = s.chance (1,6);
    if (exists) { int fd = ::open (path, O_WRONLY|O_CREAT, 0600); if (fd < 0 || write (fd, old.data(), old.size()) != ssize_t(old.size())) pbt::fail ("cannot make a file"); ::close (fd); }
    uint32_t m = cls == 2 ? B::out : cls == 3 ? B::in : 0; while (!(m & (B::in|B::out))) m |= s.below (4) & (B::in|B::out); if (s.chance (1,3)) m |= B::in|B::out; if (s.chance (1,3)) m |= B::app; if (s.chance (1,4)) m |= B::ate; if (s.chance (1,3)) m |= B::binary; if ((m & B::out) && s.chance (1,3)) m |= B::trunc; if (s.chance (1,4)) m |= B::nonblock; if (s.chance (1,3)) m |= B::nocreate; if (s.chance (1,4)) m |= B::noctty;
    mode_t perms = 0644; if (cls == 1 && s.coin()) perms = s.among ((const mode_t[]){ 0600, 0644, 0666, 0400, 0755, 0200 }); if (def) m = cls == 0 ? B::in|B::out : cls == 2 ? B::out : cls == 3 ? B::in : m;
    note ("%s of a %s file with mode %x%s", cls == 0 ? "fstream" : cls == 1 ? "fstream::open" : cls == 2 ? "ofstream" : "ifstream", exists ? "present" : "missing", m, def ? " (default)" : "");
    const bool ok = exists || ((m & B::out) && !(m & B::nocreate)), in = m & B::in, out = m & B::out, end = m & (B::app|B::ate); if (ok && (m & B::trunc)) want.clear(); mode_t um = umask (022); umask (um);
    ustl::fstream f; ustl::ofstream o; ustl::ifstream i; f.exceptions (0); o.exceptions (0); i.exceptions (0); ustl::fstream* pf = &f; ustl::ofstream* po = &o; ustl::ifstream* pi = &i; int fd = -1; uint32_t st = 0;
    switch (cls) {
	case 0: pf = def ? new ustl::fstream (path) : new ustl::fstream (path, m); fd = pf->fd(); st = pf->rdstate(); break;
	case 1: try { pf->open (path, m, perms); } catch (ustl::file_exception&) {} fd = pf->fd(); st = pf->rdstate(); break;
	case 2: if (s.coin()) po = def ? new ustl::ofstream (path) : new ustl::ofstream (path, m); else try { if (def) po->open (path); else po->open (path, m); } catch (ustl::file_exception&) {} fd = po->fd(); st = po->rdstate(); break;
	default: if (s.coin()) pi = def ? new ustl::ifstream (path) : new ustl::ifstream (path, m); else try { if (def) pi->open (path); else pi->open (path, m); } catch (ustl::file_exception&) {} fd = pi->fd(); st = pi->rdstate(); }
    auto content = [&] (void) { std::string r; int q = ::open (path, O_RDONLY); if (q < 0) return std::string ("(missing)"); char b [4096]; for (ssize_t n; (n = read (q, b, sizeof b)) > 0;) r.append (b, n); ::close (q); return r; };
    PBT_CHECK ((fd >= 0) == ok, "the descriptor is %d", fd); PBT_CHECK (!st == ok, "the state is %x", st); struct stat sb; PBT_CHECK (!stat (path, &sb) == ok, "the file exists: %d", !ok);
    if (ok) { same (content(), want, "file after opening"); if (!exists) PBT_CHECK ((sb.st_mode & 07777) == (perms & ~um), "the file has mode %o", unsigned(sb.st_mode)); int fl = fcntl (fd, F_GETFL);
	PBT_CHECK ((fl & O_ACCMODE) == (in && out ? O_RDWR : in ? O_RDONLY : O_WRONLY) && bool(fl & O_APPEND) == end && bool(fl & O_NONBLOCK) == bool(m & B::nonblock), "the descriptor has flags %x", fl); size_t at = end ? want.size() : 0; bool wr = out && cls != 3 && s.coin();
	if (in && cls != 2 && !end) { std::string g (want.size()+1, 0); size_t n; if (cls == 3) { pi->read (&g[0], want.size()); n = pi->gcount(); } else n = pf->readsome (&g[0], want.size()); PBT_CHECK (n == want.size(), "%zu of %zu bytes were read", n, want.size()); g.resize (n); same (g, want, "text read"); at = want.size(); }
	if (wr) { if (cls == 2) { unsigned k = s.below (t.size()); po->write (t.data(), k); if (s.coin()) po->flush(); po->write (t.data()+k, t.size()-k); po->flush(); } else { off_t n = pf->write (t.data(), t.size()); PBT_CHECK (n == off_t(t.size()), "%ld of %zu bytes were written", long(n), t.size()); } if (at+t.size() > want.size()) want.resize (at+t.size()); memcpy (&want[at], t.data(), t.size()); same (content(), want, "file after writing"); s.nontrivial(); } }
    if (pf != &f) delete pf; if (po != &o) delete po; if (pi != &i) delete pi; f.close(); o.close(); i.close(); same (content(), ok ? want : "(missing)", "closed file"); if (exists) label ("present"); if (!ok) label ("refused");
}

/// Places beyond 2 and 4 GB, maps at offsets, control of the descriptor, and characters put back: a long file with holes against a window of bytes.
PBT_TEST (offsets, 2)
{
    static const size_t sizes[] = { 20000, 3000, size_t(1)<<31, size_t(1)<<32, (size_t(1)<<31)-1, (size_t(1)<<32)+5000, (size_t(3)<<32)+1, (size_t(1)<<40)+9000 };
    File f; plan (s, 0, false, false); size_t L = s.among (sizes)+s.below (3000); if (ftruncate (f.fd, L)) { label ("no long files"); return; }
    const size_t W = 9000, base = L > W ? (L-s.below (W))/4096*4096 : 0; std::string win (L-base+W, 0), t (bytes (s, 3000)); { size_t a = s.below (L-base+1), n = std::min (t.size(), L-base-a); memcpy (&win[a], t.data(), n); if (pwrite (f.fd, t.data(), n, base+a) != ssize_t(n)) pbt::fail ("pwrite failed"); }
    size_t end = L; unsigned n = 2+s.below (14), done = 0; note ("file of %zu bytes, watched from %zu", L, base);
    auto whole = [&] (const char* what) { struct stat st; fstat (f.fd, &st); PBT_CHECK (size_t(st.st_size) == end, "%s left a file of %zu bytes, not %zu", what, size_t(st.st_size), end); std::string g (end-base, 0); if (pread (f.fd, &g[0], g.size(), base) != ssize_t(g.size())) pbt::fail ("pread failed"); same (g, win.substr (0, g.size()), what); if (base > 20000) { char z [20000]; if (pread (f.fd, z, sizeof z, 0) != ssize_t(sizeof z)) pbt::fail ("pread failed"); for (char c : z) PBT_CHECK (!c, "%s wrote to the beginning of the file", what); } };
    auto put = [&] (size_t at, const std::string& d) { size_t o = at-base; if (o+d.size() > win.size()) win.resize (o+d.size()+W); memcpy (&win[o], d.data(), d.size()); end = std::max (end, at+d.size()); };
    auto go = [&] (size_t to, size_t from, B::seekdir& w) { switch (s.below (3)) { case 0: w = B::beg; return off_t(to); case 1: w = B::cur; return off_t(to)-off_t(from); default: w = B::end; return off_t(to)-off_t(end); } };
    ustl::fstream st (open (f.path, O_RDWR)); PBT_CHECK (st.is_open() && st.good() && !st.pos(), "attached at %ld", long(st.pos())); st.exceptions (s.coin() ? 0 : uint32_t(B::allbadbits)); size_t pos = 0;
    for (unsigned i = 0; i < n; ++i) {
	s.step(); unsigned op = s.pick ({5,4,4,3,3,3,2,2}); size_t to = base+s.below (end-base+1); B::seekdir w; std::string d;
	switch (op) {
	    case 0: { if (s.chance (1,8)) to = s.below (300); off_t o = go (to, pos, w), r; if (s.coin()) { r = st.seek (o, w); PBT_CHECK (r == off_t(to), "seek to %zu gives %ld", to, long(r)); } else if (s.coin()) st.seekg (o, w); else st.seekp (o, w); pos = to; ++done; break; }
	    case 1: if (pos >= base) { d = bytes (s, 3000); off_t r = st.write (d.data(), d.size()); PBT_CHECK (r == off_t(d.size()), "write of %zu at %zu gives %ld", d.size(), pos, long(r)); put (pos, d); pos += d.size(); whole ("fstream::write"); } break;
	    case 2: if (pos >= base && pos < end) { size_t k = 1+s.below (std::min (end-pos, size_t(3000))); uh::exact<char> b (k); off_t r = s.coin() ? st.read (b.begin(), k) : st.readsome (b.begin(), k); PBT_CHECK (r == off_t(k) && !memcmp (b.begin(), &win[pos-base], k), "read of %zu at %zu gives %ld", k, pos, long(r)); pos += k; } break;
	    case 3: { size_t o = base+4096*s.below ((end-base)/4096+1); if (o >= end) break; size_t k = 1+s.below (std::min (end-o, size_t(6000))); ustl::memlink l (st.mmap (k, o)); PBT_CHECK (st.good() && l.size() == k, "a map of %zu at %zu has %zu bytes", k, o, size_t(l.size())); PBT_CHECK (!memcmp (l.data(), &win[o-base], k), "the map at %zu differs from the file", o); size_t c = s.below (k); ((char*) l.data())[c] = win[o-base+c] = char('A'+s.below (26)); st.msync (l); st.munmap (l); PBT_CHECK (!l.size() && !l.data() && st.good(), "munmap"); whole ("mmap"); ++done; break; }
	    case 4: { struct stat a, b; st.stat (a); fstat (f.fd, &b); PBT_CHECK (a.st_ino == b.st_ino && a.st_size == b.st_size && size_t(a.st_size) == end && st.size() == off_t(end) && st.pos() == off_t(pos) && st.tellg() == off_t(pos), "stat gives a size of %ld, position %ld", long(st.size()), long(st.pos()));
		int fl = st.fcntl (FCNTLID (F_GETFL)), r = st.fcntl (FCNTLID (F_SETFL), fl|O_APPEND), g = fcntl (st.fd(), F_GETFL); st.fcntl (FCNTLID (F_SETFL), fl); PBT_CHECK (!r && (g & O_APPEND) && !(fcntl (st.fd(), F_GETFL) & O_APPEND) && st.good(), "fcntl gives %d and flags %x", r, g);
		struct flock lk = flock(); lk.l_type = F_WRLCK; lk.l_whence = SEEK_SET; PBT_CHECK (st.fcntl (FCNTLID (F_GETLK), (void*) &lk) == 0 && lk.l_type == F_UNLCK, "fcntl with a pointer");
		if (end-pos < 0x7fffffff) { int av = -1; PBT_CHECK (st.ioctl (IOCTLID (FIONREAD), &av) == 0 && size_t(av) == end-pos && st.good(), "ioctl gives %d, not %zu", av, end-pos); } break; }
	    case 5: { unsigned c = s.below (3); bool thrown = false; int av = 0; if (c == 2) { ustl::fstream no; no.exceptions (st.exceptions()); try { no.set_nonblock (s.coin()); } catch (ustl::file_exception& e) { thrown = true; PBT_CHECK (e.Errno() == EBADF, "the exception says %d", e.Errno()); } PBT_CHECK (no.fail() && thrown == bool(st.exceptions()), "setting a closed file to not block left state %x, threw %d", unsigned(no.rdstate()), thrown); break; }
		try { av = c ? st.fcntl (FCNTLID (F_SETLEASE), 77) : st.ioctl (IOCTLID (0x5401), (void*) nullptr); } catch (ustl::file_exception& e) { thrown = true; av = -1; PBT_CHECK (e.Errno() == (c ? EINVAL : ENOTTY) && (c ? strstr (e.Operation(), "F_SETLEASE") : strstr (e.Operation(), "0x5401")), "the exception says %d in '%s'", e.Errno(), e.Operation()); } PBT_CHECK (av < 0 && st.fail() && thrown == bool(st.exceptions()), "control of another kind of file gave %d, state %x, threw %d", av, unsigned(st.rdstate()), thrown); st.clear(); break; }
	    case 6: { ustl::ofstream o; if (s.coin()) o.open (f.path, B::out); else o.open (f.path, B::in|B::out); size_t at = to; off_t x = go (to, 0, w); o.seekp (x, w); PBT_CHECK (o.tellp() == off_t(at) && o.good(), "seekp to %zu gives %ld", at, long(o.tellp())); for (unsigned k = 1+s.below (3); k--;) { d = bytes (s, 2000); o.write (d.data(), d.size()); put (at, d); at += d.size(); PBT_CHECK (o.tellp() == off_t(at), "tellp is %ld, not %zu", long(o.tellp()), at); if (s.chance (1,3)) o.flush(); } struct stat a; o.stat (a); o.set_nonblock(); int fl = fcntl (o.fd(), F_GETFL); o.set_nonblock (false); PBT_CHECK (a.st_ino && (fl & O_NONBLOCK) && !(fcntl (o.fd(), F_GETFL) & O_NONBLOCK) && o.ioctl (IOCTLID (FIOCLEX), 0) == 0 && fcntl (o.fd(), F_GETFD) == FD_CLOEXEC, "control of an output stream"); o.close(); whole ("ofstream"); ++done; break; }
	    default: { ustl::ifstream in (f.path); if (s.coin()) in.set_buffer_size (1+s.below (300)); off_t x = go (to, 0, w); in.seekg (x, w); size_t at = to; PBT_CHECK (in.tellg() == off_t(at), "seekg to %zu gives %ld", at, long(in.tellg()));
		for (unsigned k = 1+s.below (6); k-- && at < end;) { switch (s.below (4)) {
		    case 0: { size_t r = s.below (std::min (end-at, size_t(900))+1); uh::exact<char> b (r); in.read (b.begin(), r); PBT_CHECK (in.gcount() == r && !memcmp (b.begin(), &win[at-base], r), "read of %zu at %zu gives %zu bytes", r, at, size_t(in.gcount())); at += r; break; }
		    case 1: { int c = in.get(); PBT_CHECK (c == win[at-base], "get at %zu gives %d", at, c); ++at; if (s.coin()) { char pb = s.coin() ? char(c) : char('a'+s.below (26)); in.putback (pb); PBT_CHECK (in.tellg() == off_t(at-1), "putback at %zu leaves %ld", at, long(in.tellg())); c = in.get(); PBT_CHECK (c == pb, "%d put back comes out as %d", pb, c); } break; }
		    case 2: { to = base+s.below (end-base+1); x = go (to, at, w); in.seekg (x, w); at = to; break; }
		    default: { char c = char(s.below (256)); ustl::string l; in.get (l, c); size_t e = win.find (c, at-base); if (e == std::string::npos || e > end-base) e = end-base; PBT_CHECK (std::string (l.data(), l.size()) == win.substr (at-base, e-(at-base)), "text up to %d at %zu has %zu bytes, not %zu", c, at, size_t(l.size()), e-(at-base)); at = base+e; } }
		    PBT_CHECK (in.tellg() == off_t(at), "tellg is %ld, not %zu", long(in.tellg()), at); in.clear(); }
		struct stat a; in.stat (a); PBT_CHECK (size_t(a.st_size) == end && in.ioctl (IOCTLID (FIOCLEX), 0) == 0 && fcntl (in.fd(), F_GETFD) == FD_CLOEXEC, "control of an input stream"); ++done; } }
	PBT_CHECK (st.pos() == off_t(pos) && lseek (st.fd(), 0, SEEK_CUR) == off_t(pos), "operation %u left the position at %ld, not %zu", op, long(st.pos()), pos); }
    whole ("history"); if (done > 2) s.nontrivial(); if (L > 0x7fffffff) label ("long");
}

/// Whole blocks and strings to and from files.
PBT_TEST (blocks, 2)
{
    File f; std::string a (bytes (s, 20000)), b (bytes (s, 5000)); f.fill (b); plan (s, 30, false, s.chance (1,3)); int hit = 0; bool thrown = false; ustl::memblock m; m.assign (a.data(), a.size());
    { Injecting in; try { m.write_file (f.path, 0600); } catch (ustl::file_exception& e) { thrown = true; hit = e.Errno(); } } bool hard = false; int first = 0; for (auto& k : F.log) if (k.ret < 0 && k.e != EINTR) { hard = true; if (!first) first = k.e; }
    PBT_CHECK (thrown == hard, "writing %zu bytes threw %d, failed %d", a.size(), thrown, hard); PBT_CHECK (!thrown || hit == first, "writing failed with %d, the exception says %d", first, hit);
    if (!thrown) same (f.content(), a, "written file"); else { std::string c (f.content()); same (c, a.substr (0, c.size()), "partly written file"); f.fill (a); }
    bool str = s.coin(); ustl::string u; ustl::memblock r; if (s.coin()) { r.assign (b.data(), b.size()); u.assign (b.data(), b.size()); } thrown = false; bool bounds = false;
    { Injecting in; try { if (str) u.read_file (f.path); else r.read_file (f.path); } catch (ustl::file_exception& e) { thrown = true; hit = e.Errno(); } catch (ustl::stream_bounds_exception&) { bounds = true; } } hard = false; for (auto& k : F.log) if (k.ret < 0 && k.e != EINTR) hard = true;
    PBT_CHECK (!bounds && thrown == hard, "reading %zu bytes threw %d, failed %d", a.size(), thrown, hard);
    if (!thrown) { same (str ? std::string (u.data(), u.size()) : std::string ((const char*) r.data(), r.size()), a, "block read"); if (str) PBT_CHECK (!u.c_str()[u.size()], "the string read is not terminated"); }
    if (a.size() > 100 && (F.plan.empty() || totalinj)) s.nontrivial(); if (totalinj) label ("faulty");
}

/// Pipes: what one stream writes is what the other reads.
PBT_TEST (pipes, 1)
{
    int p[2]; if (pipe (p)) pbt::fail ("pipe failed"); plan (s, 60, true, false); std::string sent, got; size_t total = s.below (20000); { ustl::ofstream os (p[1]); ustl::ifstream is (p[0]); if (s.coin()) is.set_buffer_size (1+s.len (300));
	while (sent.size() < total) { s.step(); std::string t (bytes (s, 3000)); t += 'z'; { Injecting in; os.write (t.data(), t.size()); os.flush(); } sent += t; PBT_CHECK (os.good(), "the writing end has state %x", unsigned(os.rdstate())); size_t avail = sent.size()-got.size();
	    for (unsigned k = 0; k < 200 && avail; ++k) { size_t w = 1+s.below (avail); std::string b (w+1, 0); size_t r; { Injecting in; r = is.readsome (&b[0], w); } got.append (b, 0, r); avail -= r; if (s.chance (1,4)) break; PBT_CHECK (r == w || F.hit (EAGAIN), "a read of %zu of %zu available bytes gave %zu", w, avail+r, r); } same (got, sent.substr (0, got.size()), "text from the pipe"); }
	F.on = false; os.close(); for (int c; c = is.get(), is.gcount();) got += char(c); same (got, sent, "text from the pipe"); }
    if (sent.size() > 500 && (F.plan.empty() || totalinj)) s.nontrivial();
}

/// The standard streams, over stand-ins of their descriptors.
PBT_TEST (standard, 1)
{
    ustl::ofstream* const o[3] = { nullptr, &ustl::cout, &ustl::cerr };
    struct Off { ~Off (void) { ST.on = false; } } off; ST.on = true; ST.in.clear(); ST.taken = 0; ST.due = 0; ST.late = false; ST.cap = s.coin() ? ~size_t(0) : 1+s.below (50);
    ustl::cin.~ifstream(); new (&ustl::cin) ustl::ifstream (STDIN_FILENO);
    for (int d = 1; d < 3; ++d) { o[d]->~ofstream(); new (o[d]) ustl::ofstream (d); }
    ST.closed = false; for (auto& x : ST.out) x.clear();
    std::vector<std::string> words; for (size_t q = s.len (30); q--;) { std::string w; for (size_t c = 1+s.len (20); c--;) w += char('a'+s.below (26)); words.push_back (w); ST.in += w; for (size_t c = 1+s.len (3); c--;) ST.in += " \n\t,"[s.below (4)]; }
    std::string m[3], pend[3]; size_t at = 0; unsigned prompts = 0, temps = 0;
    for (unsigned k = 0, n = 2+s.hist (30); k < n; ++k) {
	s.step(); const int d = 1+s.below (2);
	switch (s.below (6)) {
	    case 0: case 1: { std::string t (bytes (s, 200)); note ("%d << %zu characters", d, t.size()); if (s.coin()) o[d]->write (t.data(), t.size()); else { ustl::string u (t.data(), t.size()); *o[d] << u; } m[d] += t; break; }
	    case 2: note ("flush %d", d); switch (s.below (3)) { case 0: o[d]->flush(); break; case 1: *o[d] << ustl::flush; break; default: *o[d] << ustl::endl; m[d] += '\n'; } same (ST.out[d], m[d], "text after a flush"); break;
	    case 3: case 4: { if (at >= words.size()) break; note ("read"); ST.due = m[1].size(); prompts += ST.out[1].size() < ST.due; ustl::string w; ustl::cin >> w; PBT_CHECK (std::string (w.c_str(), w.size()) == words[at], "word %zu read is \"%s\", expected \"%s\"", at, pbt::esc (std::string (w.c_str(), w.size())).c_str(), words[at].c_str()); ++at;
		PBT_CHECK (!ST.late, "the program waits for input while %zu characters of cout are not shown", ST.due-ST.out[1].size()); break; }
	    default: { std::string t (bytes (s, 100)); note ("another stream over %d writes %zu", d, t.size()); o[d]->flush(); { ustl::ofstream x (d); x.write (t.data(), t.size()); } m[d] += t; ++temps; same (ST.out[d], m[d], "text of a second stream"); }
	}
	PBT_CHECK (!ST.closed, "a standard descriptor was closed");
    }
    for (int d = 1; d < 3; ++d) { o[d]->~ofstream(); same (ST.out[d], m[d], "text at exit"); PBT_CHECK (!ST.closed, "descriptor %d closed at exit", d); new (o[d]) ustl::ofstream (d); }
    ST.on = false; s.nontrivial (prompts && temps);
}
