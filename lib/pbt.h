// Property-based testing engine used by every harness in /verif/harness.
//
// A test is a function of a choice source (Src). Choices are drawn from a
// generator seeded by VERIF_SEED and recorded; a failing case is its list of
// choices, shrunk by deleting and lowering choices and re-running the test in
// a fresh process. Crashes, sanitizer reports and cases exceeding their CPU
// allowance count as failures: every case runs in a forked worker.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <algorithm>
#include <sstream>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes (void);
#define PBT_ASAN 1
#else
#include <malloc.h>
#define PBT_ASAN 0
#ifdef PBT_GMALLOC
#include "gmalloc.h"
#endif
#endif

namespace pbt {

enum { MAXREC = 1<<15, MAXTESTS = 96, MAXLABELS = 384, HASHBITS = 24 };

struct Fail { std::string msg; explicit Fail (const std::string& m) : msg(m) {} };
struct Discard {};

struct Label { char name[64]; uint64_t n; };
struct Shm {
    volatile uint64_t	cur_case;
    volatile uint32_t	cur_test;
    volatile uint32_t	nrec;
    volatile uint32_t	failed;
    volatile uint32_t	finished;
    uint64_t		evals [MAXTESTS];
    uint64_t		nontriv [MAXTESTS];
    uint64_t		discards;
    uint64_t		steps;
    uint32_t		nlabels;
    Label		labels [MAXLABELS];
    char		msg [8192];
    uint64_t		rec [MAXREC];
};

struct Global {
    Shm*		shm;
    uint64_t*		hashes;		// shared between all workers
    bool		verbose;
    int			fd;		// notes are also sent here as they happen
    std::string		log;
};
inline Global& G (void) { static Global g; return g; }

inline uint64_t mix (uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline void label (const char* name);
class Src {
public:
    Src (uint64_t seed, unsigned size) : _state(seed), _size(size), _replay(nullptr), _nreplay(0), _pos(0), _nontrivial(false), _mode(0), _cap(0) { G().shm->nrec = 0; }
    Src (const uint64_t* r, size_t n, unsigned size) : _state(0), _size(size), _replay(r), _nreplay(n), _pos(0), _nontrivial(false), _mode(0), _cap(0) { G().shm->nrec = 0; }
    /// Uniform in [0,n); shrinks to 0.
    uint64_t below (uint64_t n) {
	uint64_t v;
	if (n <= 1) { return 0; }
	if (_replay) {
	    v = (_pos < _nreplay ? _replay[_pos] : 0);
	    if (v >= n) v %= n;
	} else if (_pos >= MAXREC)
	    v = 0;
	else
	    v = next() % n;
	record (v);
	return v;
    }
    /// All 64 bit values, biased to boundaries; shrinks to 0.
    uint64_t bits64 (void) {
	switch (below(5)) {
	    default: return below (16);
	    case 1: return below (1000);
	    case 2: { unsigned sh = below(64); uint64_t v = uint64_t(1) << sh; unsigned k = below(5); return k == 0 ? v : k == 1 ? v-1 : k == 2 ? v+1 : k == 3 ? ~v : uint64_t(0)-v; }
	    case 3: { unsigned sh = below(64); return raw() >> sh; }
	    case 4: return raw();
	}
    }
    uint64_t raw (void) {
	uint64_t v;
	if (_replay) v = (_pos < _nreplay ? _replay[_pos] : 0);
	else if (_pos >= MAXREC) v = 0;
	else v = next();
	record (v);
	return v;
    }
    int64_t range (int64_t lo, int64_t hi)	{ return lo + int64_t(below (uint64_t(hi-lo)+1)); }
    bool chance (unsigned num, unsigned den)	{ return below(den) >= den-num; }
    bool coin (void)				{ return below(2); }
    /// A length in [0,max], mostly small, growing with the case size.
    size_t len (size_t max) {
	size_t cap = max;
	switch (below(4)) {
	    case 0: cap = 4; break;
	    case 1: cap = 9; break;
	    case 2: cap = 4 + max*_size/100; break;
	}
	if (cap > max) cap = max;
	return below (cap+1);
    }
    /// Lets blen() exceed its maximum in a few cases: up to about 600 in mid of 1000 cases, up to cap in huge of 1000.
    void scaled (size_t cap, unsigned mid = 20, unsigned huge = 1) {
	unsigned r = below (1000); _cap = cap;
	_mode = (r >= 1000-huge && cap > 600) ? 2 : (r >= 1000-huge-mid ? 1 : 0);
	if (_mode) label (_mode == 1 ? "wide lengths" : "huge lengths");
    }
    unsigned scale_mode (void) const	{ return _mode; }
    /// A length; in the cases that scaled() selected, often beyond the limits of small integers.
    size_t blen (size_t max) {
	if (!_mode || below(3) == 0) return len (max);
	static const size_t mid[] = { 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 300 }, huge[] = { 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 66000, 70000 };
	size_t r;
	if (_mode == 1 || below(3) == 0) r = below(3) == 0 ? below(600) : mid[below(sizeof(mid)/sizeof(mid[0]))];
	else r = below(3) == 0 ? below(_cap) : huge[below(sizeof(huge)/sizeof(huge[0]))];
	return r > _cap ? _cap : r;
    }
    /// The number of steps of a history, shorter where the objects are large.
    size_t hist (size_t max)		{ return len (_mode == 2 ? max/8+1 : _mode ? max/3+1 : max); }
    /// Index drawn by weights.
    unsigned pick (std::initializer_list<unsigned> w) {
	unsigned tot = 0; for (auto x : w) tot += x;
	unsigned v = below(tot), i = 0;
	for (auto x : w) { if (v < x) return i; v -= x; ++i; }
	return 0;
    }
    template <typename T, size_t N> const T& among (const T (&a)[N]) { return a[below(N)]; }
    unsigned size (void) const	{ return _size; }
    void nontrivial (bool v = true)	{ if (v) _nontrivial = true; }
    bool is_nontrivial (void) const	{ return _nontrivial; }
    void step (void)			{ ++G().shm->steps; }
    void discard (void)			{ throw Discard(); }
    uint64_t hash (unsigned t) const {
	uint64_t h = mix (t+1);
	const Shm& m = *G().shm;
	for (unsigned i = 0; i < m.nrec; ++i) h = mix (h ^ m.rec[i]);
	return h;
    }
private:
    uint64_t next (void) { _state += 0x9E3779B97F4A7C15ull; return mix (_state); }
    void record (uint64_t v) {
	Shm& m = *G().shm;
	if (_pos < MAXREC) { m.rec[_pos] = v; m.nrec = _pos+1; }
	++_pos;
    }
    uint64_t	_state;
    unsigned	_size;
    const uint64_t* _replay;
    size_t	_nreplay, _pos;
    bool	_nontrivial;
    unsigned	_mode;
    size_t	_cap;
};

inline void note (const char* fmt, ...) __attribute__((format(printf,1,2)));
inline void note (const char* fmt, ...)
{
    if (!G().verbose || G().log.size() > 60000) return;
    char b [2048]; va_list a; va_start (a,fmt); vsnprintf (b, sizeof b, fmt, a); va_end (a);
    G().log += b; G().log += '\n';
    if (G().fd > 0) { size_t n = strlen(b); b[n] = '\n'; if (write (G().fd, b, n+1)) {} }
}
inline std::string fmt (const char* f, ...) __attribute__((format(printf,1,2)));
inline std::string fmt (const char* f, ...)
{
    char b [4096]; va_list a; va_start (a,f); vsnprintf (b, sizeof b, f, a); va_end (a);
    return b;
}
inline void label (const char* name)
{
    Shm& m = *G().shm;
    for (unsigned i = 0; i < m.nlabels; ++i)
	if (!strcmp (m.labels[i].name, name)) { ++m.labels[i].n; return; }
    if (m.nlabels < MAXLABELS) {
	strncpy (m.labels[m.nlabels].name, name, 63);
	m.labels[m.nlabels++].n = 1;
    }
}
[[noreturn]] inline void fail (const std::string& m) { throw Fail (m); }

#define PBT_CHECK(cond, ...) do { if (!(cond)) ::pbt::fail (::pbt::fmt ("%s:%d: %s: ", __FILE__, __LINE__, #cond) + ::pbt::fmt (__VA_ARGS__)); } while (0)

/// Printable form of bytes for notes
inline std::string hex (const void* p, size_t n)
{
    std::string r; const unsigned char* c = (const unsigned char*) p;
    for (size_t i = 0; i < n && i < 200; ++i) { char b[4]; snprintf (b, sizeof b, "%02x", c[i]); r += b; }
    if (n > 200) r += "...";
    return r;
}
inline std::string esc (const char* p, size_t n)
{
    std::string r = "\"";
    for (size_t i = 0; i < n && i < 200; ++i) {
	unsigned char c = p[i];
	if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c);
	else { char b[8]; snprintf (b, sizeof b, "\\x%02x", c); r += b; }
    }
    if (n > 200) r += "...";
    return r + "\"";
}
inline std::string esc (const std::string& s) { return esc (s.data(), s.size()); }

/// Bytes currently allocated on the heap.
inline size_t heap_bytes (void)
{
#if PBT_ASAN
    return __sanitizer_get_current_allocated_bytes();
#elif defined(PBT_GMALLOC)
    return gm::S().bytes;	// what glibc reports includes its own caches
#else
    return 0;
#endif
}

typedef void (*testfn)(Src&);
struct Test { const char* name; testfn fn; double weight; double cpu; };
inline std::vector<Test>& tests (void) { static std::vector<Test> t; return t; }
struct Reg { Reg (const char* n, testfn f, double w, double cpu=0) { tests().push_back (Test{n,f,w,cpu}); } };
// weight: cases per unit of the run's case budget.
#define PBT_TEST(name,weight) static void pbt_##name (::pbt::Src& s); static ::pbt::Reg pbt_reg_##name (#name, pbt_##name, weight); static void pbt_##name (::pbt::Src& s)

// Known findings: a probe returning true while the recorded defect is still there.
struct Known { const char* key; bool (*fn)(void); };
inline std::vector<Known>& knowns (void) { static std::vector<Known> k; return k; }
struct RegK { RegK (const char* k, bool (*f)(void)) { knowns().push_back (Known{k,f}); } };
#define PBT_KNOWN(key) static bool pbt_known_##key (void); static ::pbt::RegK pbt_regk_##key (#key, pbt_known_##key); static bool pbt_known_##key (void)

//----------------------------------------------------------------------

struct Opts { uint64_t seed; unsigned scale, jobs; double maxsec; std::string replay, out, only, rdir, flavor; int samples; };

inline double now (void) { timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }

inline void arm (double cpu)
{
    itimerval t; memset (&t, 0, sizeof t);
    t.it_value.tv_sec = long(cpu); t.it_value.tv_usec = long((cpu-long(cpu))*1e6);
    setitimer (ITIMER_PROF, &t, nullptr);
}

/// Runs one case in this process. Returns 0 ok, 1 failed, 2 discarded.
inline int run_case (unsigned ti, Src& s)
{
    Shm& m = *G().shm;
    try {
	tests()[ti].fn (s);
	#if !PBT_ASAN && defined(PBT_GMALLOC)
	    gm::check();
	#endif
    }
    catch (const Fail& f) { strncpy (m.msg, f.msg.c_str(), sizeof(m.msg)-1); m.failed = 1; return 1; }
    catch (const Discard&) { return 2; }
    catch (const std::exception& e) { snprintf (m.msg, sizeof m.msg, "unexpected exception escaped: %s", e.what()); m.failed = 1; return 1; }
    catch (...) { strcpy (m.msg, "unexpected exception escaped"); m.failed = 1; return 1; }
    return 0;
}

inline bool hash_insert (uint64_t h)
{
    if (!h) h = 1;
    uint64_t* t = G().hashes;
    const uint64_t msk = (1ull<<HASHBITS)-1;
    for (unsigned k = 0; k < 64; ++k) {
	uint64_t& c = t[(h+k) & msk];
	uint64_t o = __atomic_load_n (&c, __ATOMIC_RELAXED);
	if (o == h) return false;
	if (!o) {
	    uint64_t z = 0;
	    if (__atomic_compare_exchange_n (&c, &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true;
	    if (z == h) return false;
	}
    }
    return false;	// table full: not counted
}

inline Shm* new_shm (void)
{
    void* p = mmap (nullptr, sizeof(Shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror ("mmap"); exit (2); }
    return (Shm*) p;
}

inline void limits (void)
{
#if !PBT_ASAN && !__SANITIZE_THREAD__
    rlimit r; r.rlim_cur = r.rlim_max = 6ul<<30; setrlimit (RLIMIT_AS, &r);
#endif
    rlimit c; c.rlim_cur = c.rlim_max = 0; setrlimit (RLIMIT_CORE, &c);
}

inline unsigned case_size (uint64_t i)	{ return 5 + (i*7)%96; }
inline uint64_t case_seed (uint64_t seed, unsigned ti, uint64_t i)
{
    uint64_t h = mix (seed*0x1000193ull + 77);
    for (const char* n = tests()[ti].name; *n; ++n) h = mix (h ^ (unsigned char)*n);
    return mix (h ^ i);
}
inline uint64_t ncases (const Opts& o, unsigned ti) { return uint64_t(tests()[ti].weight * o.scale); }

struct Outcome { bool failed; std::string how; };

/// Runs one case in a child process with the given choices.
inline Outcome run_child (unsigned ti, const uint64_t* r, size_t n, unsigned size, double cpu, bool verbose, const char* errfile, std::string* logout)
{
    Shm& m = *G().shm;
    m.failed = 0; m.msg[0] = 0; m.finished = 0;
    std::vector<uint64_t> copy (r, r+n);
    int pfd[2] = {-1,-1};
    if (verbose && pipe (pfd)) { perror("pipe"); exit (2); }
    fflush (stdout); fflush (stderr);
    pid_t pid = fork();
    if (!pid) {
	limits();
	int e = open (errfile ? errfile : "/dev/null", O_WRONLY|O_CREAT|O_TRUNC, 0644);
	if (e >= 0) { dup2 (e, 2); }
	int z = open ("/dev/null", O_WRONLY); if (z >= 0) dup2 (z, 1);
	arm (cpu);
	G().verbose = verbose; G().log.clear(); if (verbose) G().log.reserve (64000);
	if (verbose) G().fd = pfd[1];	// streamed, so that a crash keeps them
	Src s (copy.data(), copy.size(), size);
	int rv = run_case (ti, s);
	m.finished = 1;
	_exit (rv == 1 ? 3 : 0);
    }
    if (verbose) {
	close (pfd[1]);
	char b[4096]; ssize_t k;
	while ((k = read (pfd[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR))
	    if (k > 0 && logout) logout->append (b, k);
	close (pfd[0]);
    }
    int st = 0;
    while (waitpid (pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o; o.failed = false;
    if (WIFSIGNALED(st)) {
	o.failed = true;
	o.how = WTERMSIG(st) == SIGPROF ? "hang (CPU limit exceeded)" : fmt ("killed by signal %d (%s)", WTERMSIG(st), strsignal (WTERMSIG(st)));
    } else if (WEXITSTATUS(st) == 3 && m.failed) {
	o.failed = true; o.how = m.msg;
    } else if (WEXITSTATUS(st)) {
	o.failed = true; o.how = fmt ("process exited with status %d (sanitizer report or abort)", WEXITSTATUS(st));
    }
    return o;
}

inline const char* kind_of (const std::string& h)
{
    if (h.compare(0,4,"hang") == 0) return "hang";
    if (h.compare(0,6,"killed") == 0 || h.compare(0,7,"process") == 0) return "crash";
    return "check";
}

inline std::vector<uint64_t> shrink (unsigned ti, std::vector<uint64_t> cur, unsigned size, const std::string& kind, double cpu, unsigned maxtries, double maxsec)
{
    double t0 = now(); unsigned tries = 0;
    auto ok = [&](const std::vector<uint64_t>& c)->bool {
	if (++tries > maxtries || now()-t0 > maxsec) return false;
	Outcome o = run_child (ti, c.data(), c.size(), size, cpu, false, nullptr, nullptr);
	return o.failed && kind == kind_of (o.how);
    };
    auto spent = [&]{ return tries > maxtries || now()-t0 > maxsec; };
    bool progress = true;
    while (progress && !spent()) {
	progress = false;
	// drop tail
	for (size_t k = cur.size()/2; k >= 1; k /= 2)
	    while (cur.size() >= k && k) {
		std::vector<uint64_t> c (cur.begin(), cur.end()-k);
		if (!ok(c)) break;
		cur = c; progress = true;
	    }
	// delete chunks
	for (size_t k : {16,8,5,4,3,2,1})
	    for (size_t i = 0; i + k <= cur.size() && !spent(); ) {
		std::vector<uint64_t> c (cur);
		c.erase (c.begin()+i, c.begin()+i+k);
		if (ok(c)) { cur = c; progress = true; }
		else {
		    // deleting while lowering an earlier count
		    bool done = false;
		    if (i > 0 && cur[i-1] > 0) { c[i-1]--; if (ok(c)) { cur = c; progress = true; done = true; } }
		    if (!done) i += (k > 4 ? k/2 : 1);
		}
	    }
	// lower values
	for (size_t i = 0; i < cur.size() && !spent(); ++i) {
	    if (!cur[i]) continue;
	    std::vector<uint64_t> c (cur);
	    c[i] = 0;
	    if (ok(c)) { cur = c; progress = true; continue; }
	    uint64_t lo = 0, hi = cur[i];
	    while (hi - lo > 1 && !spent()) {
		uint64_t mid = lo + (hi-lo)/2;
		c = cur; c[i] = mid;
		if (ok(c)) { cur = c; hi = mid; progress = true; } else lo = mid;
	    }
	}
    }
    return cur;
}

inline std::string jesc (const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
	if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
	else if (c == '\n') r += "\\n";
	else if (c < 32 || c > 126) { char b[8]; snprintf (b, sizeof b, "\\u%04x", c); r += b; }
	else r += char(c);
    }
    return r;
}

inline std::string slurp (const char* fn)
{
    std::string r; FILE* f = fopen (fn, "r"); if (!f) return r;
    char b[4096]; size_t k; while ((k = fread (b,1,sizeof b,f)) > 0) r.append (b,k);
    fclose (f); return r;
}

inline double cpu_of (unsigned ti) { return tests()[ti].cpu > 0 ? tests()[ti].cpu : 20.0; }

inline int do_replay (const Opts& o)
{
    FILE* f = fopen (o.replay.c_str(), "r");
    if (!f) { perror (o.replay.c_str()); return 2; }
    char line [256]; std::string test; std::vector<uint64_t> c; unsigned size = 50;
    uint64_t gseed = 0; long gcase = -1; unsigned gshards = 1;
    while (fgets (line, sizeof line, f)) {
	char name[128]; unsigned long long v;
	if (sscanf (line, "test %127s", name) == 1) test = name;
	else if (sscanf (line, "size %u", &size) == 1) {}
	else if (sscanf (line, "c %llu", &v) == 1) c.push_back (v);
	else if (sscanf (line, "prefix %llu %ld %u", &v, &gcase, &gshards) == 3) gseed = v;
    }
    fclose (f);
    unsigned ti = 0; for (; ti < tests().size() && test != tests()[ti].name; ++ti) {}
    if (ti == tests().size()) { fprintf (stderr, "no test %s\n", test.c_str()); return 2; }
    G().shm = new_shm();
    if (gcase >= 0) {
	pid_t pid = fork();
	if (!pid) {
	    limits();
	    for (long i = gcase % gshards; i <= gcase; i += gshards) {
		arm (cpu_of(ti));
		Src s (case_seed (gseed, ti, i), case_size (i));
		if (run_case (ti, s) == 1) { fprintf (stderr, "%s\n", G().shm->msg); _exit (3); }
	    }
	    _exit (0);
	}
	int st; waitpid (pid, &st, 0);
	bool bad = WIFSIGNALED(st) || WEXITSTATUS(st);
	printf ("%s\n", bad ? "REPLAY-FAILS" : "REPLAY-PASSES");
	return bad;
    }
    std::string log;
    Outcome r = run_child (ti, c.data(), c.size(), size, cpu_of(ti), true, "/dev/stderr", &log);
    printf ("%s", log.c_str());
    printf ("%s %s\n", r.failed ? "REPLAY-FAILS" : "REPLAY-PASSES", r.how.c_str());
    return r.failed;
}

inline int pbt_main (int argc, char** argv)
{
    Opts o; o.seed = 1; o.scale = 100; o.jobs = 4; o.maxsec = 60; o.samples = 4; o.rdir = "."; o.flavor = "x";
    for (int i = 1; i < argc; ++i) {
	std::string a = argv[i]; const char* v = i+1 < argc ? argv[i+1] : "";
	if (a == "--seed") o.seed = strtoull (v,0,10), ++i;
	else if (a == "--scale") o.scale = atoi(v), ++i;
	else if (a == "--jobs") o.jobs = atoi(v), ++i;
	else if (a == "--maxsec") o.maxsec = atof(v), ++i;
	else if (a == "--replay") o.replay = v, ++i;
	else if (a == "--out") o.out = v, ++i;
	else if (a == "--only") o.only = v, ++i;
	else if (a == "--rdir") o.rdir = v, ++i;
	else if (a == "--flavor") o.flavor = v, ++i;
	else if (a == "--list") { for (auto& t : tests()) puts (t.name); return 0; }
	else { fprintf (stderr, "bad option %s\n", argv[i]); return 2; }
    }
    signal (SIGPIPE, SIG_IGN);
    if (!o.replay.empty()) return do_replay (o);
    if (tests().size() > MAXTESTS) { fprintf (stderr, "too many tests\n"); return 2; }
    G().hashes = (uint64_t*) mmap (nullptr, 8ull<<HASHBITS, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    const double t0 = now();
    std::vector<Shm*> shm (o.jobs);
    std::vector<pid_t> pids (o.jobs);
    std::vector<std::string> errs (o.jobs);
    for (unsigned j = 0; j < o.jobs; ++j) {
	shm[j] = new_shm();
	errs[j] = fmt ("%s/err-%s-%d-%u", o.rdir.c_str(), o.flavor.c_str(), int(getpid()), j);
	fflush (stdout);
	pids[j] = fork();
	if (!pids[j]) {
	    limits();
	    int e = open (errs[j].c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (e >= 0) dup2 (e, 2);
	    int z = open ("/dev/null", O_WRONLY); if (z >= 0) dup2 (z, 1);
	    G().shm = shm[j]; Shm& m = *G().shm;
	    // Rounds over all tests, so that a time limit does not starve the later ones.
	    const unsigned rounds = 10;
	    bool stop = false;
	    for (unsigned rd = 0; rd < rounds && !stop; ++rd)
		for (unsigned ti = 0; ti < tests().size() && !stop; ++ti) {
		    if (!o.only.empty() && o.only != tests()[ti].name) continue;
		    const uint64_t n = ncases (o, ti), b = n*rd/rounds, e2 = n*(rd+1)/rounds;
		    m.cur_test = ti;
		    for (uint64_t i = b; i < e2; ++i) {
			if (i % o.jobs != j) continue;
			m.cur_case = i;
			arm (cpu_of(ti));
			Src s (case_seed (o.seed, ti, i), case_size (i));
			int rv = run_case (ti, s);
			if (rv == 1) _exit (3);
			if (rv == 2) { ++m.discards; continue; }
			++m.evals[ti];
			if (s.is_nontrivial() && hash_insert (s.hash (ti))) ++m.nontriv[ti];
			if (now() - t0 > o.maxsec) { stop = true; break; }
		    }
		}
	    m.finished = 1;
	    _exit (0);
	}
    }
    std::vector<int> status (o.jobs);
    for (unsigned left = o.jobs; left; ) {
	int st; pid_t p = waitpid (-1, &st, 0);
	if (p < 0) { if (errno == EINTR) continue; break; }
	for (unsigned j = 0; j < o.jobs; ++j) if (pids[j] == p) { status[j] = st; --left; }
    }
    // Failures
    struct Found { unsigned ti; uint64_t ci; std::vector<uint64_t> c; std::string how; unsigned size; std::string err; };
    std::vector<Found> found;
    for (unsigned j = 0; j < o.jobs; ++j) {
	Shm& m = *shm[j];
	if (WIFEXITED(status[j]) && WEXITSTATUS(status[j]) == 0 && m.finished) { unlink (errs[j].c_str()); continue; }
	Found f; f.ti = m.cur_test; f.ci = m.cur_case; f.c.assign (m.rec, m.rec + m.nrec); f.size = case_size (f.ci);
	f.how = m.failed ? std::string (m.msg) : WIFSIGNALED(status[j]) ? (WTERMSIG(status[j]) == SIGPROF ? std::string("hang (CPU limit exceeded)") : fmt ("killed by signal %d", WTERMSIG(status[j]))) : fmt ("process exited with status %d", WEXITSTATUS(status[j]));
	f.err = slurp (errs[j].c_str()); unlink (errs[j].c_str());
	found.push_back (f);
    }
    unsigned nviol = 0, nflaky = 0;
    std::vector<unsigned> seen;
    for (auto& f : found) {
	if (std::find (seen.begin(), seen.end(), f.ti) != seen.end()) continue;	// one report per test
	if (nviol >= 3) break;
	seen.push_back (f.ti);
	G().shm = new_shm();
	const double cpu = cpu_of (f.ti);
	std::string path = fmt ("%s/%s-%s-seed%llu.replay", o.rdir.c_str(), o.flavor.c_str(), tests()[f.ti].name, (unsigned long long) o.seed);
	Outcome r = run_child (f.ti, f.c.data(), f.c.size(), f.size, cpu, false, nullptr, nullptr);
	FILE* out = nullptr;
	if (!r.failed) for (int k = 0; k < 10 && !r.failed; ++k) r = run_child (f.ti, f.c.data(), f.c.size(), f.size, cpu, false, nullptr, nullptr);
	if (r.failed) {
	    std::string kind = kind_of (r.how);
	    bool hang = kind == "hang";
	    std::vector<uint64_t> c = shrink (f.ti, f.c, f.size, kind, hang ? cpu/4 : cpu, hang ? 12 : 3000, hang ? 60 : 40);
	    int again = 0; std::string log; std::string errf = path + ".stderr";
	    for (int k = 0; k < 3; ++k) { log.clear(); Outcome x = run_child (f.ti, c.data(), c.size(), f.size, cpu, true, errf.c_str(), &log); if (x.failed) { ++again; r = x; } }
	    if (!again) { c = f.c; }
	    out = fopen (path.c_str(), "w");
	    if (out) {
		fprintf (out, "# replay with: check.py <property> --replay <this file>\nflavor %s\ntest %s\nsize %u\n", o.flavor.c_str(), tests()[f.ti].name, f.size);
		for (auto v : c) fprintf (out, "c %llu\n", (unsigned long long) v);
		fprintf (out, "# outcome: %s\n# reproduced %d of 3\n# original choices: %zu, shrunk: %zu\n", r.how.c_str(), again, f.c.size(), c.size());
		std::istringstream is (log); std::string l;
		while (std::getline (is, l)) fprintf (out, "# | %s\n", l.c_str());
		std::string er = slurp (errf.c_str()); std::istringstream ie (er); unsigned nl = 0;
		while (std::getline (ie, l) && nl++ < 40) fprintf (out, "# ! %s\n", l.c_str());
		fclose (out);
	    }
	    unlink (errf.c_str());
	    ++nviol;
	    printf ("FAILURE test=%s flavor=%s replay=%s reproduced=%d/3 outcome=%s\n", tests()[f.ti].name, o.flavor.c_str(), path.c_str(), again, r.how.c_str());
	} else {
	    // Depends on state left by earlier cases: replay the shard up to the case.
	    out = fopen (path.c_str(), "w");
	    if (out) { fprintf (out, "flavor %s\ntest %s\nprefix %llu %llu %u\n# outcome: %s\n# ! %s\n", o.flavor.c_str(), tests()[f.ti].name, (unsigned long long) o.seed, (unsigned long long) f.ci, o.jobs, f.how.c_str(), f.err.substr(0,1500).c_str()); fclose (out); }
	    Opts ro = o; ro.replay = path;
	    int bad = 0; for (int k = 0; k < 2; ++k) bad += do_replay (ro) == 1;
	    if (bad) { ++nviol; printf ("FAILURE test=%s flavor=%s replay=%s reproduced=prefix outcome=%s\n", tests()[f.ti].name, o.flavor.c_str(), path.c_str(), f.how.c_str()); }
	    else if (f.how.compare (0,4,"hang") && f.how != "killed by signal 9") {
		// Observed on the real code, though it depends on more than the inputs.
		++nviol; printf ("FAILURE test=%s flavor=%s replay=%s reproduced=no outcome=%s\n", tests()[f.ti].name, o.flavor.c_str(), path.c_str(), f.how.c_str());
	    } else { ++nflaky; printf ("FLAKY test=%s flavor=%s case=%llu outcome=%s\n%s\n", tests()[f.ti].name, o.flavor.c_str(), (unsigned long long) f.ci, f.how.c_str(), f.err.substr(0,3000).c_str()); }
	}
    }
    // Known findings
    std::string kn;
    for (auto& k : knowns()) {
	G().shm = new_shm();
	fflush (stdout);
	pid_t p = fork();
	if (!p) { limits(); int z = open ("/dev/null", O_WRONLY); dup2 (z,1); dup2 (z,2); arm (5); bool b = true; try { b = k.fn(); } catch (...) { b = true; } _exit (b ? 1 : 0); }
	int st; waitpid (p, &st, 0);
	bool still = WIFSIGNALED(st) || WEXITSTATUS(st);
	kn += fmt ("%s\"%s\": %s", kn.empty()?"":", ", k.key, still ? "true" : "false");
    }
    // Report
    uint64_t ev = 0, nt = 0, dc = 0, steps = 0;
    std::string per; std::vector<Label> labels;
    for (unsigned ti = 0; ti < tests().size(); ++ti) {
	uint64_t e = 0, n = 0;
	for (auto m : shm) { e += m->evals[ti]; n += m->nontriv[ti]; }
	ev += e; nt += n;
	per += fmt ("%s\"%s\": [%llu, %llu]", ti ? ", " : "", tests()[ti].name, (unsigned long long) e, (unsigned long long) n);
    }
    for (auto m : shm) {
	dc += m->discards; steps += m->steps;
	for (unsigned i = 0; i < m->nlabels; ++i) {
	    bool got = false;
	    for (auto& l : labels) if (!strcmp (l.name, m->labels[i].name)) { l.n += m->labels[i].n; got = true; }
	    if (!got) labels.push_back (m->labels[i]);
	}
    }
    std::sort (labels.begin(), labels.end(), [](const Label& a, const Label& b){ return strcmp (a.name,b.name) < 0; });
    std::string smp; unsigned ns = 0;
    std::vector<unsigned> order; for (unsigned ti = 0; ti < tests().size(); ++ti) order.push_back (ti);
    for (unsigned k = 0; k < order.size() && ns < (unsigned) o.samples; ++k) {
	unsigned ti = order[(k + o.seed) % order.size()];
	if (!o.only.empty() && o.only != tests()[ti].name) continue;
	uint64_t ci = ncases (o, ti) / 2 + k;
	G().shm = new_shm();
	std::string log; int pfd[2]; if (pipe (pfd)) break;
	fflush (stdout);
	pid_t p = fork();
	if (!p) {
	    limits(); int z = open ("/dev/null", O_WRONLY); dup2 (z,1); dup2 (z,2); arm (cpu_of(ti)); G().verbose = true; G().log.reserve (64000);
	    Src s (case_seed (o.seed, ti, ci), case_size (ci)); run_case (ti, s);
	    if (G().log.size() > 900) { G().log.resize (900); G().log += "..."; }
	    if (write (pfd[1], G().log.data(), G().log.size())) {} _exit (0);
	}
	close (pfd[1]); char b[4096]; ssize_t n;
	while ((n = read (pfd[0], b, sizeof b)) > 0) log.append (b,n);
	close (pfd[0]); int st; waitpid (p, &st, 0);
	smp += fmt ("%s{\"test\": \"%s\", \"case\": %llu, \"trace\": \"", ns ? ", " : "", tests()[ti].name, (unsigned long long) ci) + jesc (log) + "\"}";
	++ns;
    }
    std::string lab;
    for (size_t i = 0; i < labels.size(); ++i) lab += fmt ("%s\"%s\": %llu", i ? ", " : "", jesc (labels[i].name).c_str(), (unsigned long long) labels[i].n);
    FILE* f = o.out.empty() ? stdout : fopen (o.out.c_str(), "w");
    if (!f) { perror (o.out.c_str()); return 2; }
    fprintf (f, "{\"flavor\": \"%s\", \"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"discards\": %llu, \"steps\": %llu, \"per_test\": {%s}, \"labels\": {%s}, \"samples\": [%s], \"known\": {%s}, \"violations\": %u, \"flaky\": %u, \"wall_s\": %.2f}\n",
	o.flavor.c_str(), (unsigned long long) ev, (unsigned long long) nt, (unsigned long long) dc, (unsigned long long) steps, per.c_str(), lab.c_str(), smp.c_str(), kn.c_str(), nviol, nflaky, now()-t0);
    if (f != stdout) fclose (f);
    return nviol ? 1 : nflaky ? 2 : 0;
}

} // namespace pbt

#ifndef PBT_NO_MAIN
int main (int argc, char** argv) { return pbt::pbt_main (argc, argv); }
#endif
