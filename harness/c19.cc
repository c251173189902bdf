// C19: errors carry, print and serialise their information faithfully.
#include <limits>
#include "uh.h"
#include <errno.h>
#include <string.h>
#include <system_error>
#include <cxxabi.h>
#include <execinfo.h>
#include <map>

/// What an error should say.
struct Exp { std::string info, what, name, custom, fmt; int err; std::string op, file, type; size_t a, b, c; };

static std::string words (Src& s, size_t max)
{
    size_t n = s.chance (1,6) ? s.below (max+1) : s.len (max < 40 ? max : 40); std::string r (n, 0); unsigned m = s.below (3), k = s.below (90);
    for (size_t i = 0; i < n; ++i) r[i] = m == 0 ? char('a'+(k+i)%26) : m == 1 ? char(33+(k*7+i*5)%94) : char(1+pbt::mix (k+i)%255);
    return r;
}
/// A copy of text that is gone when the error is looked at.
struct Gone { uh::exact<char> b; explicit Gone (const std::string& t) : b (std::string (t.c_str(), t.size()+1)) {} operator const char* (void) { return b.begin(); } };
static std::string fmts (const char* f, ...) { va_list a; va_start (a, f); char* p; int n = vasprintf (&p, f, a); va_end (a); std::string r (p, n); free (p); return r; }
static int someerrno (Src& s) { return s.chance (1,8) ? int(s.below (5000)) : s.chance (1,12) ? -int(s.below (20)) : int(s.below (134)); }

template <typename E> static E* make_msg (Src& s, Exp& x, const char* nm) { std::string a (words (s, 5000)); Gone g (a); E* e = new E (g); x.name = nm; x.info = fmts ("%s: %s", nm, a.c_str()); x.fmt = "<%s> [%s]"; x.custom = fmts ("<%s> [%s]", nm, a.c_str()); x.what = a; return e; }
template <typename E> struct Make;
#define MSG(E,nm) template <> struct Make<ustl::E> { static ustl::E* make (Src& s, Exp& x) { return make_msg<ustl::E> (s, x, nm); } static void check (const ustl::E& e, const Exp& x) { PBT_CHECK (x.name == e.name(), "name() is '%s'", e.name()); } };
MSG(error_message,"error") MSG(logic_error,"logic error") MSG(domain_error,"domain error") MSG(invalid_argument,"invalid argument") MSG(length_error,"length error") MSG(out_of_range,"out of range") MSG(runtime_error,"runtime error") MSG(range_error,"range error") MSG(overflow_error,"overflow error") MSG(underflow_error,"underflow error")
template <> struct Make<ustl::system_error> {
    static ustl::system_error* make (Src& s, Exp& x) {
	x.err = someerrno (s); x.op = words (s, 600); ustl::system_error* e; Gone g (x.op);
	switch (s.below (4)) { case 0: errno = x.err; e = new ustl::system_error (g); break; case 1: e = new ustl::system_error (ustl::error_code (x.err, ustl::system_category()), g); break; case 2: { ustl::string o; o = (const char*) g; e = new ustl::system_error (x.err, ustl::generic_category(), o); break; } default: { ustl::string o; o = (const char*) g; e = new ustl::system_error (ustl::error_code (x.err, ustl::system_category()), o); } }
	x.info = fmts ("%s: %s", x.op.c_str(), strerror (x.err)); x.fmt = "%s!%s"; x.custom = fmts ("%s!%s", x.op.c_str(), strerror (x.err)); x.what = "system error"; x.name = x.op; return e; }
    static void check (const ustl::system_error& e, const Exp& x) { PBT_CHECK (e.Errno() == x.err && x.op == e.Operation() && x.op == e.name(), "the error is %d in '%s'", e.Errno(), e.Operation()); PBT_CHECK (e.code().value() == x.err, "code() is %d", e.code().value()); } };
template <> struct Make<ustl::file_exception> {
    static ustl::file_exception* make (Src& s, Exp& x) {
	x.err = someerrno (s); x.op = words (s, 100); x.file = s.chance (1,10) ? words (s, PATH_MAX+200) : words (s, 300); Gone g (x.op), h (x.file); errno = x.err; bool none = s.chance (1,12); auto e = new ustl::file_exception (g, none ? nullptr : (const char*) h); if (none) x.file.clear(); if (x.file.size() > PATH_MAX-1) x.file.resize (PATH_MAX-1);
	x.info = fmts ("%s %s: %s", x.op.c_str(), x.file.c_str(), strerror (x.err)); x.fmt = "%s<%s>%s"; x.custom = fmts ("%s<%s>%s", x.op.c_str(), x.file.c_str(), strerror (x.err)); x.what = "file error"; return e; }
    static void check (const ustl::file_exception& e, const Exp& x) { PBT_CHECK (e.Errno() == x.err && x.op == e.Operation() && x.file == e.Filename(), "the error is %d in '%s' of '%s'", e.Errno(), e.Operation(), e.Filename()); } };
template <> struct Make<ustl::stream_bounds_exception> {
    static ustl::stream_bounds_exception* make (Src& s, Exp& x) {
	static const char* const types[] = { "i", "Ss", "N4ustl6stringE", "St6vectorIiSaIiEE", "binary data", "m", "PKc", "a10_d" }; x.err = someerrno (s); x.op = words (s, 100); x.type = s.coin() ? s.among (types) : words (s, 400); x.a = s.bits64() >> s.below (64); x.b = s.bits64() >> s.below (64); x.c = s.bits64() >> s.below (64); Gone g (x.op), h (x.type); errno = x.err; auto e = new ustl::stream_bounds_exception (g, h, x.a, x.b, x.c);
	std::string t (x.type.substr (0, 255));
	#if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
	    int st = 0; char* d = abi::__cxa_demangle (t.c_str(), nullptr, nullptr, &st); if (d && !st) t = std::string (d).substr (0, 255); free (d);
	#endif
	x.info = fmts ("%s stream %s: @0x%zX: need %zu bytes, have %zu", t.c_str(), x.op.c_str(), x.a, x.b, x.c); x.fmt = "%s,%s,%zu,%zx,%zu"; x.custom = fmts ("%s,%s,%zu,%zx,%zu", t.c_str(), x.op.c_str(), x.a, x.b, x.c); x.what = "stream bounds exception"; return e; }
    static void check (const ustl::stream_bounds_exception& e, const Exp& x) { PBT_CHECK (x.type == e.TypeName() && e.Offset() == x.a && e.Expected() == x.b && e.Remaining() == x.c && x.op == e.Operation(), "the error is at %zu of '%s'", size_t(e.Offset()), e.TypeName()); } };
template <> struct Make<ustl::bad_alloc> {
    static ustl::bad_alloc* make (Src& s, Exp& x) { x.a = s.bits64() >> s.below (64); x.info = fmts ("failed to allocate %zu bytes", x.a); x.fmt = "%zu!"; x.custom = fmts ("%zu!", x.a); x.what = "memory allocation failed"; return new ustl::bad_alloc (x.a); }
    static void check (const ustl::bad_alloc&, const Exp&) {} };
#define PLAIN(E,w) template <> struct Make<ustl::E> { static ustl::E* make (Src&, Exp& x) { x.info = x.what = x.custom = w; x.fmt = "%s"; return new ustl::E; } static void check (const ustl::E&, const Exp&) {} };
PLAIN(exception,"error") PLAIN(bad_cast,"bad cast") PLAIN(bad_typeid,"bad typeid")

template <typename E> static void verify (const E& e, const Exp& x, const char* when)
{
    ustl::string i; e.info (i); PBT_CHECK (x.info.size() == i.size() && !memcmp (i.c_str(), x.info.data(), i.size()), "%s: info is '%s', not '%s'", when, pbt::esc (i.c_str(), i.size()).c_str(), pbt::esc (x.info).c_str());
    ustl::string j ("some old text that is longer"); e.info (j, x.fmt.c_str()); PBT_CHECK (x.custom.size() == j.size() && !memcmp (j.c_str(), x.custom.data(), j.size()), "%s: info in another format is '%s', not '%s'", when, pbt::esc (j.c_str(), j.size()).c_str(), pbt::esc (x.custom).c_str());
    PBT_CHECK (x.what == e.what(), "%s: what is '%s'", when, e.what()); Make<E>::check (e, x);
    ustl::ostringstream os; os << e; os.flush(); PBT_CHECK (os.str().size() == x.info.size() && !memcmp (os.str().c_str(), x.info.data(), x.info.size()), "%s: printed as '%s'", when, pbt::esc (os.str().c_str(), os.str().size()).c_str());
}
/// Functions with names of different lengths, which call each other to make a stack.
namespace trace {
struct Stop { Src* s; unsigned left; void* own [128]; int nown; ustl::CBacktrace* t; };
template <int K, typename... X> struct Named { static void go (Stop& p) __attribute__((noinline)); };
typedef std::map<std::string,std::pair<std::vector<std::string>,std::map<int,std::string>>> Long;	// has a mangled name of over 255 characters
__attribute__((noinline)) void Make (Stop& p) { p.nown = backtrace (p.own, 128); p.t = new ustl::CBacktrace; asm volatile (""::"r"(&p):"memory"); }
__attribute__((noinline)) void Next (Stop& p)
{
    if (!p.left--) Make (p);
    else switch (p.s->below (5)) { case 0: Named<0>::go (p); break; case 1: Named<1,int,char>::go (p); break; case 2: Named<2,ustl::string,ustl::vector<ustl::string>>::go (p); break; case 3: Named<3,Long,Long,Long,void(*)(Long,std::string,std::vector<std::vector<Long>>)>::go (p); break; default: Next (p); break; }
    asm volatile (""::"r"(&p):"memory");
}
template <int K, typename... X> __attribute__((noinline)) void Named<K,X...>::go (Stop& p) { Next (p); asm volatile (""::"r"(&p):"memory"); }
}
static std::string btext (const ustl::CBacktrace& t) { ustl::ostringstream os; os << t; os.flush(); return std::string (os.str().c_str(), os.str().size()); }
/// What a frame at the given address is called
static std::string frameName (void* a)
{
    char** y = backtrace_symbols (&a, 1); std::string t (y[0]); free (y); size_t b = t.find ('('), e = t.find ('+', b); if (b == t.npos) b = -1; t = t.substr (b+1, e == t.npos ? e : e-b-1).substr (0, 255);
    #if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
	int st = 0; char* d = abi::__cxa_demangle (t.c_str(), nullptr, nullptr, &st); if (d && !st) t = std::string (d).substr (0, 254); free (d);
    #endif
    return t;
}
PBT_TEST (traces, 0.03)
{
    trace::Stop p; p.s = &s; p.left = s.chance (1,6) ? 50+s.below (30) : s.below (20); p.nown = 0; p.t = nullptr; trace::Next (p); const unsigned depth = p.nown; ustl::CBacktrace& t = *p.t;
    // the binary form tells the addresses
    const size_t n = t.stream_size(); uh::exact<char> m (n); { ustl::ostream os (m.begin(), n); os << t; PBT_CHECK (os.pos() == n, "%zu of %zu bytes written", size_t(os.pos()), n); }
    uint32_t nf, ss; memcpy (&nf, m.begin(), 4); memcpy (&ss, m.begin()+4, 4); PBT_CHECK (nf == std::min (depth+1, 64u), "%u frames, not %u", nf, std::min (depth+1, 64u));
    PBT_CHECK (n == (8+ss+7)/8*8+nf*8, "%zu bytes for %u frames and %u characters", n, nf, ss); std::vector<void*> a (nf); memcpy (a.data(), m.begin()+(8+ss+7)/8*8, nf*8);
    // (a sanitizer adds a frame of its own at the top)
    for (unsigned i = 3; i < nf; ++i) PBT_CHECK (a[i] == p.own[i-1], "frame %u of %u is at %p, not at %p", i, nf, a[i], p.own[i-1]);
    std::string e, names; unsigned named = 0; for (unsigned i = 0; i < nf; ++i) { std::string f (frameName (a[i])); e += fmts ("%16p  ", a[i])+f+"\n"; names += f+"\n"; named += f.size() > 40; }
    PBT_CHECK (names == std::string (m.begin()+8, ss), "the names are '%s', not '%s'", pbt::esc (std::string (m.begin()+8, ss)).c_str(), pbt::esc (names).c_str());
    PBT_CHECK (btext (t) == e, "the trace is printed as '%s', not '%s'", pbt::esc (btext (t)).c_str(), pbt::esc (e).c_str());
    // copies, also over others and itself, and what is read back are the same
    ustl::CBacktrace o, c (t); PBT_CHECK (btext (c) == e, "copied: %s", pbt::esc (btext (c)).c_str()); o = t; PBT_CHECK (btext (o) == e, "assigned"); o = *&o; PBT_CHECK (btext (o) == e, "assigned to itself");
    { ustl::CBacktrace r; ustl::istream is (m.begin(), n); is >> r; PBT_CHECK (is.pos() == n && btext (r) == e, "read back"); c = r; } delete p.t; PBT_CHECK (btext (c) == e && btext (o) == e && c.stream_size() == n, "a copy changed when the first one went");
    if (named && nf > 8) s.nontrivial();
}
static std::string bt (const ustl::exception& e) { ustl::ostringstream os; os << e.backtrace(); os.flush(); return std::string (os.str().c_str(), os.str().size()); }
template <typename E> __attribute__((noinline)) static E* deep (Src& s, Exp& x, unsigned d) { if (!d) return Make<E>::make (s, x); volatile char pad [16]; pad[0] = 1; E* e = deep<E> (s, x, d-1); pad[1] = 2; return e; }

template <typename E> static void life (Src& s, const char* tn)
{
    Exp x, y; E* a = deep<E> (s, x, s.chance (1,6) ? s.below (90) : s.below (8)); E* b = Make<E>::make (s, y); note ("%s: '%s' and '%s'", tn, pbt::esc (x.info).c_str(), pbt::esc (y.info).c_str());
    verify (*a, x, "made"); PBT_CHECK (a->format() == b->format(), "two errors of type %s have formats %u and %u", tn, unsigned(a->format()), unsigned(b->format())); std::string ta (bt (*a)), tb (bt (*b)); unsigned n = 1+s.below (6); size_t moves = 0;
    for (unsigned i = 0; i < n; ++i) { s.step(); switch (s.below (6)) {
	case 0: { E* c = new E (*a); verify (*c, x, "copied"); PBT_CHECK (bt (*c) == ta, "%s: the copy has another backtrace", tn); std::swap (a, c); delete c; ++moves; break; }
	case 1: { E* c = s.coin() ? new E (*b) : b; *c = *a; verify (*c, x, "assigned"); PBT_CHECK (bt (*c) == ta, "%s: assigning left another backtrace", tn); if (c != b) delete c; else { y = x; tb = ta; } ++moves; break; }
	case 2: *a = *const_cast<const E*> (a); break;
	case 3: try { throw *a; } catch (E& e) { verify (e, x, "thrown"); PBT_CHECK (bt (e) == ta, "%s: the thrown error has another backtrace", tn); } break;
	case 4: try { throw *a; } catch (ustl::exception& e) { ustl::string t; e.info (t); PBT_CHECK (x.what == e.what() && x.info.size() == t.size() && !memcmp (t.c_str(), x.info.data(), t.size()), "%s: caught as an exception, what is '%s'", tn, e.what()); } break;
	default: { size_t n = a->stream_size(), lead = 8*s.below (3); ustl::memblock m; m.resize (lead+n+16); memset (m.data(), 0x5a, m.size()); ustl::ostream os (m); os.skip (lead); os << *a; PBT_CHECK (os.pos() == lead+n, "%s announces %zu bytes and writes %zu", tn, n, size_t(os.pos())-lead); for (size_t k = lead+n; k < m.size(); ++k) PBT_CHECK (((const char*) m.data())[k] == 0x5a, "%s writes past its size", tn); uint32_t chunk; memcpy (&chunk, (const char*) m.data()+lead+4, 4); PBT_CHECK (chunk == n-8, "%s says that its chunk has %u bytes, not %zu", tn, chunk, n-8);
	    ustl::istream is (m.data(), lead+n); is.skip (lead); E* c = s.coin() ? new E (*b) : b; is >> *c; PBT_CHECK (is.pos() == lead+n && is.good(), "%s of %zu bytes was read from %zu", tn, n, size_t(is.pos())-lead); verify (*c, x, "read back"); PBT_CHECK (bt (*c) == ta, "%s: what was read back has another backtrace", tn); PBT_CHECK (c->stream_size() == n, "%s: what was read back has size %zu, not %zu", tn, size_t(c->stream_size()), n);
	    ustl::memblock r; r.resize (n); ustl::ostream o2 (r); o2 << *c; PBT_CHECK (!memcmp (r.data(), (const char*) m.data()+lead, n), "%s: what was read back writes other bytes", tn); if (c != b) delete c; else { y = x; tb = ta; } moves += 2; } }
	verify (*a, x, "the source afterwards"); verify (*b, y, "the other afterwards"); PBT_CHECK (bt (*a) == ta && bt (*b) == tb, "%s: a backtrace changed", tn); }
    delete a; verify (*b, y, "the other at the end"); delete b; if (moves > 1) s.nontrivial();
}
PBT_TEST (errors, 5)
{
    switch (s.pick ({1,1,1,1,1,1,1,1,1,1,5,5,5,3,1,1,1})) {
	case 0: life<ustl::error_message> (s, "error_message"); break; case 1: life<ustl::logic_error> (s, "logic_error"); break; case 2: life<ustl::domain_error> (s, "domain_error"); break; case 3: life<ustl::invalid_argument> (s, "invalid_argument"); break; case 4: life<ustl::length_error> (s, "length_error"); break; case 5: life<ustl::out_of_range> (s, "out_of_range"); break;
	case 6: life<ustl::runtime_error> (s, "runtime_error"); break; case 7: life<ustl::range_error> (s, "range_error"); break; case 8: life<ustl::overflow_error> (s, "overflow_error"); break; case 9: life<ustl::underflow_error> (s, "underflow_error"); break; case 10: life<ustl::system_error> (s, "system_error"); break; case 11: life<ustl::file_exception> (s, "file_exception"); break; case 12: life<ustl::stream_bounds_exception> (s, "stream_bounds_exception"); break; case 13: life<ustl::bad_alloc> (s, "bad_alloc"); break; case 14: life<ustl::exception> (s, "exception"); break; case 15: life<ustl::bad_cast> (s, "bad_cast"); break; default: life<ustl::bad_typeid> (s, "bad_typeid"); }
}

static const struct Errc { const char* name; int u, t; } errcs[] = {
    #define E(n) { #n, int(ustl::errc::n), int(std::errc::n) },
    E(address_family_not_supported) E(address_in_use) E(address_not_available) E(already_connected) E(argument_list_too_long) E(argument_out_of_domain) E(bad_address) E(bad_file_descriptor) E(bad_message) E(broken_pipe) E(connection_aborted) E(connection_already_in_progress) E(connection_refused) E(connection_reset) E(cross_device_link) E(destination_address_required) E(device_or_resource_busy) E(directory_not_empty) E(executable_format_error) E(file_exists) E(file_too_large) E(filename_too_long) E(function_not_supported) E(host_unreachable) E(identifier_removed) E(illegal_byte_sequence) E(inappropriate_io_control_operation) E(interrupted) E(invalid_argument) E(invalid_seek) E(io_error) E(is_a_directory) E(message_size) E(network_down) E(network_reset) E(network_unreachable) E(no_buffer_space) E(no_child_process) E(no_link) E(no_lock_available) E(no_message_available) E(no_message) E(no_protocol_option) E(no_space_on_device) E(no_stream_resources) E(no_such_device_or_address) E(no_such_device) E(no_such_file_or_directory) E(no_such_process) E(not_a_directory) E(not_a_socket) E(not_a_stream) E(not_connected) E(not_enough_memory) E(not_supported) E(operation_canceled) E(operation_in_progress) E(operation_not_permitted) E(operation_not_supported) E(operation_would_block) E(owner_dead) E(permission_denied) E(protocol_error) E(protocol_not_supported) E(read_only_file_system) E(resource_deadlock_would_occur) E(resource_unavailable_try_again) E(result_out_of_range) E(state_not_recoverable) E(stream_timeout) E(text_file_busy) E(timed_out) E(too_many_files_open_in_system) E(too_many_files_open) E(too_many_links) E(too_many_symbolic_link_levels) E(value_too_large) E(wrong_protocol_type) };

/// Codes, conditions and categories against the system's and the standard ones.
PBT_TEST (codes, 4)
{
    auto some = [&] (void) { return s.chance (1,5) ? int(s.bits64()) : someerrno (s); }; int v = some(), w = s.chance (1,3) ? v : s.chance (1,9) ? int(v ^ (1u << s.below (32))) : some(); const Errc& e = errcs[s.below (sizeof(errcs)/sizeof(*errcs))], &f = s.chance (1,3) ? e : errcs[s.below (sizeof(errcs)/sizeof(*errcs))]; note ("codes %d and %d, %s and %s", v, w, e.name, f.name);
    PBT_CHECK (e.u == e.t, "errc::%s is %d, not %d", e.name, e.u, e.t);
    ustl::error_code a (v, ustl::system_category()), b (w, ustl::generic_category()), z, x (static_cast<ustl::errc> (e.u)); ustl::error_condition c (v, ustl::generic_category()), d (w, ustl::system_category()), cz, y (static_cast<ustl::errc> (f.u)); std::error_code sa (v, std::generic_category()), sb (w, std::generic_category());
    PBT_CHECK (a.value() == v && b.value() == w && x.value() == e.t && y.value() == f.t && c.value() == v && d.value() == w, "a code has another value"); PBT_CHECK (!z && !cz && z.value() == 0 && bool(a) == bool(sa) && bool(c) == bool(sa) && bool(d) == bool(sb), "a code is true or false where it should not be");
    PBT_CHECK ((a == b) == (v == w) && (c == d) == (v == w) && (a == d) == (v == w) && (c == b) == (v == w) && (x == y) == (e.t == f.t), "codes %d and %d compare wrong", v, w);
    std::string ma (a.message()), mc (c.message()), mx (x.message()); PBT_CHECK (ma == std::string (strerror (v)) && ma == sa.message() && mc == ma && mx == std::string (strerror (e.t)), "message of %d is '%s'", v, ma.c_str()); PBT_CHECK (std::string (ustl::system_category().message (w)) == std::string (strerror (w)) && !strcmp (ustl::system_category().name(), "system") && ustl::system_category() == a.category() && !(ustl::system_category() != b.category()), "the category is different");
    PBT_CHECK (a.default_error_condition() == c && a.default_error_condition().value() == v && ustl::system_category().default_error_condition (w) == d, "the default condition of %d is different", v); PBT_CHECK (ustl::system_category().equivalent (v, d) == (v == w) && ustl::system_category().equivalent (b, v) == (v == w), "%d and %d are equivalent or not", v, w);
    a.assign (w, ustl::system_category()); PBT_CHECK (a == b && a.value() == w, "assign left %d", a.value()); a = static_cast<ustl::errc> (f.u); PBT_CHECK (a.value() == f.t && a == y && a == ustl::make_error_code (static_cast<ustl::errc> (f.u)), "assigning errc::%s left %d", f.name, a.value()); a.clear(); PBT_CHECK (!a, "clear left %d", a.value());
    c.assign (w, ustl::generic_category()); PBT_CHECK (c == d, "assign left %d", c.value()); c = static_cast<ustl::errc> (e.u); PBT_CHECK (c.value() == e.t && c == ustl::make_error_condition (static_cast<ustl::errc> (e.u)), "assigning errc::%s left %d", e.name, c.value()); c.clear(); PBT_CHECK (!c, "clear left %d", c.value());
    ustl::system_error se (a = ustl::error_code (w, ustl::system_category()), "op"); PBT_CHECK (se.code() == b && se.Errno() == w, "an error of code %d has code %d", w, se.Errno()); if (v && w && v != w) s.nontrivial();
}

/// Names of any length are demangled within their buffers.
PBT_TEST (names, 2)
{
    static const char* const seeds[] = { "i", "Ss", "N4ustl6stringE", "N4ustl6vectorINS_6stringEEE", "St3mapISsiSt4lessISsESaISt4pairIKSsiEEE", "_ZN4ustl4sortEPiS0_", "notmangled", "" }; std::string n (s.among (seeds)); if (s.chance (1,3)) { unsigned d = s.below (40); std::string w; for (unsigned i = 0; i < d; ++i) w += "N4ustl6vectorI"; w += "i"; for (unsigned i = 0; i < d; ++i) w += "EE"; n = w; } if (s.chance (1,4)) n = words (s, 300);
    size_t cap = n.size()+1+s.len (300); uh::exact<char> b (cap); memset (b.begin(), 'Z', cap); strcpy (b.begin(), n.c_str()); size_t got = 77777; note ("'%s' in %zu bytes", pbt::esc (n).c_str(), cap); const char* r = ustl::demangle_type_name (b.begin(), cap, s.chance (1,8) ? nullptr : &got); std::string want (n);
    #if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
	int st = 0; char* d = abi::__cxa_demangle (n.c_str(), nullptr, nullptr, &st); if (d && !st) want = std::string (d).substr (0, cap-1); free (d);
    #endif
    PBT_CHECK (r == b.begin() && !memcmp (r, want.c_str(), want.size()+1), "demangled to '%s', not '%s'", pbt::esc (r, strnlen (r, cap)).c_str(), pbt::esc (want).c_str()); PBT_CHECK (got == 77777 || got == want.size(), "the size is %zu, not %zu", got, want.size()); if (n.size() > 3) s.nontrivial();
}

/// Failing allocations and requests out of bounds say what was asked for.
PBT_TEST (thrown, 2)
{
    switch (s.below (4)) {
	case 0: { size_t n = 100000 + s.below (100), o = s.below (100); char b[100]; ustl::istream is (b, 64); is.skip (o%64); try { static char big[200000]; is.read (big, n); pbt::fail ("reading past the end did not throw"); } catch (ustl::stream_bounds_exception& e) { PBT_CHECK (e.Offset() == o%64 && e.Expected() == n && e.Remaining() == 64-o%64 && !strcmp (e.Operation(), "read") && !strcmp (e.TypeName(), "binary data"), "the exception says %s %s %zu %zu %zu", e.Operation(), e.TypeName(), size_t(e.Offset()), e.Expected(), e.Remaining()); } break; }
	case 1: { char b[100]; size_t o = s.below (60); ustl::ostream os (b, 64); os.skip (o); static char big[300]; size_t n = 65+s.below (200); try { os.write (big, n); pbt::fail ("writing past the end did not throw"); } catch (ustl::stream_bounds_exception& e) { PBT_CHECK (e.Offset() == o && e.Expected() == n && e.Remaining() == 64-o && !strcmp (e.Operation(), "write"), "the exception says %s %zu %zu %zu", e.Operation(), size_t(e.Offset()), e.Expected(), e.Remaining()); } break; }
	case 2: { std::string op (words (s, 40)), f ("/nonexistent-"+words (s, 60)); for (auto& c : f) if (c == '/' && &c != &f[0]) c = '_'; ustl::fstream fs; fs.exceptions (ustl::ios_base::allbadbits); try { fs.open (f.c_str(), ustl::ios_base::in); pbt::fail ("opening a missing file did not throw"); } catch (ustl::file_exception& e) { PBT_CHECK (e.Errno() == ENOENT && f == e.Filename() && !strcmp (e.Operation(), "open"), "the exception says %s %s %d", e.Operation(), e.Filename(), e.Errno()); } break; }
	default: { size_t n = 1+s.below (100000); ustl::cmemlink l; ustl::string info; std::string want (fmts ("failed to allocate %zu bytes", n)); try { l.link (nullptr, n); pbt::fail ("linking to nothing did not throw"); } catch (ustl::bad_alloc& e) { e.info (info); } PBT_CHECK (want == info.c_str(), "the exception says '%s'", info.c_str()); } }
    s.nontrivial();
}
