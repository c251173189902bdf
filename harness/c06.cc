// C06: formatting into strings, in any state, against the C library.
#include "fmtgen.h"
using ustl::string;

struct FmtInto {
    string& a; std::string& want; std::string& f; int& rv; bool v;
    static int via (string& a, const char* f, ...) { va_list l; va_start (l, f); int r = a.vformat (f, l); va_end (l); return r; }
    template <typename... A> void operator() (const char* fs, A... x) { f = fs; want = c_format (fs, x...); rv = v ? via (a, fs, x...) : a.format (fs, x...); }
};

PBT_TEST(format,8)
{
    s.scaled (70000); std::string base = uh::rbytes (s, s.blen(400)); uh::exact<char> mem (base+'\0'); unsigned form = s.below(8);
    std::unique_ptr<string> p (new string);
    switch (form) {
	case 0: break;
	case 1: p->assign (base.data(), base.size()); break;
	case 2: p->link ((const void*) mem.begin(), base.size()); break;
	case 3: p->reserve (s.blen(600)); break;
	case 4: p->assign (base.data(), base.size()); p->shrink_to_fit(); break;
	case 5: p->assign (base.data(), base.size()); p->clear(); break;
	case 6: { p->assign (base.data(), base.size()); string t (ustl::move (*p)); break; }
	case 7: p.reset (new string (15, '\0')); break;
    }
    size_t longest = 0; unsigned shr = 0;
    for (unsigned k = 0, n = 1+s.below(4); k < n; ++k) {
	std::string want, f; int rv = -7; size_t before = p->size();
	with_format (s, FmtInto {*p, want, f, rv, s.coin()});
	note ("form %u: format %s -> %zu bytes (had %zu)", form, pbt::esc(f.substr(0,120)).c_str(), want.size(), before);
	PBT_CHECK (rv == int(want.size()), "format %s returned %d, expected %zu", pbt::esc(f).c_str(), rv, want.size());
	const string& a = *p;
	PBT_CHECK (a.size() == want.size() && !memcmp (a.c_str(), want.data(), want.size()), "format %s gives %s (%zu), expected %s (%zu)", pbt::esc(f).c_str(), pbt::esc(a.c_str(),a.size()).c_str(), a.size(), pbt::esc(want).c_str(), want.size());
	PBT_CHECK (!a.c_str()[a.size()], "formatted text is not terminated");
	longest = std::max (longest, want.size()); shr += k && want.size() < before;
    }
    PBT_CHECK (!memcmp (mem.begin(), base.data(), base.size()), "formatting wrote into the memory the string was linked to");
    if (shr) label ("shorter after longer");
    s.nontrivial (longest > 30);
}

// Result lengths around every capacity boundary.
PBT_TEST(boundary,4)
{
    s.scaled (70000, 60, 4); string a; size_t cap = s.scale_mode() ? s.blen(70) : s.below(70); if (cap) a.reserve (cap);
    for (unsigned k = 0; k < 3; ++k) {
	size_t real = a.capacity(), n = real + 3 - s.below(7); if (n > 100000) n = s.below(5);
	std::string t (n, 'x'); unsigned v = s.below(1000);
	note ("capacity %zu, %zu chars", real, n);
	if (s.coin()) { a.format ("%s", t.c_str()); PBT_CHECK (std::string (a.c_str(), a.size()) == t && !a.c_str()[a.size()], "%zu characters into capacity %zu", n, real); }
	else { a.format ("%*u", int(n), v); std::string w = c_format ("%*u", int(n), v); PBT_CHECK (std::string (a.c_str(), a.size()) == w, "%zu wide number into capacity %zu", n, real); }
    }
    s.nontrivial();
}

// An output error leaves a valid string.
PBT_TEST(unprintable,1)
{
    std::string base = uh::rbytes (s, s.len(40)); string a (base.data(), base.size()); unsigned n = s.below(30);
    int rv = a.format ("%*s%lc", n, "", wint_t(0xd800+s.below(100)));
    PBT_CHECK (rv < 0, "returned %d for a character that can not be printed", rv);
    PBT_CHECK (a.size() <= 100 && !a.c_str()[a.size()], "left a string of size %zu", a.size());
    a.append ("ok"); a.format ("%d", 5); PBT_CHECK (a == "5", "string is unusable afterwards");
    s.nontrivial();
}

PBT_TEST(numbers,4)
{
    uint64_t u = s.bits64(); double d = s.coin() ? double(int64_t(u))/(1+s.below(9)) : double(s.range(-1000000,1000000))/64; if (s.below(12) == 0) d = s.coin() ? 1e300 : 1e-300;
    #define NUM(T,v) do { T x_ = (T)(v); string g_ = ustl::to_string (x_); std::string w_ = std::to_string (x_); PBT_CHECK (w_.size() == g_.size() && w_ == g_.c_str(), "to_string<" #T "> gives %s, expected %s", g_.c_str(), w_.c_str()); } while (0)
    NUM(int,u); NUM(unsigned,u); NUM(long,u); NUM(unsigned long,u); NUM(long long,u); NUM(unsigned long long,u); NUM(float,d); NUM(double,d); NUM(long double,d);
    note ("%llu %g", (unsigned long long) u, d);
    s.nontrivial (u > 9);
}
