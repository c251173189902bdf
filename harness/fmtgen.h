// Generates printf formats with arguments of matching types and hands both to
// a callable: f (const char* fmt, args...). The C library is the oracle.
#pragma once
#include "uh.h"

struct FmtArgs { std::string str [4]; };

inline std::string fmt_literal (Src& s)
{
    std::string r; size_t n = s.below(5) ? s.below(6) : s.blen(700);
    for (size_t i = 0; i < n; ++i) { char c = char(32+s.below(95)); r += (c == '%' ? std::string("%%") : std::string(1,c)); }
    return r;
}
inline std::string fmt_flags (Src& s, const char* ok)
{
    std::string r;
    for (; *ok; ++ok) if (s.below(4) == 0) r += *ok;
    if (s.coin()) { static const unsigned w[] = {1,2,5,8,13,20,40,200,900}; r += pbt::fmt ("%u", s.among (w)); }
    return r;
}

template <unsigned D, typename F> struct FmtRec {
    template <typename... A> static void go (Src& s, FmtArgs& st, std::string f, unsigned left, F& fn, A... a) {
	f += fmt_literal (s);
	if (!left) { fn (f.c_str(), a...); return; }
	switch (s.below(6)) {
	    case 0: { f += "%" + fmt_flags (s, "-+ 0"); if (s.coin()) f += pbt::fmt (".%u", unsigned(s.below(30))); f += "d"; FmtRec<D-1,F>::go (s, st, f, left-1, fn, a..., int(s.bits64())); break; }
	    case 1: { f += "%" + fmt_flags (s, "-#0"); if (s.coin()) f += pbt::fmt (".%u", unsigned(s.below(40))); static const char* c[] = {"lx","lo","lu","lX"}; f += s.among (c); FmtRec<D-1,F>::go (s, st, f, left-1, fn, a..., (unsigned long)(s.bits64())); break; }
	    case 2: { f += "%" + fmt_flags (s, "-+ #0"); if (s.coin()) f += pbt::fmt (".%u", unsigned(s.below(30))); static const char* c[] = {"f","g","e","G","a"}; f += s.among (c); double v = s.coin() ? double(int64_t(s.bits64())) : double(s.range(-100000,100000))/1024; if (s.below(20) == 0) v *= 1e200; FmtRec<D-1,F>::go (s, st, f, left-1, fn, a..., v); break; }
	    case 3: { f += "%" + fmt_flags (s, "-"); if (s.coin()) f += pbt::fmt (".%u", unsigned(s.below(60))); f += "s"; std::string t = uh::rbytes (s, s.below(4) ? s.blen(40) : s.blen(3000)); for (auto& c : t) if (!c) c = ' '; st.str[left] = t; FmtRec<D-1,F>::go (s, st, f, left-1, fn, a..., st.str[left].c_str()); break; }
	    case 4: { f += "%" + fmt_flags (s, "-") + "c"; FmtRec<D-1,F>::go (s, st, f, left-1, fn, a..., int(1+s.below(255))); break; }
	    case 5: { static const char* c[] = {"hhd","hd","hhu","hx"}; f += "%" + fmt_flags (s, "-0") + s.among (c); FmtRec<D-1,F>::go (s, st, f, left-1, fn, a..., int(s.bits64())); break; }
	}
    }
};
template <typename F> struct FmtRec<0,F> {
    template <typename... A> static void go (Src& s, FmtArgs& st, std::string f, unsigned, F& fn, A... a) { f += fmt_literal (s); fn (f.c_str(), a...); }
};
template <typename F> inline void with_format (Src& s, F fn)
{
    FmtArgs st; FmtRec<3,F>::go (s, st, std::string(), s.below(4), fn);
}
template <typename... A> inline std::string c_format (const char* f, A... a)
{
    int n = snprintf (nullptr, 0, f, a...);
    std::string r (n+1, 0); snprintf (&r[0], n+1, f, a...); r.resize (n);
    return r;
}
