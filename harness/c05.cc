// C05: string search and comparison against std::string.
#include "uh.h"
using ustl::string;

static const unsigned AL[] = {1,2,3,26,256};
static std::string hay (Src& s, size_t mx)
{
    size_t n = s.blen (mx); unsigned al = s.among (AL); std::string r (n, 0);
    if (n > 600) { uint64_t x = s.below (1000), d = 1+s.below(50); for (size_t i = 0; i < n; ++i) { unsigned v = unsigned(pbt::mix ((x+i)/d)); r[i] = al == 256 ? char(v) : char('a'+v%al); } return r; }
    for (auto& c : r) c = al == 256 ? char(s.below(256)) : char('a'+s.below(al));
    return r;
}
static size_t up (size_t p)	{ return p == std::string::npos ? size_t(string::npos) : p; }

/// A string holding d in one of the forms strings come in.
struct Form {
    uh::exact<char> mem; std::unique_ptr<string> p;
    Form (Src& s, const std::string& d) : mem (d+'\0') {
	switch (s.below(5)) {
	    case 0: p.reset (new string (d.data(), d.size())); break;
	    case 1: p.reset (new string (d.data(), d.size())); p->shrink_to_fit(); break;
	    case 2: p.reset (new string); p->link ((const void*) mem.begin(), d.size()); break;
	    case 3: p.reset (new string); p->reserve (d.size()+100); p->assign (d.data(), d.size()); break;
	    case 4: p.reset (new string (d.size()+20, 'b')); p->assign (d.data(), d.size()); break;
	}
    }
    const string& operator* (void) const { return *p; }
};
#define SAME(got,want,what) do { size_t g_ = (got), w_ = up(want); PBT_CHECK (g_ == w_, "%s in %s of %s from %zu gives %zu, expected %zu", what, pbt::esc(h).c_str(), pbt::esc(n).c_str(), pos, g_, w_); } while (0)

PBT_TEST(search,8)
{
    s.scaled (70000); std::string h = hay (s, 60), n;
    switch (s.below(4)) {
	case 0: n = hay (s, 8); break;
	case 1: { size_t p = s.below(h.size()+1); n = h.substr (p, s.scale_mode() ? s.blen(8) : s.below(8)); break; }
	case 2: { size_t p = s.below(h.size()+1); n = h.substr (p, s.scale_mode() ? s.blen(8) : s.below(8)); if (!n.empty()) n[s.below(n.size())] ^= 1+s.below(3); break; }
	case 3: { n = h.substr (0, s.below(h.size()+1)); if (s.coin()) n += 'a'; else if (s.coin()) n = h.substr (h.size()-n.size()); break; }
    }
    size_t pos = s.chance (1,12) ? uh::farpos (s) : s.below(h.size()+3); bool dflt = s.below(4) == 0;
    Form fh (s, h), fn (s, n); const string& a = *fh; const string& b = *fn;
    uh::exact<char> np (n);
    note ("%s / %s / %zu", pbt::esc(h).c_str(), pbt::esc(n).c_str(), pos);
    if (!n.empty()) {		// an empty needle is documented to be found nowhere
	SAME (a.find (b, pos), h.find (n, pos), "find");
	SAME (a.find (np.begin(), pos, n.size()), h.find (n, pos), "find(p,n)");
	if (dflt) SAME (a.find (b), h.find (n), "find(default)");
    }
    SAME (a.rfind (b, pos), h.rfind (n, pos), "rfind");
    SAME (a.rfind (np.begin(), pos, n.size()), h.rfind (n, pos), "rfind(p,n)");
    SAME (a.find_first_of (b, pos), h.find_first_of (n, pos), "find_first_of");
    SAME (a.find_first_not_of (b, pos), h.find_first_not_of (n, pos), "find_first_not_of");
    SAME (a.find_last_of (b, pos), h.find_last_of (n, pos), "find_last_of");
    SAME (a.find_last_not_of (b, pos), h.find_last_not_of (n, pos), "find_last_not_of");
    SAME (a.find_first_of (np.begin(), pos, n.size()), h.find_first_of (n, pos), "find_first_of(p,n)");
    SAME (a.find_first_not_of (np.begin(), pos, n.size()), h.find_first_not_of (n, pos), "find_first_not_of(p,n)");
    SAME (a.find_last_of (np.begin(), pos, n.size()), h.find_last_of (n, pos), "find_last_of(p,n)");
    SAME (a.find_last_not_of (np.begin(), pos, n.size()), h.find_last_not_of (n, pos), "find_last_not_of(p,n)");
    if (dflt) {
	pos = 0;
	SAME (a.rfind (b), h.rfind (n), "rfind(default)");
	SAME (a.find_first_of (b), h.find_first_of (n), "find_first_of(default)");
	SAME (a.find_first_not_of (b), h.find_first_not_of (n), "find_first_not_of(default)");
	SAME (a.find_last_of (b), h.find_last_of (n), "find_last_of(default)");
	SAME (a.find_last_not_of (b), h.find_last_not_of (n), "find_last_not_of(default)");
    }
    s.nontrivial (h.size() > 2 && !n.empty() && h.find (n) != h.npos && h.find (n) != h.rfind (n));
}

PBT_TEST(search_char,4)
{
    s.scaled (70000); std::string h = hay (s, 70); char c = s.coin() || h.empty() ? char('a'+s.below(3)) : h[s.below(h.size())]; if (s.below(6) == 0) c = 0;
    std::string n (1, c); size_t pos = s.chance (1,12) ? uh::farpos (s) : s.below(h.size()+3); Form fh (s, h); const string& a = *fh; bool u = s.coin(); typedef unsigned char uc;
    note ("%s / %s / %zu", pbt::esc(h).c_str(), pbt::esc(n).c_str(), pos);
    SAME (u ? a.find (uc(c), pos) : a.find (c, pos), h.find (c, pos), "find(c)");
    SAME (u ? a.rfind (uc(c), pos) : a.rfind (c, pos), h.rfind (c, pos), "rfind(c)");
    SAME (u ? a.find_first_of (uc(c), pos) : a.find_first_of (c, pos), h.find_first_of (c, pos), "find_first_of(c)");
    SAME (u ? a.find_first_not_of (uc(c), pos) : a.find_first_not_of (c, pos), h.find_first_not_of (c, pos), "find_first_not_of(c)");
    SAME (u ? a.find_last_of (uc(c), pos) : a.find_last_of (c, pos), h.find_last_of (c, pos), "find_last_of(c)");
    SAME (u ? a.find_last_not_of (uc(c), pos) : a.find_last_not_of (c, pos), h.find_last_not_of (c, pos), "find_last_not_of(c)");
    pos = 0;
    SAME (a.find (c), h.find (c), "find(c) default");
    SAME (a.rfind (c), h.rfind (c), "rfind(c) default");
    SAME (a.find_last_of (c), h.find_last_of (c), "find_last_of(c) default");
    SAME (a.find_last_not_of (c), h.find_last_not_of (c), "find_last_not_of(c) default");
    s.nontrivial (h.find (c) != h.rfind (c));
}

/// Long patterns with a rare last character, among near misses.
PBT_TEST(patterns,1)
{
    static const size_t lens[] = { 255, 256, 257, 511, 512, 513, 1024, 65535, 65536, 65537 }; bool big = s.chance (1,30);
    size_t k = big ? s.among (lens)+s.below (3)*s.below (2) : s.chance (1,3) ? lens[s.below (7)]+s.below (3) : 1+s.len (40); uint64_t x = s.below (1000); std::string n (k, 'a'), h, w; for (size_t i = 0; i+1 < k; ++i) n[i] = char('a'+pbt::mix (x+i)%3); n[k-1] = 'Z';
    if (k > 2 && s.coin()) { size_t d = s.coin() ? 1+s.below (k-1) : s.among (lens); if (d < k) n[k-1-d] = 'Z'; }
    for (unsigned i = 1+s.below (4); i--;) switch (s.below (4)) {
	case 0: w = n; w[s.below (k)] ^= 1; h += w; break;
	case 1: w = n; w[0] = 'q'; h += w; break;
	case 2: { size_t c = s.among (lens) % (k+40); for (size_t j = 0; j < c; ++j) h += char('a'+pbt::mix (x+j*7)%3); if (s.coin()) h += 'Z'; break; }
	default: h += n.substr (s.below (k)); if (s.coin()) h += n; }
    size_t pos = s.coin() ? 0 : s.below (h.size()+2); Form fh (s, h), fn (s, n); const string& a = *fh; const string& b = *fn; note ("pattern of %zu in %zu from %zu", k, h.size(), pos);
    SAME (a.find (b, pos), h.find (n, pos), "find"); size_t rp = s.coin() ? h.size() : pos; PBT_CHECK (a.rfind (b, rp) == up (h.rfind (n, rp)), "rfind from %zu gives %zu", rp, size_t(a.rfind (b, rp)));
    s.nontrivial (h.find (n) != h.npos && k > 2);
}

static int sg (int v) { return v < 0 ? -1 : v > 0; }
PBT_TEST(compare,6)
{
    s.scaled (70000); std::string h = hay (s, 40), n;
    switch (s.below(4)) { case 0: n = hay (s, 40); break; case 1: n = h; break; case 2: n = h; if (!n.empty()) n[s.below(n.size())] = char(s.below(256)); break; case 3: n = h.substr (0, s.below(h.size()+1)); if (s.coin()) std::swap (h, n); break; }
    Form fh (s, h), fn (s, n); const string& a = *fh; const string& b = *fn; size_t pos = 0;
    note ("%s / %s", pbt::esc(h).c_str(), pbt::esc(n).c_str());
    #define CMP(got,want,what) do { int g_ = sg(got), w_ = sg(want); PBT_CHECK (g_ == w_, "%s of %s and %s gives %d, expected %d", what, pbt::esc(h).c_str(), pbt::esc(n).c_str(), g_, w_); } while (0)
    CMP (a.compare (b), h.compare (n), "compare");
    CMP (b.compare (a), n.compare (h), "reverse compare");
    CMP (string::compare (a.begin(), a.end(), b.begin(), b.end()), h.compare (n), "static compare");
    { size_t p = s.below(h.size()+1), c = s.below(h.size()+3), q = s.below(n.size()+1), d = s.below(n.size()+3);
      CMP (a.compare (p, c, b), h.compare (p, c, n), "compare(p,n,s)");
      CMP (a.compare (p, c, b, q, d), h.compare (p, c, n, q, d), "compare(p,n,s,p,n)");
      size_t dd = std::min (d, n.size()); uh::exact<char> e (n.substr (0, dd));
      CMP (a.compare (p, c, e.begin(), dd), h.compare (p, c, n.c_str(), dd), "compare(p,n,cs,n)");
      CMP (a.compare (p, c, n.c_str()), h.compare (p, c, n.c_str()), "compare(p,n,cs)"); }
    CMP (a.compare (n.c_str()), h.compare (n.c_str()), "compare(cs)");
    #define REL(x,y) do { bool g_ = bool(x), w_ = bool(y); PBT_CHECK (g_ == w_, #x " on %s and %s gives %d", pbt::esc(h).c_str(), pbt::esc(n).c_str(), g_); } while (0)
    REL (a == b, h == n); REL (a != b, h != n); REL (a < b, h < n); REL (b < a, n < h); REL (a > b, h > n); REL (a <= b, h <= n); REL (a >= b, h >= n);
    const char* cn = n.c_str(); const std::string sn (cn);
    REL (a == cn, h == sn); REL (a != cn, h != sn); REL (a < cn, h < sn); REL (a > cn, h > sn);
    REL (a <= cn, h <= sn); REL (a >= cn, h >= sn);
    REL (cn == a, sn == h); REL (cn != a, sn != h); REL (cn < a, sn < h); REL (cn > a, sn > h); REL (cn <= a, sn <= h); REL (cn >= a, sn >= h);
    char c = n.empty() ? 'a' : n[0]; const std::string sc (1, c);
    REL (a == c, h == sc); REL (a != c, h != sc); REL (a < c, h < sc); REL (a == (unsigned char) c, h == sc);
    REL (a == (const char*) nullptr, h.empty());
    hashvalue_t ha = string::hash (a.begin(), a.end()), hb = string::hash (b.begin(), b.end());
    PBT_CHECK (h != n || ha == hb, "equal strings with different hashes: %s", pbt::esc(h).c_str());
    string a2 (h.data(), h.size()); PBT_CHECK (string::hash (a2.begin(), a2.end()) == ha && ustl::hash_value (a2.begin(), a2.end()) == ha, "hash depends on where the string is");
    PBT_CHECK (ustl::hash_value (cn) == ustl::hash_value (cn, cn+sn.size()), "hash_value forms differ");
    s.nontrivial (!h.empty() && !n.empty() && h[0] == n[0]);
}

/// Positions, sizes and lengths that need more than 32 bits: text of zeros with letters at its two ends.
PBT_TEST(far,1)
{
    uh::Far m (s); if (!m) { label ("no memory to map"); return; }
    size_t L = m.n, tn = 1+s.below(200); unsigned al = 1+s.below(3);
    std::string hd (tn, 0), tl (tn, 0), n (1+s.below(3), 0); for (auto& c : hd) c = char('a'+s.below(al)); for (auto& c : tl) c = char('a'+s.below(al)); for (auto& c : n) c = char('a'+s.below(al));
    memcpy (m.p, hd.data(), tn); memcpy (m.p+L-tn, tl.data(), tn); size_t base = L-tn;
    string a; if (s.coin()) a.link ((const void*) m.p, L); else a.link (m.p, m.p+L); string b (n.data(), n.size());
    size_t p = s.below(tn+1), pos = base+p; note ("%zu zeros between %s and %s, %s from %zu", L-2*tn, hd.c_str(), tl.c_str(), n.c_str(), pos);
    #define FAR(got,want,what) do { size_t g_ = (got), w_ = (want); w_ = w_ == std::string::npos ? size_t(string::npos) : base+w_; PBT_CHECK (g_ == w_, "%s of %s from %zu gives %zu, expected %zu", what, n.c_str(), pos, g_, w_); } while (0)
    #define FARB(got,want,what) do { if ((want) != std::string::npos) FAR (got, want, what); } while (0)
    FAR (a.find (b, pos), tl.find (n, p), "find"); FAR (a.find (n.data(), pos, n.size()), tl.find (n, p), "find(p,n)"); FAR (a.find (n[0], pos), tl.find (n[0], p), "find(c)");
    FAR (a.find_first_of (b, pos), tl.find_first_of (n, p), "find_first_of"); FAR (a.find_first_not_of (b, pos), tl.find_first_not_of (n, p), "find_first_not_of"); FAR (a.find_first_of (n[0], pos), tl.find_first_of (n[0], p), "find_first_of(c)");
    FARB (a.rfind (b, pos), tl.rfind (n, p), "rfind"); FARB (a.rfind (n[0], pos), tl.rfind (n[0], p), "rfind(c)"); FARB (a.rfind (b, L), tl.rfind (n), "rfind from the end"); FARB (a.rfind (n[0], L), tl.rfind (n[0]), "rfind(c) from the end");
    FARB (a.find_last_of (b, pos), tl.find_last_of (n, p), "find_last_of"); FARB (a.find_last_of (b, L), tl.find_last_of (n), "find_last_of from the end"); FARB (a.find_last_not_of (b, pos), tl.find_last_not_of (n, p), "find_last_not_of"); FARB (a.find_last_not_of (n[0], L), tl.find_last_not_of (n[0]), "find_last_not_of(c)");
    { size_t q = s.below(tn); PBT_CHECK (a.rfind (b, q) == (hd.rfind (n, q) == hd.npos ? size_t(string::npos) : hd.rfind (n, q)), "rfind of %s in front of %zu", n.c_str(), q); if (hd.find (n, q) != hd.npos) PBT_CHECK (a.find (b, q) == hd.find (n, q), "find of %s from %zu", n.c_str(), q); PBT_CHECK (a.find_last_of (b, q) == (hd.find_last_of (n, q) == hd.npos ? size_t(string::npos) : hd.find_last_of (n, q)), "find_last_of %s in front of %zu", n.c_str(), q); }
    { string e; size_t k = s.below(4); e.link ((const void*) (m.p+base), k); PBT_CHECK (b.find (a) == size_t(string::npos) && b.rfind (a) == size_t(string::npos), "text found in a part of it"); }
    PBT_CHECK (a.size() == L && a.end() == m.p+L && size_t(a.iat(pos)-a.begin()) == pos && a.iat (L+5) == a.end() && (p == tn || a.at(pos) == tl[p]) && (p == tn || a[pos] == tl[p]) && a.back() == tl[tn-1], "size and access");
    { size_t k = s.below(tn+3); std::string w = tl.substr (p, k); string x (a, pos, k), y (a.substr (pos, k)), z, o ("<");
      z.assign (a, pos, k); o.append (a, pos, k); PBT_CHECK (std::string (x.c_str(), x.size()) == w && std::string (y.c_str(), y.size()) == w && std::string (z.c_str(), z.size()) == w && std::string (o.c_str(), o.size()) == "<"+w, "part of %zu at %zu", k, pos);
      string r ("(...)"); if (w.size()) { r.replace (r.iat(1), r.iat(4), a.iat(pos), a.iat(pos+k)); PBT_CHECK (std::string (r.c_str(), r.size()) == "("+w+")", "replaced with a part"); } string t ("[]"); t.insert (1, a, pos, k); PBT_CHECK (std::string (t.c_str(), t.size()) == "["+w+"]", "inserted a part");
      std::string cb (tn+4, '#'); size_t nc = a.copy (&cb[0], k+1, pos); PBT_CHECK (nc == tl.substr(p, k+1).size() && cb.compare (0, nc, tl, p, k+1) == 0 && cb[nc] == '#', "copy of %zu at %zu gives %zu", k+1, pos, nc); }
    // a long text is greater than what it starts with
    { std::string w = hd.substr (0, s.below(tn+1)); if (s.coin() && !w.empty()) w[s.below(w.size())] ^= 1+s.below(3); string c (w.data(), w.size()); int e = sg (hd.substr(0,w.size()).compare (w)); if (!e) e = 1;
      note ("compared with %s", w.c_str()); std::string h = hd; n = w;
      CMP (a.compare (c), e, "compare"); CMP (c.compare (a), -e, "reverse compare"); CMP (string::compare (a.begin(), a.end(), c.begin(), c.end()), e, "static compare"); CMP (a.compare (w.c_str()), e, "compare(cs)"); CMP (a.compare (0, L, c), e, "compare(p,n,s)");
      PBT_CHECK (!(a == c) && a != c && !(c == a) && (a < c) == (e < 0) && (c < a) == (e > 0) && (a > c) == (e > 0) && (a <= c) == (e < 0) && (a >= c) == (e > 0) && !(a == w.c_str()) && (a < w.c_str()) == (e < 0) && (a > w.c_str()) == (e > 0), "relations with %s", w.c_str());
      size_t k = s.below(tn-p+1); h = tl.substr (p, k); CMP (a.compare (pos, k, c), h.compare (w), "compare of a part at the end"); CMP (c.compare (0, w.size(), a, pos, k), w.compare (h), "compare with a part at the end"); }
    s.nontrivial (p < tn && tl.find (n.c_str(), p) != tl.npos);
}

/// npos is INT_MAX: in longer texts it is a position like any other, and searches that start "at the end" start there.
PBT_KNOWN (npos_in_text)
{
    Src s (1, 5); uh::Far m (s); if (!m) return true;
    size_t L = (size_t(1)<<31)+10; m.p[L-1] = 'a'; m.p[L-2] = 'b'; m.p[size_t(string::npos)-3] = 'b'; string a; a.link ((const void*) m.p, L);
    return a.find_last_of ("ab") != L-1;
}
