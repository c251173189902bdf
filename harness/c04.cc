// C04: string edits against std::string.
#include "uh.h"
using ustl::string;

static std::string enc (const std::wstring& w)
{
    std::string r;
    for (wchar_t wc : w) { uint32_t c = wc;
	if (c < 0x80) r += char(c);
	else if (c < 0x800) { r += char(0xc0|(c>>6)); r += char(0x80|(c&63)); }
	else if (c < 0x10000) { r += char(0xe0|(c>>12)); r += char(0x80|((c>>6)&63)); r += char(0x80|(c&63)); }
	else { r += char(0xf0|(c>>18)); r += char(0x80|((c>>12)&63)); r += char(0x80|((c>>6)&63)); r += char(0x80|(c&63)); } }
    return r;
}
static std::wstring rwide (Src& s, size_t n)
{
    std::wstring r; if (n > 600) { wchar_t x = wchar_t(1+s.below(0x110000-1)); for (size_t i = 0; i < n; ++i) r += i%5 ? wchar_t(32+i%90) : x; return r; }
    for (size_t i = 0; i < n; ++i) { static const uint32_t top[] = {0x80,0x800,0x10000,0x110000}; r += wchar_t(1+s.below(s.among(top)-1)); }
    return r;
}
/// Text without nul, for the const char* forms
static std::string rtext (Src& s, size_t mx) { std::string r = uh::rbytes (s, s.blen(mx)); for (auto& c : r) if (!c) c = '.'; return r; }

PBT_TEST(edits,10)
{
    std::unique_ptr<string> v[2]; std::string m[2]; unsigned mids = 0, nuls = 0;
    for (auto& p : v) p.reset (new string);
    const size_t MX = s.coin() ? 30 : 300; s.scaled (70000);
    for (unsigned k = 0, n = 1+s.hist(36); k < n; ++k) {
	int i = s.below(2), j = 1-i; string* a = v[i].get(); std::string& b = m[i]; const size_t os = b.size(); const char* nm = "?";
	size_t p = s.below(os+1), c = s.below(os-p+1);
	auto at = [&](const string::const_iterator r, size_t w){ PBT_CHECK (r == static_cast<const string*>(a)->begin()+w, "%s returned position %td, expected %zu", nm, r - static_cast<const string*>(a)->begin(), w); };
	switch (s.below(47)) {
	    case 46: { nm = "append own text"; const std::string t (b); switch (s.below (6)) { case 0: *a += *a; b += t; break; case 1: a->append (*a); b += t; break; case 2: a->append (*a, p, c); b += t.substr (p, c); break; case 3: a->append (a->c_str()+p, c); b += t.substr (p, c); break;
		case 4: *a += a->c_str()+p; b += t.c_str()+p; break; default: a->append (a->iat(p), a->iat(p+c)); b += t.substr (p, c); } if (b.size() > 140000) { a->clear(); b.clear(); } break; }
	    case 0: { nm = "string(p,n)"; std::string t = uh::rbytes (s, s.blen(MX)); uh::exact<char> e (t); v[i].reset (new string (e.begin(), t.size())); b = t; break; }
	    case 1: { nm = "string(p,p)"; std::string t = uh::rbytes (s, s.blen(MX)); uh::exact<char> e (t); v[i].reset (new string ((const char*) e.begin(), (const char*) e.end())); b = t; break; }
	    case 2: { nm = "string(n,c)"; size_t q = s.blen(MX); char ch = char(s.below(256)); v[i].reset (new string (q, ch)); b.assign (q, ch); break; }
	    case 3: { nm = "string(string,o,n)"; size_t o = s.below(m[j].size()+1), q = s.coin() ? s.below(m[j].size()+9) : uh::farpos (s); v[i].reset (new string (*v[j], o, q)); b = m[j].substr (o, q); break; }
	    case 4: { nm = "string(list)"; v[i].reset (new string {'a','\0','b'}); b = std::string ("a\0b",3); break; }
	    case 5: { nm = "string(cmemlink)"; std::string t = uh::rbytes (s, s.blen(MX)); uh::exact<char> e (t); v[i].reset (new string (ustl::cmemlink (e.begin(), t.size()))); b = t; break; }
	    case 6: { nm = "append(p,n)"; std::string t = uh::rbytes (s, s.blen(MX)); uh::exact<char> e (t); a->append (e.begin(), t.size()); b += t; break; }
	    case 7: { nm = "append(cstr)"; std::string t = rtext (s, MX); if (s.coin()) a->append (t.c_str()); else *a += t.c_str(); b += t; break; }
	    case 8: { nm = "append(n,c)"; size_t q = s.blen(MX); char ch = char(s.below(256)); a->append (q, ch); b.append (q, ch); break; }
	    case 9: { nm = "append(string)"; if (s.coin()) a->append (*v[j]); else *a += *v[j]; b += m[j]; break; }
	    case 10: { nm = "append(string,o,n)"; size_t o = s.below(m[j].size()+1), q = s.chance (1,6) ? uh::farpos (s) : s.below(m[j].size()+5); a->append (*v[j], o, q); b.append (m[j], o, q); break; }
	    case 11: { nm = "append(it,it)"; size_t o = s.below(m[j].size()+1), q = s.below(m[j].size()-o+1); const string& cj = *v[j]; a->append (cj.begin()+o, cj.begin()+o+q); b += m[j].substr(o,q); break; }
	    case 12: { nm = "append(list)"; if (s.coin()) a->append ({'x','\0'}); else *a += {'x','\0'}; b += std::string("x\0",2); break; }
	    case 13: { nm = "append wide"; std::wstring w = rwide (s, s.blen(12)); if (s.coin()) a->append (w.c_str()); else a->append (w.data(), w.data()+w.size()); b += enc (w); break; }
	    case 14: { nm = "append n wide"; std::wstring w = rwide (s, 1); size_t q = s.blen(6); a->append (q, w[0]); for (size_t z = 0; z < q; ++z) b += enc (w); break; }
	    case 15: { nm = "push_back"; char ch = char(s.below(256)); if (s.coin()) a->push_back (ch); else *a += ch; b += ch; break; }
	    case 16: { nm = "push_back wide"; std::wstring w = rwide (s, 1); if (s.coin()) a->push_back (w[0]); else *a += w[0]; b += enc (w); break; }
	    case 17: { nm = "+= uchar"; unsigned char ch = s.below(256); *a += ch; b += char(ch); break; }
	    case 18: { nm = "pop_back"; if (!os) break; a->pop_back(); b.pop_back(); break; }
	    case 19: { nm = "assign(p,n)"; std::string t = uh::rbytes (s, s.blen(MX)); uh::exact<char> e (t); a->assign (e.begin(), t.size()); b = t; break; }
	    case 20: { nm = "assign(cstr)"; std::string t = rtext (s, MX); if (s.coin()) a->assign (t.c_str()); else *a = t.c_str(); b = t; break; }
	    case 21: { nm = "assign(string,o,n)"; size_t o = s.below(m[j].size()+1), q = s.chance (1,6) ? uh::farpos (s) : s.below(m[j].size()+5); a->assign (*v[j], o, q); b.assign (m[j], o, q); break; }
	    case 22: { nm = "assign(n,c)"; size_t q = s.blen(MX); char ch = char(s.below(256)); a->assign (q, ch); b.assign (q, ch); break; }
	    case 23: { nm = "assign wide"; std::wstring w = rwide (s, s.blen(10)); if (s.coin()) a->assign (w.c_str()); else *a = w.c_str(); b = enc (w); break; }
	    case 24: { nm = "= char"; char ch = char(s.below(256)); *a = ch; b.assign (1, ch); break; }
	    case 25: { nm = "= string"; if (s.chance (1,5)) { string* z = a; switch (s.below(4)) { case 0: *a = *z; break; case 1: a->assign (*z); break; case 2: a->swap (*z); break; default: *a = z->c_str(); if (b.find (char(0)) != b.npos) b.erase (b.find (char(0))); } break; } if (s.coin()) *a = *v[j]; else a->assign (*v[j]); b = m[j]; break; }
	    case 26: { nm = "= list"; if (s.coin()) *a = {'p','q'}; else a->assign ({'p','q'}); b = "pq"; break; }
	    case 27: { nm = "move ="; *a = ustl::move (*v[j]); std::swap (b, m[j]); m[j].clear(); v[j]->clear(); break; }
	    case 28: { nm = "move ctor"; v[i].reset (new string (ustl::move (*v[j]))); b = m[j]; m[j].clear(); break; }
	    case 29: { nm = "copy ctor"; v[i].reset (new string (*v[j])); b = m[j]; break; }
	    case 30: { nm = "swap"; if (s.coin()) a->swap (*v[j]); else ustl::swap (*a, *v[j]); std::swap (b, m[j]); break; }
	    case 31: { nm = "insert(pos,n,c)"; size_t q = s.blen(MX); char ch = char(s.below(256)); mids += q && p < os; a->insert (string::pos_type(p), q, ch); b.insert (p, q, ch); break; }
	    case 32: { nm = "insert(pos,cstr)"; std::string t = rtext (s, MX); mids += t.size() && p < os; a->insert (string::pos_type(p), t.c_str()); b.insert (p, t); break; }
	    case 33: { nm = "insert(pos,p,n)"; std::string t = uh::rbytes (s, s.blen(MX)); uh::exact<char> e (t); mids += t.size() && p < os; a->insert (string::pos_type(p), (const char*) e.begin(), t.size()); b.insert (p, t); break; }
	    case 34: { nm = "insert(pos,string)"; mids += m[j].size() && p < os; if (s.coin()) { a->insert (string::pos_type(p), *v[j]); b.insert (p, m[j]); } else { size_t o = s.below(m[j].size()+1), q = s.below(m[j].size()+4); a->insert (string::pos_type(p), *v[j], o, q); b.insert (p, m[j], o, q); } break; }
	    case 35: { nm = "insert(it,n,c)"; size_t q = s.blen(MX); char ch = char(s.below(256)); mids += q && p < os; at (q == 1 && s.coin() ? a->insert (a->begin()+p, ch) : a->insert (a->begin()+p, q, ch), p); b.insert (p, q, ch); break; }
	    case 36: { nm = "insert(it,range,n)"; std::string t = uh::rbytes (s, s.blen(MX/2)); uh::exact<char> e (t); size_t q = s.below(4); mids += t.size() && q && p < os; at (a->insert (a->begin()+p, (const char*) e.begin(), (const char*) e.end(), q), p); for (size_t z = 0; z < q; ++z) b.insert (p, t); break; }
	    case 37: { nm = "insert wide"; std::wstring w = rwide (s, s.blen(8)); size_t q = s.below(4); mids += w.size() && q && p < os; a->insert (string::pos_type(p), w.data(), w.data()+w.size(), q); std::string t = enc (w); for (size_t z = 0; z < q; ++z) b.insert (p, t); break; }
	    case 38: { nm = "insert n wide"; std::wstring w = rwide (s, 1); size_t q = s.below(5); mids += q && p < os; a->insert (string::pos_type(p), q, w[0]); std::string t = enc (w); for (size_t z = 0; z < q; ++z) b.insert (p, t); break; }
	    case 39: { nm = "insert list/cstr n"; mids += p < os; if (s.coin()) { at (a->insert (a->begin()+p, {'1','\0','2'}), p); b.insert (p, std::string("1\0002",3)); } else { std::string t = rtext (s, 12); size_t q = s.below(3); at (a->insert (a->begin()+p, t.c_str(), q), p); for (size_t z = 0; z < q; ++z) b.insert (p, t); } break; }
	    case 40: { nm = "erase(pos,n)"; size_t q = s.below(3) ? c : uh::farpos (s); mids += c && p+c < os; a->erase (string::pos_type(p), q); b.erase (p, q); break; }
	    case 41: { nm = "erase(it)"; mids += c && p+c < os; switch (s.below(3)) { case 0: at (a->erase (a->begin()+p, c), p); break; case 1: at (a->erase (static_cast<const string*>(a)->begin()+p, static_cast<const string*>(a)->begin()+p+c), p); break; default: at (a->eraser (p, p+c), p); } b.erase (p, c); break; }
	    case 42: { nm = "replace range"; std::string t = uh::rbytes (s, s.coin() ? c : s.blen(MX)); uh::exact<char> e (t); size_t q = 1+s.below(s.below(4) ? 1 : 3); mids += p+c < os; const string& ca = *a; std::string r; for (size_t z = 0; z < q; ++z) r += t;
		switch (q > 1 ? 0 : s.below(4)) { case 0: a->replace (ca.begin()+p, ca.begin()+p+c, (const char*) e.begin(), (const char*) e.end(), q); break; case 1: a->replace (ca.begin()+p, ca.begin()+p+c, (const char*) e.begin(), (const char*) e.end()); break; case 2: a->replace (ca.begin()+p, ca.begin()+p+c, string (t.data(), t.size())); break; default: a->replace (string::pos_type(p), c, (const char*) e.begin(), t.size()); }
		b.replace (p, c, r); break; }
	    case 43: { nm = "replace(pos,..)"; mids += p+c < os; size_t cc = s.coin() ? c : s.chance (1,4) ? uh::farpos (s) : c + s.below(5);
		switch (s.below(5)) { case 0: { std::string t = rtext (s, MX); a->replace (string::pos_type(p), cc, t.c_str()); b.replace (p, cc, t); break; }
		    case 1: a->replace (string::pos_type(p), cc, *v[j]); b.replace (p, cc, m[j]); break;
		    case 2: { size_t o = s.below(m[j].size()+1), q = s.chance (1,6) ? uh::farpos (s) : s.below(m[j].size()+4); a->replace (string::pos_type(p), cc, *v[j], o, q); b.replace (p, cc, m[j], o, q); break; }
		    case 3: { size_t q = 1+s.len(20); char ch = char(s.below(256)); a->replace (string::pos_type(p), cc, q, ch); b.replace (p, cc, q, ch); break; }
		    default: { const string& ca = *a; a->replace (ca.begin()+p, ca.begin()+p+c, {'L','\0'}); b.replace (p, c, std::string("L\0",2)); } }
		break; }
	    case 44: { nm = "resize"; size_t q = s.blen(MX); if (s.coin()) { char ch = char(s.below(256)); a->resize (q, ch); b.resize (q, ch); } else { a->resize (q); if (q > os) { for (size_t z = os; z < q; ++z) (*a)[z] = 'r'; } b.resize (q, 'r'); } break; }
	    case 45: { nm = "clear/reserve/shrink"; switch (s.below(3)) { case 0: a->clear(); b.clear(); break; case 1: { size_t q = s.blen(MX); a->reserve (q); PBT_CHECK (a->capacity() >= q || (!q && a->empty()), "reserve(%zu): capacity %zu", q, a->capacity()); break; } default: a->shrink_to_fit(); } break; }
	}
	a = v[i].get();
	note ("s%d (%zu bytes) %s at %zu,%zu -> %zu bytes", i, os, nm, p, c, b.size()); s.step();
	nuls += b.find ('\0') != b.npos;
	for (int q = 0; q < 2; ++q) {
	    const string& x = *v[q]; const std::string& y = m[q];
	    PBT_CHECK (x.size() == y.size() && !memcmp (x.c_str(), y.data(), y.size()), "after %s: string %d is %s (%zu), expected %s (%zu)", nm, q, pbt::esc(x.c_str(), x.size()).c_str(), x.size(), pbt::esc(y).c_str(), y.size());
	    PBT_CHECK (!x.c_str()[y.size()], "after %s: string %d is not terminated", nm, q);
	    PBT_CHECK (x.empty() == y.empty() && x.end() == x.begin()+y.size() && x.at(y.size()) == 0 && (x.is_linked() || x.capacity() >= x.size()), "after %s: size forms of string %d", nm, q);
	    if (!y.empty()) PBT_CHECK (x.front() == y.front() && x.back() == y.back() && *x.rbegin() == y.back() && *(x.rend()-1) == y.front() && x[y.size()-1] == y.back(), "after %s: element access of string %d", nm, q);
	}
	// reading forms
	switch (s.below(6)) {
	    case 0: { size_t o = s.below(b.size()+1), q = s.chance (1,8) ? uh::farpos (s) : s.below(b.size()+6); string t = a->substr (o, q); PBT_CHECK (std::string (t.c_str(), t.size()) == b.substr (o, q) && !t.c_str()[t.size()], "substr(%zu,%zu) of %zu", o, q, b.size()); break; }
	    case 1: { size_t o = s.below(b.size()+1), q = 1+s.below(b.size()+6); std::vector<char> x (q), y (q); size_t nx = a->copy (x.data(), q, o), ny = b.copy (y.data(), q, o); PBT_CHECK (nx == ny && x == y, "copy(%zu,%zu) of %zu gave %zu", q, o, b.size(), nx); break; }
	    case 2: { size_t o = s.below(b.size()+1), q = 2+s.below(b.size()+6); uh::exact<char> x (q); size_t nx = a->copyto (x.begin(), q, o); PBT_CHECK (nx == std::min (q-1, b.size()-o) && !x[nx] && !memcmp (x.begin(), b.data()+o, nx), "copyto(%zu,%zu) of %zu gave %zu", q, o, b.size(), nx); break; }
	    case 3: { string t = *a + *v[j]; PBT_CHECK (std::string (t.c_str(), t.size()) == m[i]+m[j] && !t.c_str()[t.size()], "operator+"); std::string z = rtext (s, 10); string u = z.c_str() + *a; PBT_CHECK (std::string (u.c_str(), u.size()) == z + m[i] && !u.c_str()[u.size()], "cstr + string"); break; }
	}
    }
    if (nuls) label ("embedded nul");
    s.nontrivial (mids >= 2);
}

// Every single edit of a string at every position and count, small sizes.
PBT_TEST(one_edit,6)
{
    const size_t n = s.below(40); std::string m = uh::rbytes (s, n), t = uh::rbytes (s, s.below(40));
    const size_t p = s.below(n+1), c = s.below(n-p+1); string a (m.data(), m.size()); if (s.coin()) a.shrink_to_fit();
    uh::exact<char> e (t); const string& ca = a; unsigned op = s.below(3);
    note ("%s op %u at %zu,%zu with %s", pbt::esc(m).c_str(), op, p, c, pbt::esc(t).c_str());
    if (op == 0) { a.insert (ca.begin()+p, (const char*) e.begin(), (const char*) e.end()); m.insert (p, t); }
    else if (op == 1) { a.erase (ca.begin()+p, c); m.erase (p, c); }
    else { a.replace (ca.begin()+p, ca.begin()+p+c, (const char*) e.begin(), (const char*) e.end(), 1); m.replace (p, c, t); }
    PBT_CHECK (a.size() == m.size() && !memcmp (a.c_str(), m.data(), m.size()) && !a.c_str()[m.size()], "gives %s, expected %s", pbt::esc(a.c_str(),a.size()).c_str(), pbt::esc(m).c_str());
    s.nontrivial (n > 1 && p < n);
}

// A file read into a string is its content, terminated.
PBT_TEST(file,1)
{
    char fn [] = "/tmp/c04-XXXXXX"; int fd = mkstemp (fn); if (fd < 0) s.discard(); close (fd);
    std::string d = uh::rbytes (s, s.len(3000)); std::string bad;
    try {
	string w (d.data(), d.size()); w.write_file (fn);
	string r; unsigned k = s.below(3); if (k == 1) r.assign (std::string(200,'x').c_str()); else if (k == 2) r.reserve (s.below(4000));
	r.read_file (fn);
	if (r.size() != d.size() || memcmp (r.c_str(), d.data(), d.size())) bad = "content differs"; else if (r.c_str()[r.size()]) bad = "not terminated";
    } catch (ustl::exception& e) { bad = e.what(); }
    unlink (fn);
    PBT_CHECK (bad.empty(), "file of %zu bytes: %s", d.size(), bad.c_str());
    s.nontrivial (d.size());
}
