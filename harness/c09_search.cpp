// C09: String comparison, search and replacement agree with reference text functions.
#include "track.h"
#include "containers/string.h"

static int sgn(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

static std::string word(const char * alphabet, int k, int maxLen, int minLen = 0)
{
	std::string s; int n = minLen + mc::choose(maxLen - minLen + 1);
	for (int i = 0; i < n; ++i) s += alphabet[mc::choose(k)];
	return s;
}
static char lower(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static std::string lower(std::string s) { for (auto & c : s) c = lower(c); return s; }

// All pairs of texts
static void comparePairs(const char * alphabet, int k, int maxLen)
{
	TrackGlobal g;
	{
		std::string a = word(alphabet, k, maxLen), b = word(alphabet, k, maxLen);
		mc::note("'%s' against '%s'", a.c_str(), b.c_str());
		String x{a.c_str()}, y{b.c_str()};
		// the first differing characters decide, as plain char values
		int e = 0; size_t i = 0;
		for (;; ++i) { char p = i < a.size() ? a[i] : 0, q = i < b.size() ? b[i] : 0; if (p != q) { e = p - q; break; } if (!p) break; }
		MC_CHECK(x.cmp(y) == e && x.cmp(b.c_str()) == e, "cmp(%s, %s) gives %d, expected %d", a.c_str(), b.c_str(), x.cmp(y), e);
		MC_CHECK((x == y) == (a == b) && (x == b.c_str()) == (a == b), "== of %s and %s", a.c_str(), b.c_str());
		MC_CHECK((x != y) == (a != b) && (x != b.c_str()) == (a != b), "!= of %s and %s", a.c_str(), b.c_str());
		MC_CHECK((x < y) == (e < 0) && (x > y) == (e > 0) && (x <= y) == (e <= 0) && (x >= y) == (e >= 0), "ordering of %s and %s", a.c_str(), b.c_str());
		MC_CHECK((x < b.c_str()) == (e < 0) && (x >= b.c_str()) == (e >= 0), "ordering of %s and C string %s", a.c_str(), b.c_str());
		bool ie = lower(a) == lower(b);
		MC_CHECK((x.icmp(y) == 0) == ie && (x.icmp(b.c_str()) == 0) == ie, "icmp of %s and %s", a.c_str(), b.c_str());
		MC_CHECK(PlatformStrings::getLength(a.c_str()) == a.size(), "getLength of %s", a.c_str());
		MC_CHECK(sgn(PlatformStrings::cmp(a.c_str(), b.c_str())) == sgn(e), "platform cmp");
		// bounded comparisons of every window inside both texts
		size_t m = a.size() < b.size() ? a.size() : b.size();
		for (size_t st = 0; st <= m; ++st) for (size_t len = 0; st + len <= m; ++len)
		{
			int w = 0; bool iw = true;
			for (size_t j = st; j < st + len; ++j) { if (!w && a[j] != b[j]) w = a[j] - b[j]; if (lower(a[j]) != lower(b[j])) iw = false; }
			MC_CHECK(PlatformStrings::cmpn(a.c_str(), b.c_str(), len, st) == w, "cmpn(%s, %s, %zu, %zu)", a.c_str(), b.c_str(), len, st);
			MC_CHECK((PlatformStrings::icmpn(a.c_str(), b.c_str(), len, st) == 0) == iw, "icmpn(%s, %s, %zu, %zu)", a.c_str(), b.c_str(), len, st);
			if (st == 0) MC_CHECK(PlatformStrings::cmpn(a.c_str(), b.c_str(), len) == w && (PlatformStrings::icmpn(a.c_str(), b.c_str(), len) == 0) == iw, "bounded comparison of %s and %s from the start, %zu characters", a.c_str(), b.c_str(), len);
		}
	}
	g.expectEmpty("at end");
}

// Every pair of single bytes: equality, order, case folding
static void bytePairs()
{
	TrackGlobal g;
	{
		int p = 1 + mc::choose(255);
		for (int q = 1; q < 256; ++q)
		{
			char a[] = {'k', (char)p, 0}, b[] = {'k', (char)q, 0};
			String x{a}, y{b};
			MC_CHECK(x.cmp(y) == (char)p - (char)q, "cmp of bytes %d and %d", p, q);
			MC_CHECK((x.icmp(y) == 0) == (lower((char)p) == lower((char)q)), "icmp of bytes %d and %d", p, q);
			MC_CHECK((PlatformStrings::icmpn(a, b, 2) == 0) == (lower((char)p) == lower((char)q)), "icmpn of bytes %d and %d", p, q);
			mc::tick();
		}
		mc::note("byte %d against all", p);
	}
	g.expectEmpty("at end");
}

static int64 refFind(const std::string & h, const std::string & n, size_t start)
{
	if (start > h.size()) return -1;
	size_t r = h.find(n, start);
	return r == std::string::npos ? -1 : (int64)r;
}

// Every text, pattern and start position
static void searches(const char * alphabet, int k, int maxText, int maxPat)
{
	TrackGlobal g;
	{
		std::string t = word(alphabet, k, maxText), p = word(alphabet, k, maxPat);
		mc::note("find '%s' in '%s'", p.c_str(), t.c_str());
		String s{t.c_str()}, pat{p.c_str()};
		for (size_t st = 0; st <= t.size() + 2; ++st)
		{
			int64 e = refFind(t, p, st);
			MC_CHECK(s.findIndex(pat, st) == e, "findIndex('%s' in '%s', from %zu) gives %lld, expected %lld", p.c_str(), t.c_str(), st, (long long)s.findIndex(pat, st), (long long)e);
			MC_CHECK(s.findIndex(p.c_str(), st) == e, "findIndex(C string '%s' in '%s', from %zu) gives %lld, expected %lld", p.c_str(), t.c_str(), st, (long long)s.findIndex(p.c_str(), st), (long long)e);
			for (size_t pl = 1; pl < p.size(); ++pl)
				MC_CHECK(s.findIndex(p.c_str(), st, pl) == refFind(t, p.substr(0, pl), st), "findIndex('%s' cut to %zu, in '%s', from %zu)", p.c_str(), pl, t.c_str(), st);
			if (p.size() == 1)
				MC_CHECK(s.findIndex(p[0], st) == e, "findIndex(character '%c' in '%s', from %zu) gives %lld, expected %lld", p[0], t.c_str(), st, (long long)s.findIndex(p[0], st), (long long)e);
		}
		std::vector<size_t> all;
		for (int64 i = refFind(t, p, 0); i != -1; i = refFind(t, p, i + 1)) all.push_back(i);
		auto check = [&](const Array<sizet> & a, const char * how) {
			MC_CHECK(a.getCount() == all.size(), "findAll(%s '%s' in '%s') finds %llu, expected %zu", how, p.c_str(), t.c_str(), (unsigned long long)a.getCount(), all.size());
			for (size_t i = 0; i < all.size(); ++i) MC_CHECK(a[i] == all[i], "findAll(%s '%s' in '%s') item %zu is %llu, expected %zu", how, p.c_str(), t.c_str(), i, (unsigned long long)a[i], all[i]);
		};
		check(s.findAll(pat), "string"); check(s.findAll(p.c_str()), "C string");
		if (p.size() == 1) check(s.findAll(p[0]), "character");
		MC_CHECK(s == t.c_str() && pat == p.c_str(), "a search modified its operands");
	}
	g.expectEmpty("at end");
}

// Every text, pattern and replacement
static void replacements(const char * alphabet, int k, int maxText, int maxPat, int maxRep)
{
	TrackGlobal g;
	{
		std::string t = word(alphabet, k, maxText), p = word(alphabet, k, maxPat), r = word(alphabet, k, maxRep);
		mc::note("replace '%s' by '%s' in '%s'", p.c_str(), r.c_str(), t.c_str());
		String s{t.c_str()}, pat{p.c_str()}, rep{r.c_str()};
		std::string e = t;
		if (!p.empty()) for (size_t i = 0; (i = e.find(p, i)) != std::string::npos; i += r.size()) e.replace(i, p.size(), r);
		String & ret = s.replaceAll(pat, rep);
		MC_CHECK(&ret == &s, "replaceAll result");
		MC_CHECK(s.getLength() == e.size() && e == *s, "replaceAll('%s' by '%s' in '%s') gives '%s', expected '%s'", p.c_str(), r.c_str(), t.c_str(), *s, e.c_str());
		MC_CHECK(pat == p.c_str() && rep == r.c_str(), "replaceAll modified its arguments");
		// The text itself as what is searched, or as what is put in its place
		std::string x = t, y = t; String sx{t.c_str()}, sy{t.c_str()}, sz{t.c_str()};
		if (!t.empty()) x = r;
		if (!p.empty()) for (size_t i = 0; (i = y.find(p, i)) != std::string::npos; i += t.size()) y.replace(i, p.size(), t);
		MC_CHECK(&sx.replaceAll(sx, rep) == &sx && &sy.replaceAll(pat, sy) == &sy && &sz.replaceAll(sz, sz) == &sz, "replaceAll result");
		MC_CHECK(sx.getLength() == x.size() && x == *sx, "replaceAll(itself by '%s' in '%s') gives '%s', expected '%s'", r.c_str(), t.c_str(), *sx, x.c_str());
		MC_CHECK(sy.getLength() == y.size() && y == *sy, "replaceAll('%s' by itself in '%s') gives '%s', expected '%s'", p.c_str(), t.c_str(), *sy, y.c_str());
		MC_CHECK(sz.getLength() == t.size() && t == *sz, "replaceAll(itself by itself in '%s') gives '%s'", t.c_str(), *sz);
	}
	g.expectEmpty("at end");
}

// Bounded memory comparison, copy and move used by everything else: all small blocks
static void memory()
{
	int n = mc::choose(7), i = mc::choose(n + 1);
	unsigned char a[8], b[8]; for (int k = 0; k < 8; ++k) a[k] = b[k] = (unsigned char)(k * 40);
	if (i < n) { static const int d[] = {1, 127, 128, 255}; b[i] = (unsigned char)(a[i] + mc::pick(d)); for (int k = i + 1; k < n; ++k) b[k] = (unsigned char)(a[k] - 1); }
	int e = 0; for (int k = 0; k < n && !e; ++k) e = (int)a[k] - (int)b[k];
	int r = Memory::memcmp(a, b, n);
	MC_CHECK(sgn(r) == sgn(e), "memcmp of %d bytes differing at %d gives %d", n, i, r);
	for (int from = 0; from <= n; ++from) for (int to = 0; to <= n; ++to) for (int len = 0; from + len <= 8 && to + len <= 8; ++len)
	{
		unsigned char x[8], y[8], tmp[8]; ::memcpy(x, a, 8); ::memcpy(y, a, 8);
		for (int k = 0; k < len; ++k) tmp[k] = y[from + k];
		for (int k = 0; k < len; ++k) y[to + k] = tmp[k];
		void * q = Memory::memmov(x + to, x + from, len);
		MC_CHECK(q == x + to && ::memcmp(x, y, 8) == 0, "memmov from %d to %d, %d bytes", from, to, len);
		unsigned char z[8] = {}, w[8] = {}; for (int k = 0; k < len; ++k) w[to + k] = a[from + k];
		q = Memory::memcpy(z + to, a + from, len);
		MC_CHECK(q == z + to && ::memcmp(z, w, 8) == 0, "memcpy from %d to %d, %d bytes", from, to, len);
		mc::tick();
	}
	mc::note("%d bytes differing at %d", n, i);
}

// Long texts: matches, differences and replacements at and around every power of two
static void longTexts()
{
	TrackGlobal g;
	{
		int e = 3 + mc::choose(mc::bound(14, 17)), d = mc::choose(3) - 1, pl = 1 + mc::choose(4), what = mc::choose(4);
		size_t at = (size_t)((1l << e) + d), extra = (size_t)mc::choose(3);
		std::string t(at, 'a'), p = std::string("bcde").substr(0, pl);
		for (size_t i = 0; i < at; i += 3) t[i] = 'b';	// false starts
		t += p; t += std::string("cc").substr(0, extra);
		mc::note("pattern of %d at %zu, %zu behind, %d", pl, at, extra, what);
		size_t first = t.find(p);
		String s{t.c_str()}, pat{p.c_str()};
		if (what == 0)
		{
			MC_CHECK(s.findIndex(pat) == (int64)first && s.findIndex(p.c_str()) == (int64)first, "findIndex in a long text gives %lld, expected %zu", (long long)s.findIndex(pat), first);
			for (size_t st : {at - 1, at, at + 1, t.size(), t.size() + 1})
			{
				int64 x = refFind(t, p, st);
				MC_CHECK(s.findIndex(pat, st) == x && s.findIndex(p.c_str(), st) == x, "findIndex from %zu gives %lld, expected %lld", st, (long long)s.findIndex(pat, st), (long long)x);
				x = refFind(t, p.substr(0, 1), st);
				MC_CHECK(s.findIndex(p[0], st) == x, "findIndex(character) from %zu gives %lld, expected %lld", st, (long long)s.findIndex(p[0], st), (long long)x);
			}
		}
		else if (what == 1)
		{
			std::vector<size_t> all; for (size_t i = t.find(p); i != std::string::npos; i = t.find(p, i + 1)) all.push_back(i);
			auto a = s.findAll(pat);
			MC_CHECK(a.getCount() == all.size(), "findAll in a long text finds %llu, expected %zu", (unsigned long long)a.getCount(), all.size());
			for (size_t i = 0; i < all.size(); ++i) MC_CHECK(a[i] == all[i], "findAll item %zu is %llu, expected %zu", i, (unsigned long long)a[i], all[i]);
		}
		else if (what == 2)
		{
			if (at <= (1u << mc::bound(11, 13))) for (const char * r : {"", "X", "longer"})
			{
				std::string e = t; for (size_t i = 0; (i = e.find(p, i)) != std::string::npos; i += strlen(r)) e.replace(i, p.size(), r);
				String c{s}; c.replaceAll(pat, String{r});
				MC_CHECK(c.getLength() == e.size() && e == *c, "replaceAll by '%s' in a long text differs", r);
			}
		}
		else
		{
			// texts that differ only there, in case only, or in length
			std::string u = t; u[at] = 'B'; String o{u.c_str()};
			MC_CHECK(s.cmp(o) == 'b' - 'B' && o.cmp(s) == 'B' - 'b' && s.icmp(o) == 0 && s != o && !(s == o) && o < s, "long texts that differ in case at %zu", at);
			u[at] = 'z'; o = String{u.c_str()};
			MC_CHECK(s.cmp(o) == 'b' - 'z' && s.icmp(o) != 0 && s < o && o >= s, "long texts that differ at %zu", at);
			u = t.substr(0, at); o = String{u.c_str()};
			MC_CHECK(s.cmp(o) == 'b' && o.cmp(s) == -'b' && s.icmp(o) != 0 && o <= s && s > o, "a long text and its beginning");
			MC_CHECK(s == String{t.c_str()} && s == t.c_str() && s.icmp(t.c_str()) == 0, "equal long texts");
			MC_CHECK(PlatformStrings::getLength(t.c_str()) == t.size(), "length of a long text");
		}
	}
	g.expectEmpty("at end");
}

// All patterns of a length at which a search may skip ahead, over two letters, in all texts over them
static void longPatterns(const char * alphabet, int minLen, int maxLen, int textLen)
{
	TrackGlobal g;
	{
		std::string p = word(alphabet, 2, maxLen, minLen); String pat{p.c_str()};
		mc::note("'%s' in all texts", p.c_str());
		auto look = [&](const std::string & t) {
			String s{t.c_str()};
			for (size_t st : {(size_t)0, (size_t)1})
			{
				int64 e = refFind(t, p, st), r = s.findIndex(pat, st);
				MC_CHECK(r == e, "findIndex('%s' in '%s', from %zu) gives %lld, expected %lld", p.c_str(), t.c_str(), st, (long long)r, (long long)e);
			}
			mc::tick();
		};
		int top = textLen > (int)p.size() ? textLen : (int)p.size();
		for (uint32 bits = 0; bits < 1u << top; ++bits) { std::string t((size_t)top, alphabet[0]); for (int i = 0; i < top; ++i) if (bits >> i & 1) t[i] = alphabet[1]; look(t); }
		// beginnings of the pattern, then the pattern, then its ends
		size_t n = p.size();
		for (size_t i = 0; i <= n; ++i) for (size_t j = 0; j <= n; ++j)
		{
			std::string t = p.substr(0, i) + p + p.substr(j);
			look(t); look(p.substr(0, i) + p.substr(j));
			std::vector<size_t> all; for (size_t k = t.find(p); k != std::string::npos; k = t.find(p, k + 1)) all.push_back(k);
			String s{t.c_str()}; auto a = s.findAll(pat); bool same = a.getCount() == all.size(); for (size_t k = 0; same && k < all.size(); ++k) same = a[k] == all[k];
			MC_CHECK(same, "findAll('%s' in '%s') finds %llu, expected %zu", p.c_str(), t.c_str(), (unsigned long long)a.getCount(), all.size());
			std::string x = t; for (size_t k = 0; (k = x.find(p, k)) != std::string::npos; k += 1) x.replace(k, n, "-");
			s.replaceAll(pat, String{"-"}); MC_CHECK(x == *s && s.getLength() == x.size(), "replaceAll('%s' by '-' in '%s') gives '%s', expected '%s'", p.c_str(), t.c_str(), *s, x.c_str());
		}
	}
	g.expectEmpty("at end");
}

// Patterns around every power of two: uniform but for one or two places, in texts that come close
static void widePatterns()
{
	TrackGlobal g;
	{
		int e = 3 + mc::choose(mc::bound(7, 9)), d = mc::choose(3) - 1; size_t n = (size_t)((1l << e) + d);
		const size_t marks[] = {0, 1, n / 2, n - 2, n - 1, n}; size_t a = marks[mc::choose(6)], b = marks[mc::choose(6)];
		static const char letters[] = {'b', '\x80', '\xe1', '!', 'A', 'q'}; char c = mc::pick(letters);
		std::string p(n, 'a'); if (a < n) p[a] = c; if (b < n) p[b] = 'z';
		String pat{p.c_str()}; mc::note("pattern of %zu, marked at %zu and %zu", n, a, b);
		std::string filler = std::string(n - 1, 'a') + c;
		size_t k = 0; const size_t at[] = {0, 1, n / 3, n / 2, n - 2, n - 1};
		for (size_t miss : at)
		{
			std::string q = p; q[miss] = 'y';
			for (const std::string & t : {q + p, p.substr(miss) + p, q.substr(1) + p + q, filler + p, p.substr(0, miss) + p + p.substr(miss), p + p.substr(miss), q + q, p.substr(1)})
			{
				String s{t.c_str()}; int64 x = refFind(t, p, 0), y = refFind(t, p, 1);
				MC_CHECK(s.findIndex(pat) == x && s.findIndex(p.c_str(), 1) == y, "a pattern of %zu characters is found at %lld and %lld, expected %lld and %lld (text %zu)", n, (long long)s.findIndex(pat), (long long)s.findIndex(p.c_str(), 1), (long long)x, (long long)y, k);
				std::string r = t; for (size_t i = 0; (i = r.find(p, i)) != std::string::npos; i += q.size()) r.replace(i, n, q);
				s.replaceAll(pat, String{q.c_str()}); MC_CHECK(r == *s && s.getLength() == r.size(), "replacing %zu characters by as many (text %zu)", n, k);
				++k; mc::tick();
			}
		}
	}
	g.expectEmpty("at end");
}

// Comparisons as wide as machine words: every place of the first difference, whatever lies behind it
static void wideComparisons()
{
	TrackGlobal g;
	{
		size_t n = 1 + mc::choose(mc::bound(40, 72)), i = mc::choose((int)n), shift = mc::choose(2) * 3;
		static const unsigned char pairs[][2] = {{1, 2}, {0x7f, 0x80}, {0xff, 1}, {'a', 'A'}, {'[', '{'}, {'@', '`'}, {0xe1, 'a'}, {0xc1, 0xe1}};
		const unsigned char * w = pairs[mc::choose(8)]; int behind = mc::choose(3);
		mc::note("%zu characters that differ at %zu by %d and %d", n, i, w[0], w[1]);
		// exactly sized, at an odd address if shifted
		char * x = (char*)::malloc(n + 1 + shift), * y = (char*)::malloc(n + 1), * s = x + shift;
		for (size_t k = 0; k < n; ++k) s[k] = y[k] = (char)('c' + k % 20);
		s[n] = y[n] = 0; s[i] = (char)w[0]; y[i] = (char)w[1];
		for (size_t k = i + 1; k < n; ++k) { if (behind == 1) { s[k] = 'z'; y[k] = 'b'; } else if (behind == 2) { s[k] = 'b'; y[k] = 'z'; } }
		int e = (int)s[i] - (int)y[i]; bool fold = lower(std::string(s)) == lower(std::string(y));
		int m = (int)(unsigned char)s[i] - (int)(unsigned char)y[i];
		MC_CHECK(sgn(Memory::memcmp(s, y, n)) == sgn(m) && sgn(Memory::memcmp(y, s, n)) == -sgn(m) && Memory::memcmp(s, y, i) == 0, "memcmp of %zu bytes that differ at %zu", n, i);
		MC_CHECK(PlatformStrings::cmp(s, y) == e && PlatformStrings::cmp(y, s) == -e && PlatformStrings::cmp(s, s) == 0, "cmp of %zu characters that differ at %zu", n, i);
		MC_CHECK(PlatformStrings::cmpn(s, y, n) == e && PlatformStrings::cmpn(s, y, i) == 0 && PlatformStrings::cmpn(y, s, n - i, i) == -e, "cmpn of %zu characters that differ at %zu", n, i);
		MC_CHECK((PlatformStrings::icmp(s, y) == 0) == fold && (PlatformStrings::icmpn(s, y, n) == 0) == fold && PlatformStrings::icmpn(y, s, i) == 0, "icmp of %zu characters that differ at %zu", n, i);
		MC_CHECK(PlatformStrings::getLength(s) == n, "length of %zu characters", n);
		String a{s}, b{y}; MC_CHECK(a != b && !(a == b) && a.cmp(b) == e && (a < b) == (e < 0) && (a.icmp(b) == 0) == fold, "strings of %zu characters that differ at %zu", n, i);
		y[i] = 0; b = String{y}; e = s[i]; MC_CHECK(PlatformStrings::cmp(s, y) == e && a.cmp(b) == e && a != b, "a text of %zu and its beginning of %zu", n, i);
		::free(x); ::free(y);
	}
	g.expectEmpty("at end");
}

// Bounded memory operations on long blocks
static void longMemory()
{
	int e = 3 + mc::choose(mc::bound(15, 17)), d = mc::choose(3) - 1, shift = mc::choose(5) - 2;
	size_t n = (size_t)((1l << e) + d);
	std::vector<unsigned char> a(n + 4), b, c;
	for (size_t i = 0; i < a.size(); ++i) a[i] = (unsigned char)(i * 7 + i / 256);
	mc::note("%zu bytes, moved by %d", n, shift);
	b = a; c = a;
	for (size_t i = 0; i < n; ++i) c[2 + shift + i] = a[2 + i];
	Memory::memmov(&b[2 + shift], &b[2], n);
	MC_CHECK(b == c, "memmov of %zu bytes by %d", n, shift);
	std::vector<unsigned char> z(n + 4, 0x5a), w(n + 4, 0x5a);
	Memory::memcpy(&z[2 + shift], &a[1], n); for (size_t i = 0; i < n; ++i) w[2 + shift + i] = a[1 + i];
	MC_CHECK(z == w, "memcpy of %zu bytes", n);
	b = a; MC_CHECK(Memory::memcmp(a.data(), b.data(), n) == 0, "memcmp of equal blocks of %zu", n);
	b[n - 1] ^= 0x80; MC_CHECK(sgn(Memory::memcmp(a.data(), b.data(), n)) == (a[n - 1] < b[n - 1] ? -1 : 1), "memcmp of blocks of %zu that differ at the end", n);
	MC_CHECK(Memory::memcmp(a.data(), b.data(), n - 1) == 0, "memcmp reads past its end");
}

static void setup()
{
	mc::add("long_texts", 4, longTexts);
	mc::add("long_memory", 2, longMemory);
	mc::add("long_patterns", 8, [] { longPatterns("ab", 6, mc::bound(9, 11), mc::bound(11, 13)); });
	mc::add("long_patterns_bytes", 4, [] { static const char * const pairs[] = {"a\xe1", "a!", "aA", "aq", "ai", "ae", "ac", "\x7f\x80", "\xff\x80"}; longPatterns(mc::pick(pairs), 8, 8, mc::bound(10, 12)); });
	mc::add("wide_patterns", 4, widePatterns);
	mc::add("wide_comparisons", 4, wideComparisons);
	mc::add("compare_ab", 8, [] { comparePairs("abA", 3, mc::bound(6, 7)); });
	mc::add("compare_bytes", 2, [] { comparePairs("Zz[{@`\x80\xff", 8, mc::bound(2, 3)); });
	mc::add("byte_pairs", 1, bytePairs);
	mc::add("search_2", 8, [] { searches("ab", 2, mc::bound(11, 13), mc::bound(4, 5)); });
	mc::add("search_3", 8, [] { searches("abc", 3, mc::bound(7, 8), 3); });
	mc::add("replace_2", 8, [] { replacements("ab", 2, mc::bound(8, 9), 3, mc::bound(3, 4)); });
	mc::add("replace_3", 8, [] { replacements("abc", 3, mc::bound(6, 7), 2, 2); });
	mc::add("memory", 1, memory);
}
MC_MAIN(setup)
