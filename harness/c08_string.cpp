// C08: String editing and text formatting agree with a reference text under every history.
#include "track.h"
#include "containers/string.h"
#include "containers/list.h"
#include <cinttypes>
#include <cmath>
#include <limits>

using Model = std::string;

static void compare(const String & s, const Model & m, const char * op)
{
	if (!mc::fresh()) return;
	MC_CHECK(s.getLength() == m.size(), "after %s: length %llu, expected %zu", op, (unsigned long long)s.getLength(), m.size());
	MC_CHECK(s.getSize() == m.size() && s.getLen() == m.size(), "after %s: length aliases differ", op);
	const char * p = *s;
	for (size_t i = 0; i < m.size(); ++i)
	{
		MC_CHECK(p[i] == m[i], "after %s: character %zu is '%c', expected '%c' (expected text \"%s\")", op, i, p[i], m[i], m.c_str());
		MC_CHECK(s[i] == m[i] && &s[i] == p + i, "after %s: operator[] %zu", op, i);
	}
	MC_CHECK(p[m.size()] == '\0', "after %s: text is not terminated", op);
	MC_CHECK(s.getArray().getCount() == m.size() + 1, "after %s: backing array holds %llu", op, (unsigned long long)s.getArray().getCount());
}

struct Printable
{
	int v;
	String toString() const { return String::format("<%d>", v); }
};

static const char * const bits[] = {"", "x", "yz", "uvw", "0123456789"};

static void step(String & s, Model & m)
{
	int n = (int)m.size();
	enum { AddChar, AddCStr, AddString, AddSelf, AddI32, AddU64, AddF, AddObj, Plus, PrintI32, PrintU32, PrintI64, PrintF, PrintObj, PrintRange,
		Splice, SpliceC, Write, CopyEdit, Assign, Substr, Lower, Upper, Move, Num };
	int op = mc::choose(Num);
	switch (op)
	{
	case AddChar: { char c = "qR"[mc::choose(2)]; mc::note("+= '%c'", c); String & r = (s += c); MC_CHECK(&r == &s, "+= result"); m += c; break; }
	case AddCStr: { const char * t = mc::pick(bits); mc::note("+= \"%s\"", t); MC_CHECK(&(s += t) == &s, "+= result"); m += t; break; }
	case AddString: { const char * t = mc::pick(bits); mc::note("+= String(%s)", t); String o{t}; MC_CHECK(&(s += o) == &s, "+= result"); m += t; compare(o, t, "+= (its argument)"); break; }
	case AddSelf: mc::note("+= itself"); s += s; m += m; break;
	case AddI32: mc::note("+= -17"); s += -17; m += "-17"; break;
	case AddU64: mc::note("+= 18446744073709551615"); s += (uint64)-1; m += "18446744073709551615"; break;
	case AddF: mc::note("+= 1.5"); s += 1.5f; m += "1.500000"; break;
	case AddObj: mc::note("+= object"); s += Printable{7}; m += "<7>"; break;
	case Plus:
	{
		int k = mc::choose(4); mc::note("= self + #%d", k);
		String r = k == 0 ? s + "pq" : k == 1 ? s + 'Z' : k == 2 ? s + 42 : s + s;
		Model e = k == 0 ? m + "pq" : k == 1 ? m + 'Z' : k == 2 ? m + "42" : m + m;
		compare(s, m, "+ (its left operand)"); compare(r, e, "+");
		s = r; m = e;
		break;
	}
	case PrintI32: mc::note("<<= -5"); MC_CHECK(&(s <<= -5) == &s, "<<= result"); m = "-5"; break;
	case PrintU32: mc::note("<<= 4000000000u"); s <<= 4000000000u; m = "4000000000"; break;
	case PrintI64: mc::note("<<= -9000000000"); s <<= (int64)-9000000000ll; m = "-9000000000"; break;
	case PrintF: mc::note("<<= 0.25"); s <<= 0.25; m = "0.250000"; break;
	case PrintObj: mc::note("<<= object"); s <<= Printable{-3}; m = "<-3>"; break;
	case PrintRange: { mc::note("<<= 7u"); s <<= (uint64)7; m = "7"; break; }
	case Splice: case SpliceC:
	{
		if (n > 24) break;
		int pos = mc::choose(n + 1 < 6 ? n + 1 : 6); if (n >= 6 && pos == 5) pos = n;
		int left = n - pos, len = mc::choose(left + 1 < 4 ? left + 1 : 4); if (left >= 4 && len == 3) len = left;
		const char * t = bits[mc::choose(4)];
		mc::note("splice(%d, %d, \"%s\")", pos, len, t);
		if (op == Splice) { String o{t}; MC_CHECK(&s.splice(pos, len, o) == &s, "splice result"); compare(o, t, "splice (its argument)"); }
		else s.splice(pos, len, t);
		m.replace(pos, len, t);
		break;
	}
	case Write: { if (!n) break; int i = mc::choose(n < 4 ? n : 4); if (i == 3) i = n - 1; s[i] = 'W'; m[i] = 'W'; mc::note("[%d] = 'W'", i); break; }
	case CopyEdit:
	{
		mc::note("copy, edit the copy");
		String c{s}; c += "tail"; c[0] = '#';
		Model e = m + "tail"; e[0] = '#';
		compare(c, e, "editing a copy");
		break;
	}
	case Assign: { const char * t = mc::pick(bits); mc::note("= String(%s)", t); String o{t}; s = o; o += '!'; m = t; break; }
	case Substr: { int pos = mc::choose(n + 1 < 5 ? n + 1 : 5), len = mc::choose(n - pos + 1 < 5 ? n - pos + 1 : 5); mc::note("substr(%d, %d)", len, pos); String r = s.substr(len, pos); compare(r, m.substr(pos, len), "substr"); s = r; m = m.substr(pos, len); break; }
	case Lower: case Upper:
	{
		mc::note(op == Lower ? "toLower" : "toUpper");
		String r = op == Lower ? s.toLower() : s.toUpper(); Model e = m;
		for (auto & c : e) c = (char)(op == Lower ? (c >= 'A' && c <= 'Z' ? c + 32 : c) : (c >= 'a' && c <= 'z' ? c - 32 : c));
		compare(s, m, "case conversion (its source)"); compare(r, e, "case conversion");
		s = r; m = e;
		break;
	}
	case Move: { mc::note("= String(move)"); String o{move(s)}; String p; p = move(o); s = p; break; }
	}
}

static void histories(int depth)
{
	TrackGlobal g;
	{
		Model m; String s;
		int shape = mc::choose(6);
		static const char hello[] = "Hello";
		switch (shape)
		{
		case 0: break;
		case 1: s = String{"ab"}; m = "ab"; break;
		case 2: s = String{hello, 3}; m = "Hel"; break;
		case 3: { const sizet k = mc::choose(4); s = String(k, 'k'); m = Model(k, 'k'); break; }
		case 4: s = String{Name{"aNiceName"}}; m = "aNiceName"; break;
		case 5: { String t{"moved"}; s = move(t); m = "moved"; break; }
		}
		mc::note("start \"%s\"", m.c_str());
		compare(s, m, "construction");
		for (int d = 0; d < depth; ++d) { step(s, m); compare(s, m, "step"); }
	}
	g.expectEmpty("after the string was destroyed");
}

// Text grows and shrinks through every length: appends of every size at every length
static void growth()
{
	TrackGlobal g;
	{
		int n = mc::choose(mc::bound(40, 140)), add = mc::choose(mc::bound(40, 140)), how = mc::choose(3);
		Model a, b;
		for (int i = 0; i < n; ++i) a += (char)('a' + i % 26);
		for (int i = 0; i < add; ++i) b += (char)('A' + i % 26);
		String s{a.c_str()};
		mc::note("%d chars += %d chars (%d)", n, add, how);
		if (how == 0) s += b.c_str(); else if (how == 1) s += String{b.c_str()}; else for (char c : b) s += c;
		Model m = a + b;
		compare(s, m, "append");
		if (n) { s.splice(n / 2, n - n / 2, ""); m.erase(n / 2, n - n / 2); compare(s, m, "splice"); }
		s.splice(0, 0, a.c_str()); m = a + m; compare(s, m, "splice at 0");
	}
	g.expectEmpty("after the string was destroyed");
}

// Splice: all positions, lengths, replacement lengths, and spare capacities
static void splices()
{
	TrackGlobal g;
	{
		int N = mc::bound(7, 12);
		int n = mc::choose(N), pos = mc::choose(n + 1), len = mc::choose(n - pos + 1), rep = mc::choose(N), extra = mc::choose(mc::bound(4, 8)), how = mc::choose(2);
		Model m = Model("abcdefghijklmnop").substr(0, n), r = Model("QRSTUVWXYZQRSTUV").substr(0, rep);
		String s{m.c_str()};
		if (extra) { for (int i = 0; i < extra * 3; ++i) s += '.'; s.splice(n, extra * 3, ""); compare(s, m, "trimming"); }	// spare room
		mc::note("%s.splice(%d, %d, %s) room %d", m.c_str(), pos, len, r.c_str(), extra * 3);
		if (how) s.splice(pos, len, r.c_str()); else s.splice(pos, len, String{r.c_str()});
		m.replace(pos, len, r);
		compare(s, m, "splice");
		s += "END"; m += "END";
		compare(s, m, "append after splice");
	}
	g.expectEmpty("after the string was destroyed");
}

// The argument is part of the text, or all of it
static void ownParts()
{
	TrackGlobal g;
	{
		int N = mc::bound(7, 12), n = mc::choose(N), extra = mc::choose(mc::bound(4, 8));
		Model m = Model("abcdefghijklmnop").substr(0, n);
		String s{m.c_str()};
		if (extra) { for (int i = 0; i < extra * 3; ++i) s += '.'; s.splice(n, extra * 3, ""); }
		int from = mc::choose(n + 1), how = mc::choose(3); Model part = m.substr(from);
		const char * own = *s + from;
		if (how == 0) { mc::note("%s += its part from %d, room %d", m.c_str(), from, extra * 3); s += own; m += part; }
		else
		{
			int pos = mc::choose(n + 1), len = mc::choose(n - pos + 1);
			mc::note("%s.splice(%d, %d, %s) room %d", m.c_str(), pos, len, how == 1 ? "its own part" : "itself", extra * 3);
			if (how == 1) { s.splice(pos, len, own); m.replace(pos, len, part); }
			else { if (from) return; Model e = m; s.splice(pos, len, s); m.replace(pos, len, e); }
		}
		compare(s, m, "using part of the text itself");
		s += "END"; m += "END";
		compare(s, m, "append after that");
	}
	g.expectEmpty("after the string was destroyed");
}

// Numbers: append and print agree with the C library over a grid of all magnitudes
template<typename T, typename F>
static void number(T v, const char * fmt, F show)
{
	char e[512]; snprintf(e, sizeof e, fmt, show(v));
	{ String s{"n="}; s += v; compare(s, Model("n=") + e, "append of a number"); }
	{ String s{"a rather long text that is to be replaced"}; s <<= v; compare(s, e, "print of a number"); }
	{ String s; s <<= v; compare(s, e, "print of a number into an empty text"); s += v; compare(s, Model(e) + e, "append after print"); }
	{ String s = String{"+"} + v; compare(s, Model("+") + e, "concatenation with a number"); }
}

static void numbers()
{
	TrackGlobal g;
	{
		int kind = mc::choose(6);
		if (kind < 4)
		{
			int e = mc::choose(kind == 0 || kind == 2 ? 32 : 64), d = mc::choose(5) - 2, neg = mc::choose(2), base = mc::choose(2);
			uint64 x = base ? 1 : (1ull << e);
			if (base) for (int i = 0; i < e % 20; ++i) x *= 10;
			x += (uint64)(int64)d; if (neg) x = ~x + 1;
			mc::note("kind %d value %llx", kind, (unsigned long long)x);
			if (kind == 0) number<int32>((int32)x, "%" PRId32, [](int32 v) { return v; });
			else if (kind == 1) number<int64>((int64)x, "%lld", [](int64 v) { return (long long)v; });
			else if (kind == 2) number<uint32>((uint32)x, "%" PRIu32, [](uint32 v) { return v; });
			else number<uint64>((uint64)x, "%llu", [](uint64 v) { return (unsigned long long)v; });
		}
		else if (kind == 4)
		{
			// every exponent and sign, a few mantissas
			uint32 ex = mc::choose(256), neg = mc::choose(2); static const uint32 man[] = {0, 1, 0x400000, 0x7fffff, 0x2aaaaa};
			uint32 b = (neg << 31) | (ex << 23) | mc::pick(man); float f; ::memcpy(&f, &b, 4);
			mc::note("float %a", f);
			number<float32>(f, "%f", [](float v) { return (double)v; });
		}
		else
		{
			uint64 ex = mc::choose(mc::thorough() ? 2048 : 128), neg = mc::choose(2); if (!mc::thorough()) ex = ex * 16 + ex % 16;
			static const uint64 man[] = {0, 1, 0x8000000000000ull, 0xfffffffffffffull};
			uint64 b = (neg << 63) | (ex << 52) | mc::pick(man); double f; ::memcpy(&f, &b, 8);
			mc::note("double %a", f);
			number<float64>(f, "%f", [](double v) { return v; });
		}
	}
	g.expectEmpty("at end");
}

// String::format for every output length across the interesting sizes, and mixed arguments
static void formats()
{
	TrackGlobal g;
	{
		int n = mc::choose(mc::bound(2100, 9000)), how = mc::choose(3);
		Model a(n, 'z'); for (int i = 0; i < n; ++i) a[i] = (char)('a' + i * 7 % 26);
		if (how == 0) { String s = String::format("%s", a.c_str()); compare(s, a, "format"); }
		else if (how == 1) { String s = String::format("%d:%s|%c%llu", n, a.c_str(), 'x', (unsigned long long)n << 40); compare(s, std::to_string(n) + ":" + a + "|x" + std::to_string((unsigned long long)n << 40), "format with mixed arguments"); }
		else { Model f = "<" + a + ">%d"; String s = String::format(f.c_str(), -n); compare(s, "<" + a + ">" + std::to_string(-n), "format with a long format"); }
		mc::note("format of length %d (%d)", n, how);
	}
	g.expectEmpty("at end");
}

// Case conversion touches exactly the ASCII letters: all byte values
static void caseBytes()
{
	TrackGlobal g;
	{
		int c = 1 + mc::choose(255), pad = mc::choose(3);
		Model m(pad, 'm'); m += (char)c; m += "Q";
		String s{m.c_str()};
		auto conv = [&](bool lo) { Model e = m; for (auto & x : e) x = (char)(lo ? (x >= 'A' && x <= 'Z' ? x + 32 : x) : (x >= 'a' && x <= 'z' ? x - 32 : x)); return e; };
		compare(s.toLower(), conv(true), "toLower"); compare(s.toUpper(), conv(false), "toUpper"); compare(s, m, "case conversion (its source)");
		mc::note("byte %d", c);
	}
	g.expectEmpty("at end");
}

// Printing of arrays: items in order, separated, in brackets
static void arrays()
{
	TrackGlobal g;
	{
		int n = mc::choose(5); Array<int32> a; Model e = "["; 
		for (int i = 0; i < n; ++i) { int v = mc::choose(3) * 111 - 50; a.add(v); e += (i ? ", " : "") + std::to_string(v); }
		e += "]";
		compare(a.toString(), e, "array to text");
		Array<Array<int32>> aa; aa.add(a); aa.add(Array<int32>{}); aa.add(a);
		compare(aa.toString(), "[" + e + ", [], " + e + "]", "nested array to text");
		String s{"="}; s += a; compare(s, "=" + e, "array appended to text");
		mc::note("%s", e.c_str());
	}
	g.expectEmpty("at end");
}

// Long texts: one below, at and above every power of two, where a narrow counter or a growth step would show
static void longTexts()
{
	TrackGlobal g;
	{
		int e = 4 + mc::choose(mc::bound(13, 16)), d = mc::choose(5) - 2, how = mc::choose(10);
		size_t n = (size_t)((1l << e) + d);
		Model m(n, ' '); for (size_t i = 0; i < n; ++i) m[i] = (char)('!' + (i * 31 + i / 251) % 90);
		mc::note("%zu characters, way %d", n, how);
		auto same = [](const String & s, const Model & m, const char * op)
		{
			MC_CHECK(s.getLength() == m.size(), "after %s: length %llu, expected %zu", op, (unsigned long long)s.getLength(), m.size());
			if (::memcmp(*s, m.c_str(), m.size() + 1) != 0)
			{
				size_t i = 0; while ((*s)[i] == m[i]) ++i;
				mc::fail("after %s: long text differs at %zu of %zu", op, i, m.size());
			}
			MC_CHECK(s.getArray().getCount() == m.size() + 1, "after %s: backing array holds %llu", op, (unsigned long long)s.getArray().getCount());
		};
		String s{m.c_str()}; same(s, m, "construction");
		switch (how)
		{
		case 0: for (int i = 0; i < 5; ++i) { s += (char)('0' + i); m += (char)('0' + i); } break;
		case 1: s += m.c_str(); m += m; break;
		case 2: { String o{s}; s += o; same(o, m, "+= (its argument)"); m += m; break; }
		case 3: s += s; m += m; break;
		case 4:
			for (size_t pos : {(size_t)0, (size_t)1, n / 2, n - 1, n})
				for (size_t len : {(size_t)0, (size_t)1, (size_t)7})
				{
					if (pos + len > n) continue;
					for (const char * t : {"", "*", "longer than seven"})
					{
						String c{s}; Model e = m;
						c.splice(pos, len, t); e.replace(pos, len, t); same(c, e, "splice");
						c += '.'; e += '.'; same(c, e, "append after splice");
					}
					String c{s}; Model e = m; c.splice(pos, len); e.erase(pos, len); same(c, e, "splice without a replacement");
				}
			break;
		case 5:
			for (size_t pos : {(size_t)0, (size_t)1, n / 2, n - 1, n}) for (size_t len : {(size_t)0, (size_t)1, n / 2, n - pos})
				if (pos + len <= n) { same(s.substr(len, pos), m.substr(pos, len), "substr"); }
			same(s.substr(n / 2), m.substr(0, n / 2), "substr from the start");
			break;
		case 6:
		{
			Model lo = m, up = m;
			for (auto & c : lo) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
			for (auto & c : up) if (c >= 'a' && c <= 'z') c = (char)(c - 32);
			same(s.toLower(), lo, "toLower"); same(s.toUpper(), up, "toUpper");
			break;
		}
		case 7:
		{
			same(String(n, 'k'), Model(n, 'k'), "construction of a repeated character");
			same(String(m.c_str(), n / 2), m.substr(0, n / 2), "construction of a part");
			same(String::format("%s%d", m.c_str(), 5), m + "5", "format");
			String o; o = s; same(o, m, "copy assignment"); String p{move(o)}; same(p, m, "move construction"); String q{"x"}; q = move(p); same(q, m, "move assignment");
			same(q + "tail", m + "tail", "+");
			break;
		}
		case 8:
		{
			// shrink to nothing and grow again
			s.splice(1, n - 1, ""); m.erase(1, n - 1); same(s, m, "splice to one character");
			s <<= (uint64)12345678901ull; m = "12345678901"; same(s, m, "print");
			s.splice(0, 11, ""); m = ""; same(s, m, "splice to nothing");
			for (size_t i = 0; i < n; ++i) { s += (char)('a' + i % 26); m += (char)('a' + i % 26); } same(s, m, "appending one at a time");
			break;
		}
		}
		if (how == 9)
		{
			// parts of the text itself, with and without room left for them
			for (size_t from : {(size_t)0, (size_t)1, n / 2, n - 1}) for (size_t room : {(size_t)0, n, 2 * n})
			{
				String c{s}; Model x = m, part = m.substr(from);
				auto prepare = [&] { c = s; x = m; if (room) { String f(room, '.'); c += f; c.splice(n, room, ""); } };
				prepare(); const char * own = *c + from; c += own; x += part; same(c, x, "+= of its own part");
				for (size_t pos : {(size_t)0, n / 2, n}) for (size_t len : {(size_t)0, (n - pos) / 2, n - pos})
				{
					prepare(); own = *c + from; c.splice(pos, len, own); x.replace(pos, len, part); same(c, x, "splice of its own part");
					if (from == 0) { prepare(); c.splice(pos, len, c); x.replace(pos, len, m); same(c, x, "splice of itself"); }
				}
			}
		}
		same(s, m, "long edit");
	}
	g.expectEmpty("after the string was destroyed");
}

// Every accessor names the same characters, and writes through each of them are seen by all
static void accessors()
{
	TrackGlobal g;
	{
		int n = 1 + mc::choose(5), i = mc::choose(n), how = mc::choose(7);
		Model m = Model("abcde").substr(0, n); String s{m.c_str()}; const String & c = s;
		switch (how)
		{
		case 0: s[i] = 'W'; break;
		case 1: s.getAt(i) = 'W'; break;
		case 2: (*s)[i] = 'W'; break;
		case 3: s.getData()[i] = 'W'; break;
		case 4: s.getBuffer()[i] = 'W'; break;
		case 5: s.getArray()[i] = 'W'; break;
		case 6: (*s.getArray())[i] = 'W'; break;
		}
		m[i] = 'W';
		mc::note("write %d of %d through %d", i, n, how);
		compare(s, m, "a write");
		MC_CHECK(c.getData() == *c && c.getBuffer() == *c && *c.getArray() == *c && *s == *c && s.getData() == *c && s.getBuffer() == *c, "data pointers differ");
		MC_CHECK(&c.getAt(i) == *c + i && &s.getAt(i) == *s + i, "getAt names another character");
	}
	g.expectEmpty("at end");
}

static void setup()
{
	mc::add("long_texts", 4, longTexts);
	mc::add("accessors", 1, accessors);
	mc::add("histories", 8, [] { histories(mc::bound(3, 4)); });
	mc::add("growth", 2, growth);
	mc::add("splices", 4, splices);
	mc::add("own_parts", 4, ownParts);
	mc::add("numbers", 2, numbers);
	mc::add("formats", 1, formats);
	mc::add("case_bytes", 1, caseBytes);
	mc::add("arrays", 1, arrays);
}
MC_MAIN(setup)
