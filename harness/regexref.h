// Reference regular expressions: a parser of the supported syntax into a tree, and a matcher that
// computes sets of end positions by structural recursion. Shares nothing with the code under test.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref
{
	struct Node; using P = std::shared_ptr<Node>;
	enum Kind { Empty, Chars, Cat, Alt, Rep, Pos, Look, Most };		// Pos: zero-width test; Look: what is ahead, `test` is = or !; Most: as much as it can take, or no way on
	struct Node
	{
		Kind kind; bool set[256] = {}; std::vector<P> kids; int lo = 0, hi = -1; char test = 0; int items = 1;	// of a class, as written
		
		explicit Node(Kind k) : kind{k} {}
	};
	inline P make(Kind k) { return std::make_shared<Node>(k); }

	inline bool digit(int c) { return c >= '0' && c <= '9'; }
	inline bool word(int c) { return digit(c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
	inline bool space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
	inline bool alnum(int c) { return word(c) && c != '_'; }

	// Sets of characters; the terminator belongs to none
	inline bool classOf(char e, bool * s)
	{
		for (int c = 1; c < 256; ++c)
			switch (e)
			{
				case 'd': s[c] |= digit(c); break;
				case 'D': s[c] |= !digit(c); break;
				case 'w': s[c] |= word(c); break;
				case 'W': s[c] |= !word(c); break;
				case 's': s[c] |= space(c); break;
				case 'S': s[c] |= !space(c); break;
				default: return false;
			}
		return true;
	}

	// Recursive descent. `ok` falls to false on anything malformed or outside the supported syntax.
	struct Parser
	{
		std::string p; size_t i = 0; bool ok = true; int depth = 0, maxDepth = 0;

		P one(unsigned char c) { P n = make(Chars); n->set[c] = true; return n; }

		P alternatives()
		{
			std::vector<P> v{sequence()};
			while (ok && i < p.size() && p[i] == '|') { ++i; v.push_back(sequence()); }
			if (v.size() == 1) return v[0];
			P n = make(Alt); n->kids = v; return n;
		}
		P sequence()
		{
			P n = make(Cat);
			while (ok && i < p.size() && p[i] != '|' && p[i] != ')') n->kids.push_back(factor());
			return n;
		}
		bool quantifier(int & lo, int & hi, bool & counted)
		{
			counted = false;
			if (i >= p.size()) return false;
			if (p[i] == '*') { lo = 0; hi = -1; ++i; return true; }
			if (p[i] == '+') { lo = 1; hi = -1; ++i; return true; }
			if (p[i] == '?') { lo = 0; hi = 1; ++i; return true; }
			if (p[i] != '{' || literalBrace(i)) return false;
			size_t j = i + 1; counted = true;
			auto number = [&](int & v) { if (j >= p.size() || !digit(p[j])) return false; v = 0; for (; j < p.size() && digit(p[j]); ++j) { v = v * 10 + (p[j] - '0'); if (v > 1000) return false; } return true; };
			if (!number(lo)) { ok = false; return false; }
			hi = lo;
			if (j < p.size() && p[j] == ',') { ++j; if (j < p.size() && p[j] == '}') hi = -1; else if (!number(hi) || hi < lo) { ok = false; return false; } }
			if (j >= p.size() || p[j] != '}') { ok = false; return false; }
			i = j + 1;
			return true;
		}
		bool literalBrace(size_t from)	// no closing brace anywhere after it
		{
			for (size_t j = from + 1; j < p.size(); ++j) { if (p[j] == '\\') ++j; else if (p[j] == '}') return false; }
			return true;
		}
		P factor()
		{
			P a = atom(); int lo, hi, stacked = 0; bool counted, wasCounted = true, none = false;
			// One quantifier, or a count followed by one more, which ECMAScript rejects but the tests rely on
			while (ok && quantifier(lo, hi, counted))
			{
				if (!wasCounted || none || ++stacked > 2) { ok = false; break; }
				P r = make(Rep); r->kids = {a}; r->lo = lo; r->hi = hi; a = r;
				wasCounted = counted; none = hi == 0;
			}
			return a;
		}
		P atom()
		{
			unsigned char c = p[i];
			switch (c)
			{
				case '(':
				{
					++i; if (++depth > maxDepth) maxDepth = depth;
					P n = alternatives();
					if (i >= p.size() || p[i] != ')') { ok = false; return n; }
					++i; --depth; return n;
				}
				case '*': case '+': case '?': ok = false; return make(Empty);
				case '{': if (!literalBrace(i)) { ok = false; return make(Empty); } ++i; return one('{');
				case '.': { ++i; P n = make(Chars); for (int k = 1; k < 256; ++k) n->set[k] = true; return n; }
				case '^': case '$': { ++i; P n = make(Pos); n->test = c; return n; }
				case '\\': return escape();
				case '[': return characters();
				default: ++i; return one(c);
			}
		}
		P escape()
		{
			if (i + 1 >= p.size()) { ok = false; return make(Empty); }
			char e = p[i + 1]; i += 2;
			if (e == 'b' || e == 'B') { P n = make(Pos); n->test = e; return n; }
			P n = make(Chars);
			if (classOf(e, n->set)) return n;
			if (alnum(e)) ok = false;		// other escapes are not supported
			n->set[(unsigned char)e] = true;
			return n;
		}
		P characters()
		{
			size_t close = i + 1;
			for (; close < p.size() && p[close] != ']'; ++close) if (p[close] == '\\' && close + 1 < p.size()) ++close;
			if (close >= p.size()) { ++i; return one('['); }		// never closed: a plain bracket
			if (close == i + 1) { ok = false; return make(Empty); }	// empty class
			P n = make(Chars); size_t j = i + 1;
			i = close + 1;
			bool inverted = p[j] == '^';
			if (inverted && ++j == close) { for (int k = 1; k < 256; ++k) n->set[k] = true; return n; }
			while (j < close)
			{
				++n->items;
				if (p[j] == '\\')
				{
					char e = p[j + 1]; j += 2;
					if (classOf(e, n->set)) continue;
					if (alnum(e)) ok = false;
					n->set[(unsigned char)e] = true;
				}
				else if (j + 2 < close && p[j + 1] == '-')
				{
					// A range of characters, as the type char orders them
					if (p[j + 2] == '\\' || p[j] >= p[j + 2]) { ok = false; return n; }
					for (int k = 1; k < 256; ++k) if ((char)k >= p[j] && (char)k <= p[j + 2]) n->set[k] = true;
					j += 3;
				}
				else n->set[(unsigned char)p[j++]] = true;
			}
			if (inverted) for (int k = 1; k < 256; ++k) n->set[k] = !n->set[k];
			return n;
		}
	};

	// Null if the pattern is malformed or not supported
	inline P parse(const std::string & pattern)
	{
		Parser x; x.p = pattern;
		P n = x.alternatives();
		return x.ok && x.i == pattern.size() && x.maxDepth < 120 ? n : nullptr;
	}

	using Ends = std::vector<bool>;
	inline Ends compute(const Node & n, const std::string & s, size_t at);
	// Ends of composite nodes are remembered for the input at hand
	inline std::map<std::pair<const Node *, size_t>, Ends> memo;
	inline Ends ends(const Node & n, const std::string & s, size_t at)
	{
		if (n.kind != Rep && n.kind != Alt && n.kind != Look && n.kind != Most) return compute(n, s, at);
		auto it = memo.find({&n, at});
		if (it != memo.end()) return it->second;
		return memo[{&n, at}] = compute(n, s, at);
	}
	inline Ends compute(const Node & n, const std::string & s, size_t at)
	{
		Ends r(s.size() + 1, false);
		switch (n.kind)
		{
			case Empty: r[at] = true; break;
			case Chars: if (at < s.size() && n.set[(unsigned char)s[at]]) r[at + 1] = true; break;
			case Alt:
				for (auto & k : n.kids) { Ends e = ends(*k, s, at); for (size_t i = 0; i < r.size(); ++i) if (e[i]) r[i] = true; }
				break;
			case Cat:
				r[at] = true;
				for (auto & k : n.kids)
				{
					Ends next(r.size(), false);
					for (size_t i = at; i < r.size(); ++i) if (r[i]) { Ends e = ends(*k, s, i); for (size_t j = 0; j < e.size(); ++j) if (e[j]) next[j] = true; }
					r = next;
				}
				break;
			case Rep:
			{
				Ends cur(r.size(), false); cur[at] = true;
				if (n.lo == 0) r = cur;
				// More rounds than positions and mandatory repetitions add nothing
				int last = n.hi >= 0 ? n.hi : n.lo + (int)s.size() + 1;
				for (int k = 1; k <= last; ++k)
				{
					Ends next(r.size(), false); bool any = false;
					for (size_t i = at; i < r.size(); ++i) if (cur[i]) { Ends e = ends(*n.kids[0], s, i); for (size_t j = 0; j < e.size(); ++j) if (e[j]) next[j] = true, any = true; }
					if (next == cur && k > n.lo) break;
					cur = next;
					if (k >= n.lo) for (size_t i = 0; i < r.size(); ++i) if (cur[i]) r[i] = true;
					if (!any) break;
				}
				break;
			}
			case Look:
			{
				bool some = false;
				for (bool e : ends(*n.kids[0], s, at)) some |= e;
				r[at] = some == (n.test == '=');
				break;
			}
			case Most:
			{
				Ends e = ends(*n.kids[0], s, at);
				for (size_t i = e.size(); i-- > at;) if (e[i]) { r[i] = true; break; }
				break;
			}
			case Pos:
			{
				bool before = at > 0 && word((unsigned char)s[at - 1]), after = at < s.size() && word((unsigned char)s[at]);
				r[at] = n.test == '^' ? at == 0 : n.test == '$' ? at == s.size() : n.test == 'b' ? before != after : before && after;
				break;
			}
		}
		return r;
	}
	inline Ends endsOf(const Node & n, const std::string & s, size_t at) { memo.clear(); return ends(n, s, at); }
	inline bool accepts(const Node & n, const std::string & s) { return endsOf(n, s, 0)[s.size()]; }
}
