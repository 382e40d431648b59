// C14: a compiled pattern accepts exactly the language it denotes: every pattern of the supported
// syntax up to the bounds, against every input up to the bounds.
#include "track.h"
#include <set>
#include "regexref.h"
#include "regex/regex.h"

using namespace Re;

static std::vector<std::string> words(const std::string & alphabet, int maxLen)
{
	std::vector<std::string> v{""};
	for (size_t from = 0, n = 0; n < (size_t)maxLen; ++n)
	{
		size_t to = v.size();
		for (size_t i = from; i < to; ++i) for (char c : alphabet) v.push_back(v[i] + c);
		from = to;
	}
	return v;
}

static std::string quoted(const std::string & s)
{
	std::string r;
	for (unsigned char c : s) if (c >= 32 && c < 127) r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	return r;
}

// A text with nothing behind its terminator
struct Exact
{
	char * p;
	explicit Exact(const std::string & s) : p{new char[s.size() + 1]} { memcpy(p, s.c_str(), s.size() + 1); }
	~Exact() { delete[] p; }
	Exact(const Exact &) = delete;
};

// Match without the accept() shortcut, one step at a time, within a budget
static bool stepped(const Regex & r, const char * in)
{
	auto ex = r.getAutomaton().createExecutor(in);
	bool acc = false; long n = 0;
	while (!ex.step(acc)) if (++n > 2000000) mc::fail("matching does not terminate");
	return acc;
}

// The pattern against every input, each twice and in both orders
static void judge(const std::string & pat, const ref::Node & tree, const std::vector<std::string> & inputs, bool again = false)
{
	TrackGlobal g; long yes = 0, no = 0;
	{
		Regex r{String{pat.c_str()}};
		for (auto & in : inputs)
		{
			bool e = ref::accepts(tree, in);
			(e ? yes : no) += 1;
			Exact exact{in};
			MC_CHECK(stepped(r, exact.p) == e, "/%s/ %s '%s'", quoted(pat).c_str(), e ? "rejects" : "accepts", quoted(in).c_str());
			mc::tick();
		}
		if (again)
		{
			const Regex & c = r;
			for (size_t i = inputs.size(); i-- > 0;)
			{
				bool e = ref::accepts(tree, inputs[i]);
				MC_CHECK(c.accept(inputs[i].c_str()) == e && c.accept(String{inputs[i].c_str()}) == e, "/%s/ matched '%s' before, with another verdict", quoted(pat).c_str(), quoted(inputs[i]).c_str());
			}
			MC_CHECK(Re::accept(String{pat.c_str()}, String{inputs.back().c_str()}) == ref::accepts(tree, inputs.back()), "/%s/ matched at once differs on '%s'", quoted(pat).c_str(), quoted(inputs.back()).c_str());
		}
		mc::outcome(yes && no ? "both" : yes ? "accepts all" : "rejects all");
	}
	g.expectEmpty("after the expression was destroyed");
}

// Every sequence of tokens up to the length bound
static void tokens(const std::vector<std::string> & menu, int maxTokens, const std::vector<std::string> & inputs)
{
	int n = 1 + mc::choose(maxTokens);
	std::string pat; int depth = 0;
	for (int i = 0; i < n; ++i)
	{
		const std::string & t = menu[mc::choose((int)menu.size())];
		if (t == "(") ++depth;
		if (t == ")" && --depth < 0) throw mc::Abandon{};
		if (depth > n - i - 1) throw mc::Abandon{};
		if ((i == 0 || pat.back() == '|' || pat.back() == '(') && (t == "*" || t == "+" || t == "?" || (t[0] == '{' && t.size() > 1))) throw mc::Abandon{};
		pat += t;
	}
	ref::P tree = ref::parse(pat);
	if (!tree) throw mc::Abandon{};
	mc::note("/%s/", quoted(pat).c_str());
	judge(pat, *tree, inputs);
}

static std::vector<std::string> bytes()
{
	std::vector<std::string> v{""};
	for (int c = 1; c < 256; ++c) v.push_back(std::string(1, (char)c));
	return v;
}

static const std::vector<std::string> atomMenu = {"a", "b", ".", "[ab]", "[^a]", "[^ab]", "[a-c]", "[^a-c]", "[^]", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "^", "$", "\\b", "\\B",
	"\\.", "\\*", "\\\\", "\\(", "\\|", "\\[", "\\{", "\\-", "]", "}", "-", ",", "()", "(a)", "(a|b)", "(|a)", "(ab)", "(a*)", "(a*b)", "[\\d-]", "[^\\s]", "[\\]]", "[\\\\]", "[-a]", "[a-]", "[.*]", " ", "_", "0", "\n"};
static const std::vector<std::string> suffixMenu = {"", "*", "+", "?", "{0}", "{1}", "{2}", "{0,}", "{1,}", "{2,}", "{0,1}", "{1,2}", "{2,3}"};

// Every atom with every quantifier, next to every other atom
static void pairs()
{
	static const std::vector<std::string> ins = [] {
		std::vector<std::string> v;
		if (mc::thorough()) v = words(std::string("ab0 .\\-]"), 2); else for (char c : std::string("ab0 .\\-]")) v.push_back(std::string(1, c));
		auto w = words("ab", mc::bound(3, 4)); v.insert(v.end(), w.begin(), w.end());
		if (!mc::thorough()) for (auto & s : {"*", "(", "|", "[", "{", "_", "\n", "a\n", "a_b", "0a", "a.", "\xe9", "-a", " a ", "c", "\\a"}) v.push_back(s);
		else for (auto & s : {"*", "(", "|", "[", "{", "}", ",", "_", "\n", "a\n", "_a", "a_b", "0a0", "a.a", "\xe9", "a\xe9", "Z", "{a", "*a", "a b a", " a ", "c", "ac", "ca", "cb"}) v.push_back(s);
		return v; }();
	std::string pat;
	int form = mc::choose(4);
	// the second atom, away from the quantifier, has a shorter menu in the quick tier
	pat += atomMenu[mc::choose((int)atomMenu.size())];
	static const std::vector<std::string> fewer = {"a", "b", ".", "[^a]", "\\d", "\\W", "^", "$", "\\b", "\\\\", "(a|b)", "(|a)", "(a*b)", "[^]", "()"};
	auto other = [] { auto & m = mc::thorough() ? atomMenu : fewer; return m[mc::choose((int)m.size())]; };
	pat += suffixMenu[mc::choose((int)suffixMenu.size())];
	if (form == 1) pat += other();
	if (form == 2) pat = "(" + pat + "|" + other() + ")" + suffixMenu[mc::choose(mc::bound(3, 5))];
	if (form == 3) pat = other() + pat;
	ref::P tree = ref::parse(pat);
	if (!tree) throw mc::Abandon{};
	mc::note("/%s/", quoted(pat).c_str());
	judge(pat, *tree, ins, form == 0 || mc::thorough());
}

// Every character class of up to three items, negated or not, in several surroundings
static void classes(int maxItems)
{
	static const std::vector<std::string> items = {"a", "b", "-", "^", "a-c", "\\]", "\\\\", "\\d", "\\D", "\\W", "\\s", ".", "*", "[", "(", "|", "0-9", " ", "A-z", "\\^", "\\-", "$", "{", "_"};
	static const std::vector<std::string> all = bytes(), some = words("ab-^]\\5", 2), fews = words("ab", 4);
	int form = mc::choose(5), n = 1 + mc::choose(maxItems);
	std::string body = mc::choose(2) ? "[^" : "[";
	for (int i = 0; i < n; ++i) body += items[mc::choose((int)items.size())];
	body += "]";
	std::string pat = form == 0 ? body : form == 1 ? body + "b" : form == 2 ? body + "+" : form == 3 ? "(a|" + body + ")*b" : body + "{2}";
	ref::P tree = ref::parse(pat);
	if (!tree) throw mc::Abandon{};
	mc::note("/%s/", quoted(pat).c_str());
	judge(pat, *tree, form == 0 ? all : n < 3 ? some : fews);
}

// Every pair of counts, over several bodies, followed by several continuations
static void counts()
{
	static const std::vector<std::string> bodies = {"a", ".", "[ab]", "(ab)", "(a|b)", "(a*b)", "(a?)", "(a{2}|b)", "()", "(a|)", "([^b])", "((a)b)", "(a+b|b)", "(ba*)", "\\w", "(a|b|ab)", "(a(b|a*))", "(aa|a)", "(a{0,2}b)", "($|a)"};
	static const std::vector<std::string> after = {"", "b", "a", "*", "+", "?", "{2}", "|b", "{2,}b", "{0,2}"};
	static const std::vector<std::string> ins = words("ab", mc::bound(6, 9));
	int lo = mc::choose(mc::bound(4, 6)), form = mc::choose(3), hi = 0;
	if (form == 2) hi = lo + mc::choose(mc::bound(3, 5));
	std::string pat = bodies[mc::choose((int)bodies.size())] + "{" + std::to_string(lo) + (form == 0 ? "" : form == 1 ? "," : "," + std::to_string(hi)) + "}" + after[mc::choose((int)after.size())];
	if (mc::choose(2)) pat = "b" + pat;
	ref::P tree = ref::parse(pat);
	if (!tree) throw mc::Abandon{};
	mc::note("/%s/", quoted(pat).c_str());
	judge(pat, *tree, ins);
}

// Counts of several digits: exactly, at least, at most that often
static void large_counts()
{
	static const int cand[] = {9, 10, 11, 12, 19, 20, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 300, 511, 512, 1000};
	int n = cand[mc::choose(mc::bound(26, 27))], form = mc::choose(7), body = mc::choose(3); static const char * const bodies[] = {"a", "(ab)", "[ab]"};
	std::string b = bodies[body], t = body == 1 ? "ab" : "a", N = std::to_string(n); int lo = n, hi = n;
	switch (form)
	{
	case 0: b += "{" + N + "}"; break;
	case 1: b += "{" + N + ",}"; hi = -1; break;
	case 2: b += "{0," + N + "}"; lo = 0; break;
	case 3: b += "{" + N + "," + N + "}"; break;
	case 4: b += "{" + std::to_string(n - 1) + "," + N + "}"; lo = n - 1; break;
	case 5: b += "{" + N + "," + std::to_string(n + 2) + "}"; hi = n + 2; break;
	case 6: b += "{2," + N + "}"; lo = 2; break;
	}
	int tail = mc::choose(2); if (tail) b += "c";
	if (!mc::thorough() && n > 130 && (body || (n > 257 && form))) throw mc::Abandon{};
	mc::note("/%s/", b.c_str()); TrackGlobal g;
	{
		Regex r{String{b.c_str()}};
		std::set<int> times = {0, 1, 2, 3, lo - 1, lo, lo + 1, (lo + n) / 2, n - 1, n, n + 1, n + 2, n + 3, n + n, n % 10, n / 10, n % 100, n & 127, n & 255, n + 128, n + 256};
		for (int k : times)
		{
			if (k < 0) continue;
			std::string in; for (int i = 0; i < k; ++i) in += t;
			bool e = k >= lo && (hi < 0 || k <= hi);
			MC_CHECK(r.accept((in + (tail ? "c" : "")).c_str()) == e, "/%s/ %s %d repetitions", b.c_str(), e ? "rejects" : "accepts", k);
			MC_CHECK(!r.accept((in + (tail ? "" : "c")).c_str()), "/%s/ accepts %d repetitions %s", b.c_str(), k, tail ? "without what follows" : "and more");
			if (k) { std::string x = in; x[x.size() / 2] = '!'; MC_CHECK(!r.accept((x + (tail ? "c" : "")).c_str()), "/%s/ accepts a foreign character", b.c_str()); }
			mc::tick();
		}
	}
	g.expectEmpty("after the expression was destroyed");
}

// Groups nested up to the limit, and long inputs
static void deep()
{
	static const char * const outer[] = {"(", "(a", "(a|", "((", "(b*"}, * const inner[] = {")", ")?", ")*", "b)", "))+", "){2}", "){0,1}", "|b)"};
	std::string o = outer[mc::choose(5)], i = inner[mc::choose(8)];
	int n = mc::choose(i == "){2}" ? 4 : mc::bound(14, 58));
	std::string pat;
	for (int k = 0; k < n; ++k) pat += o;
	pat += "a";
	for (int k = 0; k < n; ++k) pat += i;
	ref::P tree = ref::parse(pat);
	if (!tree) throw mc::Abandon{};
	mc::note("/%s/", quoted(pat).c_str());
	std::vector<std::string> ins{"", "b", "ab", "ba", "bab"};
	for (int k = 1; k <= 6; ++k) ins.push_back(std::string(k, 'a')), ins.push_back(std::string(k, 'a') + std::string(k, 'b'));
	judge(pat, *tree, ins);
}

static void longs()
{
	static const char * const pats[] = {"a*", "(a|b)*", "(ab)+", "(a*)*b", "(a|aa)+", "[^b]*", ".*b", "(a+)+", "\\w+", "(a*b*)*", "(a|b|ab)*b", "a{3}+", "(a?){30}a{30}", "\\D+"};
	std::string pat = pats[mc::choose(14)];
	ref::P tree = ref::parse(pat);
	for (int n = mc::choose(4); n < mc::bound(40, 150); n += 7)
	{
		std::string a(n, 'a'), ab, x(n, 'a');
		for (int i = 0; i < n; ++i) ab += i % 2 ? 'b' : 'a';
		if (n > 0) x[n / 2] = 'c';
		judge(pat, *tree, {a, a + "b", ab, ab + "a", x, "b" + a});
	}
	mc::note("/%s/ on inputs of all lengths", pat.c_str());
}

// Lookaheads, which only the builder reaches: (?=x)y and (?!x)y
static void pushText(AutomatonBuilder<char> & b, const std::string & t)
{
	for (char c : t)
		if (c == '.') b.pushState<StateAny<char>>();
		else if (c == '+') b.pushJump();
		else if (c == '*') b.pushSkip().pushJump();
		else if (c == '?') b.pushSkip();
		else if (c == '2') b.pushRepeat(2, 2);
		else if (c == '|') b.pushBranch();
		else if (c == '(') b.beginGroup();
		else if (c == ')') b.endGroup();
		else if (c == '-') b.pushState<StateRange<char>>('a', 'b');
		else if (c == '^') b.pushState<StateLambda<char>>([](const char * const &, int32 & outNumRead, int32 numRead) -> bool { outNumRead = 0; return numRead == 0; });
		else if (c == '$') b.pushState<StateLambda<char>>([](const char * const & input, int32 & outNumRead, int32) -> bool { outNumRead = 0; return !*input; });
		else b.pushState<StateSymbol<char>>(c);
}
static std::string toPattern(std::string t)
{
	std::string r;
	for (char c : t) if (c == '2') r += "{2}"; else if (c == '-') r += "[a-b]"; else r += c;
	return r;
}
static void lookaheads()
{
	static const char * const parts[] = {"", "a", "b", "ab", "a+", ".", "a*b", "(a|b)", "(a|b)2", "-", "a|b", "(ab)+", ".?", "c"};
	static const std::vector<std::string> ins = words("abc", 4);
	std::string before = parts[mc::choose(14)], look = parts[mc::choose(14)], after = parts[mc::choose(14)]; bool negative = mc::choose(2);
	if (before == "a|b" || after == "a|b") throw mc::Abandon{};
	mc::note("%s(?%s%s)%s", before.c_str(), negative ? "!" : "=", look.c_str(), after.c_str());
	ref::P b = ref::parse(toPattern(before)), l = ref::parse(toPattern(look)), f = ref::parse(toPattern(after));
	TrackGlobal g;
	{
		Automaton<char> m;
		auto builder = m.createBuilder();
		pushText(builder, before);
		if (negative) builder.beginMacro<StateNegativeLookahed<char>>(); else builder.beginMacro<StatePositiveLookahed<char>>();
		pushText(builder, look);
		builder.endMacro();
		pushText(builder, after);
		builder.endGroup();
		bool optimized = mc::choose(2);
		if (optimized) m.createOptimizer().removeEpsilons();
		for (auto & in : ins)
		{
			bool e = false;
			auto heads = ref::endsOf(*b, in, 0);
			for (size_t i = 0; i <= in.size() && !e; ++i) if (heads[i])
			{
				auto ls = ref::endsOf(*l, in, i); bool some = false;
				for (bool x : ls) some |= x;
				if (some != negative && ref::endsOf(*f, in, i)[in.size()]) e = true;
			}
			MC_CHECK(m.acceptString(in.c_str()) == e, "%s(?%s%s)%s %s '%s'%s", before.c_str(), negative ? "!" : "=", look.c_str(), after.c_str(), e ? "rejects" : "accepts", in.c_str(), optimized ? "" : ", not optimized");
			mc::tick();
		}
	}
	g.expectEmpty("after the automaton was destroyed");
}

// Builder programs with lookaheads anywhere: nested, in groups that repeat, repeated themselves.
// P and N begin a positive and a negative one, E ends it.
struct LookParser
{
	std::string t; size_t i = 0; bool ok = true;
	ref::P alternatives(char close)
	{
		std::vector<ref::P> v;
		do
		{
			ref::P n = ref::make(ref::Cat);
			while (ok && i < t.size() && t[i] != '|' && t[i] != ')' && t[i] != 'E') n->kids.push_back(factor());
			v.push_back(n);
		} while (ok && i < t.size() && t[i] == '|' && ++i);
		if (close) { if (i < t.size() && t[i] == close) ++i; else ok = false; }
		if (v.size() == 1) return v[0];
		ref::P n = ref::make(ref::Alt); n->kids = v; return n;
	}
	ref::P factor()
	{
		char c = t[i++]; ref::P a;
		if (c == '(') a = alternatives(')');
		else if (c == 'P' || c == 'N') { a = ref::make(ref::Look); a->test = c == 'P' ? '=' : '!'; a->kids = {alternatives('E')}; }
		else if (c == '^' || c == '$') { a = ref::make(ref::Pos); a->test = c; }
		else if (c == '.') { a = ref::make(ref::Chars); for (int k = 1; k < 256; ++k) a->set[k] = true; }
		else if (c == 'a' || c == 'b') { a = ref::make(ref::Chars); a->set[(unsigned char)c] = true; }
		else { ok = false; return ref::make(ref::Empty); }
		if (i < t.size() && (t[i] == '*' || t[i] == '?' || t[i] == '2'))
		{
			char q = t[i++]; ref::P r = ref::make(ref::Rep); r->kids = {a};
			r->lo = q == '2' ? 2 : 0; r->hi = q == '*' ? -1 : q == '2' ? 2 : 1; a = r;
		}
		return a;
	}
};
static void looks(int maxTokens, const char * menu)
{
	static const std::vector<std::string> ins = words("ab", mc::bound(4, 5));
	int n = 2 + mc::choose(maxTokens - 1), m = (int)::strlen(menu);
	std::string t, open;
	for (int i = 0; i < n; ++i)
	{
		char c = menu[mc::choose(m)];
		if (c == '(' || c == 'P' || c == 'N') open += c;
		if (c == ')' || c == 'E')
		{
			if (open.empty() || (open.back() == '(') != (c == ')')) throw mc::Abandon{};
			open.pop_back();
		}
		if ((int)open.size() > n - i - 1) throw mc::Abandon{};
		t += c;
	}
	LookParser p; p.t = t;
	ref::P tree = p.alternatives(0);
	if (!p.ok || p.i != t.size()) throw mc::Abandon{};
	mc::note("builder: %s", t.c_str());
	TrackGlobal g; long yes = 0, no = 0;
	{
		Automaton<char> a;
		auto b = a.createBuilder();
		for (char c : t)
			switch (c)
			{
				case 'P': b.beginMacro<StatePositiveLookahed<char>>(); break;
				case 'N': b.beginMacro<StateNegativeLookahed<char>>(); break;
				case 'E': b.endMacro(); break;
				default: pushText(b, std::string(1, c));
			}
		b.endGroup();
		for (int pass = 0; pass < 2; ++pass)
		{
			for (auto & in : ins)
			{
				bool e = ref::accepts(*tree, in);
				(e ? yes : no) += 1;
				MC_CHECK(a.acceptString(in.c_str()) == e, "%s, %soptimized, %s '%s'", t.c_str(), pass ? "" : "not ", e ? "rejects" : "accepts", in.c_str());
			}
			mc::tick();
			a.createOptimizer().removeEpsilons();
		}
		mc::outcome(yes && no ? "both" : yes ? "accepts all" : "rejects all");
	}
	g.expectEmpty("after the automaton was destroyed");
}

// Every range of characters, alone, negated, beside others; each against every character
static void ranges()
{
	static const std::vector<int> ends = [] {
		std::vector<int> v;
		if (mc::thorough()) for (int c = -128; c < 128; ++c) { if (c) v.push_back(c); }
		else for (int c : {-128, -127, -100, -64, -2, -1, 1, 2, 9, 10, 13, 31, 32, 33, 47, 48, 49, 57, 58, 64, 65, 66, 77, 90, 96, 97, 98, 109, 122, 123, 126, 127}) v.push_back(c);
		return v; }();
	static const std::vector<std::string> all = bytes();
	int i = mc::choose((int)ends.size() - 1), j = i + 1 + mc::choose((int)ends.size() - 1 - i), form = mc::choose(mc::bound(4, 4));
	std::string r{(char)ends[i], '-', (char)ends[j]};
	std::string pat = form == 0 ? "[" + r + "]" : form == 1 ? "[^" + r + "]" : form == 2 ? "[_" + r + "%]" : "[\\d" + r + "]";
	ref::P tree = ref::parse(pat);
	if (!tree) throw mc::Abandon{};
	mc::note("/%s/", quoted(pat).c_str());
	judge(pat, *tree, all);
}

// Patterns and inputs of sizes around the powers of two
static void sizes()
{
	static const int around[] = {-1, 0, 1};
	int form = mc::choose(12), n = (1 << (4 + mc::choose(form == 3 ? mc::bound(4, 6) : form > 6 ? mc::bound(4, 7) : mc::bound(5, 8)))) + around[mc::choose(3)];
	std::string k = std::to_string(n), pat, word, fit;
	auto letter = [](int i) { return (char)('a' + (i * 7 + i / 26) % 26); };
	for (int i = 0; i < n; ++i) word += letter(i);
	std::string as(n, 'a'), abs; for (int i = 0; i < n; ++i) abs += "ab";
	std::vector<std::string> ins{""};
	switch (form)
	{
		case 0: pat = word; fit = word; break;
		case 1: pat = "(" + word + ")*"; fit = word + word; break;
		case 2: for (int i = 0; i < n; ++i) pat += std::string(1, letter(i)) + "?"; fit = word; break;
		case 3: for (int i = 0; i < n; ++i) pat += (i ? "|" : "") + std::string(1, letter(i)) + std::to_string(i); fit = std::string(1, letter(n - 1)) + std::to_string(n - 1); ins.push_back(std::string(1, letter(0)) + "0"); ins.push_back(std::string(1, letter(n / 2)) + std::to_string(n / 2)); break;
		case 4: pat = "["; for (int i = 0; i < n; ++i) pat += letter(i % 25); pat += "]*"; fit = word; break;
		case 5: pat = "[^"; for (int i = 0; i < n; ++i) pat += letter(i % 3); pat += "]*"; fit = std::string(n, 'x'); break;
		case 6: for (int i = 0; i < n; ++i) pat += i % 2 ? "\\d" : "[a-f]"; for (int i = 0; i < n; ++i) fit += i % 2 ? '7' : 'c'; break;
		case 7: pat = "a{" + k + "}"; fit = as; break;
		case 8: pat = "a{" + k + ",}"; fit = as; ins.push_back(as + as); break;
		case 9: pat = "a{2," + k + "}b?"; fit = as; ins.push_back("aa"); ins.push_back("a"); break;
		case 10: pat = "(ab){" + k + "}"; fit = abs; break;
		case 11: pat = "(a|.b){" + std::to_string(n / 2) + "," + k + "}"; fit = as; break;
	}
	ref::P tree = ref::parse(pat);
	if (!tree) throw mc::Abandon{};
	mc::note("/%s.../ (form %d, %d)", quoted(pat.substr(0, 20)).c_str(), form, n);
	ins.push_back(fit); ins.push_back(fit + "a"); ins.push_back(fit + fit[0]); ins.push_back(fit.substr(0, fit.size() - 1)); ins.push_back(fit.substr(1));
	for (size_t at : {(size_t)0, fit.size() / 2, fit.size() - 1}) { std::string x = fit; x[at] = '!'; ins.push_back(x); }
	judge(pat, *tree, ins);
}

// Long inputs, of lengths around the powers of two
static void long_inputs()
{
	static const char * const pats[] = {"a*", "(a|b)*", "(ab)+", "[^c]*", ".*b", "\\w+", "a*b?a*", "(a|b)*\\b", "^.*$", "(aa)*"};
	std::string pat = pats[mc::choose(10)];
	ref::P tree = ref::parse(pat);
	int n = (1 << (7 + mc::choose(mc::bound(4, 7)))) + mc::choose(3) - 1;
	mc::note("/%s/ on %d characters", pat.c_str(), n);
	std::string a(n, 'a'), ab; for (int i = 0; i < n; ++i) ab += i % 2 ? 'b' : 'a';
	std::string x = a; x[n / 2] = 'c'; std::string y = a; y[n - 1] = 'c';
	// Too long for the tree: what each accepts is known
	bool odd = n % 2; TrackGlobal g;
	{
		Regex r{String{pat.c_str()}};
		struct { const std::string * in; bool e[10]; } rows[] = {
			{&a, {true, true, false, true, false, true, true, true, true, !odd}},
			{&ab, {false, true, !odd, true, !odd, true, false, true, true, false}},
			{&x, {false, false, false, false, false, true, false, false, true, false}},
			{&y, {false, false, false, false, false, true, false, false, true, false}}};
		for (auto & row : rows)
		{
			bool e = false;
			for (int k = 0; k < 10; ++k) if (pat == pats[k]) e = row.e[k];
			MC_CHECK(r.accept(row.in->c_str()) == e, "/%s/ %s input %d of %d characters", pat.c_str(), e ? "rejects" : "accepts", (int)(&row - rows), n);
			mc::tick();
		}
	}
	g.expectEmpty("after the expression was destroyed");
	mc::outcome(pat);
}

// Patterns put together with the builder accept the same with and without epsilon removal
static void built()
{
	static const char menu[] = "ab.-|()+*?2";
	static const std::vector<std::string> ins = words("ab", 5);
	int n = 1 + mc::choose(mc::bound(4, 5));
	std::string t; int depth = 0;
	for (int i = 0; i < n; ++i)
	{
		char c = menu[mc::choose(11)];
		if (c == '(') ++depth;
		if (c == ')' && --depth < 0) throw mc::Abandon{};
		if (depth > n - i - 1) throw mc::Abandon{};
		t += c;
	}
	ref::P tree = ref::parse(toPattern(t));
	if (!tree) throw mc::Abandon{};
	mc::note("builder: %s", t.c_str());
	TrackGlobal g;
	{
		Automaton<char> m;
		auto b = m.createBuilder();
		pushText(b, t);
		b.endGroup();
		for (int pass = 0; pass < 3; ++pass)
		{
			for (auto & in : ins)
			{
				bool e = ref::accepts(*tree, in);
				MC_CHECK(m.acceptString(in.c_str()) == e, "%s, %d times optimized, %s '%s'", t.c_str(), pass, e ? "rejects" : "accepts", in.c_str());
			}
			mc::tick();
			m.createOptimizer().removeEpsilons();
		}
	}
	g.expectEmpty("after the automaton was destroyed");
}

// An executor reset at any point, with any input, starts over
static void resets()
{
	static const char * const pats[] = {"a*b", "(a|b){2}", "[^a]b*", "^a\\b", "", "(a*)*"};
	static const std::vector<std::string> ins = words("ab", 3);
	std::string pat = pats[mc::choose(6)];
	ref::P tree = ref::parse(pat);
	Regex r{String{pat.c_str()}};
	static const std::vector<std::string> others = words("ab", 2);
	std::string first = ins[mc::choose((int)ins.size())], second = others[mc::choose((int)others.size())];
	const auto & m = r.getAutomaton();
	auto ex = m.createExecutor(first.c_str());
	bool acc = false; long n = 0;
	const std::string * in = &first;
	// Where an executor stands agrees with what it has read
	auto look = [&]
	{
		const auto & c = ex; const char * from = in->c_str();
		MC_CHECK(c.getNumRead() >= 0 && (size_t)c.getNumRead() <= in->size() && c.getCurrentInput() == from + c.getNumRead(), "/%s/: the current input is not %d symbols on", pat.c_str(), c.getNumRead());
		MC_CHECK(ex.getCurrentState() == c.getCurrentState() && m.isAcceptedState(c.getCurrentState()) == ex.isAcceptedState(), "/%s/: the current state", pat.c_str());
		MC_CHECK(m.isAcceptedState(m.getAcceptedState()) && m.isStartState(m.getStartState()), "/%s/: start and accepted state", pat.c_str());
	};
	MC_CHECK(m.isStartState(ex.getCurrentState()), "an executor does not begin in the start state");
	mc::note("/%s/ on '%s' and '%s'", pat.c_str(), first.c_str(), second.c_str());
	for (int round = 0, rounds = mc::bound(2, 3); round < rounds; ++round)
	{
		int steps = round ? mc::pick((const int[]){0, 2, 100000}) : mc::choose(12), how = mc::choose(round ? 3 : 2);
		mc::note("%d steps, then reset%s%s", steps, how ? " with " : "", how == 0 ? "" : how == 1 ? second.c_str() : first.c_str());
		for (int i = 0; i < steps; ++i) { look(); if (ex.step(acc)) break; }
		if (how) ex.reset((in = how == 1 ? &second : &first)->c_str()); else ex.reset();
		look();
		MC_CHECK(m.isStartState(ex.getCurrentState()) && ex.getNumRead() == 0, "a reset executor does not begin in the start state");
		if (round + 1 < rounds && mc::choose(2)) break;
	}
	while (!ex.step(acc)) { look(); if (++n > 100000) mc::fail("matching does not terminate"); }
	MC_CHECK(acc == ref::accepts(*tree, *in), "/%s/ after a reset %s '%s'", pat.c_str(), acc ? "accepts" : "rejects", in->c_str());
}

static void setup()
{
	mc::add("tokens_small", 8, [] { tokens({"a", "b", "(", ")", "|", "*", "+", "?"}, mc::bound(6, 7), words("ab", 5)); });
	mc::add("tokens_counted", 8, [] { tokens({"a", "b", "(", ")", "|", "*", "{2}", "{0,2}", "{1,}"}, mc::bound(5, 6), words("ab", 6)); });
	mc::add("tokens_classes", 8, [] { tokens({"a", ".", "[^a]", "\\b", "^", "$", "(", ")", "|", "*", "{2}"}, mc::bound(4, 6), words("ab ", 4)); });
	mc::add("pairs", 8, pairs);
	mc::add("classes", 8, [] { classes(mc::bound(2, 3)); });
	mc::add("counts", 8, counts);
	mc::add("large_counts", 8, large_counts);
	mc::add("deep", 4, deep);
	mc::add("longs", 4, longs);
	mc::add("lookaheads", 8, lookaheads);
	mc::add("looks", 8, [] { looks(mc::bound(6, 7), "ab(|)*2PNE"); });
	mc::add("looks_back", 8, [] { looks(mc::bound(5, 6), "ab^(|)PNE$"); });
	mc::add("looks_small", 8, [] { looks(mc::bound(8, 9), "ab2NE"); });
	mc::add("ranges", 8, ranges);
	mc::add("sizes", 4, sizes);
	mc::add("long_inputs", 4, long_inputs);
	mc::add("built", 8, built);
	mc::add("resets", 4, resets);
}
MC_MAIN(setup)
