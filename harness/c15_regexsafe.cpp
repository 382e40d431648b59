// C15: compiling and matching terminate, stay inside the pattern and the input, and return all memory.
#include "track.h"
#include "regexref.h"
#include "regex/regex.h"
#include <sanitizer/asan_interface.h>

using namespace Re;

// A text in a block of exactly its size, terminator included
struct Exact
{
	char * p; size_t n;
	explicit Exact(const std::string & s) : p{(char*)::malloc(s.size() + 1)}, n{s.size()} { ::memcpy(p, s.c_str(), n + 1); }
	Exact(const Exact &) = delete;
	~Exact() { ::free(p); }
};

// How many states an expanded pattern can have, generously
static long weight(const ref::Node & n)
{
	long w = 2 * n.items;
	for (auto & k : n.kids) w += weight(*k);
	if (n.kind == ref::Rep) { int m = n.hi > n.lo ? n.hi : n.lo; w = w * (m > 1 ? m + 1 : 1) + 6; }
	return w < 1000000000 ? w : 1000000000;
}

static std::string hex(const std::string & s)
{
	std::string r;
	for (unsigned char c : s) if (c >= 32 && c < 127) r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	return r;
}

// Compiles the pattern with everything behind its terminator poisoned
struct Guarded
{
	String text; const char * from; size_t spare;
	explicit Guarded(const std::string & pat, TrackGlobal & g) : text{pat.c_str()}, from{(const char*)*text + pat.size() + 1}, spare{0}
	{
		auto it = g.m.live.find((void*)*text);
		if (it != g.m.live.end() && it->second.size > pat.size() + 1) spare = it->second.size - pat.size() - 1;
		ASAN_POISON_MEMORY_REGION(from, spare);
	}
	~Guarded() { ASAN_UNPOISON_MEMORY_REGION(from, spare); }
};

enum { Print = 1, Stop = 2 };
static void run(const std::string & pat, const ref::Node & tree, const std::vector<std::string> & inputs, int what)
{
	TrackGlobal g;
	{
		Guarded guarded{pat, g};
		Regex r{guarded.text};
		const long states = weight(tree);
		const size_t after = g.m.live.size();
		for (auto & in : inputs)
		{
			Exact e{in};
			{
				auto ex = r.getAutomaton().createExecutor(e.p);
				bool acc = false; const long limit = 16 * (states + 4) * (long)(in.size() + 2); long n = 0;
				while (!ex.step(acc))
					if (++n > limit) mc::fail("/%s/ on '%s': %ld steps and not done, for some %ld states", hex(pat).substr(0, 60).c_str(), hex(in).substr(0, 40).c_str(), n, states);
			}
			MC_CHECK(g.m.live.size() == after, "/%s/ on '%s': matching left %ld blocks behind", hex(pat).c_str(), hex(in).substr(0, 40).c_str(), (long)g.m.live.size() - (long)after);
			mc::tick();
		}
		if ((what & Stop) && inputs.size())
		{	// abandoned after every number of steps
			Exact e{inputs.back()};
			for (int stop = 0; stop < 40; ++stop)
			{
				bool acc = false, done = false;
				{
					auto ex = r.getAutomaton().createExecutor(e.p);
					for (int i = 0; i < stop && !done; ++i) done = ex.step(acc);
					if (stop % 3 == 1) ex.reset();
					if (stop % 3 == 2) { ex.reset(e.p + e.n); while (!ex.step(acc)); }
				}
				MC_CHECK(g.m.live.size() == after, "/%s/: a match abandoned after %d steps left memory behind", hex(pat).c_str(), stop);
				if (done) break;
			}
		}
		if (what & Print)
		{
			{
				String s = r.getAutomaton().toString();
				MC_CHECK(s.getLength() == ::strlen(*s), "/%s/: the printed automaton is not a string", hex(pat).c_str());
			}
			MC_CHECK(g.m.live.size() == after, "/%s/: printing left memory behind", hex(pat).c_str());
		}
	}
	g.expectEmpty("after the expression was destroyed");
}

static ref::P parsed(const std::string & pat)
{
	ref::P t = ref::parse(pat);
	if (!t) throw mc::Abandon{};
	mc::note("/%s/", hex(pat).c_str());
	return t;
}

// Every text over the syntax characters
static void texts(const std::string & alphabet, int maxLen)
{
	static const std::vector<std::string> ins = {"", "a", "-", "1", "a1", "aa", "a-a", "aa1a", "\xff"};
	int n = 1 + mc::choose(maxLen); std::string pat;
	for (int i = 0; i < n; ++i) pat += alphabet[mc::choose((int)alphabet.size())];
	ref::P t = parsed(pat);
	run(pat, *t, ins, Print | Stop);
}

// Characters of every value, escaped or not, alone and in classes, at the end of the pattern or not
static void characters()
{
	int c = 1 + mc::choose(255), form = mc::choose(9), more = mc::choose(3);
	std::string x(1, (char)c), pat;
	switch (form)
	{
		case 0: pat = x; break;
		case 1: pat = "\\" + x; break;
		case 2: pat = "[" + x + "]"; break;
		case 3: pat = "[^" + x + "]"; break;
		case 4: pat = "[\\" + x + "]"; break;
		case 5: pat = "[a" + x + "]+"; break;
		case 6: pat = "[^a\\" + x + "]*"; break;
		case 7: pat = "(" + x + "|\\" + x + ")"; break;
		case 8: pat = "a" + x; break;
	}
	if (more == 1) pat += "b";
	if (more == 2) pat = "(" + pat + "){2}";
	ref::P t = parsed(pat);
	run(pat, *t, {"", x, x + x, "b", x + "b", "a" + x}, Print | Stop);
}

// Ranges between characters of every sign; where one crosses zero the end of the input is still an end
static void class_ranges()
{
	static const int ends[] = {-128, -127, -65, -2, -1, 1, 2, 31, 32, 64, 97, 98, 126, 127};
	int i = mc::choose(13), j = i + 1 + mc::choose(13 - i), form = mc::choose(9);
	std::string r{(char)ends[i], '-', (char)ends[j]}, lo(1, (char)ends[i]), hi(1, (char)ends[j]), mid(1, (char)((ends[i] + ends[j]) / 2 ? (ends[i] + ends[j]) / 2 : 1));
	static const char * const around[][2] = {{"[", "]"}, {"[^", "]"}, {"[", "]*"}, {"[^", "]+"}, {"([", "]|b)*a"}, {"[_", "%]{2}"}, {"[\\d", "]{1,}"}, {"[", "]{3}$"}, {"([", "]?){0,3}"}};
	std::string pat = around[form][0] + r + around[form][1];
	ref::P t = parsed(pat);
	run(pat, *t, {"", lo, hi, mid, lo + hi, "a", mid + mid + mid}, Print | Stop);
}

// Repetitions nested in one another, in every combination
static void nested()
{
	static const char * const q[] = {"*", "+", "?", "{0,}", "{2}", "{1,2}", "{2,}", "{0,2}", "{0}"};
	static const char * const bodies[] = {"a", "a|b", "", "a|", "a|aa", "$", "\\b", "ab", ".", "[^b]"};
	int levels = 1 + mc::choose(mc::bound(3, 4));
	std::string pat = bodies[mc::choose(10)];
	for (int i = 0; i < levels; ++i)
	{
		int k = mc::choose(9);
		pat = "(" + pat + ")" + q[k];
	}
	if (mc::choose(2)) pat += "b";
	ref::P t = parsed(pat);
	run(pat, *t, {"", "a", "b", "ab", "aaaa", "aaab", "abab"}, Stop);
}

// Expressions that backtracking takes exponential time for, on long inputs
static void adversarial()
{
	static const char * const pats[] = {"(a*)*b", "(a+)+b", "(a|a)*b", "(a|aa)+b", "(a?){24}a{24}", "((a*)*)*b", "(a*a*a*a*)b", "(.*)*x", "(a|b|ab)*c", "(a{1,2}){2,}b", "([ab]*[^c]*)*c", "(\\w*\\W*)*!", "(a*b?)*c", "(^a*|a)*b", "((a|b)*(a|c)*)*d", "(a{0,3}){0,3}b"};
	std::string pat = pats[mc::choose(16)];
	ref::P t = parsed(pat);
	int n = mc::choose(mc::bound(24, 60)) * 5;
	std::string a(n, 'a'), ab; for (int i = 0; i < n; ++i) ab += i % 2 ? 'b' : 'a';
	run(pat, *t, {a, a + "b", ab, ab + "!", std::string(n, '\xff')}, Stop);
}

// Counts of every size
static void counts()
{
	static const char * const bodies[] = {"a", "(ab)", "(a|b)", "(a*)", "[^b]", "(a|)"};
	int lo = mc::choose(mc::bound(40, 130)), form = mc::choose(3), hi = form == 2 ? lo + mc::choose(4) : 0;
	std::string pat = std::string(bodies[mc::choose(6)]) + "{" + std::to_string(lo) + (form == 0 ? "" : form == 1 ? "," : "," + std::to_string(hi)) + "}" + (mc::choose(2) ? "b" : "");
	ref::P t = parsed(pat);
	run(pat, *t, {"", std::string(lo, 'a'), std::string(lo + 1, 'a') + "b", std::string(3, 'b')}, Print);
}

// Groups nested up to the limit
static void deep()
{
	static const char * const inner[] = {")", ")?", ")*", ")+", "b)", "|b)", ")|b"};
	std::string in = inner[mc::choose(7)]; int n = mc::choose(119); std::string pat;
	for (int k = 0; k < n; ++k) pat += "(";
	pat += "a";
	for (int k = 0; k < n; ++k) pat += in;
	ref::P t = parsed(pat);
	run(pat, *t, {"", "a", "b", "ab", "aab"}, Print | Stop);
}

// Patterns and inputs of sizes around the powers of two
static void sizes()
{
	static const int around[] = {-1, 0, 1};
	int form = mc::choose(11);
	int n = (1 << (form == 5 || form == 10 ? 4 + mc::choose(mc::bound(4, 6)) : 5 + mc::choose(mc::bound(form < 5 ? 7 : 5, form < 5 ? 9 : 8)))) + around[mc::choose(3)];
	std::string k = std::to_string(n), as(n, 'a'), abs, pat, in = as;
	for (int i = 0; i < n; ++i) abs += i % 2 ? 'b' : 'a';
	switch (form)
	{
		case 0: pat = "(a|b)*c"; in = abs; break;
		case 1: pat = "(a*)*b"; break;
		case 2: pat = ".*.*x"; if (n > 600) pat = ".*x"; break;
		case 3: pat = "[^c]+\\b$"; in = abs + "b"; break;
		case 4: pat = "(\\w+\\s?)*!"; in = abs; break;
		case 5: for (int i = 0; i < n; ++i) pat += "a?"; break;
		case 6: pat = abs; in = abs; break;
		case 7: pat = "a{" + k + "}"; break;
		case 8: pat = "(a|b){" + k + ",}c"; in = abs; break;
		case 9: pat = "["; for (int i = 0; i < n; ++i) pat += (char)('a' + i % 26); pat += "]"; in = "a"; break;
		case 10: for (int i = 0; i < n; ++i) pat += (i ? "|" : "") + std::string("a") + std::to_string(i % 10); in = "a9"; break;
	}
	ref::P t = ref::parse(pat);
	if (!t) throw mc::Abandon{};
	mc::note("form %d, %d", form, n);
	run(pat, *t, {in, in + "c", in.substr(0, in.size() - 1)}, n < 300 ? Print | Stop : Stop);
}

// Lookaheads, which only the builder reaches: every program of its tokens
static void looks(int maxTokens)
{
	static const char menu[] = "ab(|)*2PNE";
	int n = 2 + mc::choose(maxTokens - 1); std::string t, open;
	for (int i = 0; i < n; ++i)
	{
		char c = menu[mc::choose(10)], before = t.empty() ? 0 : t.back();
		if (c == '(' || c == 'P' || c == 'N') open += c;
		if (c == ')' || c == 'E') { if (open.empty() || (open.back() == '(') != (c == ')')) throw mc::Abandon{}; open.pop_back(); }
		if ((c == '*' || c == '2') && !(before == 'a' || before == 'b' || before == ')' || before == 'E')) throw mc::Abandon{};
		if ((int)open.size() > n - i - 1) throw mc::Abandon{};
		t += c;
	}
	if (t.find('E') == std::string::npos) throw mc::Abandon{};
	mc::note("builder: %s", t.c_str());
	TrackGlobal g;
	{
		Automaton<char> a;
		{
			auto b = a.createBuilder();
			for (char c : t)
				switch (c)
				{
					case 'a': case 'b': b.pushState<StateSymbol<char>>(c); break;
					case '(': b.beginGroup(); break;
					case ')': b.endGroup(); break;
					case '|': b.pushBranch(); break;
					case '*': b.pushSkip().pushJump(); break;
					case '2': b.pushRepeat(2, 2); break;
					case 'P': b.beginMacro<StatePositiveLookahed<char>>(); break;
					case 'N': b.beginMacro<StateNegativeLookahed<char>>(); break;
					case 'E': b.endMacro(); break;
				}
			b.endGroup();
		}
		const size_t built = g.m.live.size();
		for (const char * text : {"", "a", "ab", "aab", "bbbb", "abab"})
		{
			Exact e{text};
			for (int stop = -1; stop < 24; stop = stop < 0 ? 1 : stop * 3)
			{
				{
					auto ex = a.createExecutor(e.p);
					bool acc = false; int k = 0;
					while (k != stop && !ex.step(acc)) if (++k > 20000) mc::fail("%s on '%s' does not terminate", t.c_str(), text);
				}
				MC_CHECK(g.m.live.size() == built, "%s on '%s': matching left memory behind", t.c_str(), text);
			}
		}
		{ String s = a.toString(); MC_CHECK(s.getLength() == ::strlen(*s), "%s: the printed automaton is not a string", t.c_str()); }
		MC_CHECK(g.m.live.size() == built, "%s: printing left memory behind", t.c_str());
	}
	g.expectEmpty("after the automaton was destroyed");
}

// Expressions alive at the same time, destroyed in every order: each owns what it uses
static void together()
{
	static const char * const pats[] = {"a*b", "[^a]+", "\\bx", "(a|b){2,3}", ""};
	int x = mc::choose(5), y = mc::choose(5), order = mc::choose(4);
	mc::note("/%s/ and /%s/, order %d", pats[x], pats[y], order);
	ref::P a = ref::parse(pats[x]), b = ref::parse(pats[y]);
	TrackGlobal g;
	{
		Regex * p = new Regex{String{pats[x]}}, * q = new Regex{String{pats[y]}};
		auto ask = [](Regex * r, const ref::Node & n, const char * pat) { for (const char * in : {"", "aab", "b", "bb", "x", "ab"}) MC_CHECK(r->accept(in) == ref::accepts(n, in), "/%s/ beside another expression gives another answer for '%s'", pat, in); };
		ask(p, *a, pats[x]);
		{	// a match of one in the middle of a match of the other
			auto ex = q->getAutomaton().createExecutor("aab"); bool acc = false;
			for (int i = 0; i < 3 && !ex.step(acc); ++i) ask(p, *a, pats[x]);
		}
		ask(q, *b, pats[y]);
		if (order & 1) { delete p; ask(q, *b, pats[y]); if (order & 2) { p = new Regex{String{pats[x]}}; ask(p, *a, pats[x]); delete p; } delete q; }
		else { delete q; ask(p, *a, pats[x]); if (order & 2) { q = new Regex{String{pats[y]}}; ask(q, *b, pats[y]); delete q; } delete p; }
	}
	g.expectEmpty("after both expressions were destroyed");
}

static void setup()
{
	mc::add("texts", 8, [] { texts("a()|*+?[]^-\\b.$", mc::bound(5, 6)); });
	mc::add("texts_counted", 8, [] { texts("a(){}12,|*", mc::bound(6, 7)); });
	mc::add("texts_classes", 8, [] { texts("a[]^-\\dS", mc::bound(6, 7)); });
	mc::add("characters", 8, characters);
	mc::add("class_ranges", 8, class_ranges);
	mc::add("nested", 8, nested);
	mc::add("adversarial", 8, adversarial);
	mc::add("counts", 8, counts);
	mc::add("deep", 8, deep);
	mc::add("sizes", 4, sizes);
	mc::add("looks", 8, [] { looks(mc::bound(6, 7)); });
	mc::add("together", 8, together);
}
MC_MAIN(setup)
