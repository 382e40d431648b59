// C27: automata over alphabets of the user's own: every program of builder steps up to the length
// bound, against every input up to the length bound, for symbols of several kinds; what an executor
// says of where it stands; what the printed graph shows.
#pragma once
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "track.h"
#include "regexref.h"
#include "regex/regex.h"

using namespace Re;

static const char letters[] = "abcd";	// what the reference calls the symbols, in order

// A symbol that is a structure, and strings of them that know their length and hold no terminator
struct Tok
{
	int rank; unsigned kind;
	bool operator==(const Tok & o) const { return rank == o.rank && kind == o.kind; }
	bool operator!=(const Tok & o) const { return !(*this == o); }
	bool operator<(const Tok & o) const { return rank < o.rank; }
	bool operator>(const Tok & o) const { return o < *this; }
	bool operator<=(const Tok & o) const { return !(o < *this); }
	bool operator>=(const Tok & o) const { return !(*this < o); }
	String toString() const { return String::format("%u:%d", kind, rank); }
};
struct View
{
	const Tok * p = nullptr; size_t n = 0;
	static constexpr Tok end{0, 77};
	const Tok & operator*() const { return n ? *p : end; }
	const Tok & operator[](size_t i) const { return i < n ? p[i] : end; }
	bool operator==(const View & o) const { return p == o.p && n == o.n; }
	bool operator!=(const View & o) const { return !(*this == o); }
};
// A symbol that owns memory
using Word = String;

namespace Re
{
	template<typename T, T end>
	struct Plain
	{
		using SymbolT = T; using StringT = const T *;
		static constexpr T terminalSymbol = end;
		static constexpr const T emptyString[1] = {end};
		static StringT consumeInput(const StringT & in, int32 n) { return in + n; }
		static bool isEOF(const StringT & in) { return *in == end; }
	};
	template<> struct AlphabetTraits<int32> : Plain<int32, -1> {};
	template<> struct AlphabetTraits<uint64> : Plain<uint64, 1ull << 40> {};
	template<> struct AlphabetTraits<float64>
	{
		using SymbolT = float64; using StringT = const float64 *;
		static constexpr float64 terminalSymbol = -1.5;
		static constexpr const float64 emptyString[1] = {-1.5};
		static StringT consumeInput(const StringT & in, int32 n) { return in + n; }
		static bool isEOF(const StringT & in) { return *in == -1.5; }
	};
	template<> struct AlphabetTraits<Tok>
	{
		using SymbolT = Tok; using StringT = View;
		static constexpr Tok terminalSymbol = View::end;
		static constexpr View emptyString{};
		static View consumeInput(const View & in, int32 n) { if (n < 0 || (size_t)n > in.n) mc::fail("%d symbols consumed of %zu", n, in.n); return {in.p + n, in.n - n}; }
		static bool isEOF(const View & in) { return !in.n; }
	};
	template<> struct AlphabetTraits<Word>
	{
		using SymbolT = Word; using StringT = const Word *;
		static inline const Word terminalSymbol{};
		static inline const Word emptyString[1]{};
		static StringT consumeInput(const StringT & in, int32 n) { return in + n; }
		static bool isEOF(const StringT & in) { return *in == ""; }
	};
}

// The symbols of each alphabet, in order, their texts, and strings of them
template<typename A> struct Alpha;
template<typename T>
struct PlainAlpha
{
	std::vector<T> v;
	explicit PlainAlpha(const std::string & s) { for (char c : s) v.push_back(Alpha<T>::symbol(c - 'a')); v.push_back(AlphabetTraits<T>::terminalSymbol); v.shrink_to_fit(); }
	const T * string() const { return v.data(); }
	static bool at(const T * in, const T * from, size_t n) { return in == from + n; }
	static std::string text(const T & t) { return std::to_string(t); }
};
template<> struct Alpha<int32> : PlainAlpha<int32> { using PlainAlpha::PlainAlpha; static constexpr const char * name = "int32"; static int32 symbol(int i) { static const int32 s[] = {-300, 0, 5, 261}; return s[i]; } };
template<> struct Alpha<float64> : PlainAlpha<float64> { using PlainAlpha::PlainAlpha; static constexpr const char * name = "float64"; static float64 symbol(int i) { static const float64 s[] = {-1.625, 0, 0.25, 0.5}; return s[i]; } };
template<> struct Alpha<uint64> : PlainAlpha<uint64> { using PlainAlpha::PlainAlpha; static constexpr const char * name = "uint64"; static uint64 symbol(int i) { static const uint64 s[] = {0, 3, 3 + (1ull << 32), ~0ull}; return s[i]; } };
template<> struct Alpha<Tok>
{
	static constexpr const char * name = "Tok";
	std::vector<Tok> v;
	explicit Alpha(const std::string & s) { for (char c : s) v.push_back(symbol(c - 'a')); v.shrink_to_fit(); }
	static Tok symbol(int i) { static const Tok s[] = {{-7, 0}, {0, 2}, {1, 1}, {9, 0}}; return s[i]; }
	View string() const { return {v.data(), v.size()}; }
	static bool at(const View & in, const View & from, size_t n) { return in.p == from.p + n && in.n == from.n - n; }
	static std::string text(const Tok & t) { return std::to_string(t.kind) + ":" + std::to_string(t.rank); }
};
template<> struct Alpha<Word>
{
	static constexpr const char * name = "Word";
	std::vector<Word> v;
	explicit Alpha(const std::string & s) { v.reserve(s.size() + 1); for (char c : s) v.push_back(symbol(c - 'a')); v.push_back(Word{}); }
	static Word symbol(int i) { static const char * const s[] = {"an", "ant", "bee, longer than a word is wont to be", "c"}; return Word{s[i]}; }
	const Word * string() const { return v.data(); }
	static bool at(const Word * in, const Word * from, size_t n) { return in == from + n; }
	static std::string text(const Word & t) { return *t; }
};

// A state and a macro of the user's own: two equal symbols; as much as the automaton inside can take
template<typename A>
struct StateTwice : StateBase<A>
{
	DECLARE_STATE_TYPE(Twice, A)
	virtual bool enterState(const AlphaStringT & in, int32 & n, int32) const override
	{
		if (AlphabetTraitsT::isEOF(in)) return n = 0;
		const AlphaStringT next = AlphabetTraitsT::consumeInput(in, 1);
		return n = !AlphabetTraitsT::isEOF(next) && *next == *in ? 2 : 0;
	}
	virtual String getDisplayName() const override { return String::format("Twice#%llu", (unsigned long long)this->id); }
};
template<typename A>
struct StateMost : StateMacro<A>
{
	DECLARE_STATE_MACRO(Most, A)
	virtual bool execute(ExecutorT && ex, int32 & n) const override
	{
		const int32 from = ex.getNumRead(); int32 most = -1; bool accepted = false, done = false;
		while (!done)
		{
			done = ex.step(accepted);
			if (ex.isAcceptedState() && ex.getNumRead() > most) most = ex.getNumRead();
		}
		n = most < 0 ? 0 : most - from;
		return most >= 0;
	}
};

// Builder steps: a b c symbols, . any, - the range b to c, ( ) | * + ? groups and repetitions,
// 2 {2}, 3 {1,2}, 4 {2,}, 0 {0}; P N M begin a positive and a negative lookahead and a Most, E ends
// it; T a Twice; lambdas: L takes c, W takes "ab", ^ at the start, $ at the end, ! never.
struct Program
{
	std::string t; size_t i = 0; bool ok = true;
	static ref::P of(char c) { ref::P n = ref::make(ref::Chars); n->set[(unsigned char)c] = true; return n; }
	static ref::P both(char x, char y) { ref::P n = ref::make(ref::Cat); n->kids = {of(x), of(y)}; return n; }
	ref::P alternatives(char close)
	{
		std::vector<ref::P> v;
		do
		{
			ref::P n = ref::make(ref::Cat);
			while (ok && i < t.size() && t[i] != '|' && t[i] != ')' && t[i] != 'E') n->kids.push_back(factor());
			v.push_back(n);
		} while (ok && i < t.size() && t[i] == '|' && ++i);
		if (close) { if (i < t.size() && t[i] == close) ++i; else ok = false; }
		if (v.size() == 1) return v[0];
		ref::P n = ref::make(ref::Alt); n->kids = v; return n;
	}
	ref::P factor()
	{
		char c = t[i++]; ref::P a;
		switch (c)
		{
			case 'a': case 'b': case 'c': case 'd': a = of(c); break;
			case '.': a = ref::make(ref::Chars); for (char x : std::string(letters)) a->set[(unsigned char)x] = true; break;
			case '-': a = ref::make(ref::Chars); a->set[(unsigned char)'b'] = a->set[(unsigned char)'c'] = true; break;
			case 'L': a = of('c'); break;
			case 'W': a = both('a', 'b'); break;
			case 'T': a = ref::make(ref::Alt); for (char x : std::string(letters)) a->kids.push_back(both(x, x)); break;
			case '!': a = ref::make(ref::Chars); break;
			case '^': case '$': a = ref::make(ref::Pos); a->test = c; break;
			case '(': a = alternatives(')'); break;
			case 'P': case 'N': a = ref::make(ref::Look); a->test = c == 'P' ? '=' : '!'; a->kids = {alternatives('E')}; break;
			case 'M': a = ref::make(ref::Most); a->kids = {alternatives('E')}; break;
			default: ok = false; return ref::make(ref::Empty);
		}
		static const std::string quantifiers = "*+?2340";
		static const int lo[] = {0, 1, 0, 2, 1, 2, 0}, hi[] = {-1, -1, 1, 2, 2, -1, 0};
		size_t q = i < t.size() ? quantifiers.find(t[i]) : std::string::npos;
		if (q == std::string::npos) return a;
		++i;
		ref::P r = ref::make(ref::Rep); r->kids = {a}; r->lo = lo[q]; r->hi = hi[q];
		return r;
	}
};

template<typename A>
static void pushAll(AutomatonBuilder<A> & b, const std::string & t)
{
	using S = typename AlphabetTraits<A>::StringT;
	auto sym = [](int i) { return Alpha<A>::symbol(i); };
	for (char c : t)
		switch (c)
		{
			case 'a': case 'b': case 'c': case 'd': b.template pushState<StateSymbol<A>>(sym(c - 'a')); break;
			case '.': b.template pushState<StateAny<A>>(); break;
			case '-': b.template pushState<StateRange<A>>(sym(1), sym(2)); break;
			case '(': b.beginGroup(); break;
			case ')': b.endGroup(); break;
			case '|': b.pushBranch(); break;
			case '*': b.pushSkip().pushJump(); break;
			case '+': b.pushJump(); break;
			case '?': b.pushSkip(); break;
			case '2': b.pushRepeat(2, 2); break;
			case '3': b.pushRepeat(1, 2); break;
			case '4': b.pushRepeat(2, 0); break;
			case '0': b.pushNone(); break;
			case 'P': b.template beginMacro<StatePositiveLookahed<A>>(); break;
			case 'N': b.template beginMacro<StateNegativeLookahed<A>>(); break;
			case 'M': b.template beginMacro<StateMost<A>>(); break;
			case 'E': b.endMacro(); break;
			case 'T': b.template pushState<StateTwice<A>>(); break;
			case 'L': b.template pushState<StateLambda<A>>([own = sym(2)](const S & in, int32 & n, int32) { return n = !AlphabetTraits<A>::isEOF(in) && *in == own; }, "L"); break;
			case 'W': b.template pushState<StateLambda<A>>([x = sym(0), y = sym(1)](const S & in, int32 & n, int32)
			{
				n = 0;
				if (AlphabetTraits<A>::isEOF(in) || *in != x) return false;
				const S next = AlphabetTraits<A>::consumeInput(in, 1);
				if (AlphabetTraits<A>::isEOF(next) || *next != y) return false;
				return n = 2, true;
			}, "a word"); break;
			case '^': b.template pushState<StateLambda<A>>([](const S &, int32 & n, int32 read) { return n = 0, read == 0; }); break;
			case '$': b.template pushState<StateLambda<A>>([](const S & in, int32 & n, int32) { return n = 0, AlphabetTraits<A>::isEOF(in); }); break;
			case '!': b.template pushState<StateLambda<A>>([](const S &, int32 &, int32) { return false; }); break;
		}
	b.endGroup();
}

static std::vector<std::string> words(const std::string & alphabet, int maxLen)
{
	std::vector<std::string> v{""};
	for (size_t from = 0, n = 0; n < (size_t)maxLen; ++n)
	{
		size_t to = v.size();
		for (size_t i = from; i < to; ++i) for (char c : alphabet) v.push_back(v[i] + c);
		from = to;
	}
	return v;
}

// The printed graph: a line for the start, one for every transition that can be reached; every state
// in full once, below every state that leads to it
template<typename A>
static void printed(const Automaton<A> & a, const std::string & t)
{
	using St = StateBase<A>;
	String s = a.toString();
	std::string out = *s;
	MC_CHECK(s.getLength() == out.size(), "%s: the printed graph is not a string", t.c_str());
	std::vector<std::pair<const St *, int>> stack{{a.getStartState(), 0}}; std::set<const St *> seen; size_t at = 0;
	while (!stack.empty())
	{
		auto [st, depth] = stack.back(); stack.pop_back();
		for (int k = 0; k < 2 * depth; ++k, ++at) MC_CHECK(at < out.size() && (out[at] == ' ' || out[at] == '|' || out[at] == '-'), "%s: the printed graph is not indented at %zu:\n%s", t.c_str(), at, out.c_str());
		bool first = seen.insert(st).second;
		std::string line = st == a.getStartState() ? "[Start]" : st == a.getAcceptedState() ? "[Accept]" : *st->getDisplayName();
		if (!first && st != a.getAcceptedState()) line = std::string(*st->getDisplayName()) + " (repeated)";
		line += '\n';
		MC_CHECK(out.compare(at, line.size(), line) == 0, "%s: the printed graph at %zu is not '%s':\n%s", t.c_str(), at, line.c_str(), out.c_str());
		at += line.size();
		if (first) for (const St * n : st->getNextStates())
		{
			MC_CHECK(n->getPrevStates().get(const_cast<St *>(st)), "%s: a state does not know what leads to it", t.c_str());
			stack.push_back({n, depth + 1});
		}
	}
	MC_CHECK(at == out.size(), "%s: the printed graph goes on:\n%s", t.c_str(), out.c_str() + at);
}

// The program against every input, before and after its empty transitions were removed, twice
template<typename A>
static void judge(const std::string & t, const ref::Node & tree, const std::vector<std::string> & ins)
{
	using Al = Alpha<A>;
	static std::map<const void *, std::vector<Al>> made;	// the inputs, made once
	auto & inputs = made[&ins];
	if (inputs.empty()) { inputs.reserve(ins.size()); for (auto & in : ins) inputs.emplace_back(in); }
	TrackGlobal g; long yes = 0, no = 0;
	{
		Automaton<A> a;
		{ AutomatonBuilder<A> b{a}; pushAll(b, t); }
		printed(a, t);
		std::vector<ref::Ends> want; for (auto & in : ins) want.push_back(ref::endsOf(tree, in, 0));
		for (int pass = 0; pass < 3; ++pass)
		{
			static const char * const how[] = {"", ", optimized", ", optimized twice"};
			const size_t built = g.m.live.size();
			for (size_t k = 0; k < ins.size(); ++k)
			{
				const auto from = inputs[k].string(); const ref::Ends & ends = want[k];
				bool e = ends[ins[k].size()], some = false;
				for (bool x : ends) some |= x;
				(e ? yes : no) += 1;
				auto ex = a.createExecutor(from); bool acc = false; long n = 0, end = -1;
				for (bool done = false; !done;)
				{
					done = ex.step(acc);
					size_t read = (size_t)ex.getNumRead();
					MC_CHECK(read <= ins[k].size() && Al::at(ex.getCurrentInput(), from, read), "%s of %s on '%s'%s: %zu symbols read, but the input left is not that", t.c_str(), Al::name, ins[k].c_str(), how[pass], read);
					if (ex.isAcceptedState()) { MC_CHECK(ends[read], "%s of %s on '%s'%s: accepts a prefix of %zu symbols", t.c_str(), Al::name, ins[k].c_str(), how[pass], read); if ((long)read > end) end = (long)read; }
					if (++n > 100000) mc::fail("matching does not terminate");
				}
				MC_CHECK(acc == e, "%s of %s%s %s '%s'", t.c_str(), Al::name, how[pass], e ? "rejects" : "accepts", ins[k].c_str());
				if (!e) for (size_t x = 0; x < ends.size(); ++x) MC_CHECK(!ends[x] || end >= (long)x, "%s of %s%s on '%s' never gets to the end of a prefix of %zu symbols", t.c_str(), Al::name, how[pass], ins[k].c_str(), x);
				if (pass == 0)
				{	// an executor taken from input to input starts over each time, and stays with the last input
					const size_t o = (k * 5 + 2) % ins.size(); const auto other = inputs[o].string();
					ex.reset(other);
					for (int again = 0; again < 2; ++again)
					{
						MC_CHECK(a.isStartState(ex.getCurrentState()) && ex.getNumRead() == 0 && Al::at(ex.getCurrentInput(), other, 0), "%s of %s: an executor reset from '%s' to '%s' does not begin at the start of its input", t.c_str(), Al::name, ins[k].c_str(), ins[o].c_str());
						while (!ex.step(acc)) if (++n > 100000) mc::fail("matching does not terminate");
						MC_CHECK(acc == (bool)want[o][ins[o].size()], "%s of %s: an executor reset %sfrom '%s' to '%s' %s it", t.c_str(), Al::name, again ? "twice " : "", ins[k].c_str(), ins[o].c_str(), acc ? "accepts" : "rejects");
						ex.reset();
					}
				}
				if (pass < 2)
				{
					MC_CHECK(a.acceptString(from) == e, "%s of %s%s on '%s': another verdict the second time", t.c_str(), Al::name, how[pass], ins[k].c_str());
					auto p = a.createExecutor(from);
					MC_CHECK(p.acceptPrefix() == some, "%s of %s%s on '%s': %s prefix is accepted", t.c_str(), Al::name, how[pass], ins[k].c_str(), some ? "no" : "a");
				}
			}
			mc::tick();
			MC_CHECK(g.m.live.size() == built, "%s of %s: matching left memory behind", t.c_str(), Al::name);
			a.createOptimizer().removeEpsilons();
			if (!pass) printed(a, t);
		}
		mc::outcome(yes && no ? "both" : yes ? "accepts all" : "rejects all");
	}
	g.expectEmpty("after the automaton was destroyed");
}

// Every balanced sequence of builder steps up to the length bound
template<typename A>
static void programs(const char * menu, int maxSteps, const char * alphabet, int maxInput)
{
	static std::map<std::pair<std::string, int>, std::vector<std::string>> cache;
	auto & ins = cache[{alphabet, maxInput}];
	if (ins.empty()) ins = words(alphabet, maxInput);
	int n = 1 + mc::choose(maxSteps), m = (int)::strlen(menu);
	std::string t, open;
	for (int i = 0; i < n; ++i)
	{
		char c = menu[mc::choose(m)], before = t.empty() ? '(' : t.back();
		if (::strchr("(PNM", c)) open += c;
		if (c == ')' || c == 'E')
		{
			if (open.empty() || (open.back() == '(') != (c == ')')) throw mc::Abandon{};
			open.pop_back();
		}
		if (::strchr("*+?2340", c) && ::strchr("(|PNM*+?2340", before)) throw mc::Abandon{};
		if ((int)open.size() > n - i - 1) throw mc::Abandon{};
		t += c;
	}
	Program p; p.t = t;
	ref::P tree = p.alternatives(0);
	if (!p.ok || p.i != t.size()) throw mc::Abandon{};
	mc::note("builder over %s: %s", Alpha<A>::name, t.c_str());
	judge<A>(t, *tree, ins);
}

// What a state is called: its kind, what it was made with, and a number no other state has
template<typename A>
static void names()
{
	auto text = [](int i) { return Alpha<A>::text(Alpha<A>::symbol(i)); };
	int x = mc::choose(4), y = mc::choose(4);
	mc::note("names of states over %s: %d, %d", Alpha<A>::name, x, y);
	std::string lambda = y ? std::string((size_t)y * 9, 'n') : "";
	StateSymbol<A> s{Alpha<A>::symbol(x)}; StateRange<A> r{Alpha<A>::symbol(x), Alpha<A>::symbol(y)}; StateAny<A> any; StateEpsilon<A> eps;
	StateLambda<A> l{[](const typename AlphabetTraits<A>::StringT &, int32 &, int32) { return true; }, String{lambda.c_str()}};
	StateNegativeLookahed<A> neg{&eps, &eps}; StatePositiveLookahed<A> pos{&eps, &any};
	std::set<std::string> numbers;
	auto check = [&](const StateBase<A> & st, const std::string & want)
	{
		std::string got = *st.getDisplayName();
		MC_CHECK(got.compare(0, want.size(), want) == 0, "a state is called '%s', not '%s...'", got.c_str(), want.c_str());
		std::string number = got.substr(want.size());
		MC_CHECK(!number.empty() && number.find_first_not_of("0123456789") == std::string::npos && numbers.insert(number).second, "a state is called '%s', whose number is none or not its own", got.c_str());
		MC_CHECK(got == *st.getDisplayName(), "a state is called '%s', then something else", got.c_str());
	};
	check(s, "Symbol<" + text(x) + ">#"); check(r, "Range<" + text(x) + "-" + text(y) + ">#"); check(any, "Any#"); check(eps, "Epsilon#"); check(l, "Lambda<" + lambda + ">#");
	check(neg, "NegativeLookahed<\n[Start]\n>#"); check(pos, "PositiveLookahed<\n[Start]\n>#");
	MC_CHECK(s.template is<StateSymbol<A>>() && !s.template is<StateRange<A>>() && neg.template is<StateMacro<A>>() && !any.template is<StateEpsilon<A>>(), "the kind of a state");
	StateSymbol<A> copy{s};
	check(copy, "Symbol<" + text(x) + ">#");
	MC_CHECK(copy.getNextStates().getCount() == 0 && copy.getPrevStates().getCount() == 0, "a copy of a state has transitions");
}

template<typename A>
static void alphabet()
{
	static const std::string n = Alpha<A>::name;
	auto at = [&](const char * what) { return mc::keep(n + "_" + what); };
	mc::add(at("core"), 8, [] { programs<A>("ab-.(|)*2", mc::bound(4, 5), "abd", 3); });
	mc::add(at("states"), 8, [] { programs<A>("aTLW^$!PNME*4", mc::bound(4, 5), "abc", 3); });
	mc::add(at("repeats"), 8, [] { programs<A>("a.(|)*+?2340", mc::bound(4, 5), "ab", 4); });
	mc::add(at("nested"), 8, [] { programs<A>("aWNM(|)E2", mc::bound(5, 6), "ab", 3); });
	mc::add(at("names"), 1, names<A>);
}
