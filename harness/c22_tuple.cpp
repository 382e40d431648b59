// C22: names, fixed arrays, tuples, pairs and comparators against plain values.
#include "track.h"
#include <tuple>
#include "templates/array.h"
#include "templates/name.h"
#include "templates/functional.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "containers/string.h"
#include "algorithm/sort.h"

//////////////////////////////////////////////////
// Tuples
//////////////////////////////////////////////////

// Values of different types, made from small numbers; distinct types so that get<Type> is tested too
template<typename T> struct Of;
template<> struct Of<int32> { static int32 make(int k) { return 10 + k; } static int read(int32 v) { return v - 10; } };
template<> struct Of<Obj> { static Obj make(int k) { return Obj{20 + k}; } static int read(const Obj & v) { return v.get() - 20; } };
template<> struct Of<String> { static String make(int k) { static const char * t[] = {"", "one", "a text that is somewhat longer than the others"}; return String{t[k]}; }
	static int read(const String & s) { return s.getLength() == 0 ? 0 : s.getLength() == 3 ? 1 : 2; } };
template<> struct Of<char> { static char make(int k) { return (char)('a' + k); } static int read(char c) { return c - 'a'; } };
template<> struct Of<double> { static double make(int k) { return 0.5 + k; } static int read(double d) { return (int)(d - 0.5); } };

template<typename Tup, typename Idx, typename ...Ts> struct TupleOps;
template<typename Tup, size_t ...is, typename ...Ts> struct TupleOps<Tup, std::index_sequence<is...>, Ts...>
{
	static constexpr int n = sizeof...(Ts);
	template<size_t i> using Type = std::tuple_element_t<i, std::tuple<Ts...>>;
	using Vals = std::vector<int>;

	static void expect(const Tup & t, const Vals & v, const char * what)
	{
		Tup & m = const_cast<Tup&>(t);
		int got[] = {Of<Ts>::read(t.template get<is>())...}, again[] = {Of<Ts>::read(m.template get<is>())...};
		int typed[] = {Of<Ts>::read(t.template get<Ts>())...}, typedAgain[] = {Of<Ts>::read(m.template get<Ts>())...};
		int first[n]; const bool fs[] = {((first[is] = -1, firstOf<Ts>(first[is])), true)...}; (void)fs;
		for (int i = 0; i < n; ++i)
		{
			MC_CHECK(got[i] == v[i] && again[i] == v[i], "%s: item %d is %d or %d, should be %d", what, i, got[i], again[i], v[i]);
			MC_CHECK(typed[i] == v[first[i]] && typedAgain[i] == v[first[i]], "%s: item by type of position %d is %d, should be that of position %d", what, i, typed[i], first[i]);
		}
		MC_CHECK(t.getCount() == n && t.getLength() == n && t.getSize() == n, "%s: a tuple of %d counts %llu", what, n, (unsigned long long)t.getCount());
	}
	// First position of a type
	template<typename T> static void firstOf(int & r) { bool s[] = {std::is_same<T, Ts>::value...}; for (int i = n; i-- > 0;) if (s[i]) r = i; }

	static void set(Tup & t, int i, int k) { bool d[] = {((int)is == i ? (t.template get<is>() = Of<Ts>::make(k), true) : false)...}; (void)d; }
	static Tup fromValues(const Vals & v) { return Tup{Of<Ts>::make(v[is])...}; }
	static Tup fromConst(const Vals & v) { const std::tuple<Ts...> c{Of<Ts>::make(v[is])...}; return Tup{std::get<is>(c)...}; }

	static Vals vals(int code) { Vals v; for (int i = 0; i < n; ++i) { v.push_back(code % 3); code /= 3; } return v; }
	static constexpr int codes = n == 1 ? 3 : n == 2 ? 9 : n == 3 ? 27 : 81;

	static bool movedFrom(const Vals & v) { return v.empty(); }

	// Every value, every way to make a tuple
	static void construct()
	{
		TrackGlobal g;
		Vals v = vals(mc::choose(codes)), w = vals(mc::choose(codes)); int how = mc::choose(9);
		mc::note("values %s, form %d", show(v).c_str(), how);
		{
			Tup t = fromValues(v);
			expect(t, v, "from temporaries");
			switch (how)
			{
				case 0: { Tup u = fromConst(v); expect(u, v, "from constants"); break; }
				case 1: { std::tuple<Ts...> c{Of<Ts>::make(v[is])...}; Tup u{std::get<is>(c)...}; expect(u, v, "from variables"); int k[] = {Of<Ts>::read(std::get<is>(c))...}; for (int i = 0; i < n; ++i) MC_CHECK(k[i] == v[i], "making a tuple from variables changed them"); break; }
				case 2: { Tup u{t}; expect(u, v, "copy"); expect(t, v, "copied"); for (int i = 0; i < n; ++i) set(u, i, w[i]); expect(u, w, "changed copy"); expect(t, v, "original of a changed copy"); break; }
				case 3: { const Tup & c = t; Tup u{c}; expect(u, v, "copy of a constant"); break; }
				case 4: { Tup u{move(t)}; expect(u, v, "moved"); break; }
				case 5: { Tup u = fromValues(w); Tup & r = (u = t); MC_CHECK(&r == &u, "assignment does not return the tuple"); expect(u, v, "assigned"); expect(t, v, "assigned from"); for (int i = 0; i < n; ++i) set(t, i, w[i]); expect(u, v, "assigned, source changed later"); break; }
				case 6: { Tup u = fromValues(w); u = move(t); expect(u, v, "move assigned"); t = fromValues(w); expect(t, w, "assigned after being moved from"); break; }
				case 7: { const Tup & same = t; t = same; expect(t, v, "assigned to itself"); break; }
				case 8: { for (int i = 0; i < n; ++i) { set(t, i, w[i]); Vals x = v; for (int j = 0; j <= i; ++j) x[j] = w[j]; expect(t, x, "one item written at a time"); } break; }
			}
		}
		g.expectEmpty("after the tuples were destroyed");
		mc::outcome("ok");
	}

	// Every history of two tuples
	static void histories()
	{
		TrackGlobal g;
		{
			Tup t[2] = {fromValues(vals(0)), fromValues(vals(codes - 1))};
			Vals v[2] = {vals(0), vals(codes - 1)};
			for (int step = mc::bound(4, 6); step > 0; --step)
			{
				std::string key; for (auto & x : v) key += show(x);
				mc::visit(key, step);
				int op = mc::choose(n * 3 * 2 + 6), a = op % 2;
				if (op < n * 6) { int i = op / 6, k = op % 6 / 2; mc::note("t%d[%d] = %d", a, i, k); set(t[a], i, k); v[a][i] = k; }
				else switch ((op - n * 6) / 2)
				{
					case 0: mc::note("t%d = t%d", a, 1 - a); t[a] = t[1 - a]; v[a] = v[1 - a]; break;
					case 1: { mc::note("swap"); Tup x{move(t[a])}; t[a] = move(t[1 - a]); t[1 - a] = move(x); std::swap(v[0], v[1]); break; }
					case 2: { mc::note("t%d through a copy", a); Tup x{t[1 - a]}; t[a] = x; set(x, 0, 1); v[a] = v[1 - a]; break; }
				}
				for (int i = 0; i < 2; ++i) expect(t[i], v[i], i ? "second" : "first");
				mc::tick();
			}
		}
		g.expectEmpty("after the tuples were destroyed");
		mc::outcome("ok");
	}
};
template<typename ...Ts> using Ops = TupleOps<Tuple<Ts...>, std::make_index_sequence<sizeof...(Ts)>, Ts...>;

//////////////////////////////////////////////////
// Pairs and comparators
//////////////////////////////////////////////////

struct Reverse { int32 operator()(int32 a, int32 b) const { return a < b ? 2147483647 : a > b ? -2147483647 - 1 : 0; } int32 operator()(const Obj & a, const Obj & b) const { return (*this)(a.get(), b.get()); } };

template<typename K, typename V, typename Cmp> static void pairs()
{
	using P = Pair<K, V, Cmp>;
	TrackGlobal g;
	int k[2], v[2]; for (int & x : k) x = mc::choose(3); for (int & x : v) x = mc::choose(3);
	int how = mc::choose(6);
	mc::note("(%d,%d) and (%d,%d), form %d", k[0], v[0], k[1], v[1], how);
	{
		P a{Of<K>::make(k[0]), Of<V>::make(v[0])}, b{Of<K>::make(k[1]), Of<V>::make(v[1])};
		auto is = [](const P & p, int key, int val, const char * what)
		{
			MC_CHECK(Of<K>::read(p.first) == key && Of<K>::read(p.getKey()) == key && Of<V>::read(p.second) == val && Of<V>::read(p.getVal()) == val && Of<V>::read(const_cast<P&>(p).getVal()) == val, "%s: wrong key or value", what);
		};
		is(a, k[0], v[0], "first"); is(b, k[1], v[1], "second");
		const P & ca = a; const P & cb = b; const typename P::FindPair find{};
		int c = std::is_same<Cmp, NullCompare>::value ? 0 : (k[0] > k[1]) - (k[0] < k[1]);
		if (std::is_same<Cmp, Reverse>::value) c = -c;
		auto sign = [](int32 x) { return (x > 0) - (x < 0); };
		MC_CHECK((ca == cb) == (c == 0) && (ca != cb) == (c != 0) && (ca < cb) == (c < 0) && (ca > cb) == (c > 0) && (ca <= cb) == (c <= 0) && (ca >= cb) == (c >= 0), "comparison of keys %d and %d", k[0], k[1]);
		MC_CHECK(sign(find(ca, cb)) == c && sign(find(ca, cb.first)) == c && sign(find(ca.first, cb)) == c && sign(find(cb, ca)) == -c, "three way comparison of keys %d and %d", k[0], k[1]);
		switch (how)
		{
			case 0: { P x{a}; is(x, k[0], v[0], "copy"); x.second = Of<V>::make(v[1]); is(x, k[0], v[1], "changed copy"); break; }
			case 1: { P x{move(a)}; is(x, k[0], v[0], "moved"); break; }
			case 2: { b = a; is(b, k[0], v[0], "assigned"); a.second = Of<V>::make(v[1]); is(b, k[0], v[0], "assigned, source changed"); break; }
			case 3: { b = move(a); is(b, k[0], v[0], "move assigned"); break; }
			case 4: { K key = Of<K>::make(k[1]); const V val = Of<V>::make(v[0]); P x{key, val}; is(x, k[1], v[0], "from variables"); MC_CHECK(Of<K>::read(key) == k[1] && Of<V>::read(val) == v[0], "making a pair changed its arguments"); break; }
			case 5: { a.getVal() = Of<V>::make(v[1]); is(a, k[0], v[1], "written through getVal"); break; }
		}
		if (how != 1 && how != 3 && how != 5 && how != 2) is(a, k[0], v[0], "original");
	}
	g.expectEmpty("after the pairs were destroyed");
	mc::outcome("ok");
}

static void comparators()
{
	static const int32 e[] = {INT32_MIN, INT32_MIN + 1, -2, -1, 0, 1, 2, INT32_MAX - 1, INT32_MAX};
	int32 a = e[mc::choose(9)], b = e[mc::choose(9)]; const int c = (a > b) - (a < b);
	MC_CHECK(ThreeWayCompare{}(a, b) == c && ThreeWayCompare{}((int64)a, (int64)b) == c && ThreeWayCompare{}(a * 0.5, b * 0.5) == c && ThreeWayCompare{}(a, (int64)b) == c, "three way comparison of %d and %d", a, b);
	MC_CHECK(ThreeWayCompare{}((uint32)a, (uint32)b) == ((uint32)a > (uint32)b) - ((uint32)a < (uint32)b), "three way comparison of %u and %u", a, b);
	MC_CHECK(ThreeWayCompare{}((int8)(a & 127), (int8)(b & 127)) == ((a & 127) > (b & 127)) - ((a & 127) < (b & 127)), "three way comparison of bytes");
	const int32 ca = a, cb = b; const int64 la = a; const Obj oa{a}, ob{b};
	MC_CHECK(ThreeWayCompare{}(&ca, &cb) == c && ThreeWayCompare{}(&la, &cb) == c && ThreeWayCompare{}(&oa, &ob) == c && ThreeWayCompare{}(oa, ob) == c && ThreeWayCompare{}((const Obj&)oa, Obj{b}) == c, "three way comparison of what two pointers refer to, %d and %d", a, b);
	MC_CHECK(ThreeWayCompare{}((int64)a << 32, (int64)b << 32) == c && ThreeWayCompare{}((float)(a / 256), (float)(b / 256)) == (a / 256 > b / 256) - (a / 256 < b / 256), "three way comparison of %d and %d, scaled", a, b);
	MC_CHECK(NullCompare{}(oa, ob) == 0 && NullCompare{}(&oa, &cb) == 0 && NullCompare{}(a, ob) == 0, "null comparison of different types");
	MC_CHECK(NullCompare{}(a, b) == 0 && NullCompare{}(&a, &b) == 0, "null comparison of %d and %d", a, b);
	mc::outcome("ok");
}

//////////////////////////////////////////////////
// Static arrays
//////////////////////////////////////////////////

template<typename T, int n> static void staticArrays()
{
	using A = StaticArray<T, n>;
	TrackGlobal g;
	static int v[n], w[n], e[n]; int seed = n > 8 ? mc::choose(3) : 0; for (int i = 0; i < n; ++i) v[i] = n > 8 ? (i / 256 + i * 7 + seed) % 3 : mc::choose(3), w[i] = 2 - (v[i] + i) % 3;
	int how = mc::choose(9);
	mc::note("%d items, form %d", n, how);
	{
		T raw[n]; for (int i = 0; i < n; ++i) raw[i] = Of<T>::make(v[i]);
		auto is = [](const A & a, const int * e, const char * what)
		{
			A & m = const_cast<A&>(a);
			MC_CHECK(a.getCount() == n, "%s: count is %llu", what, (unsigned long long)a.getCount());
			for (int i = 0; i < n; ++i) MC_CHECK(Of<T>::read(a[i]) == e[i] && Of<T>::read(m[i]) == e[i] && Of<T>::read((*a)[i]) == e[i] && Of<T>::read((*m)[i]) == e[i], "%s: item %d is %d, should be %d", what, i, Of<T>::read(a[i]), e[i]);
		};
		A a{(const T*)raw};
		is(a, v, "from a buffer");
		switch (how)
		{
			case 0: { A b{a}; is(b, v, "copy"); b[0] = Of<T>::make(w[0]); is(a, v, "original of a changed copy"); break; }
			case 1: { const A c{a}; A b{c}; is(b, v, "copy of a constant"); break; }
			case 2: { A b{move(a)}; is(b, v, "moved"); break; }
			case 3: { T other[n]; for (int i = 0; i < n; ++i) other[i] = Of<T>::make(w[i]); A b{(const T*)other}; b = a; is(b, v, "assigned"); a[n - 1] = Of<T>::make(w[n - 1]); is(b, v, "assigned, source changed"); break; }
			case 4: { A b{}; b = move(a); is(b, v, "move assigned"); break; }
			case 5: { for (int i = 0; i < n; i += 1 + n / 16) { is(a, i ? e : v, "before a write"); for (int j = i > n / 16 ? i - 1 - n / 16 : 0; j <= i; ++j) a[j] = Of<T>::make(w[j]); for (int j = 0; j < n; ++j) e[j] = j <= i ? w[j] : v[j]; is(a, e, "one item written"); } break; }
			case 6: { auto b = makeStaticArray(raw); is(b, v, "made from an array"); break; }
			case 7: { for (int i = 0; i < n; ++i) (*a)[i] = Of<T>::make(w[i]); is(a, w, "written through the buffer"); break; }
			case 8:
				if constexpr (n == 1) { A b{Of<T>::make(v[0])}; is(b, v, "from items"); }
				if constexpr (n == 2) { A b{Of<T>::make(v[0]), raw[1]}; is(b, v, "from items"); }
				if constexpr (n == 3) { const T c = Of<T>::make(v[2]); A b{Of<T>::make(v[0]), raw[1], c}; is(b, v, "from items"); }
				if constexpr (n == 4) { A b{raw[0], raw[1], raw[2], Of<T>::make(v[3])}; is(b, v, "from items"); }
				break;
		}
	}
	g.expectEmpty("after the arrays were destroyed");
	mc::outcome("ok");
}

//////////////////////////////////////////////////
// Names
//////////////////////////////////////////////////

static void expectName(const Name & n, const std::string & e, const char * what)
{
	MC_CHECK(n.getLength() == e.size() && std::string(*n, n.getLength()) == e, "%s '%s' is '%s'", what, e.c_str(), std::string(*n, n.getLength()).c_str());
	for (size_t i = 0; i < e.size(); ++i) MC_CHECK(n[i] == e[i], "%s '%s', character %zu", what, e.c_str(), i);
	Name copy{n};
	MC_CHECK(copy.getLength() == e.size() && *copy == *n, "copy of a name");
}

// Joins are made at compile time: all of up to three of these
static constexpr Name part0 = "", part1 = "a", part2 = "bc", part3 = "a longer part, ";
static const char * const partText[] = {"", "a", "bc", "a longer part, "};
template<int i> struct Part; 
template<> struct Part<0> { static constexpr const Name & name = part0; };
template<> struct Part<1> { static constexpr const Name & name = part1; };
template<> struct Part<2> { static constexpr const Name & name = part2; };
template<> struct Part<3> { static constexpr const Name & name = part3; };
template<int code> static void joinOne()
{
	constexpr int i = code % 4, j = code / 4 % 4, k = code / 16;
	expectName(JOIN_NAME(Part<i>::name, Part<j>::name, Part<k>::name), std::string(partText[i]) + partText[j] + partText[k], "join of three");
	const Name & n = JOIN_NAME(Part<i>::name, Part<j>::name, Part<k>::name);
	MC_CHECK((*n)[n.getLength()] == 0, "a joined name is not terminated");
	if (k == 0) expectName(JOIN_NAME(Part<i>::name, Part<j>::name), std::string(partText[i]) + partText[j], "join of two");
	if (k == 0 && j == 0) expectName(JOIN_NAME(Part<i>::name), partText[i], "join of one");
}
// Four to seven parts, and joins of joins
template<const Name & ...parts> static void joinMany(const std::string & e)
{
	const Name & n = JOIN_NAME(parts...);
	expectName(n, e, "join of many"); MC_CHECK((*n)[n.getLength()] == 0, "a joined name is not terminated");
	const Name & twice = JOIN_NAME(JOIN_NAME(parts...), part2, JOIN_NAME(parts...));
	expectName(twice, e + "bc" + e, "join of joins"); MC_CHECK((*twice)[twice.getLength()] == 0, "a joined name is not terminated");
	mc::tick();
}
template<int code> static void joinFour()
{
	constexpr int i = code % 4, j = code / 4 % 4, k = code / 16 % 4, l = code / 64;
	const std::string a = partText[i], b = partText[j], c = partText[k], d = partText[l];
	joinMany<Part<i>::name, Part<j>::name, Part<k>::name, Part<l>::name>(a + b + c + d);
	if constexpr (i == 1 || j == 3) joinMany<Part<i>::name, Part<j>::name, Part<k>::name, Part<l>::name, Part<i>::name>(a + b + c + d + a);
	if constexpr (i == j) joinMany<Part<i>::name, Part<j>::name, Part<k>::name, Part<l>::name, Part<j>::name, Part<1>::name, Part<k>::name>(a + b + c + d + b + "a" + c);
}
template<int ...codes> static void joinFours(std::integer_sequence<int, codes...>) { (joinFour<codes * 11>(), ...); }
template<int ...codes> static void joinAll(std::integer_sequence<int, codes...>) { (joinOne<codes>(), ...); }

// Names of lengths around the powers of two, and what is made by joining them
template<sizet n> struct Wide
{
	struct Text { char c[n + 1]; };
	static constexpr Text fill() { Text t{}; for (sizet i = 0; i < n; ++i) t.c[i] = (char)('!' + i * 7 % 90); return t; }
	static constexpr Text text = fill();
	static constexpr Name name{text.c};
	static constexpr StaticArray<char, n + 1> copyOf() { StaticArray<char, n + 1> a{}; for (sizet i = 0; i < n; ++i) a[i] = text.c[i]; return a; }
};
template<sizet n> static void wideName()
{
	std::string e(Wide<n>::text.c, n);
	expectName(Wide<n>::name, e, "long literal");
	expectName(Name(Wide<n>::text.c, n), e, "long buffer");
	StaticArray<char, n + 1> a = Wide<n>::copyOf(); expectName(Name{a}, e, "long array");
	const Name & j = JOIN_NAME(part2, Wide<n>::name, part1);
	expectName(j, "bc" + e + "a", "join of a long name"); MC_CHECK((*j)[j.getLength()] == 0, "a joined name is not terminated");
	const Name & k = JOIN_NAME(Wide<n>::name, Wide<n>::name);
	expectName(k, e + e, "join of long names"); MC_CHECK((*k)[k.getLength()] == 0, "a joined name is not terminated");
	mc::tick();
}
static void wideNames()
{
	wideName<15>(); wideName<16>(); wideName<31>(); wideName<32>(); wideName<63>(); wideName<64>(); wideName<127>(); wideName<128>(); wideName<129>();
	wideName<254>(); wideName<255>(); wideName<256>(); wideName<257>(); wideName<1000>(); wideName<4096>(); wideName<32768>();
	static const std::string big(70000, 'n'); expectName(Name(big.c_str(), big.size()), big, "very long buffer");
	mc::note("long names");
}

static void names()
{
	if (mc::choose(2) == 0)
	{
		joinAll(std::make_integer_sequence<int, 64>{}); joinFours(std::make_integer_sequence<int, 24>{});
		expectName(part3, partText[3], "literal");
		static constexpr char lit[] = "literal"; expectName(Name{lit}, "literal", "literal");
	}
	else
	{	// Every part of a buffer
		static const char text[] = "abcabcab";
		int from = mc::choose(9), len = mc::choose(9);
		if (from + len > 8) throw mc::Abandon{};
		expectName(Name(text + from, len), std::string(text + from, len), "part of a buffer");
		StaticArray<char, 5> b{'x', (char)('a' + from), (char)('a' + len), 'z', '\0'};
		expectName(Name{b}, std::string(*b), "static array");
	}
	mc::outcome("ok");
}

// Items that can only be moved; tuples and pairs made of nothing; long ones; nested ones
static void moveOnly()
{
	TrackGlobal g;
	{
		int a = mc::choose(3), b = mc::choose(3), how = mc::choose(4);
		mc::note("%d and %d, form %d", a, b, how);
		Tuple<MovObj, int32, MovObj> t{MovObj{a}, 7, MovObj{b}};
		Pair<int32, MovObj> p{a, MovObj{b}};
		auto is = [&](const Tuple<MovObj, int32, MovObj> & x, const Pair<int32, MovObj> & y) {
			MC_CHECK(x.get<0>().get() == a && x.get<1>() == 7 && x.get<2>().get() == b, "a moved tuple holds %d, %d, %d", x.get<0>().get(), x.get<1>(), x.get<2>().get());
			MC_CHECK(y.first == a && y.second.get() == b && y.getVal().get() == b, "a moved pair holds %d, %d", y.first, y.second.get());
		};
		is(t, p);
		switch (how)
		{
		case 0: { Tuple<MovObj, int32, MovObj> u{move(t)}; Pair<int32, MovObj> q{move(p)}; is(u, q); break; }
		case 1: { Tuple<MovObj, int32, MovObj> u{MovObj{9}, 9, MovObj{9}}; Pair<int32, MovObj> q{9, MovObj{9}}; u = move(t); q = move(p); is(u, q); t = move(u); p = move(q); is(t, p); break; }
		case 2: { MovObj x{move(t.get<0>())}, y{move(p.getVal())}; MC_CHECK(x.get() == a && y.get() == b, "items moved out"); t.get<0>() = move(x); p.second = move(y); is(t, p); break; }
		case 3: { StaticArray<MovObj, 3> s{MovObj{a}, MovObj{7}, MovObj{b}}; StaticArray<MovObj, 3> r{move(s)}; MC_CHECK(r[0].get() == a && r[1].get() == 7 && r[2].get() == b, "items of a moved fixed array"); s = move(r); MC_CHECK(s[0].get() == a && s[1].get() == 7 && s[2].get() == b, "items of a move assigned fixed array"); break; }
		}
	}
	g.expectEmpty("at end");
}

static void shapes()
{
	TrackGlobal g;
	{
		int a = mc::choose(3), b = mc::choose(3);
		mc::note("%d, %d", a, b);
		Tuple<Obj, String, int32, Obj> none; none.get<2>() = a; none.get<0>() = Obj{b};
		MC_CHECK(none.get<0>().get() == b && none.get<1>() == "" && none.get<2>() == a && none.get<3>().get() == 0, "a tuple made of nothing");
		Tuple<int8, int16, int32, int64, uint8, uint16, uint32, uint64, char, double> l{(int8)-1, (int16)-2, a, (int64)-4, (uint8)255, (uint16)65535, 6u, (uint64)b, 'c', 0.5};
		const auto & cl = l;
		MC_CHECK(cl.get<0>() == -1 && cl.get<1>() == -2 && cl.get<2>() == a && cl.get<3>() == -4 && cl.get<4>() == 255 && cl.get<5>() == 65535 && cl.get<6>() == 6 && cl.get<7>() == (uint64)b && cl.get<8>() == 'c' && cl.get<9>() == 0.5, "a tuple of ten");
		MC_CHECK(cl.get<uint64>() == (uint64)b && cl.get<int8>() == -1 && cl.get<double>() == 0.5 && l.get<char>() == 'c' && l.get<uint8>() == 255 && cl.getCount() == 10, "a tuple of ten, by type");
		Tuple<Tuple<int32, Obj>, Pair<int32, String>, Tuple<char, int32>> n{Tuple<int32, Obj>{a, Obj{b}}, Pair<int32, String>{b, String{"text"}}, Tuple<char, int32>{'x', a}};
		auto m = n; n.get<0>().get<1>() = Obj{77}; n.get<1>().second += "!";
		MC_CHECK(m.get<0>().get<0>() == a && m.get<0>().get<1>().get() == b && m.get<1>().first == b && m.get<1>().second == "text" && m.get<2>().get<0>() == 'x' && m.get<2>().get<int32>() == a, "a nested tuple");
		int32 x = a; Tuple<int32 &, const int32 *> r{x, &x}; r.get<0>() = 5; MC_CHECK(x == 5 && *r.get<1>() == 5 && &r.get<0>() == &x, "a tuple of references");
		Pair<String, Array<int32>> pa{String{"key"}, Array<int32>{}}; pa.second.add(a); auto pb = pa; pa.second.add(b); MC_CHECK(pb.first == "key" && pb.second.getCount() == 1 && pb.second[0] == a && pa.second.getCount() == 2, "a pair with an array");
		StaticArray<Obj, 40> big{}; for (int i = 0; i < 40; ++i) { MC_CHECK(big[i].get() == 0, "a fixed array made of nothing"); big[i] = Obj{i * 3 + a}; }
		StaticArray<Obj, 40> other{big}; big[39] = Obj{1}; for (int i = 0; i < 40; ++i) MC_CHECK(other[i].get() == i * 3 + a, "item %d of a copied fixed array", i);
		StaticArray<StaticArray<int32, 2>, 3> deep{}; deep[2][1] = 9; deep[0][0] = a; auto deeper = deep; deep[2][1] = 0; MC_CHECK(deeper[2][1] == 9 && deeper[0][0] == a && deeper.getCount() == 3, "a nested fixed array");
	}
	g.expectEmpty("at end");
}

static void setup()
{
	mc::add("move_only", 1, moveOnly);
	mc::add("shapes", 1, shapes);
	mc::add("tuple_i", 1, Ops<int32>::construct); mc::add("tuple_o", 1, Ops<Obj>::construct); mc::add("tuple_s", 1, Ops<String>::construct);
	mc::add("tuple_is", 1, Ops<int32, String>::construct); mc::add("tuple_oi", 1, Ops<Obj, int32>::construct);
	mc::add("tuple_co", 1, Ops<char, Obj>::construct); mc::add("tuple_ii", 1, Ops<int32, int32>::construct);
	mc::add("tuple_iso", 1, Ops<int32, String, Obj>::construct); mc::add("tuple_osi", 1, Ops<Obj, String, int32>::construct); mc::add("tuple_ioi", 1, Ops<int32, Obj, int32>::construct);
	mc::add("tuple_cdoi", 8, Ops<char, double, Obj, int32>::construct); mc::add("tuple_scoc", 8, Ops<String, char, Obj, char>::construct);
	mc::add("history_is", 1, Ops<int32, String>::histories); mc::add("history_oio", 1, Ops<Obj, int32, Obj>::histories); mc::add("history_coi", 1, Ops<char, Obj, int32>::histories);
	mc::add("pair_i", 1, pairs<int32, int32, ThreeWayCompare>); mc::add("pair_os", 1, pairs<Obj, String, ThreeWayCompare>); mc::add("pair_so", 1, pairs<int32, Obj, Reverse>);
	mc::add("pair_null", 1, pairs<Obj, char, NullCompare>); mc::add("pair_rev", 1, pairs<Obj, Obj, Reverse>);
	mc::add("comparators", 1, comparators);
	mc::add("array_i1", 1, staticArrays<int32, 1>); mc::add("array_i4", 1, staticArrays<int32, 4>); mc::add("array_i7", 1, staticArrays<int32, 7>); mc::add("array_o1", 1, staticArrays<Obj, 1>);
	mc::add("array_o2", 1, staticArrays<Obj, 2>); mc::add("array_o3", 1, staticArrays<Obj, 3>); mc::add("array_s2", 1, staticArrays<String, 2>); mc::add("array_c4", 1, staticArrays<char, 4>);
	mc::add("array_i300", 1, staticArrays<int32, 300>); mc::add("array_o257", 1, staticArrays<Obj, 257>); mc::add("array_s260", 1, staticArrays<String, 260>); mc::add("array_c4100", 1, staticArrays<char, 4100>);
	mc::add("wide_names", 1, wideNames);
	mc::add("names", 1, names);
}
MC_MAIN(setup)
