// C26: threads that share nothing but the library, or only read what they share, or hand objects to
// one another through an atomic, do not disturb one another: no data race (decided for every access
// by vector clocks), and every operation gives what it gives alone, in every order of the library's
// own synchronizing operations.
#include <cstdio>
#include "mc.h"
#include "mcrace.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "templates/optional.h"
#include "templates/function.h"
#include "templates/atomic.h"
#include "templates/name.h"
#include "templates/array.h"
#include "algorithm/sort.h"
#include "hal/malloc_pool.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_ansi.h"
#include "math/math.h"
#include "math/vec2.h"
#include "math/vec3.h"
#include "math/vec4.h"
#include "math/quat.h"
#include "math/mat4.h"
#include "regex/regex.h"
#include <type_traits>
#include <map>
#include <cmath>
#include <sys/wait.h>
#include <signal.h>

using std::string;

// ---- what a kind of object offers
struct Any
{
	const char * name; bool copies, moves;
	std::vector<const char*> makeNames, opNames, readNames;
	virtual ~Any() {}
	virtual void * make(int i) const = 0;					// a new object
	virtual string op(int i, void * p) const = 0;			// change it
	virtual string read(int i, const void * p) const = 0;	// look at it
	virtual void * copy(const void * p) const = 0;
	virtual void assign(void * p, const void * q) const = 0;
	virtual void * take(void * p) const = 0;				// move out of p
	virtual void takeInto(void * p, void * q) const = 0;
	virtual void destroy(void * p) const = 0;
	int makes() const { return (int)makeNames.size(); }
	int ops() const { return (int)opNames.size(); }
	int reads() const { return (int)readNames.size(); }
	string all(const void * p) const { string s; for (int i = 0; i < reads(); ++i) s += read(i, p) + "|"; return s; }
};
template<typename C, bool Copies, bool Moves> struct Kind : Any
{
	std::vector<C * (*)()> m; std::vector<string (*)(C&)> o; std::vector<string (*)(const C&)> r;
	explicit Kind(const char * n) { name = n; copies = Copies; moves = Moves; }
	Kind & make(const char * n, C * (*f)()) { makeNames.push_back(n); m.push_back(f); return *this; }
	Kind & op(const char * n, string (*f)(C&)) { opNames.push_back(n); o.push_back(f); return *this; }
	Kind & read(const char * n, string (*f)(const C&)) { readNames.push_back(n); r.push_back(f); return *this; }
	void * make(int i) const override { return m[i](); }
	string op(int i, void * p) const override { return o[i](*(C*)p); }
	string read(int i, const void * p) const override { return r[i](*(const C*)p); }
	void * copy(const void * p) const override { if constexpr (Copies) return new C(*(const C*)p); else return nullptr; }
	void assign(void * p, const void * q) const override { if constexpr (Copies) *(C*)p = *(const C*)q; }
	void * take(void * p) const override { if constexpr (Moves) return new C(move(*(C*)p)); else return nullptr; }
	void takeInto(void * p, void * q) const override { if constexpr (Moves) *(C*)p = move(*(C*)q); }
	void destroy(void * p) const override { delete (C*)p; }
};

static string show(const String & s) { return string(*s, s.getLength()); }
static string show(int64 v) { return std::to_string(v); }
static string show(int32 v) { return std::to_string(v); }
static string show(uint64 v) { return std::to_string(v); }
static string show(double v) { char b[64]; snprintf(b, sizeof b, "%.6g", v); return b; }
template<typename A> static string items(const A & a) { string s; for (auto const & x : a) s += show(x) + ","; return s; }
template<typename M> static string pairs(const M & m) { string s; for (auto const & p : m) s += show(p.first) + "=" + show(p.second) + ","; return s; }

struct Asc { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return a < b ? -1 : b < a ? 1 : 0; } };
using Fn = Function<int32(int32)>;
static int32 twice(int32 x) { return x * 2; }
struct Big { int32 v[40]; int32 operator()(int32 x) const { return x + v[39]; } };
struct Calls { int32 n; int32 operator()(int32 x) { return x + ++n; } };
struct WithString { String s; int32 operator()(int32 x) const { return x + (int32)s.getLength(); } };

template<typename P> struct Held { P m; std::vector<void*> live; template<typename ... A> Held(A ... a) : m{a...} {} ~Held() { for (void * p : live) m.free(p); } };
template<typename H> static string acquire(H & h, int n, sizet size, sizet align)
{
	string s; for (int i = 0; i < n; ++i) { char * p = (char*)h.m.alloc(size, align); if (!p) { s += "0"; continue; } for (sizet k = 0; k < size; ++k) p[k] = (char)(k + i); h.live.push_back(p); s += "1"; }
	for (void * p : h.live) s += std::to_string(((unsigned char*)p)[0]);
	return s;
}
template<typename H> static string give(H & h, int n) { string s; while (n-- && !h.live.empty()) { size_t i = h.live.size() / 2; h.m.free(h.live[i]); h.live.erase(h.live.begin() + i); s += "f"; } return s; }

struct Nothing {};	// functions that need no object
using namespace Re;

static std::vector<Any*> & kinds()
{
	static std::vector<Any*> all;
	if (!all.empty()) return all;
	{
		auto & k = *new Kind<Array<int32>, true, true>{"Array<int32>"};
		k.make("empty", [] { return new Array<int32>{}; });
		k.make("3 items", [] { auto a = new Array<int32>{}; a->push(3, 1, 2); return a; });
		k.make("40 items", [] { auto a = new Array<int32>{}; for (int i = 0; i < 40; ++i) a->push(i * 7 % 11); return a; });
		k.op("push", [](Array<int32> & a) { a.push(5); a.push(6, 7); return string{}; });
		k.op("insertFirst", [](Array<int32> & a) { a.insertFirst(9); return string{}; });
		k.op("removeLast", [](Array<int32> & a) { if (a.getCount()) a.removeLast(); return string{}; });
		k.op("write", [](Array<int32> & a) { if (a.getCount()) a[0] = 77; return string{}; });
		k.op("past the end", [](Array<int32> & a) { a(a.getCount(), 4) = 8; return string{}; });
		k.op("sort", [](Array<int32> & a) { if (a.getCount()) Sort::quicksort(*a, *a + a.getCount(), Asc{}); return items(a); });
		k.op("empty", [](Array<int32> & a) { a.empty(); return string{}; });
		k.op("reset", [](Array<int32> & a) { a.reset(); a.push(1); return string{}; });
		k.read("iterate", [](const Array<int32> & a) { return items(a); });
		k.read("index", [](const Array<int32> & a) { string s; for (uint64 i = 0; i < a.getCount(); ++i) s += show(a[i]); return s + (a.isEmpty() ? "e" : "n"); });
		k.read("print", [](const Array<int32> & a) { return show(a.toString()); });
		all.push_back(&k);
	}
	{
		using C = Array<String>; auto & k = *new Kind<C, true, true>{"Array<String>"};
		k.make("empty", [] { return new C{}; });
		k.make("3 items", [] { auto a = new C{}; a->push(String{"abc"}, String{""}, String{"a longer text that takes memory"}); return a; });
		k.op("push", [](C & a) { a.push(String{"new"}); return string{}; });
		k.op("insert", [](C & a) { a.insertAt(a.getCount() / 2, String{"middle"}); return string{}; });
		k.op("remove", [](C & a) { if (a.getCount()) a.removeAt(0); return string{}; });
		k.op("append", [](C & a) { if (a.getCount()) a[0] += "more"; return string{}; });
		k.op("sort", [](C & a) { if (a.getCount()) Sort::quicksort(*a, *a + a.getCount(), Asc{}); return items(a); });
		k.read("iterate", [](const C & a) { return items(a); });
		k.read("print", [](const C & a) { return show(a.toString()); });
		all.push_back(&k);
	}
	{
		using C = List<String>; auto & k = *new Kind<C, true, true>{"List<String>"};
		k.make("empty", [] { return new C{}; });
		k.make("3 items", [] { auto a = new C{}; a->pushBack(String{"abc"}, String{""}, String{"a longer text that takes memory"}); return a; });
		k.op("pushBack", [](C & a) { a.pushBack(String{"new"}); return string{}; });
		k.op("pushFront", [](C & a) { a.pushFront(String{"first"}); return string{}; });
		k.op("popFront", [](C & a) { String s; return a.popFront(s) ? show(s) : string{"-"}; });
		k.op("popBack", [](C & a) { String s; return a.popBack(s) ? show(s) : string{"-"}; });
		k.op("append", [](C & a) { for (auto & s : a) s += "!"; return string{}; });
		k.op("empty", [](C & a) { a.empty(); return string{}; });
		k.read("iterate", [](const C & a) { return items(a); });
		k.read("print", [](const C & a) { return show(a.toString()); });
		k.read("length", [](const C & a) { return show((uint64)a.getLength()); });
		all.push_back(&k);
	}
	{
		using C = Map<int32, String>; auto & k = *new Kind<C, true, true>{"Map<int32, String>"};
		k.make("empty", [] { return new C{}; });
		k.make("5 keys", [] { auto a = new C{}; for (int i : {4, 2, 5, 1, 3}) a->insert(i, String{i % 2 ? "odd" : "an even number with a long text"}); return a; });
		k.op("insert", [](C & a) { a.insert(7, String{"seven"}); return string{}; });
		k.op("index", [](C & a) { a[2] += "x"; a[9] = "nine"; return string{}; });
		k.op("remove", [](C & a) { return string(a.remove(4) ? "y" : "n"); });
		k.op("pop", [](C & a) { String s; return a.pop(1, s) ? show(s) : string{"-"}; });
		k.op("replace", [](C & a) { for (auto & p : a) p.second = "all"; return string{}; });
		k.read("iterate", [](const C & a) { return pairs(a); });
		k.read("find", [](const C & a) { String s; return a.find(3, s) ? show(s) : string{"-"}; });
		k.read("has", [](const C & a) { return string(a.has(2) ? "y" : "n") + (a.has(99) ? "y" : "n"); });
		k.read("iterator", [](const C & a) { auto it = a.find(5); return it != a.end() ? show(it->second) : string{"-"}; });
		k.read("count", [](const C & a) { return show((uint64)a.getCount()); });
		all.push_back(&k);
	}
	{
		using C = Map<String, int32>; auto & k = *new Kind<C, true, true>{"Map<String, int32>"};
		k.make("4 keys", [] { auto a = new C{}; int i = 0; for (const char * s : {"one", "two", "three", "four"}) a->insert(String{s}, ++i); return a; });
		k.op("insert", [](C & a) { a.insert(String{"five"}, 5); return string{}; });
		k.op("index", [](C & a) { ++a[String{"two"}]; return string{}; });
		k.op("remove", [](C & a) { return string(a.remove(String{"one"}) ? "y" : "n"); });
		k.read("iterate", [](const C & a) { return pairs(a); });
		k.read("find", [](const C & a) { int32 v = -1; a.find(String{"three"}, v); return show(v); });
		all.push_back(&k);
	}
	{
		using C = Set<int32>; auto & k = *new Kind<C, true, true>{"Set<int32>"};
		k.make("empty", [] { return new C{}; });
		k.make("6 items", [] { auto a = new C{}; for (int i : {4, 2, 5, 1, 3, 8}) a->set(i); return a; });
		k.op("set", [](C & a) { a.set(7); a.set(4); return string{}; });
		k.op("remove", [](C & a) { return string(a.remove(4) ? "y" : "n"); });
		k.op("union", [](C & a) { C b; b.set(2, 30, 40); a += b; return string{}; });
		k.op("difference", [](C & a) { C b; b.set(2, 3); a -= b; return string{}; });
		k.op("intersection", [](C & a) { C b; b.set(2, 3); a *= b; return string{}; });
		k.read("iterate", [](const C & a) { return items(a); });
		k.read("get", [](const C & a) { string s; for (int i = 0; i < 10; ++i) s += a.get(i) ? "1" : "0"; return s; });
		k.read("any", [](const C & a) { return string(a.any(3, 50) ? "y" : "n") + (a.all(1, 2) ? "y" : "n"); });
		k.read("compare", [](const C & a) { C b; b.set(1, 2, 3); return string(a == b ? "=" : a < b ? "<" : b < a ? ">" : "?"); });
		k.read("combine", [](const C & a) { C b; b.set(2, 3, 9); return items(a + b) + items(a * b) + items(a - b); });
		k.read("sub-range", [](const C & a) { string s; for (auto it = a.begin(2); it != a.end() && *it < 5; ++it) s += show(*it); return s; });
		k.read("size", [](const C & a) { return show((uint64)a.getSize()); });
		all.push_back(&k);
	}
	{
		using C = String; auto & k = *new Kind<C, true, true>{"String"};
		k.make("empty", [] { return new C{}; });
		k.make("short", [] { return new C{"aBc"}; });
		k.make("long", [] { return new C{"the Quick brown fox jumps over the lazy dog, the Quick brown fox"}; });
		k.op("append text", [](C & a) { a += " and more"; a += 'c'; return string{}; });
		k.op("append numbers", [](C & a) { a += 42; a += -7ll; a += 3.25; a += 1.5f; a += 9u; return string{}; });
		k.op("append format", [](C & a) { a += String::format("<%s:%d>", "x", 12); return string{}; });
		k.op("print", [](C & a) { a <<= 17; a += "-"; a <<= 42.5; return string{}; });
		k.op("splice", [](C & a) { if (a.getLength() > 2) a.splice(1, 1, "insert"); return string{}; });
		k.op("replaceAll", [](C & a) { a.replaceAll("Quick", "slow and careful"); return string{}; });
		k.op("write", [](C & a) { if (a.getLength()) a[0] = 'Z'; return string{}; });
		k.read("text", [](const C & a) { return show(a); });
		k.read("lower", [](const C & a) { return show(a.toLower()) + show(a.toUpper()); });
		k.read("find", [](const C & a) { return show(a.findIndex("fox")) + show(a.findIndex('B')) + items(a.findAll("the")); });
		k.read("compare", [](const C & a) { C b{"abc"}; return string(a == b ? "=" : "!") + (a < b ? "<" : ">") + (a.cmp("aBc") == 0 ? "c" : "d") + (a.icmp(b) == 0 ? "i" : "j"); });
		k.read("join", [](const C & a) { return show(a + "tail" + a + 5); });
		k.read("format", [](const C & a) { return show(String::format("[%s]%d", *a, 3)); });
		all.push_back(&k);
	}
	{
		using C = Fn; auto & k = *new Kind<C, true, true>{"Function"};
		k.make("function pointer", [] { return new C{twice}; });
		k.make("large", [] { Big b; for (int i = 0; i < 40; ++i) b.v[i] = i; return new C{b}; });
		k.make("with a state", [] { return new C{Calls{3}}; });
		k.make("with a string", [] { return new C{WithString{String{"text"}}}; });
		k.op("call", [](C & f) { string s = show(f(3)); return s + show(f(4)); });
		k.op("assign", [](C & f) { f = Calls{10}; return show(f(1)); });
		k.op("assign text", [](C & f) { f = C{WithString{String{"other text"}}}; return show(f(1)); });
		k.op("call a copy", [](C & f) { C g{f}; return show(g(5)) + show(f(5)); });
		k.read("is set", [](const C & f) { return string(f ? "y" : "n"); });
		all.push_back(&k);
	}
	{
		using C = Fn; auto & k = *new Kind<C, true, false>{"Function (stateless)"};
		k.make("function pointer", [] { return new C{twice}; });
		k.make("large", [] { Big b; for (int i = 0; i < 40; ++i) b.v[i] = i; return new C{b}; });
		k.make("with a string", [] { return new C{WithString{String{"text"}}}; });
		k.read("call", [](const C & f) { string s = show(f(3)); return s + show(f(4)); });
		k.read("copy and call", [](const C & f) { C g{f}; C h; h = f; return show(g(5)) + show(h(6)); });
		all.push_back(&k);
	}
	{
		using C = Optional<String>; auto & k = *new Kind<C, true, true>{"Optional<String>"};
		k.make("empty", [] { return new C{}; });
		k.make("value", [] { return new C{String{"some value of some length"}}; });
		k.op("set", [](C & a) { a = String{"set"}; return string{}; });
		k.op("reset", [](C & a) { a.reset(); return string{}; });
		k.op("emplace", [](C & a) { a.emplace("emplaced"); return string{}; });
		k.op("change", [](C & a) { if (a) *a += "!"; return string{}; });
		k.read("value", [](const C & a) { return a.hasValue() ? show(*a) : string{"-"}; });
		all.push_back(&k);
	}
	{
		using C = Tuple<int32, String, float64>; auto & k = *new Kind<C, true, true>{"Tuple"};
		k.make("values", [] { return new C{4, String{"four"}, 4.5}; });
		k.op("set", [](C & a) { a.get<0>() = 5; a.get<1>() = "five"; a.get<2>() += 1; return string{}; });
		k.read("get", [](const C & a) { return show(a.get<0>()) + show(a.get<1>()) + show(a.get<2>()); });
		all.push_back(&k);
	}
	{
		using C = Pair<String, Array<int32>>; auto & k = *new Kind<C, true, true>{"Pair"};
		k.make("values", [] { auto c = new C{String{"key"}, Array<int32>{}}; c->second.push(1, 2); return c; });
		k.op("set", [](C & a) { a.first += "s"; a.second.push(7); return string{}; });
		k.read("get", [](const C & a) { return show(a.first) + items(a.second); });
		all.push_back(&k);
	}
	{
		using C = Map<int32, Array<List<int32>>>; auto & k = *new Kind<C, true, true>{"Map of Array of List"};
		k.make("values", [] { auto c = new C{}; for (int i = 0; i < 3; ++i) { List<int32> l; l.pushBack(i, i + 1); (*c)[i].push(l); (*c)[i].push(l); } return c; });
		k.op("change", [](C & a) { if (!a[1].getCount()) a[1].push(List<int32>{}); a[1][0].pushFront(9); a[7].push(List<int32>{}); return string{}; });
		k.op("remove", [](C & a) { a.remove(1); return string{}; });
		k.read("walk", [](const C & a) { string s; for (auto & p : a) for (auto & l : p.second) s += items(l) + ";"; return s; });
		all.push_back(&k);
	}
	{
		using C = Regex; auto & k = *new Kind<C, false, false>{"Regex"};
		k.make("(a|b)*c", [] { return new C{String{"(a|b)*c"}}; });
		k.make("\\w+@[x-z]{2}", [] { return new C{String{"\\w+@[x-z]{2}"}}; });
		k.read("accept", [](const C & r) { return string(r.accept("ababc") ? "y" : "n") + (r.accept("me@xz") ? "y" : "n"); });
		k.read("reject", [](const C & r) { return string(r.accept(String{"abab"}) ? "y" : "n") + (r.accept("") ? "y" : "n") + (r.accept("q@x") ? "y" : "n"); });
		all.push_back(&k);
	}
	{
		using C = Held<MallocPool>; auto & k = *new Kind<C, false, false>{"MallocPool"};
		k.make("4 blocks", [] { return new C{(uint64)4, (sizet)24, (sizet)8}; });
		k.op("alloc", [](C & a) { return acquire(a, 3, 24, 8); });
		k.op("free", [](C & a) { return acquire(a, 2, 24, 8) + give(a, 2) + acquire(a, 1, 24, 8); });
		all.push_back(&k);
	}
	{
		using C = Held<MallocPooled>; auto & k = *new Kind<C, false, false>{"MallocPooled"};
		k.make("2 a pool", [] { return new C{(uint64)2, (sizet)24, (sizet)8, (uint64)1}; });
		k.op("alloc", [](C & a) { return acquire(a, 5, 24, 8); });
		k.op("free", [](C & a) { return acquire(a, 5, 24, 8) + give(a, 4) + acquire(a, 3, 24, 8); });
		all.push_back(&k);
	}
	{
		using C = Held<MallocBinned>; auto & k = *new Kind<C, false, false>{"MallocBinned"};
		k.make("default", [] { return new C{MallocBinned::BucketInfo{1 << 10, 1 << 4, 1 << 10, 1 << 2}, (sizet)16}; });
		k.op("alloc", [](C & a) { return acquire(a, 3, 20, 8) + acquire(a, 2, 100, 8); });
		k.op("free", [](C & a) { return acquire(a, 3, 20, 8) + give(a, 3) + acquire(a, 2, 60, 8); });
		all.push_back(&k);
	}
	{
		using C = Nothing; auto & k = *new Kind<C, true, true>{"functions"};
		k.make("-", [] { return new C{}; });
		k.read("global allocator", [](const C &) { string s; char * p = (char*)gMalloc->alloc(100, 16); p[99] = 7; p = (char*)gMalloc->realloc(p, 300, 16); s += show((int32)p[99]); gMalloc->free(p); return s; });
		k.read("argsort", [](const C &) { int32 v[] = {5, 1, 4, 2, 3}; int32 a[] = {0, 1, 2, 3, 4}; Sort::argquicksort(v, v + 5, a, Asc{}); string s; for (int i = 0; i < 5; ++i) s += show(a[i]); return s; });
		k.read("vectors", [](const C &) { Vec4<float32> a{1.f, 2.f, 3.f, 4.f}, b = a * 2.f + a; Vec3<float32> c{1.f, 0.f, 0.f}, d{0.f, 1.f, 0.f}, e = c ^ d; return show((double)b.w) + show((double)e.z) + show((double)a.getSize()); });
		k.read("quaternions", [](const C &) { Quat q{Vec3<float32>{0.f, 0.f, 1.f}, 1.5707963f}; Vec3<float32> v = q * Vec3<float32>{1.f, 0.f, 0.f}; return show(std::round((double)v.y * 1e4) / 1e4); });
		k.read("scalars", [](const C &) { return show((int64)PlatformMath::log2((uint64)1000)) + show((int64)PlatformMath::min(4, 2, 3)) + show((double)PlatformMath::sqrt(2.0)); });
		k.read("names", [](const C &) { constexpr Name n{"a name"}; return show(String{n}); });
		k.read("match at once", [](const C &) { return string(Re::accept(String{"x[ab]?y"}, String{"xby"}) ? "y" : "n"); });
		k.read("lookahead", [](const C &) { Automaton<char> a; auto b = a.createBuilder(); b.beginMacro<StatePositiveLookahed<char>>(); b.pushState<StateSymbol<char>>('a'); b.endMacro(); b.pushState<StateSymbol<char>>('a'); b.pushState<StateSymbol<char>>('b'); b.endGroup(); return string(a.acceptString("ab") ? "y" : "n"); });
		all.push_back(&k);
	}
	return all;
}

// ---- threads
struct Job { void (*run)(Job &); const Any * kind; int state, op1, op2, read; void * object; const void * source; string got; };
static Job jobs[3]; static int njobs;
static void body(void * p) { Job & j = *(Job*)p; j.run(j); }
static Job & job(void (*run)(Job&), const Any * kind, int state, int op1 = -1, int op2 = -1, int read = -1)
{
	Job & j = jobs[njobs++]; j.run = run; j.kind = kind; j.state = state; j.op1 = op1; j.op2 = op2; j.read = read; j.object = nullptr; j.source = nullptr; j.got.clear();
	return j;
}
static void begin() { race::begin(); njobs = 0; }
static void go(int preemptions)
{
	for (int i = 0; i < njobs; ++i) race::spawn(body, &jobs[i]);
	race::run(preemptions);
	mc::tick();
	if (race::found()) mc::fail("%s", race::found());
}
template<typename ... A> static string alone(const char * what, void (*run)(Job&), A ... a)
{
	static std::map<string, string> cache;
	Job j{run, a...};
	string key = string(what) + "/" + j.kind->name + "/" + std::to_string(j.state) + "/" + std::to_string(j.op1) + "/" + std::to_string(j.op2) + "/" + std::to_string(j.read);
	auto it = cache.find(key); if (it != cache.end()) return it->second;
	run(j); return cache[key] = j.got;
}
static int lastKind;
static const Any & pickKind(bool (*want)(const Any &) = nullptr)
{
	std::vector<Any*> v; for (auto * k : kinds()) if (!want || want(*k)) v.push_back(k);
	return *v[lastKind = mc::choose((int)v.size())];
}

// Make an object, use it in every way, destroy it
static void useOwn(Job & j)
{
	const Any & k = *j.kind;
	void * p = k.make(j.state); j.got += k.all(p);
	if (j.op1 >= 0) { j.got += k.op(j.op1, p) + k.all(p); }
	else for (int i = 0; i < k.ops(); ++i) j.got += k.op(i, p) + k.all(p);
	if (k.copies) { void * q = k.copy(p); j.got += k.all(q); if (k.ops()) k.op(0, q); k.assign(q, p); j.got += k.all(q); k.destroy(q); }
	if (k.moves) { void * q = k.take(p); j.got += k.all(q); k.takeInto(p, q); k.destroy(q); j.got += k.all(p); }
	k.destroy(p);
}
static void separate(bool each)
{
	struct Item { const Any * k; int state, op; };
	static std::vector<Item> all[2]; auto & v = all[each];
	if (v.empty()) for (auto * k : kinds()) for (int s = 0; s < k->makes(); ++s) if (!each) v.push_back({k, s, -1}); else for (int o = 0; o < k->ops(); ++o) v.push_back({k, s, o});
	int i = mc::choose((int)v.size()), l = i + mc::choose((int)v.size() - i);
	const Item & a = v[i], & b = v[l];
	mc::note("one thread uses its own %s (%s%s%s), another its own %s (%s%s%s)", a.k->name, a.k->makeNames[a.state], a.op >= 0 ? ", " : "", a.op >= 0 ? a.k->opNames[a.op] : "", b.k->name, b.k->makeNames[b.state], b.op >= 0 ? ", " : "", b.op >= 0 ? b.k->opNames[b.op] : "");
	string ea = alone("own", useOwn, a.k, a.state, a.op, -1, -1), eb = alone("own", useOwn, b.k, b.state, b.op, -1, -1);
	begin(); job(useOwn, a.k, a.state, a.op); job(useOwn, b.k, b.state, b.op); go(each ? 1 : mc::bound(1, 2));
	MC_CHECK(jobs[0].got == ea, "the first thread sees %s, alone %s", jobs[0].got.c_str(), ea.c_str());
	MC_CHECK(jobs[1].got == eb, "the second thread sees %s, alone %s", jobs[1].got.c_str(), eb.c_str());
	mc::outcome(a.k->name);
}

// Read one object from two threads
static void look(Job & j)
{
	const Any & k = *j.kind; const void * p = j.source ? j.source : j.object;
	if (j.read < k.reads()) j.got = k.read(j.read, p);
	else if (j.read == k.reads()) { void * q = k.copy(p); j.got = k.all(q); for (int i = 0; i < k.ops(); ++i) k.op(i, q); k.destroy(q); }
	else { void * q = k.make(0); k.assign(q, p); j.got = k.all(q); for (int i = 0; i < k.ops(); ++i) k.op(i, q); k.destroy(q); }
}
static void shared(int n)
{
	const Any & k = pickKind([](const Any & a) { return a.reads() > 0; }); int s = mc::choose(k.makes()), changed = n > 2 && !mc::thorough() ? k.ops() : mc::choose(k.ops() + 1), r[3], total = k.reads() + (k.copies ? 2 : 0);
	for (int i = 0; i < n; ++i) r[i] = (i ? r[i - 1] : 0) + mc::choose(total - (i ? r[i - 1] : 0));
	auto nameOf = [&](int i) { return i < k.reads() ? k.readNames[i] : i == k.reads() ? "copy" : "assign from"; };
	mc::note("%d threads read one %s (%s, then %s): %s, %s%s%s", n, k.name, k.makeNames[s], changed < k.ops() ? k.opNames[changed] : "no change", nameOf(r[0]), nameOf(r[1]), n > 2 ? ", " : "", n > 2 ? nameOf(r[2]) : "");
	string before, expect[3];
	{
		void * q = k.make(s); if (changed < k.ops()) k.op(changed, q);
		for (int i = 0; i < n; ++i) { Job j{look, &k, s, -1, -1, r[i]}; j.source = q; look(j); expect[i] = j.got; }
		before = k.all(q); k.destroy(q);
	}
	begin();
	void * p = k.make(s); if (changed < k.ops()) k.op(changed, p);		// nobody has looked at it before the threads do
	for (int i = 0; i < n; ++i) job(look, &k, s, -1, -1, r[i]).source = p;
	go(n == 2 ? 2 : mc::bound(1, 2));
	for (int i = 0; i < n; ++i) MC_CHECK(jobs[i].got == expect[i], "%s gives %s to thread %d, alone %s", nameOf(r[i]), jobs[i].got.c_str(), i, expect[i].c_str());
	MC_CHECK(k.all(p) == before, "the object changed from %s to %s", before.c_str(), k.all(p).c_str());
	k.destroy(p);
	mc::outcome(k.name);
}

// Two objects, one made from the other, each changed by one thread
static void change(Job & j)
{
	const Any & k = *j.kind;
	if (!j.object) j.object = k.copy(j.source);
	if (j.op1 < k.ops()) j.got += k.op(j.op1, j.object); else if (j.op1 == k.ops()) { j.got += k.all(j.object); k.destroy(j.object); j.object = nullptr; return; }
	j.got += k.all(j.object);
	if (j.op2 >= 0 && j.op2 < k.ops()) j.got += k.op(j.op2, j.object) + k.all(j.object);
}
static void related(bool twice)
{
	const Any & k = pickKind([](const Any & a) { return a.copies && a.ops(); }); int s = mc::choose(k.makes()), how = mc::choose(k.moves ? 5 : 3), n = k.ops() + 1, a = mc::choose(n), b = mc::choose(n), a2 = twice && a < k.ops() ? mc::choose(k.ops()) : -1, b2 = twice && b < k.ops() ? mc::choose(k.ops()) : -1;
	static const char * hows[] = {"a copy", "assigned", "copied by both threads", "moved from", "assigned by a move"};
	auto nameOf = [&](int i) { return i < k.ops() ? k.opNames[i] : "destroy"; };
	mc::note("two %s (%s), one %s: %s, %s", k.name, k.makeNames[s], hows[how], nameOf(a), nameOf(b));
	auto set = [&](Job & x, Job & y, void * & extra) {
		void * p = k.make(s), * q; extra = nullptr;
		switch (how)
		{
		case 0: q = k.copy(p); break;
		case 1: q = k.make(0); k.assign(q, p); break;
		case 2: extra = p; x.source = y.source = p; return;
		case 3: q = k.take(p); k.assign(p, q); break;		// a moved object is assigned before it is used
		default: q = k.make(0); k.takeInto(q, p); k.assign(p, q); break;
		}
		x.object = p; y.object = q;
	};
	auto clean = [&](Job & j) { if (j.object) k.destroy(j.object); j.object = nullptr; };
	static std::map<string, std::pair<string, string>> cache;
	string key = string(k.name) + "/" + std::to_string(s) + "/" + std::to_string(how) + "/" + std::to_string(a) + "/" + std::to_string(b) + "/" + std::to_string(a2) + "/" + std::to_string(b2);
	if (!cache.count(key))
	{
		void * e; Job x{change, &k, s, a, a2, -1}, y{change, &k, s, b, b2, -1}; set(x, y, e);
		change(x); change(y); cache[key] = {x.got, y.got}; clean(x); clean(y); if (e) k.destroy(e);
	}
	begin();
	void * e; Job & x = job(change, &k, s, a, a2), & y = job(change, &k, s, b, b2); set(x, y, e);
	go(2);
	MC_CHECK(x.got == cache[key].first && y.got == cache[key].second, "the threads see %s and %s, expected %s and %s", x.got.c_str(), y.got.c_str(), cache[key].first.c_str(), cache[key].second.c_str());
	clean(x); clean(y); if (e) k.destroy(e);
	mc::outcome(string(k.name) + hows[how]);
}

// An object made by one thread and published with an atomic, then used by another
struct Slot { Atomic<int32> full; void * object; };
static Slot slot; static int handHow;
static void giver(Job & j)
{
	const Any & k = *j.kind;
	void * p = k.make(j.state); if (j.op1 >= 0) k.op(j.op1, p);
	void * kept = nullptr;
	if (handHow == 1) { kept = p; p = k.take(kept); }
	if (handHow == 2) { kept = p; p = k.copy(kept); }
	slot.object = p; slot.full.store(1);
	if (kept) { if (handHow == 2) { if (j.op2 >= 0) j.got += k.op(j.op2, kept); j.got += k.all(kept); } k.destroy(kept); }
	void * q = k.make(0); j.got += k.all(q); k.destroy(q);
}
static void taker(Job & j)
{
	const Any & k = *j.kind;
	if (!slot.full.load()) { j.got = "nothing"; return; }
	j.object = slot.object; slot.object = nullptr;
	j.got += k.all(j.object);
	if (j.op2 >= 0) j.got += k.op(j.op2, j.object) + k.all(j.object);
	k.destroy(j.object);
}
static void handover()
{
	const Any & k = pickKind(); int s = mc::choose(k.makes()), how = mc::choose(k.moves && k.copies ? 3 : 1), a = mc::choose(k.ops() + 1) - 1, b = mc::choose(k.ops() + 1) - 1;
	handHow = how;
	mc::note("one thread makes a %s (%s, %s)%s and publishes it, another uses it (%s)", k.name, k.makeNames[s], a < 0 ? "-" : k.opNames[a], how == 0 ? "" : how == 1 ? ", moves it" : ", copies it", b < 0 ? "-" : k.opNames[b]);
	static std::map<string, std::pair<string, string>> cache;
	string key = string(k.name) + "/" + std::to_string(s) + "/" + std::to_string(how) + "/" + std::to_string(a) + "/" + std::to_string(b);
	if (!cache.count(key)) { slot.full.store(0); Job x{giver, &k, s, a, b, -1}, y{taker, &k, s, a, b, -1}; giver(x); taker(y); cache[key] = {x.got, y.got}; }
	begin(); slot.full.store(0); slot.object = nullptr;
	Job & x = job(giver, &k, s, a, b), & y = job(taker, &k, s, a, b);
	go(2);
	MC_CHECK(x.got == cache[key].first, "the first thread sees %s, expected %s", x.got.c_str(), cache[key].first.c_str());
	MC_CHECK(y.got == "nothing" || y.got == cache[key].second, "the second thread sees %s, expected %s", y.got.c_str(), cache[key].second.c_str());
	if (slot.object && y.got == "nothing") k.destroy(slot.object);
	mc::outcome(y.got == "nothing" ? "not seen" : "seen");
}

// The same in a process that has not used the library yet: what it sets up on first use is set up by
// one of the threads. Each execution runs in a process of its own; its choices come back to us.
struct Report { volatile int done; int abandoned, n; uint64_t checks; mc::Frame path[4000]; };
static void inNewProcess(void (*run)())
{
	mc::Engine & e = mc::engine();
	static Report * r = (Report*)mmap(nullptr, sizeof(Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (e.replay) { run(); return; }
	r->done = 0; r->abandoned = 0; fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) mc::fail("internal: cannot start a process");
	if (!pid)
	{
		try { run(); } catch (mc::Abandon &) { r->abandoned = 1; }
		r->checks = e.checks; r->n = (int)e.path.size(); if (e.pos > 4000) _exit(9);
		for (size_t i = 0; i < e.pos; ++i) r->path[i] = e.path[i];
		r->n = (int)e.pos; r->done = 1; _exit(0);
	}
	int st; while (waitpid(pid, &st, 0) < 0) {}
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
	if (!r->done) _exit(WIFEXITED(st) && WEXITSTATUS(st) ? WEXITSTATUS(st) : 9);
	e.path.assign(r->path, r->path + r->n); e.pos = r->n; e.transitions += e.pos > e.freshFrom ? e.pos - e.freshFrom : 0; e.checks = r->checks;
	if (r->abandoned) throw mc::Abandon{};
}
static const Any * coldA, * coldB; static int coldR[2];
static void coldSeparate()
{
	coldA = &pickKind(); int first = lastKind; coldB = &pickKind(); if (lastKind < first) return;
	if (coldA != coldB && !mc::thorough()) return;		// what two kinds have in common, one kind has
	mc::note("the first objects of the process: one thread uses its own %s, another its own %s", coldA->name, coldB->name);
	inNewProcess([] {
		Job x{useOwn, coldA, 0, -1, -1, -1}, y{useOwn, coldB, coldB->makes() - 1, -1, -1, -1};
		begin(); job(useOwn, coldA, 0); job(useOwn, coldB, coldB->makes() - 1); go(mc::bound(1, 2));
		useOwn(x); useOwn(y);
		MC_CHECK(jobs[0].got == x.got && jobs[1].got == y.got, "the threads see %s and %s, alone %s and %s", jobs[0].got.c_str(), jobs[1].got.c_str(), x.got.c_str(), y.got.c_str());
	});
	mc::outcome(coldA->name);
}
static void coldShared()
{
	coldA = &pickKind([](const Any & a) { return a.reads() > 0; }); int total = coldA->reads() + (coldA->copies ? 2 : 0);
	coldR[0] = mc::choose(total); coldR[1] = coldR[0] + mc::choose(total - coldR[0]);
	mc::note("two threads look at the first %s of the process (%d, %d)", coldA->name, coldR[0], coldR[1]);
	inNewProcess([] {
		begin(); int s = coldA->makes() - 1; void * p = coldA->make(s); string e[2];
		for (int i = 0; i < 2; ++i) job(look, coldA, s, -1, -1, coldR[i]).source = p;
		go(mc::bound(1, 2));
		for (int i = 0; i < 2; ++i) { Job j{look, coldA, s, -1, -1, coldR[i]}; j.source = p; look(j); MC_CHECK(jobs[i].got == j.got, "look %d gives %s, alone %s", coldR[i], jobs[i].got.c_str(), j.got.c_str()); }
		coldA->destroy(p);
	});
	mc::outcome(coldA->name);
}

// Three threads, each with a regular expression of its own: the library numbers states across all
static void expressions(int n)
{
	const Any * k = nullptr; for (auto * x : kinds()) if (!strcmp(x->name, "Regex")) k = x;
	int s[3]; for (int i = 0; i < n; ++i) s[i] = mc::choose(k->makes());
	mc::note("%d threads compile expressions", n);
	string e[3]; for (int i = 0; i < n; ++i) e[i] = alone("own", useOwn, k, s[i], -1, -1, -1);
	begin(); for (int i = 0; i < n; ++i) job(useOwn, k, s[i]);
	go(n == 2 ? mc::bound(2, 3) : mc::bound(1, 2));
	for (int i = 0; i < n; ++i) MC_CHECK(jobs[i].got == e[i], "an expression of thread %d gives %s, alone %s", i, jobs[i].got.c_str(), e[i].c_str());
}

static void setup()
{
	mc::add("separate", 8, [] { separate(false); });
	mc::add("separate_each", false, true, 8, [] { separate(true); });
	mc::add("shared_2", 8, [] { shared(2); });
	mc::add("shared_3", 8, [] { shared(3); });
	mc::add("first_separate", 8, coldSeparate);
	mc::add("first_shared", 8, coldShared);
	mc::add("related", 8, [] { related(false); });
	mc::add("related_2", false, true, 8, [] { related(true); });
	mc::add("handover", 8, handover);
	mc::add("expressions_2", 8, [] { expressions(2); });
	mc::add("expressions_3", 8, [] { expressions(3); });
}
MC_MAIN(setup)
