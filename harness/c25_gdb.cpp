// C25: The debugger displays of containers and values show what they hold. This program is the
// debuggee: it builds one live object for every state within bounds, next to the text that its
// display should be, which is made from a model; bin/gdbcheck.py has gdb display every object.
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "hal/malloc_ansi.h"
#include "hal/platform_memory.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "containers/tuple.h"
#include "templates/atomic.h"
#include "templates/optional.h"
#include "math/math.h"

struct Point { int x, y; };
struct Holder { Array<int> first; int second; String third; };

// ---- tables read by the debugger
extern "C" __attribute__((noinline)) void stop_here() { asm volatile("" ::: "memory"); }
std::string names;			// of the tables
const char * table_names;
unsigned long long transitions;
int thorough;
template<typename T> struct Table
{
	std::vector<T*> objects; std::vector<const char*> expected;
	T ** items; const char ** texts; int n;
	void put(T * t, const std::string & s) { objects.push_back(t); expected.push_back(strdup(s.c_str())); }
};
#define TABLE(T, name) Table<T> name; static struct Reg_##name { Reg_##name() { closers.push_back([] { name.items = name.objects.data(); name.texts = name.expected.data(); name.n = name.objects.size(); names += #name " "; }); } } reg_##name;
static std::vector<void (*)()> & closersOf() { static std::vector<void (*)()> c; return c; }
#define closers closersOf()

// ---- model of a display
static std::string fmt(const char * f, ...) { char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static std::string text(int v) { return fmt("%d", v); }
static std::string text(double v) { return fmt("%.9g", v); }
static std::string text(const Point & p) { return fmt("{x = %d, y = %d}", p.x, p.y); }
static std::string text(const std::string & s) { std::string r = "\""; for (char c : s) switch (c) { case '"': r += "\\\""; break; case '\\': r += "\\\\"; break; case '\n': r += "\\n"; break; case '\t': r += "\\t"; break; default: r += c; } return r + "\""; }
static std::string items(const std::vector<std::string> & v) { if (v.empty()) return ""; std::string r = " = {"; for (size_t i = 0; i < v.size(); ++i) r += (i ? ", " : "") + v[i]; return r + "}"; }
template<typename M> static std::vector<std::string> texts(const M & m) { std::vector<std::string> r; for (auto & x : m) r.push_back(text(x)); return r; }
// (a capacity is only required to hold the items)
static std::string arrayText(const char * type, const std::vector<std::string> & v) { return fmt("Array %s[%zu] with max. capacity <%zu>", type, v.size(), v.size()) + items(v); }
static std::string listText(const char * type, const std::vector<std::string> & v) { return fmt("List %s[%zu]", type, v.size()) + items(v); }
static std::string setText(const char * type, const std::vector<std::string> & v) { return fmt("Set %s[%zu]", type, v.size()) + items(v); }
static std::string mapText(const char * k, const char * t, const std::vector<std::string> & v) { std::vector<std::string> r; for (size_t i = 0; i + 1 < v.size(); i += 2) r.push_back("[" + v[i] + "] = " + v[i + 1]); return fmt("Map <%s, %s>[%zu]", k, t, r.size()) + items(r); }

// All sequences of up to n choices below k
static void sequences(int k, int n, const std::function<void(const std::vector<int>&)> & f)
{
	std::vector<int> s;
	std::function<void()> rec = [&] { f(s); transitions += s.size(); if ((int)s.size() < n) for (int i = 0; i < k; ++i) { s.push_back(i); rec(); s.pop_back(); } };
	rec();
}

TABLE(Array<int>, arrays) TABLE(const Array<int>, constants) TABLE(Array<String>, string_arrays) TABLE(Array<Point>, point_arrays) TABLE(Array<Array<int>>, nested_arrays) TABLE(Array<uint8>, byte_arrays)
template<typename T, typename V, typename Tab> static void arraysOf(Tab & t, int depth, const char * type, std::function<T(int)> make, std::function<V(int)> model)
{
	sequences(6, depth, [&](const std::vector<int> & s)
	{
		auto * a = new Array<T>; std::vector<V> m; int next = 1;
		for (int op : s) switch (op)
		{
		case 0: a->add(make(next)); m.push_back(model(next)); ++next; break;
		case 1: a->insertAt(0, make(next)); m.insert(m.begin(), model(next)); ++next; break;
		case 2: if (m.size()) { a->removeLast(); m.pop_back(); } break;
		case 3: if (m.size()) { a->removeAt(0); m.erase(m.begin()); } break;
		case 4: a->empty(); m.clear(); break;
		case 5: { auto * b = new Array<T>{*a}; b->add(make(next)); a = b; m.push_back(model(next)); ++next; break; }
		}
		t.put(a, arrayText(type, texts(m)));
	});
}
static void arrayStates()
{
	arraysOf<int, int>(arrays, thorough ? 5 : 4, "int", [](int i) { return i; }, [](int i) { return i; });
	arraysOf<int, int>(constants, 2, "int", [](int i) { return -i; }, [](int i) { return -i; });
	for (int n = 0; n <= 220; ++n) { auto * a = new Array<int>; std::vector<int> m; for (int i = 0; i < n; ++i) { a->add(i % 3); m.push_back(i % 3); } arrays.put(a, arrayText("int", texts(m))); }
	arraysOf<String, std::string>(string_arrays, 3, "StringBase<char>", [](int i) { return String{i % 2 ? "odd" : ""}; }, [](int i) { return std::string{i % 2 ? "odd" : ""}; });
	arraysOf<Point, Point>(point_arrays, 3, "Point", [](int i) { return Point{i, -i}; }, [](int i) { return Point{i, -i}; });
	sequences(3, 3, [](const std::vector<int> & s)
	{
		auto * a = new Array<Array<int>>; std::vector<std::string> m;
		for (int n : s) { Array<int> in; std::vector<int> mi; for (int i = 0; i < n; ++i) { in.add(i + 5); mi.push_back(i + 5); } a->add(in); m.push_back(arrayText("int", texts(mi))); }
		nested_arrays.put(a, arrayText("Array<int, void>", m));
	});
}

TABLE(List<int>, lists) TABLE(List<String>, string_lists)
template<typename T, typename V, typename Tab> static void listsOf(Tab & t, int depth, const char * type, std::function<T(int)> make, std::function<V(int)> model)
{
	sequences(6, depth, [&](const std::vector<int> & s)
	{
		auto * l = new List<T>; std::vector<V> m; int next = 1;
		for (int op : s) switch (op)
		{
		case 0: l->pushBack(make(next)); m.push_back(model(next)); ++next; break;
		case 1: l->pushFront(make(next)); m.insert(m.begin(), model(next)); ++next; break;
		case 2: if (m.size()) { l->removeBack(); m.pop_back(); } break;
		case 3: if (m.size()) { l->removeFront(); m.erase(m.begin()); } break;
		case 4: l->empty(); m.clear(); break;
		case 5: l = new List<T>{*l}; break;
		}
		t.put(l, listText(type, texts(m)));
	});
}
static void listStates()
{
	listsOf<int, int>(lists, thorough ? 5 : 4, "int", [](int i) { return i; }, [](int i) { return i; });
	listsOf<String, std::string>(string_lists, 3, "StringBase<char>", [](int i) { return String{i % 2 ? "x" : "yz"}; }, [](int i) { return std::string{i % 2 ? "x" : "yz"}; });
}

TABLE(String, strings)
static void stringStates()
{
	const char alphabet[] = {'a', '"', '\\', '\n', ' ', '0'};
	sequences(6, thorough ? 4 : 3, [&](const std::vector<int> & s) { std::string m; for (int i : s) m += alphabet[i]; strings.put(new String{m.c_str()}, text(m)); });
	sequences(3, 4, [&](const std::vector<int> & s) { auto * r = new String; std::string m; for (int i : s) { const char * w[] = {"", "ab", "c d"}; *r += w[i]; m += w[i]; } strings.put(r, text(m)); });
	std::string m; for (int n = 0; n < 400; ++n) { m += (char)('a' + n % 26); if (n % 7 == 0) strings.put(new String{m.c_str()}, text(m)); }
}

TABLE(decltype(Map<int, int>{}), maps) TABLE(decltype(Map<String, Array<int>>{}), mixed_maps) TABLE(Set<int>, sets) TABLE(Set<String>, string_sets)
static void treeStates()
{
	const int K = thorough ? 5 : 4;
	sequences(2 * K, thorough ? 5 : 4, [&](const std::vector<int> & s)
	{
		auto * mp = new Map<int, int>; auto * st = new Set<int>; std::map<int, int> m; std::set<int> ms; int next = 1;
		for (int op : s)
		{
			int k = op % K * 3 - 4;
			if (op < K) { mp->insert(k, next); m[k] = next; st->set(k); ms.insert(k); ++next; }
			else { mp->remove(k); m.erase(k); st->remove(k); ms.erase(k); }
		}
		std::vector<std::string> t; for (auto & p : m) { t.push_back(text(p.first)); t.push_back(text(p.second)); }
		maps.put(mp, mapText("int", "int", t)); sets.put(st, setText("int", texts(ms)));
	});
	for (int n = 0; n < 64; ++n)
	{
		auto * mp = new Map<int, int>; auto * st = new Set<int>; std::map<int, int> m; std::set<int> ms;
		for (int i = 0; i < n; ++i) { int k = i * 37 % 64; mp->insert(k, i); m[k] = i; st->set(k); ms.insert(k); }
		std::vector<std::string> t; for (auto & p : m) { t.push_back(text(p.first)); t.push_back(text(p.second)); }
		maps.put(mp, mapText("int", "int", t)); sets.put(st, setText("int", texts(ms)));
	}
	sequences(3, 4, [&](const std::vector<int> & s)
	{
		const char * w[] = {"", "b", "ab"};
		auto * mp = new Map<String, Array<int>>; auto * st = new Set<String>; std::map<std::string, std::vector<int>> m; std::set<std::string> ms; int n = 0;
		for (int i : s) { Array<int> a; for (int j = 0; j < n; ++j) a.add(j); if (!m.count(w[i])) { mp->insert(String{w[i]}, a); std::vector<int> v; for (int j = 0; j < n; ++j) v.push_back(j); m[w[i]] = v; } st->set(String{w[i]}); ms.insert(w[i]); ++n; }
		std::vector<std::string> t; for (auto & p : m) { t.push_back(text(p.first)); t.push_back(arrayText("int", texts(p.second))); }
		mixed_maps.put(mp, mapText("StringBase<char>", "Array<int, void>", t)); string_sets.put(st, setText("StringBase<char>", texts(ms)));
	});
}

using T1 = Tuple<int>; using T2 = Tuple<int, String>; using T3 = Tuple<int, float, String>; using T4 = Tuple<uint8, Point, int, Array<int>>; using TSame = Tuple<int, int, int>;
TABLE(T1, tuples1) TABLE(T2, tuples2) TABLE(T3, tuples3) TABLE(T4, tuples4) TABLE(TSame, tuples_same)
TABLE(Optional<int>, optionals) TABLE(Optional<String>, string_optionals) TABLE(Optional<Point>, point_optionals) TABLE(Optional<Array<int>>, array_optionals) TABLE(List<Optional<int>>, optional_lists)
TABLE(Atomic<int32>, atomics) TABLE(Atomic<int64>, wide_atomics) TABLE(Atomic<bool>, flags) TABLE(Holder, holders)
using AtomicTuple = Tuple<Atomic<int32>*, int>;
static void valueStates()
{
	for (int a = -2; a <= 2; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c)
	{
		const char * w[] = {"", "x", "two words"}; const float f[] = {0.f, -1.5f, 1e10f}; ++transitions;
		if (!b && !c) tuples1.put(new T1{a}, "Tuple <int>[1]" + items({text(a)}));
		if (!b) tuples2.put(new T2{a, String{w[c]}}, "Tuple <int, StringBase<char>>[2]" + items({text(a), text(std::string{w[c]})}));
		tuples3.put(new T3{a, f[b], String{w[c]}}, "Tuple <int, float, StringBase<char>>[3]" + items({text(a), text(f[b]), text(std::string{w[c]})}));
		tuples_same.put(new TSame{a, b, c}, "Tuple <int, int, int>[3]" + items({text(a), text(b), text(c)}));
		Array<int> in; std::vector<int> m; for (int i = 0; i < b; ++i) { in.add(i + c); m.push_back(i + c); }
		holders.put(new Holder{in, a, String{w[c]}}, "{first = " + arrayText("int", texts(m)) + ", second = " + text(a) + ", third = " + text(std::string{w[c]}) + "}");
		atomics.put(new Atomic<int32>{a * 1000 + b}, text(a * 1000 + b)); wide_atomics.put(new Atomic<int64>{(int64)a << 40}, fmt("%lld", (long long)a << 40));
	}
	flags.put(new Atomic<bool>{true}, "true"); flags.put(new Atomic<bool>{false}, "false");
	sequences(5, 4, [](const std::vector<int> & s)
	{
		auto * o = new Optional<int>; auto * os = new Optional<String>; auto * op = new Optional<Point>; auto * oa = new Optional<Array<int>>; bool e = false; int v = 0; auto * l = new List<Optional<int>>; std::vector<std::string> lm;
		for (int c : s)
		{
			switch (c)
			{
			case 0: *o = Optional<int>{}; *os = Optional<String>{}; *op = Optional<Point>{}; *oa = Optional<Array<int>>{}; e = false; break;
			case 1: case 2: case 3: { e = true; v = c; *o = c; *os = String{c == 1 ? "" : "s"}; *op = Point{c, 0}; Array<int> a; for (int i = 1; i < c; ++i) a.add(i); *oa = a; break; }
			case 4: o = new Optional<int>{*o}; os = new Optional<String>{*os}; op = new Optional<Point>{*op}; oa = new Optional<Array<int>>{*oa}; break;
			}
			l->pushBack(*o); lm.push_back(e ? text(v) : "(nil)");
		}
		std::vector<int> m; for (int i = 1; i < v; ++i) m.push_back(i);
		optionals.put(o, e ? text(v) : "(nil)"); string_optionals.put(os, e ? text(std::string{v == 1 ? "" : "s"}) : "(nil)"); point_optionals.put(op, e ? text(Point{v, 0}) : "(nil)"); array_optionals.put(oa, e ? arrayText("int", texts(m)) : "(nil)");
		optional_lists.put(l, listText("Optional<int>", lm));
	});
}

TABLE(Vec2<float>, float2s) TABLE(Vec3<float>, float3s) TABLE(Vec4<float>, float4s) TABLE(Vec2<int32>, int2s) TABLE(Vec3<int32>, int3s) TABLE(Vec4<int32>, int4s) TABLE(Vec3<double>, double3s) TABLE(Quat, quats)
static void mathStates()
{
	const double values[] = {0, 1, -2.5, 3e6};
	for (double a : values) for (double b : values)
	{
		++transitions;
		float2s.put(new Vec2<float>{(float)a, (float)b}, "float2{" + text(a) + ", " + text(b) + "}"); int2s.put(new Vec2<int32>{(int)a, (int)b}, "int2{" + text((int)a) + ", " + text((int)b) + "}");
		for (double c : values)
		{
			float3s.put(new Vec3<float>{(float)a, (float)b, (float)c}, "float3{" + text(a) + ", " + text(b) + ", " + text(c) + "}");
			double3s.put(new Vec3<double>{a, b, c}, "double3{" + text(a) + ", " + text(b) + ", " + text(c) + "}");
			int3s.put(new Vec3<int32>{(int)a, (int)b, (int)c}, "int3{" + text((int)a) + ", " + text((int)b) + ", " + text((int)c) + "}");
			for (double d : values)
			{
				float4s.put(new Vec4<float>{(float)a, (float)b, (float)c, (float)d}, "float4{" + text(a) + ", " + text(b) + ", " + text(c) + ", " + text(d) + "}");
				int4s.put(new Vec4<int32>{(int)a, (int)b, (int)c, (int)d}, "int4{" + text((int)a) + ", " + text((int)b) + ", " + text((int)c) + ", " + text((int)d) + "}");
			}
		}
	}
	// rotations: the numbers are compared with a tolerance; the axis of no rotation is null
	for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
	{
		if (!x && !y && !z) { quats.put(new Quat, "quat<~0 rad around {~0, ~0, ~0}>"); continue; }
		double n = std::sqrt(x * x + y * y + z * z);
		for (int k = 0; k < 12; ++k)
		{
			double angle = k * 0.5; ++transitions;
			auto * q = new Quat{(float)angle, Vec3<float>{(float)(x / n), (float)(y / n), (float)(z / n)}};
			// a rotation that was undone, up to rounding: no angle, and whatever axis
			const Quat u = *q * -*q, v = -*q * *q;
			quats.put(new Quat{u}, "quat<~6.28318531 rad around {~?, ~?, ~?}>"); quats.put(new Quat{u * v}, "quat<~0 rad around {~?, ~?, ~?}>");
			quats.put(q, k ? fmt("quat<~%.9g rad around {~%.9g, ~%.9g, ~%.9g}>", angle, x / n, y / n, z / n) : std::string{"quat<~0 rad around {~0, ~0, ~0}>"});
		}
	}
}

int main(int argc, char **)
{
	thorough = argc > 1;
	arrayStates(); listStates(); stringStates(); treeStates(); valueStates(); mathStates();
	for (auto f : closers) f();
	table_names = names.c_str();
	stop_here();
	return 0;
}
