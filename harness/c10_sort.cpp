// C10: sorting: an ordered permutation, keys and arguments kept together, nothing outside touched.
#include "track.h"
#include "algorithm/sort.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/string.h"
#include <limits>
#include <numeric>
#include <algorithm>

struct Item { int32 key, tag; };
struct Asc { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return (val(a) > val(b)) - (val(a) < val(b)); } };
struct Desc { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return Asc{}(b, a); } };
// A comparator that only reports magnitudes, as differences do
struct Diff { template<typename A, typename B> int32 operator()(const A & a, const B & b) const { return 3 * (val(a) - val(b)); } };
struct ByKey { int32 operator()(const Item & a, const Item & b) const { return (a.key > b.key) - (a.key < b.key); } };

// Values of a weak order: the used ranks form a prefix 0..k-1, so every tie pattern appears once
static std::vector<int32> sequence(int n)
{
	std::vector<int32> v; int used = 0;
	for (int i = 0; i < n; ++i) v.push_back(mc::choose(n));
	std::vector<bool> seen(n); int hi = -1;
	for (int x : v) { seen[x] = true; if (x > hi) hi = x; }
	for (int i = 0; i <= hi; ++i) if (!seen[i]) throw mc::Abandon{};
	(void)used;
	return v;
}

template<typename V> static bool ordered(const V & v, bool desc) { for (size_t i = 1; i < v.size(); ++i) if (desc ? v[i - 1] < v[i] : v[i - 1] > v[i]) return false; return true; }

// Every tie pattern of every length; pointers, array buffers, list iterators; three comparators
static void sorts()
{
	int n = mc::choose(mc::bound(8, 9));
	auto v = sequence(n);
	mc::note("sort %s", show(v).c_str());
	auto e = v; std::sort(e.begin(), e.end()); auto d = e; std::reverse(d.begin(), d.end());
	{
		// a window in a larger buffer
		int32 buf[12]; for (int i = 0; i < 12; ++i) buf[i] = -5; for (int i = 0; i < n; ++i) buf[2 + i] = v[i];
		Sort::quicksort(buf + 2, buf + 2 + n, Asc{});
		std::vector<int32> r(buf + 2, buf + 2 + n);
		MC_CHECK(r == e, "quicksort of %s gives %s", show(v).c_str(), show(r).c_str());
		for (int i = 0; i < 12; ++i) if (i < 2 || i >= 2 + n) MC_CHECK(buf[i] == -5, "quicksort of %s wrote outside its range", show(v).c_str());
	}
	{
		Array<int32> a; for (int x : v) a.add(x);
		Desc desc; Sort::quicksort(*a, *a + n, desc);
		std::vector<int32> r; for (uint64 i = 0; i < a.getCount(); ++i) r.push_back(a[i]);
		MC_CHECK(r == d, "descending quicksort of array %s gives %s", show(v).c_str(), show(r).c_str());
	}
	{
		List<int32> l; for (int x : v) l.pushBack(x);
		const Diff diff{}; Sort::quicksort(l.begin(), l.end(), diff);
		std::vector<int32> r; for (auto & x : l) r.push_back(x);
		MC_CHECK(r == e, "quicksort of list %s gives %s", show(v).c_str(), show(r).c_str());
	}
	{
		// items with equal keys are permuted, never duplicated or lost
		std::vector<Item> it; for (int i = 0; i < n; ++i) it.push_back({v[i], i});
		Sort::quicksort(it.data(), it.data() + n, ByKey{});
		int seen = 0;
		for (int i = 0; i < n; ++i) { MC_CHECK(it[i].key == e[i] && v[it[i].tag] == it[i].key, "quicksort by key of %s: item %d", show(v).c_str(), i); seen |= 1 << it[i].tag; }
		MC_CHECK(seen == (1 << n) - 1, "quicksort by key of %s lost an item", show(v).c_str());
	}
}

static void argsorts()
{
	int n = mc::choose(mc::bound(8, 9));
	auto v = sequence(n);
	mc::note("argsort %s", show(v).c_str());
	auto e = v; std::sort(e.begin(), e.end()); auto d = e; std::reverse(d.begin(), d.end());
	for (int mode = 0; mode < 3; ++mode)
	{
		int32 k[16]; int64 a[16];
		for (int i = 0; i < 16; ++i) { k[i] = -5; a[i] = -6; }
		for (int i = 0; i < n; ++i) { k[3 + i] = v[i]; a[3 + i] = 1000 + i; }
		if (mode == 0) Sort::argquicksort(k + 3, k + 3 + n, a + 3, Asc{});
		else if (mode == 1) { Desc c; Sort::argquicksort(k + 3, k + 3 + n, a + 3, c); }
		else
		{
			Array<int32> ka; List<int64> la; for (int i = 0; i < n; ++i) { ka.add(v[i]); la.pushBack((int64)(1000 + i)); }
			Sort::argquicksort(*ka, *ka + n, la.begin(), Diff{});
			int i = 0; for (auto & x : la) a[3 + i++] = x;
			for (i = 0; i < n; ++i) k[3 + i] = ka[i];
		}
		auto & want = mode == 1 ? d : e; int seen = 0;
		for (int i = 0; i < n; ++i)
		{
			MC_CHECK(k[3 + i] == want[i], "argquicksort (mode %d) of %s: keys out of order at %d", mode, show(v).c_str(), i);
			int o = (int)a[3 + i] - 1000;
			MC_CHECK(o >= 0 && o < n && v[o] == want[i], "argquicksort (mode %d) of %s: argument %d belongs to another key", mode, show(v).c_str(), i);
			seen |= 1 << o;
		}
		MC_CHECK(seen == (1 << n) - 1, "argquicksort of %s lost an argument", show(v).c_str());
		for (int i = 0; i < 16; ++i) if (i < 3 || i >= 3 + n) MC_CHECK(k[i] == -5 && a[i] == -6, "argquicksort of %s wrote outside its range", show(v).c_str());
	}
}

static void objects()
{
	TrackGlobal g;
	{
		int n = mc::choose(mc::bound(6, 7)); auto v = sequence(n);
		auto e = v; std::sort(e.begin(), e.end());
		mc::note("sort objects %s", show(v).c_str());
		{
			Array<Obj> a; for (int x : v) a.add(Obj{x});
			Sort::quicksort(*a, *a + n, Asc{});
			for (int i = 0; i < n; ++i) MC_CHECK(val(a[i]) == e[i], "quicksort of objects %s: item %d is %d", show(v).c_str(), i, val(a[i]));
			objs().expect(n, "after sorting");
			Array<Obj> b, c; for (int x : v) { b.add(Obj{x}); c.add(Obj{x + 100}); }
			Sort::argquicksort(*b, *b + n, *c, Asc{});
			for (int i = 0; i < n; ++i) MC_CHECK(val(b[i]) == e[i] && val(c[i]) == e[i] + 100, "argquicksort of objects %s: item %d", show(v).c_str(), i);
		}
	}
	g.expectEmpty("after sorting objects");
}

static void partitions()
{
	int n = mc::choose(mc::bound(7, 8)); std::vector<int32> v; for (int i = 0; i < n; ++i) v.push_back(mc::choose(n < 5 ? n : 5) * 2);
	int32 pivot = mc::choose(n + 2) * 2 - 1 + mc::choose(2);
	mc::note("partition %s by %d", show(v).c_str(), pivot);
	auto sorted = v; std::sort(sorted.begin(), sorted.end());
	for (int mode = 0; mode < 2; ++mode)
	{
		std::vector<int32> r; int cut;
		if (mode == 0)
		{
			int32 buf[12]; for (int i = 0; i < 12; ++i) buf[i] = -50; for (int i = 0; i < n; ++i) buf[2 + i] = v[i];
			int32 * p = Sort::partition(buf + 2, buf + 2 + n, pivot, Asc{});
			MC_CHECK(p >= buf + 2 && p <= buf + 2 + n, "partition of %s by %d returns a position outside the range", show(v).c_str(), pivot);
			cut = (int)(p - buf) - 2; r.assign(buf + 2, buf + 2 + n);
			for (int i = 0; i < 12; ++i) if (i < 2 || i >= 2 + n) MC_CHECK(buf[i] == -50, "partition wrote outside its range");
		}
		else
		{
			List<int32> l; for (int x : v) l.pushBack(x);
			auto it = Sort::partition(l.begin(), l.end(), pivot, Asc{});
			cut = 0; for (auto q = l.begin(); q != it; ++q) { if (++cut > n) mc::fail("partition of list %s returns a position outside the range", show(v).c_str()); }
			for (auto & x : l) r.push_back(x);
		}
		for (int i = 0; i < n; ++i) MC_CHECK((r[i] < pivot) == (i < cut), "partition of %s by %d gives %s cut at %d", show(v).c_str(), pivot, show(r).c_str(), cut);
		auto s = r; std::sort(s.begin(), s.end());
		MC_CHECK(s == sorted, "partition of %s by %d lost items: %s", show(v).c_str(), pivot, show(r).c_str());
	}
}

// swap of two values, also with itself
static void swaps()
{
	TrackGlobal g;
	{ Obj a{1}, b{2}; swap(a, b); MC_CHECK(val(a) == 2 && val(b) == 1, "swap of objects"); int32 x = 3, y = 4; swap(x, y); MC_CHECK(x == 4 && y == 3, "swap of integers");
	  Obj c{9}; swap(c, c); MC_CHECK(val(c) == 9, "swap with itself"); }
	g.expectEmpty("after swap");
}

// Long structured ranges: sizes around every power of two, nine orders
static std::vector<int32> order(int kind, int n)
{
	std::vector<int32> v(n);
	for (int i = 0; i < n; ++i) switch (kind)
	{
	case 0: v[i] = i; break;
	case 1: v[i] = n - i; break;
	case 2: v[i] = i < n / 2 ? i : n - i; break;
	case 3: v[i] = i < n / 2 ? n - i : i; break;
	case 4: v[i] = i % 7; break;
	case 5: v[i] = 5; break;
	case 6: v[i] = i & 1 ? i : -i; break;
	case 7: v[i] = (int32)((uint32)i * 2654435761u >> 8) - (1 << 23); break;
	case 8: v[i] = (int)(((long)i * 7919) % n); break;
	case 9: v[i] = i == n - 1 ? -1 : i; break;
	case 10: v[i] = i == 0 ? n : i; break;
	case 11: v[i] = i == n / 2 ? INT32_MAX : i == n / 3 ? INT32_MIN : i / 2; break;
	}
	return v;
}

static void longRanges()
{
	TrackGlobal g;
	{
		int ex = mc::exponent(2, mc::bound(10, 13), true), n = (1 << ex) + mc::choose(3) - 1, kind = mc::choose(12), how = mc::choose(6);
		if (ex == 16 && how < 5 && kind != 7 && kind != 8) throw mc::Abandon{};	// the square of its length
		auto v = order(kind, n); auto e = v; std::sort(e.begin(), e.end());
		mc::note("%d items, order %d, way %d", n, kind, how);
		switch (how)
		{
		case 0:
		{
			std::vector<int32> buf(n + 4, -77); std::copy(v.begin(), v.end(), buf.begin() + 2);
			Sort::quicksort(&buf[2], &buf[2] + n, Asc{});
			MC_CHECK(std::equal(e.begin(), e.end(), buf.begin() + 2), "quicksort of %d items, order %d", n, kind);
			MC_CHECK(buf[0] == -77 && buf[1] == -77 && buf[n + 2] == -77 && buf[n + 3] == -77, "quicksort of %d items wrote outside its range", n);
			break;
		}
		case 1:
		{
			Array<int32> a; for (int x : v) a.add(x);
			Sort::quicksort(*a, *a + n, Desc{});
			for (int i = 0; i < n; ++i) MC_CHECK(a[i] == e[n - 1 - i], "descending quicksort of %d items, order %d: item %d", n, kind, i);
			break;
		}
		case 2:
		{
			List<int32> l; for (int x : v) l.pushBack(x);
			Sort::quicksort(l.begin(), l.end(), Asc{});
			int i = 0; for (auto & x : l) { MC_CHECK(x == e[i], "quicksort of a list of %d items, order %d: item %d", n, kind, i); ++i; }
			break;
		}
		case 3: case 4:
		{
			std::vector<int32> k = v; std::vector<int64> a(n + 1, -6); std::iota(a.begin(), a.begin() + n, (int64)1 << 40);
			if (how == 3) Sort::argquicksort(k.data(), k.data() + n, a.data(), Asc{}); else Sort::argquicksort(k.data(), k.data() + n, a.data(), Desc{});
			if (how == 4) std::reverse(e.begin(), e.end());
			MC_CHECK(k == e && a[n] == -6, "argquicksort of %d items, order %d", n, kind);
			std::vector<bool> seen(n);
			for (int i = 0; i < n; ++i)
			{
				int64 o = a[i] - ((int64)1 << 40);
				MC_CHECK(o >= 0 && o < n && v[o] == e[i] && !seen[o], "argquicksort of %d items, order %d: argument %d", n, kind, i);
				seen[o] = true;
			}
			break;
		}
		case 5:
		{
			int32 pivot = v[n / 2]; auto r = v;
			int32 * cut = Sort::partition(r.data(), r.data() + n, pivot, Asc{});
			for (int i = 0; i < n; ++i) MC_CHECK((r[i] < pivot) == (r.data() + i < cut), "partition of %d items, order %d: item %d", n, kind, i);
			std::sort(r.begin(), r.end()); MC_CHECK(r == e, "partition of %d items, order %d lost items", n, kind);
			break;
		}
		}
	}
	g.expectEmpty("at end");
}

// Other kinds of items: every tie pattern through values of each type, the extremes among them
template<typename T> struct Pick;
#define PICK(T, ...) template<> struct Pick<T> { static T get(int i) { static const T v[] = {__VA_ARGS__}; return v[i]; } };
PICK(int8, -128, -1, 0, 1, 2, 126, 127)
PICK(uint8, 0, 1, 2, 127, 128, 254, 255)
PICK(int64, std::numeric_limits<int64>::min(), -4294967297ll, -1, 0, 4294967296ll, 4294967297ll, std::numeric_limits<int64>::max())
PICK(uint64, 0, 1, 4294967295ull, 4294967296ull, 9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull)
PICK(float32, -INFINITY, -1.5f, -1e-40f, 0.f, 1e-40f, 1.5f, INFINITY)
PICK(float64, -1.7e308, -1.0, -5e-324, 0.0, 0.1, 0.30000000000000004, 1.7e308)
template<> struct Pick<String> { static String get(int i) { static const char * v[] = {"", "A", "a", "aa", "aaaaaaaaaaaaaaaaaaaaaaaa", "ab", "b"}; return String{v[i]}; } };
struct Plain { template<typename T> int32 operator()(const T & a, const T & b) const { return (a > b) - (a < b); } };

template<typename T> static void kinds()
{
	TrackGlobal g;
	{
		int n = mc::choose(mc::bound(7, 8)); auto v = sequence(n);
		auto e = v; std::sort(e.begin(), e.end());
		mc::note("sort %s", show(v).c_str());
		Array<T> a, b; Array<int32> c;
		for (int x : v) { a.add(Pick<T>::get(x)); b.add(Pick<T>::get(x)); c.add(x); }
		Sort::quicksort(*a, *a + n, Plain{});
		for (int i = 0; i < n; ++i) MC_CHECK(a[i] == Pick<T>::get(e[i]), "quicksort of ranks %s: item %d", show(v).c_str(), i);
		Sort::argquicksort(*b, *b + n, *c, Plain{});
		for (int i = 0; i < n; ++i) MC_CHECK(b[i] == Pick<T>::get(e[i]) && c[i] == e[i], "argquicksort of ranks %s: item %d", show(v).c_str(), i);
	}
	g.expectEmpty("at end");
}

// The comparator: any callable, kept by reference where it is an lvalue, its answer's sign alone counts
static void comparators()
{
	int n = mc::choose(mc::bound(7, 8)); auto v = sequence(n); int way = mc::choose(4);
	auto e = v; std::sort(e.begin(), e.end());
	mc::note("sort %s, way %d", show(v).c_str(), way);
	auto r = v; long calls = 0;
	auto count = [&calls](int32 a, int32 b) { ++calls; return a > b ? INT32_MAX : a < b ? INT32_MIN : 0; };
	struct Stateful { long calls = 0; int32 operator()(const int32 & a, const int32 & b) { ++calls; return a - b; } } st;
	if (way == 0) Sort::quicksort(r.data(), r.data() + n, count);
	else if (way == 1) Sort::quicksort(r.data(), r.data() + n, st);
	else if (way == 2) { auto f = +[](int32 a, int32 b) -> int32 { return a < b ? -1 : a > b; }; Sort::quicksort(r.data(), r.data() + n, f); }
	else { std::vector<int32> a = v; Sort::argquicksort(r.data(), r.data() + n, a.data(), st); MC_CHECK(a == e, "argquicksort of %s: arguments", show(v).c_str()); }
	MC_CHECK(r == e, "quicksort of %s, way %d, gives %s", show(v).c_str(), way, show(r).c_str());
	MC_CHECK(n < 2 || way == 2 || (way == 0 ? calls : st.calls) > 0, "quicksort used a copy of its comparator");
}

static void setup()
{
	mc::add("long_ranges", 4, longRanges);
	mc::add("kind_int8", 2, kinds<int8>); mc::add("kind_uint8", 2, kinds<uint8>); mc::add("kind_int64", 2, kinds<int64>); mc::add("kind_uint64", 2, kinds<uint64>);
	mc::add("kind_float32", 2, kinds<float32>); mc::add("kind_float64", 2, kinds<float64>); mc::add("kind_string", 4, kinds<String>);
	mc::add("comparators", 4, comparators);
	mc::add("quicksort", 8, sorts);
	mc::add("argquicksort", 8, argsorts);
	mc::add("objects", 8, objects);
	mc::add("partition", 8, partitions);
	mc::add("swaps", 1, swaps);
}
MC_MAIN(setup)
