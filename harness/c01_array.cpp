// C01: Array agrees with a plain sequence under every operation history.
#include "track.h"
#include "containers/array.h"
#include "containers/string.h"

using Model = std::vector<int32>;

struct Pod { int32 v; char pad[9]; };	// trivial, odd size
struct Cpy								// trivial default constructor, copying of its own
{
	int32 v; int32 check;
	Cpy() = default;
	Cpy(int32 x) : v{x}, check{~x} {}
	Cpy(const Cpy & o) : v{o.v}, check{~o.v} { }
	Cpy & operator=(const Cpy & o) { v = o.v; check = ~o.v; return *this; }
};
struct Mov								// can only be moved, and knows where it is
{
	int32 v; Mov * self = this;
	Mov(int32 x = 0) : v{x} {}
	Mov(Mov && o) : v{o.v} { o.v = -7; }
	Mov & operator=(Mov && o) { v = o.v; if (&o != this) o.v = -7; return *this; }
	Mov(const Mov&) = delete;
	Mov & operator=(const Mov&) = delete;
	~Mov() { if (self != this) mc::fail("destructor runs on an element that was not moved properly"); self = nullptr; }
};
template<typename T> constexpr bool copies = true;
template<> constexpr bool copies<Mov> = false;
inline int32 val(const Mov & p) { if (p.self != &p) mc::fail("an element that can only be moved was copied bitwise"); return p.v; }
inline int32 val(const Pod & p) { return p.v; }
inline int32 val(const Cpy & p) { if (p.check != ~p.v) mc::fail("element is not a proper copy"); return p.v; }

template<typename T> T make(int32 v) { return T{v}; }
template<> Pod make<Pod>(int32 v) { return Pod{v, {}}; }
template<typename T> constexpr bool isObj = false;
template<> constexpr bool isObj<Obj> = true;

static int nextValue;

template<typename T>
void compare(Array<T> & a, const Model & m, const char * op)
{
	if (!mc::fresh()) return;
	const Array<T> & c = a;
	MC_CHECK(a.getCount() == m.size(), "after %s: count %llu, expected %zu", op, (unsigned long long)a.getCount(), m.size());
	MC_CHECK(a.isEmpty() == m.empty(), "after %s: isEmpty", op);
	MC_CHECK(a.getBytes() == m.size() * sizeof(T), "after %s: getBytes", op);
	MC_CHECK(c.getSize() == m.size() && c.getNum() == m.size(), "after %s: count aliases", op);
	for (size_t i = 0; i < m.size(); ++i)
	{
		MC_CHECK(val(a[i]) == m[i] && val(c[i]) == m[i] && val((*a)[i]) == m[i] && val(a.getAt(i)) == m[i],
			"after %s: item %zu is %d, expected %s", op, i, val(a[i]), show(m).c_str());
	}
	size_t k = 0;
	for (auto & x : a) { MC_CHECK(k < m.size() && val(x) == m[k], "after %s: iteration differs at %zu", op, k); ++k; }
	MC_CHECK(k == m.size(), "after %s: iteration visits %zu of %zu", op, k, m.size());
	k = 0;
	for (const auto & x : c) { MC_CHECK(k < m.size() && val(x) == m[k], "after %s: const iteration differs", op); ++k; }
	MC_CHECK(k == m.size(), "after %s: const iteration count", op);
	if (isObj<T>) objs().expect(m.size(), op);
}

// One arbitrary operation on (array, model)
template<typename T>
void step(Array<T> & a, Model & m)
{
	const int n = (int)m.size();
	int v = nextValue, w = nextValue + 1, x = nextValue + 2;
	nextValue += 3;
	enum { InsertLast, InsertFirst, InsertAt, Add2, Insert2First, Insert3At, Call, RemoveFirst, RemoveLast, RemoveAt, RemoveMany, PopAt, PopFirst, PopLast, Empty, Reset, Write, NumOps };
	int op = mc::choose(NumOps);
	const char * name = "";
	switch (op)
	{
	case InsertLast:
	{
		int how = mc::choose(3);
		name = "insertLast"; mc::note("insertLast/add/push(%d)", v);
		T & r = how == 0 ? a.insertLast(make<T>(v)) : how == 1 ? a.add(make<T>(v)) : a.push(make<T>(v));
		m.push_back(v);
		MC_CHECK(&r == &a[n], "insertLast returned a reference to another item");
		break;
	}
	case InsertFirst:
	{
		name = "insertFirst"; mc::note("insertFirst(%d)", v);
		T & r = a.insertFirst(make<T>(v));
		m.insert(m.begin(), v);
		MC_CHECK(&r == &a[0], "insertFirst returned a reference to another item");
		break;
	}
	case InsertAt:
	{
		int i = mc::choose(n + 1);
		name = "insertAt"; mc::note("insertAt(%d, lvalue %d)", i, v);
		T item = make<T>(v);	// from an lvalue: must be copied, not moved
		T * r;
		if constexpr (copies<T>) { r = &a.insertAt(i, item); MC_CHECK(val(item) == v, "insertAt modified its argument"); }
		else r = &a.insertAt(i, move(item));
		m.insert(m.begin() + i, v);
		MC_CHECK(r == &a[i], "insertAt returned a reference to another item");
		break;
	}
	case Add2:
		name = "insertLast x2"; mc::note("insertLast(%d, %d)", v, w);
		a.insertLast(make<T>(v), make<T>(w));
		m.push_back(v); m.push_back(w);
		break;
	case Insert2First:
		name = "insertFirst x2"; mc::note("insertFirst(%d, %d)", v, w);
		a.insertFirst(make<T>(v), make<T>(w));
		m.insert(m.begin(), {v, w});
		break;
	case Insert3At:
	{
		int i = mc::choose(n + 1);
		name = "insertAt x3"; mc::note("insertAt(%d, %d, %d, %d)", i, v, w, x);
		a.insertAt(i, make<T>(v), make<T>(w), make<T>(x));
		m.insert(m.begin() + i, {v, w, x});
		break;
	}
	case Call:
	{
		int i = mc::choose(n + 1);
		name = "operator()"; mc::note("(%d, %d)", i, v);
		T & r = a(i, make<T>(v));
		if (i == n) m.push_back(v);
		MC_CHECK(&r == &a[i], "operator() returned a reference to another item");
		break;
	}
	case RemoveFirst:
		if (n == 0) return;
		name = "removeFirst"; mc::note("removeFirst()");
		a.removeFirst(); m.erase(m.begin());
		break;
	case RemoveLast:
		if (n == 0) return;
		name = "removeLast"; mc::note("removeLast()");
		a.removeLast(); m.pop_back();
		break;
	case RemoveAt:
	{
		if (n == 0) return;
		int i = mc::choose(n);
		name = "removeAt"; mc::note("removeAt(%d)", i);
		a.removeAt(i); m.erase(m.begin() + i);
		break;
	}
	case RemoveMany:
	{
		int i = mc::choose(n + 1), num = mc::choose(n - i + 1);
		name = "removeAt many"; mc::note("removeAt(%d, %d)", i, num);
		a.removeAt(i, num); m.erase(m.begin() + i, m.begin() + i + num);
		break;
	}
	case PopAt: case PopFirst: case PopLast:
	{
		if (n == 0) return;
		int i = op == PopAt ? mc::choose(n) : op == PopFirst ? 0 : n - 1;
		name = "pop"; mc::note("pop at %d", i);
		{
			T out = make<T>(-5);
			if (op == PopAt) a.popAt(i, out); else if (op == PopFirst) a.popFirst(out); else a.popLast(out);
			MC_CHECK(val(out) == m[i], "pop returned %d, expected %d", val(out), m[i]);
		}
		m.erase(m.begin() + i);
		break;
	}
	case Empty:
	{
		int how = mc::choose(2);
		name = "empty"; mc::note("empty()");
		if (how) a.clear(); else a.empty();
		m.clear();
		break;
	}
	case Reset:
		name = "reset"; mc::note("reset()");
		a.reset(); m.clear();
		break;
	case Write:
	{
		if (n == 0) return;
		int i = mc::choose(n);
		name = "write"; mc::note("[%d] = %d", i, v);
		a[i] = make<T>(v); m[i] = v;
		break;
	}
	}
	compare(a, m, name);
}

// Every start shape, every history of `depth` operations
template<typename T>
void histories(int depth)
{
	TrackGlobal g;
	nextValue = 100;
	{
		int shape = mc::choose(6);
		Model m;
		T src[6] = {make<T>(1), make<T>(2), make<T>(3), make<T>(4), make<T>(5), make<T>(6)};
		size_t extra = isObj<T> ? 6 : 0;
		if (isObj<T>) for (auto & s : src) objs().live.erase(&s);	// judged separately from the items
		auto readd = [&]() { if (isObj<T>) for (auto & s : src) objs().live.emplace(&s, 1); };
		readd();
		Array<T> * a;
		switch (shape)
		{
		case 0: a = new Array<T>(); mc::note("Array()"); break;
		case 1: case 2: case 3:
			if constexpr (copies<T>)
			{
				int num = shape == 1 ? 1 : shape + 1, slack = shape == 2 ? 2 : 0;
				a = new Array<T>((const T*)src, (uint64)num, (uint64)slack); for (int i = 1; i <= num; ++i) m.push_back(i); mc::note("Array(buf, %d, slack %d)", num, slack);
			}
			else
			{
				a = new Array<T>(); for (int i = 1; i <= shape; ++i) { a->add(make<T>(i)); m.push_back(i); } mc::note("Array of %d", shape);
			}
			break;
		case 4: a = new Array<T>((uint64)3, (uint64)0); mc::note("Array(capacity 3)"); break;
		default: a = new Array<T>(gMalloc); mc::note("Array(malloc)"); break;
		}
		// the stack sources stay alive until the end, so count only the others from here
		if (isObj<T>) for (auto & s : src) objs().live.erase(&s);
		struct Guard { Array<T> * a; decltype(readd) & r; ~Guard() { delete a; r(); } } guard{a, readd};
		compare(*a, m, "construction");
		if (shape > 1) --depth;	// larger branching: one step less
		for (int d = 0; d < depth; ++d) step(*a, m);
		(void)extra;
	}
	g.expectEmpty("after the array was destroyed");
}

// Growth: long runs of appends/prepends/inserts with interleaved removals, all periods
template<typename T>
void growth()
{
	TrackGlobal g;
	nextValue = 0;
	{
		Array<T> a; Model m;
		int front = mc::choose(4), period = 1 + mc::choose(7), rem = mc::choose(4), len = mc::choose(mc::bound(40, 140));
		for (int i = 0; i < len; ++i)
		{
			int v = nextValue++;
			switch (front)
			{
			case 0: a.add(make<T>(v)); m.push_back(v); break;
			case 1: a.insertFirst(make<T>(v)); m.insert(m.begin(), v); break;
			case 2: a.insertAt(m.size() / 2, make<T>(v)); m.insert(m.begin() + m.size() / 2, v); break;
			default: { T & r = a(m.size(), make<T>(v)); m.push_back(v); MC_CHECK(val(r) == v, "operator() item"); } break;
			}
			if (i % period == period - 1)
			{
				if (rem == 1) { a.removeLast(); m.pop_back(); }
				else if (rem == 2) { a.removeFirst(); m.erase(m.begin()); }
				else if (rem == 3) { a.removeAt(m.size() / 2); m.erase(m.begin() + m.size() / 2); }
			}
		}
		mc::note("mode %d period %d removal %d length %d", front, period, rem, len);
		compare(a, m, "growth");
	}
	g.expectEmpty("after the array was destroyed");
}

// Writing past the end grows a trivial array and keeps the existing items
void sparse()
{
	TrackGlobal g;
	{
		Array<int32> a; Model m;
		int n = mc::choose(mc::bound(20, 70)); for (int i = 0; i < n; ++i) { a.add(i + 1); m.push_back(i + 1); }
		int gap = mc::choose(mc::bound(40, 300)), how = mc::choose(4);
		mc::note("%d items, write at +%d by %d", n, gap, how);
		int at = n + gap;
		if (how == 0) a(at) = 99;
		else if (how == 1) a(at, 99);
		else if (how == 2) a.insertAt(at, 99);
		else a.insertAt(at, 99, 98);
		size_t expect = at + (how == 3 ? 2 : 1);
		MC_CHECK(a.getCount() == expect, "count %llu after writing at %d", (unsigned long long)a.getCount(), at);
		for (int i = 0; i < n; ++i) MC_CHECK(a[i] == m[i], "item %d lost", i);
		MC_CHECK(a[at] == 99, "item at %d", at);
		if (how == 3) MC_CHECK(a[at + 1] == 98, "item at %d", at + 1);
		for (int i = 0; i < n; ++i) { MC_CHECK(&a(i) == &a[i] && a.getCount() == expect, "operator() on an existing item"); }
	}
	g.expectEmpty("after the array was destroyed");
}

// Random access laws of the iterators
void iterators()
{
	TrackGlobal g;
	{
		int n = 1 + mc::choose(6);
		Array<int32> a; for (int i = 0; i < n; ++i) a.add(i * 10);
		const Array<int32> & c = a;
		int i = mc::choose(n), j = mc::choose(n);
		mc::note("n=%d i=%d j=%d", n, i, j);
		auto laws = [&](auto begin, auto end)
		{
			auto x = begin + (uint64)i; auto y = begin + (uint64)j;
			MC_CHECK(*x == i * 10 && *y == j * 10, "begin()+k");
			MC_CHECK((x == y) == (i == j) && (x != y) == (i != j), "iterator equality");
			MC_CHECK((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "iterator order");
			MC_CHECK(*(end - (uint64)(n - i)) == i * 10, "end()-k");
			if (j >= i) MC_CHECK(x[(uint64)(j - i)] == j * 10, "iterator subscript");
			auto p = x; auto q = p++; MC_CHECK(*q == i * 10 && (i + 1 == n ? p == end : *p == (i + 1) * 10), "post-increment");
			auto r = p--; MC_CHECK(r != p && *p == i * 10, "post-decrement");
			auto s = x; ++s; --s; MC_CHECK(s == x && *s == i * 10, "pre-increment/decrement");
			s += (uint64)(n - i); MC_CHECK(s == end, "+="); s -= (uint64)(n - j); MC_CHECK(s == y, "-=");
			MC_CHECK(x.operator->() == &a[i], "operator->");
		};
		laws(a.begin(), a.end());
		laws(c.begin(), c.end());
	}
	g.expectEmpty("at end");
}

// toString lists the items in order
void printing()
{
	TrackGlobal g;
	{
		int n = mc::choose(6); Array<int32> a; std::string e = "[";
		for (int i = 0; i < n; ++i) { int v = mc::choose(3) * 7 - 7; a.add(v); e += (i ? ", " : "") + std::to_string(v); }
		e += "]";
		String s = a.toString();
		mc::note("%s", e.c_str());
		MC_CHECK(s == e.c_str(), "toString gives %s, expected %s", *s, e.c_str());
	}
	g.expectEmpty("at end");
}

// Long arrays: sizes around every power of two, filled in every way, then every operation at the
// positions where bookkeeping may go wrong
static int around(int maxBits)
{
	int b = mc::exponent(3, maxBits - 2, maxBits >= 14), d = mc::choose(3) - 1;
	return (1 << b) + d;
}
template<typename T>
void longArrays(int bits)
{
	TrackGlobal g;
	{
		int n = around(bits), fill = mc::choose(4), at3 = mc::choose(5), op = mc::choose(9), k = 0;
		Model m; Array<T> a; Array<T> * b = &a;
		auto build = [&]
		{
			switch (fill)
			{
			case 0: while (k < n) { a.add(make<T>(k)); m.push_back(k); ++k; } break;
			case 1: while (k < n) { T & r = a(m.size(), make<T>(k)); MC_CHECK(val(r) == k, "operator() item"); m.push_back(k); ++k; } break;
			case 2: while (k + 3 <= n) { a.insertLast(make<T>(k), make<T>(k + 1), make<T>(k + 2)); for (int i = 0; i < 3; ++i) m.push_back(k++); } while (k < n) { a.push(make<T>(k)); m.push_back(k); ++k; } break;
			default: while (k < n) { a.insertAt(m.size() - m.size() % 7 % (m.size() + 1), make<T>(k)); m.insert(m.begin() + (m.size() - m.size() % 7 % (m.size() + 1)), k); ++k; } break;
			}
		};
		build();
		int i = at3 == 0 ? 0 : at3 == 1 ? 1 : at3 == 2 ? n / 2 : at3 == 3 ? n - 2 : n - 1;
		mc::note("%d items by method %d, operation %d at %d", n, fill, op, i);
		const char * name = "filling";
		switch (op)
		{
		case 0: name = "insertAt"; { T item = make<T>(-3); a.insertAt(i, move(item)); } m.insert(m.begin() + i, -3); break;
		case 1: name = "insertAt x3"; a.insertAt(i, make<T>(-3), make<T>(-4), make<T>(-5)); m.insert(m.begin() + i, {-3, -4, -5}); break;
		case 2: name = "removeAt"; a.removeAt(i); m.erase(m.begin() + i); break;
		case 3: name = "removeAt many"; { int num = (n - i + 1) / 2; a.removeAt(i, num); m.erase(m.begin() + i, m.begin() + i + num); } break;
		case 4: name = "removeAt the rest"; a.removeAt(i, n - i); m.erase(m.begin() + i, m.end()); break;
		case 5: name = "pops"; { T out = make<T>(-5); for (int j = 0; j <= 9 && j < n; ++j) { int e = m.back(); a.popLast(out); m.pop_back(); MC_CHECK(val(out) == e, "popLast gives %d, expected %d", val(out), e); } } break;
		case 6: name = "empty and refill"; a.empty(); m.clear(); k = 0; build(); break;
		case 7: name = "reset and refill"; a.reset(); m.clear(); k = 0; build(); break;
		default: name = "removeFirst"; for (int j = 0; j <= 5; ++j) { a.removeFirst(); m.erase(m.begin()); } break;
		}
		a.add(make<T>(-9)); m.push_back(-9);
		compare(*b, m, name);
	}
	g.expectEmpty("after the array was destroyed");
}

// What is inserted is an item of the array itself, or part of one
template<typename T>
void ownItems()
{
	TrackGlobal g;
	{
		int n = 1 + mc::choose(mc::bound(9, 17)), op = mc::choose(8), j = mc::choose(n), part = mc::choose(2), spare = mc::choose(3), k = n > 4 ? 3 * j % n : 0;
		Array<T> a; Model m;
		for (int i = 0; i < n + spare; ++i) a.add(make<T>(i + 1));
		while (a.getCount() > (uint64)n) a.removeLast();
		for (int i = 0; i < n; ++i) m.push_back(i + 1);
		int at = op == 3 || op == 4 ? mc::choose(n + 1) : 0;
		mc::note("%d items, room for %d more, operation %d at %d of item %d%s", n, spare, op, at, j, part ? " (a member of it)" : "");
		auto work = [&](auto && one, auto && two) {
			using One = decltype(one); using Two = decltype(two); T * r = nullptr; int v = j + 1, w = k + 1;
			switch (op)
			{
				case 0: r = &a.insertLast(static_cast<One>(one)); m.push_back(v); break;
				case 1: a.insertLast(static_cast<One>(one), static_cast<Two>(two)); m.push_back(v); m.push_back(w); break;
				case 2: r = &a.insertFirst(static_cast<One>(one)); m.insert(m.begin(), v); break;
				case 3: r = &a.insertAt(at, static_cast<One>(one)); m.insert(m.begin() + at, v); break;
				case 4: a.insertAt(at, static_cast<One>(one), make<T>(-3), static_cast<Two>(two)); m.insert(m.begin() + at, {v, -3, w}); break;
				case 5: a.insertFirst(static_cast<One>(one), static_cast<Two>(two)); m.insert(m.begin(), {v, w}); break;
				case 6: r = &a(n, static_cast<One>(one)); m.push_back(v); break;
				case 7: r = &a.push(static_cast<One>(one)); m.push_back(v); break;
			}
			if (r) MC_CHECK(val(*r) == v, "the inserted item is %d, expected %d", val(*r), v);
		};
		if constexpr (!copies<T>)
		{
			if (part) { if (j == k && (op == 1 || op == 4 || op == 5)) return; int num = op == 1 || op == 5 ? 2 : op == 4 ? 3 : 1; bool two = num > 1; work(move(a[j]), move(a[k])); auto gone = [&](int q) { int s = op == 2 || op == 5 ? num : (op == 3 || op == 4) && at <= q ? num : 0; m[q + s] = -7; }; gone(j); if (two) gone(k); }
			else work(a[j].v, a[k].v);
		}
		else if constexpr (sizeof(T) == 4) work(a[j], a[k]);
		else if constexpr (!IsSameType<T, Cpy>::value) work(a[j], a[k]);
		else if (part) work(a[j].v, a[k].v);
		else work(a[j], a[k]);
		compare(a, m, "inserting an item of the array itself");
		a.add(make<T>(-9)); m.push_back(-9);
		compare(a, m, "inserting after that");
	}
	g.expectEmpty("after the array was destroyed");
}

void setup()
{
	mc::add("histories_int", 8, [] { histories<int32>(mc::bound(4, 5)); });
	mc::add("histories_obj", 8, [] { histories<Obj>(mc::bound(4, 5)); });
	mc::add("histories_pod", 4, [] { histories<Pod>(mc::bound(3, 4)); });
	mc::add("histories_cpy", 4, [] { histories<Cpy>(mc::bound(3, 4)); });
	mc::add("histories_mov", 4, [] { histories<Mov>(mc::bound(3, 4)); });
	mc::add("growth_mov", 1, growth<Mov>);
	mc::add("growth_int", 1, growth<int32>);
	mc::add("growth_obj", 1, growth<Obj>);
	mc::add("growth_cpy", 1, growth<Cpy>);
	mc::add("long_int", 8, [] { longArrays<int32>(mc::bound(14, 17)); });
	mc::add("long_pod", 4, [] { longArrays<Pod>(mc::bound(9, 13)); });
	mc::add("long_obj", 8, [] { longArrays<Obj>(mc::bound(10, 13)); });
	mc::add("long_cpy", 4, [] { longArrays<Cpy>(mc::bound(8, 12)); });
	mc::add("long_mov", 4, [] { longArrays<Mov>(mc::bound(8, 12)); });
	mc::add("own_items_int", 1, ownItems<int32>);
	mc::add("own_items_pod", 1, ownItems<Pod>);
	mc::add("own_items_cpy", 1, ownItems<Cpy>);
	mc::add("own_items_mov", 1, ownItems<Mov>);
	mc::add("own_items_obj", 1, ownItems<Obj>);
	mc::add("sparse", 1, sparse);
	mc::add("iterators", 1, iterators);
	mc::add("printing", 1, printing);
}
MC_MAIN(setup)
