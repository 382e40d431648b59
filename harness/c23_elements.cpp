// C23: Bulk element operations construct, copy, relocate and destroy exactly the elements of their
// range: all counts, offsets and overlaps within a small buffer, for five kinds of element.
#include "track.h"
#include <new>

struct Odd { char c[3]; };			// trivial, and no multiple of a word
struct Own							// trivial to construct and destroy, but copied in its own way
{
	int32 v, check;
	Own() = default;
	Own(int32 x) : v{x}, check{~x} {}
	Own(const Own & o) : v{o.v}, check{~o.v} {}
	Own & operator=(const Own & o) { v = o.v; check = ~o.v; return *this; }
};
struct Mov : Obj { Mov(int32 v = 0) : Obj{v} {} Mov(Mov && o) = default; Mov & operator=(Mov && o) = default; Mov(const Mov&) = delete; Mov & operator=(const Mov&) = delete; };

template<typename T> struct K { static T make(int32 v) { return T{v}; } static int32 get(const T & t) { return val(t); } };
template<> struct K<Odd> { static Odd make(int32 v) { return Odd{{(char)v, (char)(v + 1), (char)~v}}; } static int32 get(const Odd & t) { MC_CHECK(t.c[1] == (char)(t.c[0] + 1) && t.c[2] == (char)~t.c[0], "an item is torn"); return t.c[0]; } };
template<> struct K<Own> { static Own make(int32 v) { return Own{v}; } static int32 get(const Own & t) { if (t.check != ~t.v) mc::fail("an item is not a proper copy"); return t.v; } };
template<typename T> constexpr bool counted = std::is_base_of<Obj, T>::value;

// A buffer of raw places in exactly sized memory, some of which hold an item
template<typename T>
struct Buffer
{
	int n; T * p; std::vector<int32> model;		// 0: raw
	Buffer(int n) : n{n}, p{(T*)::aligned_alloc(alignof(T), n ? (n * sizeof(T) + alignof(T) - 1) / alignof(T) * alignof(T) : alignof(T))}, model(n, 0) { if (n) ::memset((void*)p, 0xA5, n * sizeof(T)); }
	void put(int i, int32 v) { new (p + i) T(K<T>::make(v)); model[i] = v; }
	void check(const char * what)
	{
		size_t live = 0;
		for (int i = 0; i < n; ++i)
		{
			if (model[i]) { int32 v = K<T>::get(p[i]); ++live; MC_CHECK(v == model[i], "%s: item %d is %d, expected %d", what, i, v, model[i]); }
			else if (!counted<T>) continue;
			else MC_CHECK(!objs().live.count(p + i), "%s: a live item is left at %d", what, i);
		}
		if (counted<T>) objs().expect(live + others, what);
	}
	size_t others = 0;
	~Buffer() { for (int i = 0; i < n; ++i) if (model[i]) p[i].~T(); ::free(p); }
};

template<typename T> static void relocate()
{
	objs().live.clear();
	{
		const int N = mc::bound(9, 13);
		int n = mc::choose(N + 1), src = mc::choose(N - n + 1), dst = mc::choose(N - n + 1);
		Buffer<T> b{N};
		for (int i = 0; i < N; ++i) if ((i >= src && i < src + n) || !(i >= dst && i < dst + n)) b.put(i, i + 1);
		mc::note("relocate %d items from %d to %d of %d", n, src, dst, N);
		Memory::moveElements(b.p + dst, b.p + src, n);
		std::vector<int32> m = b.model;
		for (int i = 0; i < n; ++i) m[src + i] = 0;
		for (int i = 0; i < n; ++i) m[dst + i] = b.model[src + i];
		b.model = m;
		b.check("relocation");
	}
	objs().expectEmpty("at end");
}

template<typename T> static void construct()
{
	objs().live.clear();
	{
		const int N = mc::bound(12, 24);
		int n = mc::choose(N + 1), at = mc::choose(N - n + 1);
		Buffer<T> b{N};
		for (int i = 0; i < N; ++i) if (i < at || i >= at + n) b.put(i, i + 1);
		mc::note("construct %d items at %d of %d, then destroy them", n, at, N);
		Memory::constructDefaultElements(b.p + at, b.p + at + n);
		if (counted<T>) { objs().expect(N, "default construction"); for (int i = 0; i < n; ++i) MC_CHECK(K<T>::get(b.p[at + i]) == 0, "default constructed item %d", i); }
		for (int i = 0; i < n; ++i) { T t = K<T>::make(50 + i); if (!counted<T>) new (b.p + at + i) T(move(t)); else b.p[at + i] = move(t); b.model[at + i] = 50 + i; }
		b.check("default construction");
		Memory::destroyElements(b.p + at, b.p + at + n);
		for (int i = 0; i < n; ++i) b.model[at + i] = 0;
		b.check("destruction");
	}
	objs().expectEmpty("at end");
}

template<typename T> static void copies()
{
	objs().live.clear();
	{
		const int N = mc::bound(8, 11);
		int n = mc::choose(N + 1), src = mc::choose(N - n + 1), dst = mc::choose(N - n + 1); bool onto = mc::choose(2);
		Buffer<T> a{N}, b{N};
		for (int i = 0; i < N; ++i) a.put(i, i + 1);
		for (int i = 0; i < N; ++i) if (onto || i < dst || i >= dst + n) b.put(i, i + 21);
		mc::note("%s %d items from %d to %d of %d", onto ? "copy" : "construct copies of", n, src, dst, N);
		const T * from = a.p + src;
		if (onto) Memory::copyElements(b.p + dst, from, n); else Memory::constructCopyElements(b.p + dst, from, n);
		for (int i = 0; i < n; ++i) b.model[dst + i] = a.model[src + i];
		a.others = b.others = counted<T> ? N : 0;
		a.check("copy (its source)"); b.check("copy");
	}
	objs().expectEmpty("at end");
}

// Exchange of values, and casts that keep or drop what an expression is
template<typename T> static void exchange()
{
	objs().live.clear();
	{
		int x = 1 + mc::choose(9), y = 1 + mc::choose(9); bool same = mc::choose(2);
		T a = K<T>::make(x), b = K<T>::make(y);
		mc::note("swap %d and %d", x, y);
		if (same) { swap(a, b); swap(b, a); swap(a, b); } else swap(a, b);
		MC_CHECK(K<T>::get(a) == y && K<T>::get(b) == x, "swap of %d and %d gives %d and %d", x, y, K<T>::get(a), K<T>::get(b));
		if (counted<T>) objs().expect(2, "swap");
		T c = move(a); MC_CHECK(K<T>::get(c) == y, "move");
		T & r = forward<T&>(b); MC_CHECK(&r == &b && K<T>::get(b) == x, "forwarding an lvalue");
		T && rr = forward<T>(b); MC_CHECK(&rr == &b && K<T>::get(b) == x, "forwarding as an rvalue");
		T && m = move(b); MC_CHECK(&m == &b && K<T>::get(b) == x, "move by itself changes nothing");
	}
	objs().expectEmpty("at end");
}
static int category(int &) { return 0; } static int category(const int &) { return 1; } static int category(int &&) { return 2; } static int category(const int &&) { return 3; }
template<typename T> static int through(T && t) { return category(forward<T>(t)); }
static void categories()
{
	int x = 5; const int y = 6;
	MC_CHECK(through(x) == 0 && through(y) == 1 && through(7) == 2 && through((const int&&)y) == 3, "forwarded value categories");
	MC_CHECK(category(move(x)) == 2 && category(move(y)) == 3 && category(move((int&&)x)) == 2, "moved value categories");
	constexpr int z = forward<const int&&>(9) + move(4); MC_CHECK(z == 13, "at compile time");
	mc::outcome("ok");
}

// Long ranges, of counts around the powers of two: within one buffer by every kind of shift, and between two
template<typename T> static void longRanges()
{
	objs().live.clear();
	{
		int n = (1 << mc::exponent(4, mc::bound(8, 14), true)) + mc::choose(3) - 1, how = mc::choose(7);
		const int shifts[] = {1, 2, 3, n / 2, n - 1, n, n + 5}, by = shifts[mc::choose(7)];
		mc::note("%d items, form %d, by %d", n, how, by);
		auto value = [](int i) { return i % 100 + 1; };
		const int N = n + by + 3;
		Buffer<T> b{N}; int src = 0, dst = 0;
		switch (how)
		{
		case 0: src = 2, dst = 2 + by; break;
		case 1: src = 2 + by, dst = 2; break;
		case 2: src = dst = 2; break;
		default: src = dst = 1;
		}
		if (how < 3)
		{
			b.put(0, 7); b.put(N - 1, 9);
			for (int i = 0; i < n; ++i) b.put(src + i, value(i));
			Memory::moveElements(b.p + dst, b.p + src, n);
			for (int i = 0; i < n; ++i) b.model[src + i] = 0;
			for (int i = 0; i < n; ++i) b.model[dst + i] = value(i);
			b.check("relocation");
		}
		else
		{
			if (how == 6 && !std::is_same<T, Obj>::value) throw mc::Abandon{};
			Buffer<T> c{n + 2};
			b.put(0, 7); c.put(0, 8); c.put(n + 1, 9);
			for (int i = 0; i < n; ++i) b.put(1 + i, value(i));
			if (how == 4) for (int i = 0; i < n; ++i) c.put(1 + i, 99);
			if (how == 3) { Memory::moveElements(c.p + 1, b.p + 1, n); for (int i = 0; i < n; ++i) b.model[1 + i] = 0; }
			if constexpr (std::is_copy_constructible<T>::value)
			{
				if (how == 4) Memory::copyElements(c.p + 1, (const T*)b.p + 1, n);
				if (how == 5) Memory::constructCopyElements(c.p + 1, (const T*)b.p + 1, n);
			}
			else if (how != 3) throw mc::Abandon{};
			if (how == 6) { Memory::constructDefaultElements(c.p + 1, c.p + 1 + n); objs().expect(2 * n + 3, "default construction"); Memory::destroyElements(c.p + 1, c.p + 1 + n); }
			else for (int i = 0; i < n; ++i) c.model[1 + i] = value(i);
			size_t inB = 0, inC = 0; for (int v : b.model) inB += v != 0; for (int v : c.model) inC += v != 0;
			b.others = counted<T> ? inC : 0; c.others = counted<T> ? inB : 0;
			b.check("long range (source)"); c.check("long range");
		}
		mc::outcome(std::to_string(how));
	}
	objs().expectEmpty("at end");
}

// Every single element of a buffer, and values exchanged through references into one buffer
template<typename T> static void exchangeWithin()
{
	objs().live.clear();
	{
		const int N = mc::bound(6, 10); int i = mc::choose(N), j = mc::choose(N);
		Buffer<T> b{N}; for (int k = 0; k < N; ++k) b.put(k, k + 1);
		mc::note("swap places %d and %d of %d", i, j, N);
		swap(b.p[i], b.p[j]); std::swap(b.model[i], b.model[j]);
		b.check("swap");
	}
	objs().expectEmpty("at end");
}

static void setup()
{
	mc::add("relocate_int", 1, relocate<int32>); mc::add("relocate_odd", 1, relocate<Odd>); mc::add("relocate_own", 1, relocate<Own>); mc::add("relocate_obj", 1, relocate<Obj>); mc::add("relocate_mov", 1, relocate<Mov>);
	mc::add("construct_int", 1, construct<int32>); mc::add("construct_odd", 1, construct<Odd>); mc::add("construct_own", 1, construct<Own>); mc::add("construct_obj", 1, construct<Obj>); mc::add("construct_mov", 1, construct<Mov>);
	mc::add("copies_int", 1, copies<int32>); mc::add("copies_odd", 1, copies<Odd>); mc::add("copies_own", 1, copies<Own>); mc::add("copies_obj", 1, copies<Obj>);
	mc::add("exchange_int", 1, exchange<int32>); mc::add("exchange_odd", 1, exchange<Odd>); mc::add("exchange_own", 1, exchange<Own>); mc::add("exchange_obj", 1, exchange<Obj>); mc::add("exchange_mov", 1, exchange<Mov>);
	mc::add("long_int", 1, longRanges<int32>); mc::add("long_odd", 1, longRanges<Odd>); mc::add("long_own", 1, longRanges<Own>); mc::add("long_obj", 4, longRanges<Obj>); mc::add("long_mov", 4, longRanges<Mov>);
	mc::add("within_int", 1, exchangeWithin<int32>); mc::add("within_odd", 1, exchangeWithin<Odd>); mc::add("within_own", 1, exchangeWithin<Own>); mc::add("within_obj", 1, exchangeWithin<Obj>); mc::add("within_mov", 1, exchangeWithin<Mov>);
	mc::add("categories", 1, categories);
}
MC_MAIN(setup)
