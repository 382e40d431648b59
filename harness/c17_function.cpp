// C17: Function calls the callable it was given, and owns its own copy of it.
#include "wrapmem.h"
#include "track.h"
#include "hal/malloc_ansi.h"
#include "templates/function.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include <functional>
#include <vector>

using Fn = Function<int32(int32)>;

// A stateful, lifetime-tracked callable
struct Counter
{
	Obj base; int32 calls = 0; 
	Counter(int v) : base{v} {}
	int32 operator()(int32 x) { return base.get() * 1000 + x * 10 + calls++; }
};
struct ConstFn { Obj base; ConstFn(int v) : base{v} {} int32 operator()(int32 x) const { return -(base.get() * 1000 + x); } };
// Cannot be copied: a copy of its function is empty
struct MoveOnly { Obj base; MoveOnly(int v) : base{v} {} MoveOnly(const MoveOnly&) = delete; MoveOnly(MoveOnly && o) : base{(Obj&&)o.base} {} int32 operator()(int32 x) { return base.get() * 5 + x; } };
struct alignas(64) Aligned { int32 v; Obj base; Aligned(int v) : v{v}, base{v} {} int32 operator()(int32 x) const { return (uintptr_t)this % 64 ? -1 : v + base.get() * 4 + x; } };
static int32 plain(int32 x) { return 7 * x; }
static int32 plain2(int32 x) { return 11 * x; }
static int32 silent(int32 x) noexcept { return 13 * x; }
static int32 open_(int32 x, ...) { return 17 * x; }

// Model of a callable: kind, parameter, number of calls
struct Slot { int kind = 0, v = 0, calls = 0; };	// 0: empty, 1: Counter, 2: ConstFn, 3: plain, 4: small lambda, 5: plain2, 6: large lambda, 9: MoveOnly, 10: Aligned
static int32 expected(Slot & s, int32 x)
{
	switch (s.kind)
	{
	case 1: return s.v * 1000 + x * 10 + s.calls++;
	case 2: return -(s.v * 1000 + x);
	case 3: return 7 * x;
	case 4: return s.v + x;
	case 5: return 11 * x;
	case 9: case 10: return s.v * 5 + x;
	default: return s.v * 2 + x;
	}
}

struct Large { int64 pad[20]; int v; };

static void bindTo(Fn *& f, void * mem, int kind, int v)
{
	switch (kind)
	{
	case 0: f = new (mem) Fn; break;
	case 1: f = new (mem) Fn{Counter{v}}; break;
	case 2: f = new (mem) Fn{ConstFn{v}}; break;
	case 3: f = new (mem) Fn{plain}; break;
	case 4: f = new (mem) Fn{[v](int32 x) { return v + x; }}; break;
	case 5: f = new (mem) Fn{&plain2}; break;
	case 6: { Large l{}; l.v = v; l.pad[19] = v; f = new (mem) Fn{[l](int32 x) { return (int32)(l.v + l.pad[19] + x); }}; break; }
	case 7: { Counter c{v}; f = new (mem) Fn{c}; MC_CHECK(c.base.get() == v, "binding a variable changed it"); c.base = Obj{999}; c.calls = 50; break; }		// an lvalue that changes and dies afterwards
	case 9: f = new (mem) Fn{MoveOnly{v}}; break;
	case 10: f = new (mem) Fn{Aligned{v}}; break;
	case 8: { const ConstFn c{v}; f = new (mem) Fn{c}; break; }
	}
}
static Slot copyOf(const Slot & s) { return s.kind == 9 ? Slot{} : s; }
static Slot slotOf(int kind, int v) { Slot s; s.kind = kind == 7 ? 1 : kind == 8 ? 2 : kind; s.v = v; return s; }

static void histories(int depth)
{
	TrackSystem t;
	objs().live.clear();
	{
		alignas(Fn) unsigned char mem[3][sizeof(Fn)]; Fn * f[3]; Slot s[3]; int next = 1;
		int k0 = mc::choose(11); bindTo(f[0], mem[0], k0, 1); s[0] = slotOf(k0, 1); mc::note("#0 of kind %d", k0);
		int k1 = mc::choose(3); bindTo(f[1], mem[1], k1, 2); s[1] = slotOf(k1, 2); mc::note("#1 of kind %d", k1);
		next = 3;
		for (int d = 0; ; ++d)
		{
			size_t owned = 0;
			for (int i = 0; i < 2; ++i)
			{
				MC_CHECK((bool)*f[i] == (s[i].kind != 0), "function %d is %s", i, *f[i] ? "callable" : "empty");
				owned += s[i].kind == 1 || s[i].kind == 2 || s[i].kind >= 9;
			}
			objs().expect(owned, "owned by the functions");
			if (d == depth) break;
			enum { Call, ConstCall, CallTwice, CopyAssign, MoveAssign, SelfAssign, SelfMove, CopyNew, MoveNew, Rebind, Clear, ByValue, Num };
			int i = mc::choose(2), j = 1 - i, op = mc::choose(Num);
			switch (op)
			{
			case Call: case ConstCall: case CallTwice:
				for (int k = 0; k < (op == CallTwice ? 2 : 1); ++k)
				{
					if (!s[i].kind) break;
					int32 x = 3 + k, e = expected(s[i], x); const Fn & c = *f[i];
					int32 r = op == ConstCall ? c(x) : (*f[i])(x);
					mc::note("#%d(%d)", i, x);
					MC_CHECK(r == e, "calling function %d gives %d, expected %d", i, r, e);
				}
				break;
			case CopyAssign: { mc::note("#%d = #%d", i, j); Fn & r = (*f[i] = (const Fn&)*f[j]); MC_CHECK(&r == f[i], "result"); s[i] = copyOf(s[j]); break; }
			case MoveAssign:
			{
				mc::note("#%d = move #%d", i, j);
				Fn tmp{move(*f[j])}; *f[i] = move(tmp);		// what is left in the source of an assignment is not specified; of a construction: nothing
				s[i] = s[j]; s[j] = Slot{};
				break;
			}
			case SelfAssign: { if (s[i].kind == 9) break; mc::note("#%d = itself", i); const Fn & c = *f[i]; *f[i] = c; break; }
			case SelfMove: { mc::note("#%d = move itself", i); Fn & r = *f[i]; *f[i] = move(r); break; }
			case CopyNew:
			{
				mc::note("copy of #%d", j);
				Fn c{*f[j]}; Slot cs = copyOf(s[j]); MC_CHECK((bool)c == (cs.kind != 0), "a copy is callable unlike its source");
				if (cs.kind) { int32 e = expected(cs, 5), r = c(5); MC_CHECK(r == e, "a copy gives %d, expected %d", r, e); e = expected(cs, 6); r = c(6); MC_CHECK(r == e, "a copy gives %d at its second call, expected %d", r, e); }
				break;
			}
			case MoveNew: { mc::note("move of #%d and back", j); Fn c{move(*f[j])}; MC_CHECK(!*f[j], "a moved-from function is still callable"); f[j]->~Fn(); new (f[j]) Fn{move(c)}; break; }
			case Rebind: { int k = 1 + mc::choose(5), v = next++; if (k == 5) k = 9; mc::note("#%d rebound to kind %d", i, k); switch (k) { case 1: *f[i] = Fn{Counter{v}}; break; case 2: *f[i] = ConstFn{v}; break; case 3: *f[i] = plain; break; case 4: *f[i] = [v](int32 x) { return v + x; }; break; case 9: *f[i] = MoveOnly{v}; break; } s[i] = slotOf(k, v); break; }
			case Clear: mc::note("#%d cleared", i); *f[i] = Fn{}; s[i] = Slot{}; break;
			case ByValue: { mc::note("#%d passed by value", i); auto use = [](Fn g) { return g ? g(4) : -1; }; Slot c = copyOf(s[i]); int32 e = c.kind ? expected(c, 4) : -1, r = use(*f[i]); MC_CHECK(r == e, "a function passed by value gives %d, expected %d", r, e); break; }
			}
		}
		for (int i = 0; i < 2; ++i) f[i]->~Fn();
	}
	objs().expectEmpty("after the functions were destroyed");
	t.expectEmpty("after the functions were destroyed");
}

// Arguments and results of all categories pass through unchanged
struct Seen { int copies = 0, moves = 0, v; Seen(int x) : v{x} {} Seen(const Seen & o) : copies{o.copies + 1}, moves{o.moves}, v{o.v} {} Seen(Seen && o) : copies{o.copies}, moves{o.moves + 1}, v{o.v} { o.v = -1; } };
static void arguments()
{
	TrackSystem t;
	{
		Function<int32&(int32&)> ref{[](int32 & x) -> int32 & { x += 5; return x; }}; int32 v = 1; int32 & r = ref(v); MC_CHECK(v == 6 && &r == &v, "reference argument and result");
		Function<void(int32*, int32)> proc{[](int32 * p, int32 q) { *p = q; }}; proc(&v, 42); MC_CHECK(v == 42, "procedure");
		const Function<void(int32*, int32)> & cproc = proc; cproc(&v, 43); MC_CHECK(v == 43, "constant procedure");
		Function<int32(int32, const int32&, int64, char)> many{[](int32 a, const int32 & b, int64 c, char d) { return (int32)(a * 1000 + b * 100 + c * 10 + (d - '0')); }}; MC_CHECK(many(1, 2, 3, '4') == 1234, "argument order");
		Function<int32(Seen)> byValue{[](Seen s) { return s.copies * 100 + s.v; }}; Seen s{7}; MC_CHECK(byValue(s) == 107 && s.v == 7, "an argument by value is copied once and its source left alone"); MC_CHECK(byValue(Seen{8}) == 8, "a temporary argument is moved");
		Function<int32(const Seen&)> byRef{[&](const Seen & x) { return (&x == &s) * 1000 + x.copies * 100 + x.v; }}; MC_CHECK(byRef(s) == 1007, "an argument by reference is not copied");
		Function<int32(Seen&&)> byMove{[](Seen && x) { Seen y{(Seen&&)x}; return y.copies * 100 + y.moves * 10 + y.v; }}; MC_CHECK(byMove(Seen{5}) == 15, "an rvalue argument stays one");
		Function<void(Seen)> eat{[](Seen x) { MC_CHECK(x.copies == 0 && x.moves <= 2 && x.v == 8, "a temporary argument of a procedure was copied %d times", x.copies); }}; eat(Seen{8}); Function<void(Seen, int32*)> eat2{[](Seen x, int32 * o) { *o = x.copies * 100 + x.v; }}; int32 eaten = 0; eat2(s, &eaten); MC_CHECK(eaten == 107 && s.v == 7, "an argument by value of a procedure is copied once and its source left alone");
		Function<void(Seen&&)> take{[](Seen && x) { Seen y{(Seen&&)x}; MC_CHECK(y.copies == 0 && y.moves == 1 && y.v == 5, "an rvalue argument of a procedure stays one"); }}; take(Seen{5}); Function<void(Seen&)> change{[](Seen & x) { x.v = 6; }}; change(s); MC_CHECK(s.v == 6, "a reference argument of a procedure"); s.v = 7;
		Function<Seen&(Seen&)> same{[](Seen & x) -> Seen & { return x; }}; MC_CHECK(&same(s) == &s && s.v == 7, "a reference result"); Function<const Seen&(const Seen&)> csame{[](const Seen & x) -> const Seen & { return x; }}; MC_CHECK(&csame(s) == &s, "a constant reference result");
		Function<Seen&&(Seen&&)> pass{[](Seen && x) -> Seen && { return (Seen&&)x; }}; Seen p{4}; Seen && q = pass((Seen&&)p); MC_CHECK(&q == &p && p.v == 4 && p.moves == 0, "an rvalue result");
		Function<Seen()> make{[] { return Seen{3}; }}; Seen m = make(); MC_CHECK(m.v == 3 && m.copies == 0, "result by value");
		Function<int32()> none{[] { return 9; }}; MC_CHECK(none() == 9, "no arguments");
		int32 count = 0; Function<void()> inc{[&count] { ++count; }}; Function<void()> inc2{inc}; inc(); inc2(); inc(); MC_CHECK(count == 3, "captured references are shared by copies");
		MC_CHECK(invoke([](int32 a, int32 b) { return a - b; }, 5, 3) == 2 && invoke(plain, 2) == 14, "invoke");
		Fn s1{silent}, s2{&silent}, s3{open_}, s4{plain}; MC_CHECK(s1(2) == 26 && s2(3) == 39 && s3(2) == 34, "functions that do not throw or are variadic"); s4 = silent; MC_CHECK(s4(4) == 52 && Fn{s4}(5) == 65, "assigned and copied");
		Function<int32(int32)> nested{Function<int32(int32)>{plain}}; MC_CHECK(nested(3) == 21, "a function made from a function");
	}
	t.expectEmpty("at end");
}

// Callables of every size and alignment: what they hold survives copies, moves and assignments
template<int N, int A> struct alignas(A) Block
{
	unsigned char b[N];
	explicit Block(int seed) { for (int i = 0; i < N; ++i) b[i] = (unsigned char)(seed + i * 7); }
	int32 operator()(int32 x) const
	{
		if ((uintptr_t)this % A) return -2;
		for (int i = 0; i < N; ++i) if (b[i] != (unsigned char)(b[0] + i * 7)) return -1;
		return b[0] * 256 + x;
	}
};
template<int N, int A> static void block()
{
	TrackSystem t;
	{
		int how = mc::choose(7), seed = 1 + mc::choose(2) * 90;
		mc::note("a callable of %d bytes aligned to %d, form %d", (int)sizeof(Block<N, A>), A, how);
		Block<N, A> original{seed}; Fn f{original}, other{Block<N, A>{seed + 1}};
		original.b[0] ^= 0x55;
		int32 e = seed * 256 + 3, e2 = (seed + 1) * 256 + 3;
		MC_CHECK(f(3) == e && other(3) == e2, "after construction: %d and %d, expected %d and %d", f(3), other(3), e, e2);
		switch (how)
		{
		case 0: break;
		case 1: { Fn c{f}; MC_CHECK(c(3) == e, "a copy gives %d, expected %d", c(3), e); break; }
		case 2: { Fn c{move(f)}; MC_CHECK(c(3) == e && !f, "a moved function gives %d, expected %d", c(3), e); f = Fn{c}; break; }
		case 3: f = other; e = e2; break;
		case 4: f = move(other); e = e2; other = Fn{Block<N, A>{seed + 1}}; break;
		case 5: ::swap(f, other); { int32 x = e; e = e2; e2 = x; } break;
		case 6: f = Fn{plain}; e = 21; break;
		}
		const Fn & c = f;
		MC_CHECK(f(3) == e && c(3) == e && other(3) == e2, "at the end: %d and %d, expected %d and %d", f(3), other(3), e, e2);
		mc::outcome(std::to_string(how));
	}
	t.expectEmpty("after the functions were destroyed");
}
template<int A, int ... N> static void blocksOf(std::integer_sequence<int, N...>, std::vector<void (*)()> & v) { int dummy[] = {(v.push_back(block<N, A>), 0)...}; (void)dummy; }
static void blocks()
{
	static const std::vector<void (*)()> all = [] {
		std::vector<void (*)()> v; using S = std::integer_sequence<int, 1, 8, 9, 16, 24, 40, 56, 65, 256, 4096>;
		blocksOf<1>(S{}, v); blocksOf<8>(S{}, v); blocksOf<16>(S{}, v); blocksOf<32>(S{}, v); blocksOf<128>(S{}, v);
		return v; }();
	all[mc::choose((int)all.size())]();
}

// What happens during a call: the callable runs where it lives, keeps what it changes, and is neither copied nor moved, whatever its size and result
struct Traffic { long copies = 0, moves = 0, deaths = 0; }; static Traffic traffic;
template<int N, typename R> struct Machine
{
	int64 calls = 0; const void * at = nullptr; char pad[N] = {}; const Fn * inner = nullptr;
	Machine() {} Machine(const Machine & o) : calls{o.calls} { pad[N - 1] = o.pad[N - 1]; ++traffic.copies; } Machine(Machine && o) : calls{o.calls} { pad[N - 1] = o.pad[N - 1]; ++traffic.moves; } ~Machine() { ++traffic.deaths; }
	R operator()(int64 * out)
	{
		MC_CHECK(!at || at == this, "the callable changed its place between calls"); at = this;
		++calls; ++pad[N - 1]; *out = calls * 1000 + pad[N - 1];
		if (*out % 7 == 3) throw (int64)*out;
		if constexpr (std::is_same<R, int64>::value) return *out; else if constexpr (std::is_same<R, int64&>::value) return calls; else if constexpr (std::is_same<R, Seen>::value) return Seen{(int)calls};
	}
};
template<int N, typename R> static void machine()
{
	TrackSystem t;
	{
		using F = Function<R(int64*)>; F f{Machine<N, R>{}}; const F & c = f; F * g = nullptr; int64 n = 0, m = 0;
		for (int d = 0; d < 5; ++d)
		{
			int op = mc::choose(4); mc::note("%s", op == 0 ? "call" : op == 1 ? "constant call" : op == 2 ? "call the copy" : "copy");
			if (op == 3) { delete g; g = new F{f}; m = n; continue; }
			if (op == 2 && !g) continue;
			int64 & k = op == 2 ? m : n; ++k; int64 out = -1, e = k * 1000 + k; bool thrown = false; Traffic before = traffic;
			F & used = op == 2 ? *g : f;
			try
			{
				if constexpr (std::is_same<R, void>::value) { if (op == 1) c(&out); else used(&out); }
				else
				{
					R r = op == 1 ? c(&out) : used(&out);
					if constexpr (std::is_same<R, Seen>::value) MC_CHECK(r.v == k && r.copies == 0, "the result is %d after %d copies, expected %d", r.v, r.copies, (int)k); else MC_CHECK(r == (std::is_same<R, int64&>::value ? k : e), "call %d gives %d", (int)k, (int)r);
					if constexpr (std::is_same<R, int64&>::value) { r = k; }
				}
			}
			catch (int64 x) { thrown = true; MC_CHECK(x == e, "an exception passes through a call"); }
			MC_CHECK(out == e && thrown == (e % 7 == 3), "call %d writes %ld, expected %ld", (int)k, (long)out, (long)e);
			MC_CHECK(traffic.copies == before.copies && traffic.moves == before.moves && traffic.deaths == before.deaths, "a call copied, moved or destroyed the callable");
		}
		delete g;
	}
	t.expectEmpty("after the functions were destroyed");
	mc::outcome("ok");
}
template<typename R> static void machineOf(int n) { switch (n) { case 0: machine<1, R>(); break; case 1: machine<100, R>(); break; case 2: machine<600, R>(); break; case 3: machine<5000, R>(); break; case 4: machine<70000, R>(); break; } }
static void machines()
{
	traffic = {}; int n = mc::choose(5), r = mc::choose(4); mc::note("size %d, result %d", n, r);
	switch (r) { case 0: machineOf<void>(n); break; case 1: machineOf<int64>(n); break; case 2: machineOf<int64&>(n); break; case 3: machineOf<Seen>(n); break; }
}

// Functions that hold functions, to any depth; recursion through a function
static void nesting()
{
	TrackSystem t; objs().live.clear();
	{
		int depth = mc::choose(40), how = mc::choose(4), what = mc::choose(3);
		mc::note("%d functions in one another, form %d", depth, how);
		Fn f; if (what == 0) f = Fn{plain}; else if (what == 1) f = Fn{ConstFn{2}}; else f = Fn{Counter{2}};
		long e = what == 0 ? 35 : what == 1 ? -2005 : 2050;
		for (int d = 0; d < depth; ++d)
			switch (how)
			{
			case 0: { Fn inner{f}; f = Fn{[inner](int32 x) mutable { return inner(x) + 1; }}; break; }
			case 1: { f = Fn{[inner = Fn{move(f)}](int32 x) mutable { return inner(x) + 1; }}; break; }
			case 2: { f = [f](int32 x) mutable { return f(x) + 1; }; break; }
			case 3: { Obj o{d}; Fn g{[f, o](int32 x) mutable { return f(x) + 1 + o.get() * 0; }}; f = g; break; }
			}
		Fn g{f};
		int32 r = f(5); MC_CHECK(r == e + depth, "%d functions in one another give %d, expected %ld", depth, r, e + depth);
		r = g(5); MC_CHECK(r == e + depth, "a copy of them gives %d, expected %ld: it is not the callable of its own", r, e + depth);
		Fn fact; fact = [&fact](int32 n) { return n < 2 ? 1 : n * fact(n - 1); };
		MC_CHECK(fact(depth % 12) == [&] { int32 p = 1; for (int i = 2; i <= depth % 12; ++i) p *= i; return p; }(), "recursion through a function");
	}
	objs().expectEmpty("after the functions were destroyed");
	t.expectEmpty("after the functions were destroyed");
}

// Functions as elements of containers, under every short history
static void contained(int depth)
{
	TrackSystem t; TrackGlobal g;
	objs().live.clear();
	{
		Array<Fn> a; List<Fn> l; Map<int32, Fn> m; std::vector<Slot> sa, sl; Slot sm[2]; bool in[2] = {};
		auto make = [](int kind, int v) { switch (kind) { case 1: return Fn{Counter{v}}; case 2: return Fn{ConstFn{v}}; default: return Fn{plain}; } };
		int next = 1;
		for (int d = 0; d < depth; ++d)
		{
			int op = mc::choose(10);
			int kind = 1 + mc::choose(op < 4 || op == 7 ? 3 : 1), v = next++;
			Slot s; s.kind = kind; s.v = v;
			switch (op)
			{
			case 0: mc::note("array insertLast"); a.insertLast(make(kind, v)); sa.push_back(s); break;
			case 1: mc::note("array insertAt 0"); { Fn f = make(kind, v); a.insertAt(0, f); sa.insert(sa.begin(), s); } break;
			case 2: mc::note("list pushBack"); l.pushBack(make(kind, v)); sl.push_back(s); break;
			case 3: mc::note("list pushFront"); { Fn f = make(kind, v); l.pushFront(f); sl.insert(sl.begin(), s); } break;
			case 4: mc::note("array removeAt 0"); if (sa.empty()) break; a.removeAt(0); sa.erase(sa.begin()); break;
			case 5: mc::note("list popFront"); { Fn f; bool r = l.popFront(f); MC_CHECK(r == !sl.empty(), "popFront"); if (r) { int32 e = expected(sl[0], 2), x = f(2); MC_CHECK(x == e, "the removed function gives %d, expected %d", x, e); sl.erase(sl.begin()); } } break;
			case 6: mc::note("array copied"); { Array<Fn> c{a}; std::vector<Slot> sc = sa; for (size_t i = 0; i < sc.size(); ++i) { int32 e = expected(sc[i], 4), x = c[i](4); MC_CHECK(x == e, "in a copy, function %zu gives %d, expected %d", i, x, e); } } break;
			case 7: mc::note("map insert"); { int k = mc::choose(2); m.insert(k, make(kind, v)); sm[k] = s; in[k] = true; } break;
			case 8: mc::note("map remove"); { int k = mc::choose(2); m.remove(k); in[k] = false; } break;
			case 9: mc::note("array moved"); { Array<Fn> c{move(a)}; a = move(c); } break;
			}
			MC_CHECK(a.getCount() == sa.size() && l.getLength() == sl.size(), "counts");
			for (size_t i = 0; i < sa.size(); ++i) { int32 e = expected(sa[i], 1), x = a[i](1); MC_CHECK(x == e, "function %zu of the array gives %d, expected %d", i, x, e); }
			{ size_t i = 0; for (Fn & f : l) { int32 e = expected(sl[i], 1), x = f(1); MC_CHECK(x == e, "function %zu of the list gives %d, expected %d", i, x, e); ++i; } }
			for (int k = 0; k < 2; ++k) { Fn * f = nullptr; for (auto & p : m) if (p.first == k) f = &p.second; MC_CHECK(!!f == in[k], "key %d of the map", k); if (f) { int32 e = expected(sm[k], 1), x = (*f)(1); MC_CHECK(x == e, "function under %d of the map gives %d, expected %d", k, x, e); } }
		}
	}
	objs().expectEmpty("after the containers were destroyed");
	g.expectEmpty("after the containers were destroyed");
	t.expectEmpty("after the containers were destroyed");
}

static void setup()
{
	mc::add("histories", 8, [] { histories(mc::bound(4, 5)); });
	mc::add("arguments", 1, arguments);
	mc::add("blocks", 4, blocks);
	mc::add("calls", 4, machines);
	mc::add("nesting", 4, nesting);
	mc::add("contained", 8, [] { contained(mc::bound(4, 5)); });
}
MC_MAIN(setup)
