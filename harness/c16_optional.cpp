// C16: Optional holds at most one value, and constructs and destroys it exactly once.
#include "track.h"
#include <type_traits>
#include "templates/optional.h"
#include "containers/string.h"

template<typename T> struct Kind;
template<> struct Kind<int32> { static int32 make(int v) { return v; } static int get(const int32 & x) { return x; } static constexpr bool moves = false; };
template<> struct Kind<Obj> { static Obj make(int v) { return Obj{v}; } static int get(const Obj & x) { return x.get(); } static constexpr bool moves = true; };
template<> struct Kind<String> { static String make(int v) { return String::format("value number %d", v); } static int get(const String & s) { int v = -1; sscanf(*s, "value number %d", &v); return v; } static constexpr bool moves = false; };
struct alignas(32) Big { int64 a; Obj o; unsigned char pad[40]; Big(int v) : a{v}, o{v} {} Big(int64 x, int32 y) : a{x}, o{y} {} };
template<> struct Kind<Big> { static Big make(int v) { return Big{v}; } static int get(const Big & x) { MC_CHECK((int)x.a == x.o.get() || x.o.get() == -1, "halves of a value differ"); return (int)x.a; } static constexpr bool moves = false; };

struct Slot { bool has; int v; };	// v < 0: some valid but unspecified value

template<typename T>
static void compare(const Optional<T> & o, Slot & s, const char * op)
{
	MC_CHECK(o.hasValue() == s.has && (bool)o == s.has, "after %s: optional %s a value", op, o.hasValue() ? "has" : "lacks");
	if (!s.has) return;
	const T * p = o.operator->();
	MC_CHECK(p == &*o && ((uintp)p & (alignof(T) - 1)) == 0, "after %s: pointer and reference differ", op);
	MC_CHECK((const char*)p >= (const char*)&o && (const char*)(p + 1) <= (const char*)(&o + 1), "after %s: the value lives outside the optional", op);
	if (s.v >= 0) MC_CHECK(Kind<T>::get(*o) == s.v, "after %s: value %d, expected %d", op, Kind<T>::get(*o), s.v);
}

template<typename T>
static void histories(int depth)
{
	TrackGlobal g;
	{
		using K = Kind<T>;
		Optional<T> * o[2]; Slot s[2]; int next = 1;
		alignas(Optional<T>) unsigned char mem[2][sizeof(Optional<T>)];
		::memset(mem, 0xEE, sizeof mem);
		auto build = [&](int i, int how) {
			int v = next++;
			switch (how)
			{
			case 0: o[i] = new (mem[i]) Optional<T>; s[i] = {false, 0}; mc::note("#%d Optional()", i); break;
			case 1: o[i] = new (mem[i]) Optional<T>{K::make(v)}; s[i] = {true, v}; mc::note("#%d Optional(%d)", i, v); break;
			case 2: { T x = K::make(v); o[i] = new (mem[i]) Optional<T>(x); s[i] = {true, v}; MC_CHECK(K::get(x) == v, "constructing from an lvalue changed it"); mc::note("#%d Optional(lvalue %d)", i, v); break; }
			}
		};
		build(0, mc::choose(3)); build(1, mc::choose(2));
		for (int d = 0; ; ++d)
		{
			for (int i = 0; i < 2; ++i) compare(*o[i], s[i], "step");
			if (!std::is_same<T, String>::value && !std::is_same<T, int32>::value) objs().expect((size_t)s[0].has + s[1].has, "with the optionals that hold a value");
			if (d == depth) break;
			int i = mc::choose(2), j = 1 - i;
			enum { Emplace, AssignL, AssignR, Reset, CopyAssign, MoveAssign, SelfAssign, Write, CopyNew, CopyNewConst, MoveNew, EmptyAssign, TakeOut, OwnValue, OtherValue, Num };
			int op = mc::choose(Num), v = next++;
			Optional<T> & a = *o[i], & b = *o[j];
			switch (op)
			{
			case Emplace: mc::note("#%d emplace(%d)", i, v); if (v & 1) a.emplace(K::make(v)); else { T x = K::make(v); a.emplace(x); MC_CHECK(K::get(x) == v, "emplace of a variable changed it"); } s[i] = {true, v}; break;
			case AssignL: { T x = K::make(v); mc::note("#%d = lvalue %d", i, v); Optional<T> & r = (a = x); MC_CHECK(&r == &a && K::get(x) == v, "assignment from an lvalue"); s[i] = {true, v}; break; }
			case AssignR: mc::note("#%d = rvalue %d", i, v); a = K::make(v); s[i] = {true, v}; break;
			case Reset: mc::note("#%d reset", i); a.reset(); s[i] = {false, 0}; break;
			case CopyAssign: { mc::note("#%d = #%d", i, j); const Optional<T> & c = b; Optional<T> & r = (a = c); MC_CHECK(&r == &a, "result"); s[i] = s[j]; break; }
			case MoveAssign: { mc::note("#%d = move #%d", i, j); Optional<T> & r = (a = move(b)); MC_CHECK(&r == &a, "result"); s[i] = s[j]; if (s[j].has) { s[j].has = b.hasValue(); s[j].v = -1; } break; }
			case OwnValue: { if (!s[i].has) break; mc::note("#%d = its own value", i); const T & own = *a; Optional<T> & r = (a = own); MC_CHECK(&r == &a, "assignment of its own value"); break; }
			case OtherValue: { if (!s[j].has) break; mc::note("#%d = value of #%d", i, j); const T & other = *b; a = other; s[i] = s[j]; break; }
			case SelfAssign: { mc::note("#%d = itself", i); const Optional<T> & c = a; a = c; break; }
			case Write: if (!s[i].has) break; mc::note("*#%d = %d", i, v); *a = K::make(v); s[i].v = v; break;
			case CopyNew: { Optional<T> c{b}; Slot t = s[j]; mc::note("copy of #%d", j); compare(c, t, "copy construction"); if (t.has) { *c = K::make(v); t.v = v; compare(c, t, "writing to a copy"); } break; }
			case CopyNewConst: { const Optional<T> & cb = b; const Optional<T> c{cb}; Slot t = s[j]; mc::note("const copy of #%d", j); compare(c, t, "copy construction"); break; }
			case MoveNew: { Optional<T> c{move(b)}; Slot t = s[j]; mc::note("move of #%d", j); compare(c, t, "move construction"); if (s[j].has) { s[j].has = b.hasValue(); s[j].v = -1; } break; }
			case EmptyAssign: { mc::note("#%d = empty", i); Optional<T> e; a = e; s[i] = {false, 0}; break; }
			case TakeOut: { if (!s[i].has) break; mc::note("take #%d out", i); T x = *move(a); if (s[i].v >= 0) MC_CHECK(K::get(x) == s[i].v, "the value taken out differs"); s[i].v = -1; break; }
			}
		}
		for (int i = 0; i < 2; ++i) o[i]->~Optional<T>();
	}
	g.expectEmpty("after the optionals were destroyed");
}

// Construction arguments reach the value
static void forwarding()
{
	TrackGlobal g;
	{
		Optional<Big> b; b.emplace((int64)7, (int32)7); MC_CHECK(b.hasValue() && b->a == 7 && b->o.get() == 7, "emplace of two arguments");
		Optional<Big> c((int64)9, (int32)9); MC_CHECK(c.hasValue() && c->a == 9, "construction from two arguments");
		Optional<Obj> d; d.emplace(); MC_CHECK(d.hasValue() && d->get() == 0, "emplace of nothing");
		c->o = Obj{9}; const Optional<Big> & k = c; MC_CHECK(k->o.get() == 9 && (*k).a == 9, "member access");
		Optional<int32*> p; MC_CHECK(!p, "empty pointer optional"); int32 x = 3; p = &x; MC_CHECK(p && **p == 3, "pointer optional"); p = nullptr; MC_CHECK(p.hasValue() && *p == nullptr, "an optional holding a null pointer has a value");
		Optional<bool> f; f = false; MC_CHECK(f.hasValue() && (bool)f && !*f, "an optional holding false has a value");
	}
	g.expectEmpty("at end");
}

// A value that can only be moved: every history of two optionals
static void moveOnly()
{
	TrackGlobal g;
	{
		using O = Optional<MovObj>;
		O * o[2] = {new O, new O}; Slot s[2] = {}; int next = 1;
		for (int d = 0, depth = mc::bound(5, 6); ; ++d)
		{
			for (int i = 0; i < 2; ++i)
			{
				MC_CHECK(o[i]->hasValue() == s[i].has && (bool)*o[i] == s[i].has, "optional %d %s a value", i, o[i]->hasValue() ? "has" : "lacks");
				if (s[i].has && s[i].v >= 0) MC_CHECK((**o[i]).get() == s[i].v && (*o[i])->get() == s[i].v, "optional %d holds %d, expected %d", i, (**o[i]).get(), s[i].v);
			}
			objs().expect((size_t)s[0].has + s[1].has, "with the optionals that hold a value");
			if (d == depth) break;
			int i = mc::choose(2), j = 1 - i, op = mc::choose(7), v = next++;
			auto moved = [&](int k) { if (s[k].has) { s[k].has = o[k]->hasValue(); s[k].v = -1; } };
			switch (op)
			{
			case 0: mc::note("#%d emplace(%d)", i, v); o[i]->emplace(v); s[i] = {true, v}; break;
			case 1: mc::note("#%d = rvalue %d", i, v); *o[i] = MovObj{v}; s[i] = {true, v}; break;
			case 2: mc::note("#%d reset", i); o[i]->reset(); s[i] = {}; break;
			case 3: mc::note("#%d = move #%d", i, j); *o[i] = move(*o[j]); s[i] = s[j]; moved(j); break;
			case 4: { mc::note("#%d made from move #%d", i, j); delete o[i]; o[i] = new O{move(*o[j])}; s[i] = s[j]; moved(j); break; }
			case 5: mc::note("#%d made from rvalue %d", i, v); delete o[i]; o[i] = new O{MovObj{v}}; s[i] = {true, v}; break;
			case 6: { if (!s[i].has) break; mc::note("take #%d out", i); MovObj x = *move(*o[i]); if (s[i].v >= 0) MC_CHECK(x.get() == s[i].v, "the value taken out is %d, expected %d", x.get(), s[i].v); s[i].v = -1; break; }
			}
		}
		delete o[0]; delete o[1];
	}
	g.expectEmpty("after the optionals were destroyed");
}

// A value whose construction or assignment fails: afterwards there is a whole value or none
struct Failure {}; static bool armed = false; static int burn(int v) { if (armed) { armed = false; throw Failure{}; } return v; }
struct Frail { Obj o; Frail(int v) : o{burn(v)} {} Frail(const Frail & x) : o{burn(x.o.get())} {} Frail(Frail && x) : o{burn(x.o.get())} {} Frail & operator=(const Frail & x) { burn(0); o = x.o; return *this; } Frail & operator=(Frail && x) { burn(0); o = (Obj&&)x.o; return *this; } };
static void failures()
{
	TrackGlobal g; armed = false;
	{
		using O = Optional<Frail>;
		O * o[2] = {new O, new O}; int v[2] = {-1, -1}, next = 1;	// -1: none, -2: some valid value
		for (int d = 0, depth = mc::bound(4, 5); ; ++d)
		{
			int held = 0;
			for (int i = 0; i < 2; ++i)
			{
				MC_CHECK(o[i]->hasValue() == (v[i] != -1), "optional %d %s a value", i, o[i]->hasValue() ? "has" : "lacks");
				if (v[i] != -1) { ++held; int x = (*o[i])->o.get(); MC_CHECK(v[i] == -2 || x == v[i], "optional %d holds %d, expected %d", i, x, v[i]); }
			}
			objs().expect(held, "with the optionals that hold a value");
			if (d == depth) break;
			int i = mc::choose(2), j = 1 - i, op = mc::choose(8), n = next++; bool fails = mc::choose(2), thrown = false;
			auto unknown = [&](int k) { v[k] = o[k]->hasValue() ? -2 : -1; };
			{
				Frail x{n}; O fresh{Frail{n}};
				armed = fails;
				try
				{
					switch (op)
					{
					case 0: mc::note("#%d emplace(%d)%s", i, n, fails ? " fails" : ""); v[i] = -1; o[i]->emplace(n); v[i] = n; break;
					case 1: mc::note("#%d = %d%s", i, n, fails ? " fails" : ""); *o[i] = x; v[i] = n; break;
					case 2: mc::note("#%d = move %d%s", i, n, fails ? " fails" : ""); *o[i] = (Frail&&)x; v[i] = n; break;
					case 3: { mc::note("#%d = #%d%s", i, j, fails ? " fails" : ""); const O & c = *o[j]; *o[i] = c; v[i] = v[j]; break; }
					case 4: { mc::note("#%d = move #%d%s", i, j, fails ? " fails" : ""); int w = v[j]; *o[i] = (O&&)*o[j]; v[i] = w; unknown(j); break; }
					case 5: { mc::note("copy of #%d%s", i, fails ? " fails" : ""); O c{*o[i]}; MC_CHECK(c.hasValue() == (v[i] != -1), "a copy"); break; }
					case 6: { mc::note("#%d = move of a new one%s", i, fails ? " fails" : ""); *o[i] = (O&&)fresh; v[i] = n; break; }
					case 7: mc::note("#%d reset", i); o[i]->reset(); v[i] = -1; break;
					}
				}
				catch (Failure) { thrown = true; if (v[i] != -1 && op != 5) { MC_CHECK(o[i]->hasValue(), "a failed assignment lost the value"); v[i] = -2; } unknown(j); if (v[i] == -1) MC_CHECK(!o[i]->hasValue(), "a value, although its construction failed"); }
				MC_CHECK(thrown == (fails && !armed), "a failure does not reach the caller");
				armed = false;
			}
		}
		delete o[0]; delete o[1];
	}
	g.expectEmpty("after the optionals were destroyed");
	mc::outcome("ok");
}

// Optionals of optionals and of containers; access through every kind of reference
static void nested()
{
	TrackGlobal g;
	{
		int a = mc::choose(3), b = mc::choose(3);
		mc::note("%d, %d", a, b);
		Optional<Optional<Obj>> n; MC_CHECK(!n, "nested, empty");
		n.emplace(); MC_CHECK(n.hasValue() && !n->hasValue(), "nested, holding an empty one");
		*n = Obj{a}; MC_CHECK(n.hasValue() && n->hasValue() && (**n).get() == a, "nested, holding %d", a);
		auto m = n; (**n) = Obj{b}; MC_CHECK((**m).get() == a && (**n).get() == b, "nested copies"); n->reset(); MC_CHECK(n.hasValue() && !*n && m->hasValue(), "nested reset");
		n.reset(); MC_CHECK(!n && m.hasValue(), "outer reset");
		Optional<Array<Obj>> arr; arr.emplace(); arr->add(Obj{a}); auto brr = arr; arr->add(Obj{b}); MC_CHECK(brr->getCount() == 1 && (*brr)[0].get() == a && arr->getCount() == 2, "copies of an optional array"); arr = move(brr); MC_CHECK(arr->getCount() == 1, "moved optional array");
		const Optional<Obj> c{Obj{a}}; const Obj & cr = *c; MC_CHECK(cr.get() == a && &cr == c.operator->(), "constant access");
		MC_CHECK((*move(c)).get() == a && c->get() == a, "access to a constant temporary"); Obj copy = *move(c); MC_CHECK(copy.get() == a && (*c).get() == a, "taking out of a constant one copies");
		Array<Optional<Obj>> list; for (int i = 0; i < 5; ++i) { if (i % 2) list.add(Optional<Obj>{Obj{i}}); else list.add(Optional<Obj>{}); }
		for (int i = 0; i < 5; ++i) MC_CHECK(list[i].hasValue() == (i % 2 == 1) && (i % 2 == 0 || list[i]->get() == i), "optional %d in an array", i);
	}
	g.expectEmpty("at end");
}

static void setup()
{
	mc::add("move_only", 8, moveOnly);
	mc::add("failures", 8, failures);
	mc::add("nested", 1, nested);
	mc::add("int", 8, [] { histories<int32>(mc::bound(4, 5)); });
	mc::add("obj", 8, [] { histories<Obj>(mc::bound(4, 5)); });
	mc::add("string", 8, [] { histories<String>(mc::bound(3, 4)); });
	mc::add("big", 8, [] { histories<Big>(mc::bound(3, 4)); });
	mc::add("forwarding", 1, forwarding);
}
MC_MAIN(setup)
