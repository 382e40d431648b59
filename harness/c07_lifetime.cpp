// C07: containers construct and destroy every element once, and take and return every block from
// and to the allocator they were given. Two containers of a type, each with its own recording
// allocator, are driven by every mixture of operations; after every step the live elements must be
// exactly those the containers hold, each inside a block of its container's allocator, and no
// allocator may hold a block more. Destroying both in any reachable state must leave nothing.
#include "track.h"
#include "treecheck.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include <new>
#include <set>
#include <algorithm>

using std::string;

// An allocator owned by value by its container: it must be empty when it goes
struct Owned : public TrackMalloc
{
	static std::set<Owned*> & all() { static std::set<Owned*> s; return s; }
	static string & trouble() { static string s; return s; }
	int arg;
	explicit Owned(int inArg = 0) : TrackMalloc{"owned"}, arg{inArg} { all().insert(this); }
	Owned(const Owned &) = delete;
	~Owned() override { all().erase(this); if (!live.empty()) { trouble() = std::to_string(live.size()) + " block(s) still live when the allocator owned by a container was destroyed"; live.clear(); } }
};

static int limit = 3;

static const bool inBlock(const TrackMalloc & a, const void * p, size_t n)
{
	for (auto & b : a.live) if ((const char*)p >= (const char*)b.first && (const char*)p + n <= (const char*)b.first + b.second.size) return true;
	return false;
}

// One element's address and size
struct Place { const void * p; size_t n; };

template<typename T> struct PeekArray : public Array<T, void>
{
	template<typename P> static auto cap(const Array<T, void> & a, int) -> decltype(string(a.*(&P::buffer) ? "b" : "n") + std::to_string(a.*(&P::capacity))) { return string(a.*(&P::buffer) ? "b" : "n") + std::to_string(a.*(&P::capacity)); }
	template<typename P> static string cap(const Array<T, void> & a, long) { return ""; }
	static string canon(const Array<T, void> & a) { return cap<PeekArray>(a, 0); }
};
template<typename M> struct PeekMap : public M
{
	template<typename P> static auto shape(const M & m, int) -> decltype(checkTree(m.*(&P::tree)).canon) { return checkTree(m.*(&P::tree)).canon; }
	template<typename P> static string shape(const M & m, long) { return ""; }
	static string canon(const M & m) { return shape<PeekMap>(m, 0); }
};

struct ArrayKind
{
	static constexpr bool heavy = false;
	template<typename MallocT> using Of = Array<Obj, MallocT>;
	using C = Array<Obj>;
	static size_t objects(const C & c) { return c.getCount(); }
	static void places(const C & c, std::vector<Place> & out) { for (auto & o : c) out.push_back({&o, sizeof(Obj)}); }
	static string canon(const C & c) { return PeekArray<Obj>::canon(c) + "," + std::to_string(c.getCount()); }
	static size_t blocksMin(const C & c) { return c.getCount() ? 1 : 0; }
	static size_t blocksMax(const C & c) { return 1; }
	static void change(C & c)
	{
		enum { Push, Push2, PushItem, First, First2, Mid, Mid2, Grow, RemoveLast, RemoveFirst, RemoveAt, PopAt, PopFirst, PopLast, Write, Empty, Reset, N };
		int n = (int)c.getCount(), room = limit - n; int op = mc::choose(N);
		auto need = [&](bool ok) { if (!ok) throw mc::Abandon{}; };
		Obj out{-5}; const Obj item{4};
		switch (op)
		{
		case Push: need(room > 0); mc::note("push(Obj)"); c.push(Obj{1}); break;
		case Push2: need(room > 1); mc::note("push(Obj, const Obj &)"); c.push(Obj{1}, item); break;
		case PushItem: need(room > 0); mc::note("push(const Obj &)"); c.insertLast(item); break;
		case First: need(room > 0); mc::note("insertFirst(Obj)"); c.insertFirst(Obj{1}); break;
		case First2: need(room > 2); mc::note("insertFirst(3 items)"); c.insertFirst(Obj{1}, item, Obj{2}); break;
		case Mid: { need(room > 0); int i = mc::choose(n + 1); mc::note("insertAt(%d, Obj)", i); c.insertAt(i, Obj{1}); break; }
		case Mid2: { need(room > 1); int i = mc::choose(n + 1); mc::note("insertAt(%d, 2 items)", i); c.insertAt(i, item, Obj{1}); break; }
		case Grow: need(room > 0); mc::note("(%d, Obj)", n); c(n, Obj{1}); break;
		case RemoveLast: need(n > 0); mc::note("removeLast()"); c.removeLast(); break;
		case RemoveFirst: need(n > 0); mc::note("removeFirst()"); c.removeFirst(); break;
		case RemoveAt: { need(n > 0); int i = mc::choose(n), k = mc::choose(n - i + 1); mc::note("removeAt(%d, %d)", i, k); c.removeAt(i, k); break; }
		case PopAt: { need(n > 0); int i = mc::choose(n); mc::note("popAt(%d)", i); c.popAt(i, out); break; }
		case PopFirst: need(n > 0); mc::note("popFirst()"); c.popFirst(out); break;
		case PopLast: need(n > 0); mc::note("popLast()"); c.popLast(out); break;
		case Write: { need(n > 0); int i = mc::choose(n); mc::note("item %d = Obj", i); c[i] = Obj{9}; break; }
		case Empty: mc::note("empty()"); c.empty(); break;
		case Reset: mc::note("reset()"); c.reset(); break;
		}
	}
	static void mix(C &, const C &) { throw mc::Abandon{}; }
	static bool custom(void * at, MallocBase * m) { new (at) C(m); return true; }
	static const int extra = 3;
	static void make(void * at, int form) { const Obj src[2] = {Obj{1}, Obj{2}}; if (form == 0) new (at) C(); else if (form == 1) new (at) C(uint64(2), uint64(2)); else if (form == 2) new (at) C(src, uint64(2), uint64(1)); else new (at) C(StaticArray<Obj, 2>{Obj{1}, Obj{2}}); }
};

struct ListKind
{
	static constexpr bool heavy = false;
	template<typename MallocT> using Of = List<Obj, MallocT>;
	using C = List<Obj>;
	static size_t objects(const C & c) { return c.getLength(); }
	static void places(const C & c, std::vector<Place> & out) { for (auto * l = c.getHead(); l; l = l->next) out.push_back({l, sizeof(*l)}); }
	static string canon(const C & c) { return std::to_string(c.getLength()); }
	static size_t blocksMin(const C & c) { return c.getLength(); }
	static size_t blocksMax(const C & c) { return c.getLength(); }
	static void change(C & c)
	{
		enum { Back, Back2, Front, Front2, RemoveAt, RemoveBack, RemoveFront, PopBack, PopFront, Write, Empty, N };
		int n = (int)c.getLength(), room = limit - n; int op = mc::choose(N);
		auto need = [&](bool ok) { if (!ok) throw mc::Abandon{}; };
		Obj out{-5}; const Obj item{4};
		switch (op)
		{
		case Back: need(room > 0); mc::note("pushBack(Obj)"); c.pushBack(Obj{1}); break;
		case Back2: need(room > 1); mc::note("pushBack(const Obj &, Obj)"); c.pushBack(item, Obj{1}); break;
		case Front: need(room > 0); mc::note("pushFront(const Obj &)"); c.pushFront(item); break;
		case Front2: need(room > 1); mc::note("pushFront(Obj, Obj)"); c.pushFront(Obj{1}, Obj{2}); break;
		case RemoveAt: { need(n > 0); int i = mc::choose(n); mc::note("remove(item %d)", i); auto it = c.begin(); for (int k = 0; k < i; ++k) ++it; c.remove(it); break; }
		case RemoveBack: mc::note("removeBack()"); c.removeBack(); break;
		case RemoveFront: mc::note("removeFront()"); c.removeFront(); break;
		case PopBack: mc::note("popBack()"); c.popBack(out); break;
		case PopFront: mc::note("popFront()"); c.popFront(out); break;
		case Write: { need(n > 0); mc::note("head = Obj"); *c.begin() = Obj{9}; break; }
		case Empty: mc::note("empty()"); c.empty(); break;
		}
	}
	static void mix(C &, const C &) { throw mc::Abandon{}; }
	static bool custom(void * at, MallocBase * m) { new (at) C(m); return true; }
	static const int extra = 1;
	static void make(void * at, int form) { const Obj src[2] = {Obj{1}, Obj{2}}; if (form == 0) new (at) C(); else new (at) C(src + 0, src + 2); }
};

struct TreeKind
{
	static constexpr bool heavy = true;
	template<typename MallocT> using Of = BinaryTree<Obj, ThreeWayCompare, MallocT>;
	using C = BinaryTree<Obj>;
	static size_t objects(const C & c) { return c.getNumNodes(); }
	static void places(const C & c, std::vector<Place> & out) { for (auto * n = c.getMin(); n; n = n->next) out.push_back({n, sizeof(*n)}); }
	static string canon(const C & c) { string s = checkTree(c).canon; for (auto & o : c) s += std::to_string(o.get()); return s; }
	static size_t blocksMin(const C & c) { return c.getNumNodes(); }
	static size_t blocksMax(const C & c) { return c.getNumNodes(); }
	static void change(C & c)
	{
		enum { Insert, Insert2, Unique, Unique2, Replace, Remove, RemoveIt, RemoveNode, Empty, N };
		int n = (int)c.getNumNodes(), room = limit - n; int op = mc::choose(N);
		auto need = [&](bool ok) { if (!ok) throw mc::Abandon{}; };
		int k = op == Empty ? 0 : 1 + mc::choose(limit); const Obj item{k};
		switch (op)
		{
		case Insert: need(room > 0); mc::note("insert(%d)", k); c.insert(Obj{k}); break;
		case Insert2: need(room > 1); mc::note("insert(%d, 1)", k); c.insert(item, Obj{1}); break;
		case Unique: need(room > 0); mc::note("insertUnique(%d)", k); c.insertUnique(item); break;
		case Unique2: need(room > 1); mc::note("insertUnique(1, %d)", k); c.insertUnique(Obj{1}, item); break;
		case Replace: need(room > 0); mc::note("replace(%d)", k); c.replace(Obj{k}); break;
		case Remove: mc::note("remove(%d)", k); c.remove(item); break;
		case RemoveIt: { auto it = c.find(item); mc::note("remove(find(%d))", k); c.remove(it); break; }
		case RemoveNode: { need(k <= n); auto * node = c.getMin(); for (int i = 1; i < k; ++i) node = node->next; mc::note("removeNode(item %d)", k - 1); c.removeNode(node); break; }
		case Empty: mc::note("empty()"); c.empty(); break;
		}
	}
	static void mix(C &, const C &) { throw mc::Abandon{}; }
	static bool custom(void * at, MallocBase * m) { new (at) C(m); return true; }
	static const int extra = 0;
	static void make(void * at, int) { new (at) C(); }
};

struct MapKind
{
	static constexpr bool heavy = false;
	template<typename MallocT> using Of = Map<Obj, Obj, ThreeWayCompare, MallocT>;
	using C = Map<Obj, Obj>;
	template<typename M> static size_t objects(const M & c) { return c.getCount() * 2; }
	template<typename M> static void places(const M & c, std::vector<Place> & out) { for (auto & p : c) out.push_back({&p, sizeof(p)}); }
	template<typename M> static string canon(const M & c) { string s = PeekMap<M>::canon(c); for (auto & p : c) s += std::to_string(p.first.get()); return s; }
	template<typename M> static size_t blocksMin(const M & c) { return c.getCount(); }
	template<typename M> static size_t blocksMax(const M & c) { return c.getCount(); }
	template<typename M> static void change(M & c)
	{
		enum { Insert, Index, IndexItem, Remove, RemoveIt, Pop, N };
		int n = (int)c.getCount(), room = limit - n; int op = mc::choose(N);
		int k = 1 + mc::choose(limit); const Obj key{k}; Obj out{-5};
		if (op <= IndexItem && room <= 0 && !c.has(key)) throw mc::Abandon{};
		switch (op)
		{
		case Insert: mc::note("insert(%d)", k); c.insert(Obj{k}, Obj{1}); break;
		case Index: mc::note("[%d] = Obj", k); c[Obj{k}] = Obj{1}; break;
		case IndexItem: mc::note("[const %d]", k); c[key]; break;
		case Remove: mc::note("remove(%d)", k); c.remove(key); break;
		case RemoveIt: mc::note("remove(find(%d))", k); c.remove(c.find(key)); break;
		case Pop: mc::note("pop(%d)", k); c.pop(key, out); break;
		}
	}
	static void mix(C &, const C &) { throw mc::Abandon{}; }
	static bool custom(void * at, MallocBase * m) { new (at) C(m); return true; }
	static const int extra = 0;
	static void make(void * at, int) { new (at) C(); }
};

struct SetKind
{
	static constexpr bool heavy = false;
	template<typename MallocT> using Of = Set<Obj, ThreeWayCompare, MallocT>;
	using C = Set<Obj>;
	template<typename S> static size_t objects(const S & c) { return c.getSize(); }
	template<typename S> static void places(const S & c, std::vector<Place> & out) { for (auto * n = c.getTree().getMin(); n; n = n->next) out.push_back({n, sizeof(*n)}); }
	template<typename S> static string canon(const S & c) { string s = checkTree(c.getTree()).canon; for (auto & o : c) s += std::to_string(o.get()); return s; }
	template<typename S> static size_t blocksMin(const S & c) { return c.getSize(); }
	template<typename S> static size_t blocksMax(const S & c) { return c.getSize(); }
	template<typename S> static void change(S & c)
	{
		enum { Add, AddItem, Add2, Remove, RemoveOut, N };
		int op = mc::choose(N), k = 1 + mc::choose(limit); const Obj item{k}; Obj out{-5};
		switch (op)
		{
		case Add: mc::note("set(%d)", k); c.set(Obj{k}); break;
		case AddItem: mc::note("set(const %d)", k); c.set(item); break;
		case Add2: mc::note("set(%d, 1)", k); c.set(item, Obj{1}); break;
		case Remove: mc::note("remove(%d)", k); c.remove(item); break;
		case RemoveOut: mc::note("remove(%d, out)", k); c.remove(item, out); break;
		}
	}
	template<typename S> static void mix(S & a, const S & b)
	{
		switch (mc::choose(4))
		{
		case 0: mc::note("+="); a += b; break;
		case 1: mc::note("-="); a -= b; break;
		case 2: mc::note("*="); a *= b; break;
		case 3: { mc::note("+, -, * of both"); S x = a + b, y = a - b, z = a * b; break; }
		}
	}
	static bool custom(void *, MallocBase *) { return false; }
	static const int extra = 0;
	static void make(void * at, int) { new (at) C(); }
};

// Every live object is held by a container, in a block of the right allocator
template<typename K, typename C>
static void account(const std::vector<std::pair<const C *, TrackMalloc*>> & held, const std::vector<TrackMalloc*> & all, size_t others, const char * when)
{
	size_t n = others;
	for (auto & h : held) n += K::objects(*h.first);
	objs().expect(n, when);
	for (auto * a : all)
	{
		size_t lo = 0, hi = 0;
		for (auto & h : held) if (h.second == a)
		{
			std::vector<Place> at;
			K::places(*h.first, at);
			for (auto & p : at) MC_CHECK(inBlock(*a, p.p, p.n), "an element is not in a block of its container's allocator (%s) %s", a->name, when);
			lo += K::blocksMin(*h.first); hi += K::blocksMax(*h.first);
		}
		MC_CHECK(a->live.size() >= lo && a->live.size() <= hi, "allocator %s has %zu live blocks, expected %zu..%zu, %s", a->name, a->live.size(), lo, hi, when);
	}
}

// Containers that borrow an allocator
template<typename K>
struct World
{
	using C = typename K::C;
	struct Slot { alignas(C) unsigned char mem[sizeof(C)]; C * c = nullptr; TrackMalloc * a = nullptr; };
	TrackGlobal g;
	TrackMalloc a{"A"}, b{"B"};
	Slot slots[2];

	void remake(Slot & s)
	{
		if (s.c) { s.c->~C(); s.c = nullptr; }
		enum { WithA, WithB, Plain };
		int how = mc::choose(3 + K::extra);
		if (how == WithB && K::heavy && !mc::thorough()) throw mc::Abandon{};
		s.c = (C*)s.mem;
		if (how == WithA && K::custom(s.mem, &a)) { s.a = &a; mc::note("made with A"); }
		else if (how == WithB && K::custom(s.mem, &b)) { s.a = &b; mc::note("made with B"); }
		else
		{
			if (how < Plain) { s.c = nullptr; K::make(s.mem, 0); s.c = (C*)s.mem; s.a = &g.m; return; }
			K::make(s.mem, how - Plain); s.a = &g.m; mc::note("made with the default allocator (form %d)", how - Plain);
		}
	}
	World() {}
	~World() { close(); }
	void close() { for (auto & s : slots) if (s.c) { C * c = s.c; s.c = nullptr; c->~C(); } }
	void done(const char * when) { close(); g.expectEmpty(when); a.expectEmpty(when); b.expectEmpty(when); }

	void check(const char * when)
	{
		std::vector<std::pair<const C *, TrackMalloc*>> held;
		for (auto & s : slots) held.push_back({s.c, s.a});
		account<K, C>(held, {&g.m, &a, &b}, 0, when);
	}
	string canon()
	{
		string s;
		for (auto & x : slots) s += string(x.a->name) + ":" + K::canon(*x.c) + "|";
		return s;
	}
	void step()
	{
		int di = mc::choose(2); Slot & d = slots[di], & s = slots[1 - di];
		enum { Change, Copy, CopyMake, Move, MoveMake, Self, Mix, Make, N };
		const char * names[] = {"change", "copy assignment", "copy construction", "move assignment", "move construction", "self assignment", "mixing", "making anew"};
		int op = mc::choose(N);
		mc::note("%d: %s", di, names[op]);
		switch (op)
		{
		case Change: K::change(*d.c); break;
		case Copy: *d.c = (const C &)*s.c; break;
		case CopyMake: d.c->~C(); d.c = nullptr; new (d.mem) C((const C &)*s.c); d.c = (C*)d.mem; d.a = &g.m; break;
		case Move: *d.c = move(*s.c); d.a = s.a; break;
		case MoveMake: d.c->~C(); d.c = nullptr; new (d.mem) C(move(*s.c)); d.c = (C*)d.mem; d.a = s.a; break;
		case Self: *d.c = (const C &)*d.c; break;
		case Mix: K::mix(*d.c, *s.c); break;
		case Make: remake(d); break;
		}
		check(names[op]);
	}
};

template<typename K>
void borrowed(int lim)
{
	limit = lim;
	World<K> w;
	for (auto & s : w.slots) { K::make(s.mem, 0); s.c = (typename K::C*)s.mem; s.a = &w.g.m; }
	try
	{
		for (;;) { mc::visit(w.canon(), 1); w.step(); }
	}
	catch (mc::Abandon &)
	{
		w.done("after both containers were destroyed");
		throw;
	}
}

// Containers that own an allocator by value
template<typename K>
void owned(int lim)
{
	limit = lim;
	using C = typename K::template Of<Owned>;
	TrackGlobal g;
	Owned::trouble().clear();
	struct Slot { alignas(C) unsigned char mem[sizeof(C)]; C * c = nullptr; Owned * a = nullptr; } s;
	auto make = [&] {
		std::set<Owned*> before = Owned::all();
		new (s.mem) C(); s.c = (C*)s.mem; s.a = nullptr;
		for (auto * o : Owned::all()) if (!before.count(o)) s.a = o;
		MC_CHECK(s.a && (char*)s.a >= (char*)s.mem && (char*)s.a < (char*)s.mem + sizeof(C), "the container does not own its allocator");
	};
	auto close = [&](const char * when) {
		if (s.c) { C * c = s.c; s.c = nullptr; c->~C(); }
		MC_CHECK(Owned::trouble().empty(), "%s %s", Owned::trouble().c_str(), when);
		MC_CHECK(Owned::all().empty(), "an owned allocator was not destroyed %s", when);
		g.expectEmpty(when);
	};
	make();
	try
	{
		for (;;)
		{
			mc::visit(K::canon(*s.c), 1);
			if (mc::choose(8) == 7) { mc::note("destroyed and made anew"); close("after it"); make(); }
			else K::change(*s.c);
			account<K, C>({{s.c, s.a}}, {&g.m, s.a}, 0, "after the step");
		}
	}
	catch (mc::Abandon &)
	{
		close("after the container was destroyed");
		throw;
	}
}

// Arguments of a container that owns its allocator go to the allocator
static void arguments()
{
	TrackGlobal g;
	{
		int v = mc::choose(5);
		struct A : Array<Obj, Owned> { using Array<Obj, Owned>::Array; Owned & m() { return autoMalloc; } };
		(void)v;
		Array<Obj, Owned> a(v); List<Obj, Owned> l(v); BinaryTree<Obj, ThreeWayCompare, Owned> t(v);
		std::multiset<int> got; for (auto * o : Owned::all()) got.insert(o->arg);
		MC_CHECK(got == (std::multiset<int>{v, v, v}), "owned allocators were not built from the arguments of their containers");
		a.push(Obj{1}); l.pushBack(Obj{1}); t.insert(Obj{1});
		mc::tick();
	}
	MC_CHECK(Owned::trouble().empty(), "%s", Owned::trouble().c_str());
	g.expectEmpty("at end");
}

// The default allocator is the one installed when the container is made
static void installed()
{
	TrackGlobal g; TrackMalloc other{"installed later"};
	{
		int kind = mc::choose(5), more = mc::choose(4);
		Array<Obj> a; List<Obj> l; BinaryTree<Obj> t; Map<Obj, Obj> m; Set<Obj> s;
		auto add = [&](int v) { switch (kind) { case 0: a.push(Obj{v}); break; case 1: l.pushBack(Obj{v}); break; case 2: t.insert(Obj{v}); break; case 3: m.insert(Obj{v}, Obj{v}); break; case 4: s.set(Obj{v}); break; } };
		add(1);
		MallocBase * saved = gMalloc; gMalloc = &other;
		for (int i = 0; i < more; ++i) add(2 + i);
		MC_CHECK(other.live.empty() && other.allocs == 0, "a container went to another allocator than the one it was made with");
		gMalloc = saved;
	}
	g.expectEmpty("at end");
	other.expectEmpty("at end");
}

// Elements that can only be moved: two containers, every history of insertions, removals and moves
struct MoveArray
{
	using C = Array<MovObj>; static constexpr bool sorted = false, unique = false; static constexpr size_t per = 1;
	static void add(C & c, int k, int how) { how == 0 ? (void)c.push(MovObj{k}) : how == 1 ? (void)c.insertAt(0, MovObj{k}) : (void)c(c.getCount(), MovObj{k}); }
	static bool front(int how) { return how == 1; }
	static void del(C & c, int k, int how) { for (uint64 i = 0; i < c.getCount(); ++i) if (c[i].get() == k) { if (how) { MovObj out; c.popAt(i, out); MC_CHECK(out.get() == k, "the element taken out is %d, expected %d", out.get(), k); } else c.removeAt(i); return; } }
	static std::vector<int> read(const C & c) { std::vector<int> v; for (auto & o : c) v.push_back(o.get()); return v; }
};
struct MoveList
{
	using C = List<MovObj>; static constexpr bool sorted = false, unique = false; static constexpr size_t per = 1;
	static void add(C & c, int k, int how) { how == 1 ? (void)c.pushFront(MovObj{k}) : (void)c.pushBack(MovObj{k}); }
	static bool front(int how) { return how == 1; }
	static void del(C & c, int k, int how)
	{
		auto it = c.begin(); while (it != c.end() && it->get() != k) ++it;
		if (it == c.end()) return;
		if (how && it == c.begin()) { MovObj out; c.popFront(out); MC_CHECK(out.get() == k, "the element taken out is %d, expected %d", out.get(), k); }
		else c.remove(it);
	}
	static std::vector<int> read(const C & c) { std::vector<int> v; for (auto * l = c.getHead(); l; l = l->next) v.push_back(l->data.get()); return v; }
};
struct MoveTree
{
	using C = BinaryTree<MovObj>; static constexpr bool sorted = true, unique = true; static constexpr size_t per = 1;
	static void add(C & c, int k, int how) { how == 0 ? (void)c.insertUnique(MovObj{k}) : how == 1 ? (void)c.replace(MovObj{k}) : c.find(MovObj{k}) == c.end() ? (void)c.insert(MovObj{k}) : void(); }
	static bool front(int) { return false; }
	static void del(C & c, int k, int how) { if (how) c.remove(c.find(MovObj{k})); else c.remove(MovObj{k}); }
	static std::vector<int> read(const C & c) { checkTree(c); std::vector<int> v; for (auto & o : c) v.push_back(o.get()); return v; }
};
struct MoveMap
{
	using C = Map<MovObj, MovObj>; static constexpr bool sorted = true, unique = true; static constexpr size_t per = 2;
	static void add(C & c, int k, int how) { if (how) c.insert(MovObj{k}, MovObj{k + 10}); else c[MovObj{k}] = MovObj{k + 10}; }
	static bool front(int) { return false; }
	static void del(C & c, int k, int how)
	{
		MovObj out{-3}; bool had = c.has(MovObj{k});
		if (!how) { c.remove(MovObj{k}); return; }
		MC_CHECK(c.pop(MovObj{k}, out) == had, "pop of key %d", k);
		if (had) MC_CHECK(out.get() == k + 10, "the element taken out is %d, expected %d", out.get(), k + 10);
	}
	static std::vector<int> read(const C & c) { std::vector<int> v; for (auto & p : c) { v.push_back(p.first.get()); MC_CHECK(p.second.get() == p.first.get() + 10, "value %d under key %d", p.second.get(), p.first.get()); } return v; }
};
struct MoveSet
{
	using C = Set<MovObj>; static constexpr bool sorted = true, unique = true; static constexpr size_t per = 1;
	static void add(C & c, int k, int how) { if (how == 2) c.set(MovObj{k}, MovObj{k}); else c.set(MovObj{k}); }
	static bool front(int) { return false; }
	static void del(C & c, int k, int how)
	{
		if (!how) { c.remove(MovObj{k}); return; }
		MovObj out{-3}; bool had = c.get(MovObj{k});
		MC_CHECK(c.remove(MovObj{k}, out) == had, "remove of %d", k);
		if (had) MC_CHECK(out.get() == k, "the element taken out is %d, expected %d", out.get(), k);
	}
	static std::vector<int> read(const C & c) { std::vector<int> v; for (auto & o : c) v.push_back(o.get()); return v; }
};

template<typename K>
static void moveOnly(int depth)
{
	using C = typename K::C;
	TrackGlobal g;
	{
		C * c[2] = {new C, new C}; std::vector<int> m[2];
		for (int d = 0; ; ++d)
		{
			for (int i = 0; i < 2; ++i) { auto v = K::read(*c[i]); MC_CHECK(v == m[i], "container %d holds %s, expected %s", i, show(v).c_str(), show(m[i]).c_str()); }
			objs().expect((m[0].size() + m[1].size()) * K::per, "with the elements held");
			if (d == depth) break;
			int i = mc::choose(2), j = 1 - i, op = mc::choose(8), k = op < 5 ? 1 + mc::choose(3) : 0;
			switch (op)
			{
			case 0: case 1: case 2:
			{
				mc::note("%d: add(%d), way %d", i, k, op);
				K::add(*c[i], k, op);
				if (K::unique && std::find(m[i].begin(), m[i].end(), k) != m[i].end()) break;
				if (K::front(op)) m[i].insert(m[i].begin(), k); else m[i].push_back(k);
				if (K::sorted) std::sort(m[i].begin(), m[i].end());
				break;
			}
			case 3: case 4: { mc::note("%d: remove(%d), way %d", i, k, op - 3); K::del(*c[i], k, op - 3); auto it = std::find(m[i].begin(), m[i].end(), k); if (it != m[i].end()) m[i].erase(it); break; }
			case 5: mc::note("%d: move assignment", i); *c[i] = move(*c[j]); m[i] = m[j]; m[j].clear(); delete c[j]; c[j] = new C; break;
			case 6: { mc::note("%d: move construction", i); C * n = new C{move(*c[i])}; delete c[i]; c[i] = n; break; }
			case 7: { mc::note("%d: moved through another", i); C t{move(*c[i])}; C u; u = move(t); delete c[i]; c[i] = new C; *c[i] = move(u); break; }
			}
		}
		delete c[0]; delete c[1];
	}
	g.expectEmpty("after both containers were destroyed");
}

static void setup()
{
	mc::add("move_array", 8, [] { moveOnly<MoveArray>(mc::bound(4, 5)); });
	mc::add("move_list", 8, [] { moveOnly<MoveList>(mc::bound(4, 5)); });
	mc::add("move_tree", 8, [] { moveOnly<MoveTree>(mc::bound(4, 5)); });
	mc::add("move_map", 8, [] { moveOnly<MoveMap>(mc::bound(4, 5)); });
	mc::add("move_set", 8, [] { moveOnly<MoveSet>(mc::bound(4, 5)); });
	mc::addBfs("array", [] { borrowed<ArrayKind>(mc::bound(4, 8)); });
	mc::addBfs("list", [] { borrowed<ListKind>(mc::bound(8, 30)); });
	mc::addBfs("tree", [] { borrowed<TreeKind>(mc::bound(3, 4)); });
	mc::addBfs("map", [] { borrowed<MapKind>(mc::bound(3, 5)); });
	mc::addBfs("set", [] { borrowed<SetKind>(mc::bound(3, 5)); });
	mc::addBfs("array_owned", [] { owned<ArrayKind>(mc::bound(9, 40)); });
	mc::addBfs("list_owned", [] { owned<ListKind>(mc::bound(12, 60)); });
	mc::addBfs("tree_owned", [] { owned<TreeKind>(mc::bound(4, 6)); });
	mc::addBfs("map_owned", [] { owned<MapKind>(mc::bound(4, 7)); });
	mc::addBfs("set_owned", [] { owned<SetKind>(mc::bound(4, 7)); });
	mc::add("arguments", 1, arguments);
	mc::add("installed", 1, installed);
}
MC_MAIN(setup)
