// C06: copies are equal and independent, moves transfer: for every container, whatever the
// destination held. Two (three) objects of a type are driven by every mixture of mutations, copies
// and moves; after every step each must still show exactly what its own model holds.
#include "track.h"
#include "treecheck.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "containers/pair.h"
#include "containers/tuple.h"
#include <new>
#include <set>
#include <algorithm>

using std::string;

// Reaches protected members, for the canonical state only: never for a verdict. Where a member of
// that name does not exist the state is just described more coarsely.
template<typename T> struct PeekArray : public Array<T, void>
{
	template<typename P> static auto cap(const Array<T, void> & a, int) -> decltype(string(a.*(&P::buffer) ? "b" : "n") + std::to_string(a.*(&P::capacity))) { return string(a.*(&P::buffer) ? "b" : "n") + std::to_string(a.*(&P::capacity)); }
	template<typename P> static string cap(const Array<T, void> & a, long) { return ""; }
	static string canon(const Array<T, void> & a) { return cap<PeekArray>(a, 0); }
};
template<typename M> struct PeekMap : public M
{
	template<typename P> static auto shape(const M & m, int) -> decltype(checkTree(m.*(&P::tree)).canon) { return checkTree(m.*(&P::tree)).canon; }
	template<typename P> static string shape(const M & m, long) { return ""; }
	static string canon(const M & m) { return shape<PeekMap>(m, 0); }
};

static String word(int v) { return String{v == 1 ? "" : v == 2 ? "a longer word" : v == 3 ? "b" : "z"}; }
static string wordOf(int v) { return v == 1 ? "" : v == 2 ? "a longer word" : v == 3 ? "b" : "z"; }
static string text(const String & s) { MC_CHECK(s.getLength() == strlen(*s), "string of length %llu holds '%s'", (unsigned long long)s.getLength(), *s); return string(*s); }

static int limit = 3;		// elements per container
static int values = 2;		// element universe

// --- elements
struct ElemInt { using T = int32; static T make(int v) { return v; } static string show(const T & t) { return std::to_string(t); } static string model(int v) { return std::to_string(v); } };
struct ElemObj { using T = Obj; static T make(int v) { return Obj{v}; } static string show(const T & t) { return std::to_string(t.get()); } static string model(int v) { return std::to_string(v); } };
struct ElemStr { using T = String; static T make(int v) { return word(v); } static string show(const T & t) { return "'" + text(t) + "'"; } static string model(int v) { return "'" + wordOf(v) + "'"; } };
struct ElemArr
{
	using T = Array<Obj>;
	static T make(int v) { T a{}; for (int i = 1; i < v + 1; ++i) a.push(Obj{i}); return a; }
	static string show(const T & t) { string s = "("; for (uint64 i = 0; i < t.getCount(); ++i) s += std::to_string(t[i].get()); return s + ")"; }
	static string model(int v) { string s = "("; for (int i = 1; i < v + 1; ++i) s += std::to_string(i); return s + ")"; }
};
struct ElemList
{
	using T = List<Obj>;
	static T make(int v) { T l{}; for (int i = 1; i < v + 1; ++i) l.pushBack(Obj{i}); return l; }
	static string show(const T & t) { string s = "("; for (auto & o : t) s += std::to_string(o.get()); return s + ")"; }
	static string model(int v) { return ElemArr::model(v); }
};

// --- containers: apply() makes a chosen change to the container and its model
template<typename E>
struct ArrayOf
{
	using C = Array<typename E::T>; using M = std::vector<int>;
	static string show(const M & m) { string s; for (int v : m) s += E::model(v) + ","; return s; }
	static string show(const C & c)
	{
		MC_CHECK(c.isEmpty() == (c.getCount() == 0), "isEmpty disagrees with getCount");
		string s; uint64 n = 0;
		for (uint64 i = 0; i < c.getCount(); ++i) s += E::show(c[i]) + ",";
		for (auto & e : c) { (void)e; ++n; }
		MC_CHECK(n == c.getCount(), "iteration visits %llu of %llu", (unsigned long long)n, (unsigned long long)c.getCount());
		return s;
	}
	static string canon(const C & c) { return PeekArray<typename E::T>::canon(c); }
	static void apply(C & c, M & m)
	{
		enum { Push, First, RemoveLast, RemoveFirst, Write, Empty, Reset, N };
		int n = (int)m.size();
		switch (mc::choose(N))
		{
		case Push: if (n < limit) { int v = 1 + mc::choose(values); mc::note("push(%d)", v); c.push(E::make(v)); m.push_back(v); } break;
		case First: if (n < limit) { int v = 1 + mc::choose(values); mc::note("insertFirst(%d)", v); c.insertFirst(E::make(v)); m.insert(m.begin(), v); } break;
		case RemoveLast: if (n) { mc::note("removeLast()"); c.removeLast(); m.pop_back(); } break;
		case RemoveFirst: if (n) { mc::note("removeFirst()"); c.removeFirst(); m.erase(m.begin()); } break;
		case Write: if (n) { int i = mc::choose(n), v = 1 + mc::choose(values); mc::note("item %d = %d", i, v); c[i] = E::make(v); m[i] = v; } break;
		case Empty: mc::note("empty()"); c.empty(); m.clear(); break;
		case Reset: mc::note("reset()"); c.reset(); m.clear(); break;
		}
	}
	static constexpr bool emptied = true;
};

template<typename E>
struct ListOf
{
	using C = List<typename E::T>; using M = std::vector<int>;
	static string show(const M & m) { return ArrayOf<E>::show(m); }
	static string show(const C & c)
	{
		string s; std::vector<string> fwd, back;
		for (auto & e : c) fwd.push_back(E::show(e));
		for (auto * l = c.getTail(); l; l = l->prev) back.push_back(E::show(l->data));
		MC_CHECK(std::vector<string>(back.rbegin(), back.rend()) == fwd, "backwards differs from forwards");
		MC_CHECK(c.getLength() == fwd.size(), "length %llu of %zu items", (unsigned long long)c.getLength(), fwd.size());
		for (auto & e : fwd) s += e + ",";
		return s;
	}
	static string canon(const C & c) { return ""; }
	static void apply(C & c, M & m)
	{
		enum { Back, Front, RemoveBack, RemoveFront, Write, Empty, N };
		int n = (int)m.size();
		switch (mc::choose(N))
		{
		case Back: if (n < limit) { int v = 1 + mc::choose(values); mc::note("pushBack(%d)", v); c.pushBack(E::make(v)); m.push_back(v); } break;
		case Front: if (n < limit) { int v = 1 + mc::choose(values); mc::note("pushFront(%d)", v); c.pushFront(E::make(v)); m.insert(m.begin(), v); } break;
		case RemoveBack: if (n) { mc::note("removeBack()"); c.removeBack(); m.pop_back(); } break;
		case RemoveFront: if (n) { mc::note("removeFront()"); c.removeFront(); m.erase(m.begin()); } break;
		case Write: if (n) { int i = mc::choose(n), v = 1 + mc::choose(values); mc::note("item %d = %d", i, v); auto it = c.begin(); for (int k = 0; k < i; ++k) ++it; *it = E::make(v); m[i] = v; } break;
		case Empty: mc::note("empty()"); c.empty(); m.clear(); break;
		}
	}
	static constexpr bool emptied = true;
};

struct TreeOf
{
	using C = BinaryTree<Obj>; using M = std::vector<int>;	// sorted
	static string show(const M & m) { string s; for (int v : m) s += std::to_string(v) + ","; return s; }
	static string show(const C & c)
	{
		checkTree(c);
		string s; for (auto & o : c) s += std::to_string(o.get()) + ",";
		return s;
	}
	static string canon(const C & c) { return checkTree(c).canon; }
	static void apply(C & c, M & m)
	{
		int k = mc::choose(values * 2 + 1);
		if (k == values * 2) { mc::note("empty()"); c.empty(); m.clear(); return; }
		int v = 1 + k % values;
		auto at = std::lower_bound(m.begin(), m.end(), v);
		if (k < values) { if ((int)m.size() < limit) { mc::note("insert(%d)", v); c.insert(Obj{v}); m.insert(at, v); } }
		else if (at != m.end() && *at == v) { mc::note("remove(%d)", v); c.remove(Obj{v}); m.erase(at); }
	}
	static constexpr bool emptied = true;
};

template<typename KE, typename VE>
struct MapOf
{
	using C = Map<typename KE::T, typename VE::T>; using M = std::map<int, int>;
	static string show(const M & m) { string s; for (auto & p : m) s += KE::model(p.first) + ":" + VE::model(p.second) + ","; return s; }
	static string show(const C & c)
	{
		string s; uint64 n = 0;
		for (auto & p : c) { s += KE::show(p.first) + ":" + VE::show(p.second) + ","; ++n; }
		MC_CHECK(n == c.getCount(), "count %llu of %llu pairs", (unsigned long long)c.getCount(), (unsigned long long)n);
		for (int k = 1; k < 5; ++k) { auto key = KE::make(k); auto it = c.find(key); if (it != c.end()) s += "+" + KE::model(k) + "=" + VE::show(it->second); }
		return s;
	}
	static string expected(const M & m) { string s = show(m); for (auto & p : m) s += "+" + KE::model(p.first) + "=" + VE::model(p.second); return s; }
	static string canon(const C & c)
	{
		return PeekMap<C>::canon(c);
	}
	static void apply(C & c, M & m)
	{
		enum { Insert, Index, Remove, N };
		int op = mc::choose(N), k = 1 + mc::choose(limit);
		if (op == Remove) { if (m.count(k)) { mc::note("remove(key %d)", k); c.remove(KE::make(k)); m.erase(k); } return; }
		int v = 1 + mc::choose(values);
		mc::note(op == Insert ? "insert(key %d, %d)" : "[key %d] = %d", k, v);
		if (op == Insert) c.insert(KE::make(k), VE::make(v)); else c[KE::make(k)] = VE::make(v);
		m[k] = v;
	}
	static constexpr bool emptied = true;
};

struct SetOf
{
	using C = Set<Obj>; using M = std::vector<int>;
	static string show(const M & m) { return TreeOf::show(m); }
	static string show(const C & c) { MC_CHECK(c.getSize() == c.getTree().getNumNodes(), "set size"); return TreeOf::show(c.getTree()); }
	static string canon(const C & c) { return checkTree(c.getTree()).canon; }
	static void apply(C & c, M & m)
	{
		int k = mc::choose(values * 2), v = 1 + k % values;
		auto at = std::lower_bound(m.begin(), m.end(), v);
		bool in = at != m.end() && *at == v;
		if (k < values) { if (!in) { mc::note("set(%d)", v); c.set(Obj{v}); m.insert(at, v); } }
		else if (in) { mc::note("remove(%d)", v); c.remove(Obj{v}); m.erase(at); }
	}
	static constexpr bool emptied = true;
};

struct StringOf
{
	using C = String; using M = string;
	static string show(const M & m) { return m; }
	static string show(const C & c) { return text(c); }
	static string canon(const C & c) { return PeekArray<ansichar>::canon(c.getArray()); }
	static void apply(C & c, M & m)
	{
		enum { Append, Char, Write, Assign, Prefix, N };
		switch (mc::choose(N))
		{
		case Append: if ((int)m.size() < limit) { mc::note("+= \"z\""); c += "z"; m += "z"; } break;
		case Char: if ((int)m.size() < limit) { mc::note("+= 'w'"); c += 'w'; m += 'w'; } break;
		case Write: if (m.size()) { int i = mc::choose((int)m.size()); mc::note("[%d] = 'w'", i); c[i] = 'w'; m[i] = 'w'; } break;
		case Assign: mc::note("= \"q\""); c = "q"; m = "q"; break;
		case Prefix: if ((int)m.size() < limit) { mc::note("= \"q\" + s"); c = String{"q"} + c; m = "q" + m; } break;
		}
	}
	static constexpr bool emptied = false;
};

// Aggregates of containers
struct PairOf
{
	using C = Pair<Array<Obj>, String>; struct M { std::vector<int> a; string s; };
	static string show(const M & m) { return ArrayOf<ElemObj>::show(m.a) + "/" + m.s; }
	static string show(const C & c) { return ArrayOf<ElemObj>::show(c.first) + "/" + text(c.second); }
	static string canon(const C & c) { return ArrayOf<ElemObj>::canon(c.first) + "/" + StringOf::canon(c.second); }
	static void apply(C & c, M & m) { if (mc::choose(2)) ArrayOf<ElemObj>::apply(c.first, m.a); else StringOf::apply(c.second, m.s); }
	static constexpr bool emptied = false;
};
struct TupleOf
{
	using C = Tuple<List<Obj>, int32, String>; struct M { std::vector<int> a; int i = 7; string s = "t"; };
	static string show(const M & m) { return ArrayOf<ElemObj>::show(m.a) + "/" + std::to_string(m.i) + "/" + m.s; }
	static string show(const C & c) { return ListOf<ElemObj>::show(c.template get<0>()) + "/" + std::to_string(c.template get<1>()) + "/" + text(c.template get<2>()); }
	static string canon(const C & c) { return StringOf::canon(c.template get<2>()); }
	static void apply(C & c, M & m)
	{
		switch (mc::choose(3))
		{
		case 0: ListOf<ElemObj>::apply(c.template get<0>(), m.a); break;
		case 1: { int v = 7 + mc::choose(2); mc::note("get<1> = %d", v); c.template get<1>() = v; m.i = v; break; }
		case 2: StringOf::apply(c.template get<2>(), m.s); break;
		}
	}
	static constexpr bool emptied = false;
};

template<typename A> struct Maker { static void make(void * at, int) { new (at) typename A::C(); } static int forms() { return 1; } };
template<typename E> struct Maker<ArrayOf<E>>
{
	using C = typename ArrayOf<E>::C;
	static int forms() { return 3; }
	static void make(void * at, int form) { if (form == 0) new (at) C(); else if (form == 1) new (at) C(uint64(3)); else new (at) C(gMalloc); }
};
template<> struct Maker<PairOf> { static int forms() { return 1; } static void make(void * at, int) { new (at) PairOf::C(Array<Obj>(), String{}); } };
template<> struct Maker<TupleOf> { static int forms() { return 1; } static void make(void * at, int) { new (at) TupleOf::C(List<Obj>(), 7, String{"t"}); } };

template<typename A> auto expected(const typename A::M & m, int) -> decltype(A::expected(m)) { return A::expected(m); }
template<typename A> string expected(const typename A::M & m, long) { return A::show(m); }

template<typename A>
struct World
{
	using C = typename A::C; using M = typename A::M;
	struct Slot
	{
		alignas(C) unsigned char mem[sizeof(C)];
		C * c = nullptr;
		M m;
		bool moved = false;		// has been the source of a move since it was made
		bool unknown = false;	// content not specified: may only be assigned or destroyed
	};
	std::vector<Slot> slots;

	explicit World(int n) : slots(n) { for (auto & s : slots) { Maker<A>::make(s.mem, 0); s.c = (C*)s.mem; s.m = M{}; } }
	~World() { for (auto & s : slots) s.c->~C(); }

	void compare(const char * op)
	{
		for (size_t i = 0; i < slots.size(); ++i)
		{
			Slot & s = slots[i];
			if (s.unknown) continue;
			string got = A::show(*s.c), want = expected<A>(s.m, 0);
			MC_CHECK(got == want, "after %s: object %zu shows %s, expected %s", op, i, got.c_str(), want.c_str());
		}
	}

	string canon()
	{
		string s;
		for (auto & x : slots) s += x.unknown ? "?|" : A::canon(*x.c) + ";" + A::show(x.m) + (x.moved ? "m|" : "|");
		return s;
	}

	void movedFrom(Slot & s)
	{
		if (A::emptied) { s.m = M{}; s.moved = true; }
		else s.unknown = true;
	}
	void take(Slot & d, Slot & s) { d.m = s.m; d.moved = s.moved; d.unknown = false; }

	void step()
	{
		int n = (int)slots.size();
		int di = mc::choose(n);
		Slot & d = slots[di];
		enum { Change, Copy, CopyMake, Move, MoveMake, Temp, Swap, Make, N };
		const char * names[] = {"change", "copy assignment", "copy construction", "move assignment", "move construction", "assignment from a temporary copy", "swap", "making anew"};
		int op = mc::choose(N);
		int si = op == Change || op == Make ? di : mc::choose(n);
		Slot & s = slots[si];
		if (op != Make && op != Change && s.unknown) throw mc::Abandon{};
		if (op == Change && d.unknown) throw mc::Abandon{};
		if ((op == Move || op == CopyMake || op == MoveMake || op == Swap) && si == di) throw mc::Abandon{};
		if (op == Swap && (d.unknown || si < di)) throw mc::Abandon{};
		if (op != Change) mc::note("%s of %d%s", names[op], di, op == Make ? "" : (" from " + std::to_string(si)).c_str());
		else mc::note("on %d:", di);
		switch (op)
		{
		case Change: A::apply(*d.c, d.m); break;
		case Copy: *d.c = (const C &)*s.c; if (di != si) { d.m = s.m; d.unknown = false; } break;
		case CopyMake: d.c->~C(); d.c = new (d.mem) C((const C &)*s.c); d.m = s.m; d.moved = d.unknown = false; break;
		case Move: *d.c = move(*s.c); take(d, s); movedFrom(s); break;
		case MoveMake: d.c->~C(); d.c = new (d.mem) C(move(*s.c)); take(d, s); movedFrom(s); break;
		case Temp: { const C & r = *s.c; *d.c = C(r); if (di != si) { d.m = s.m; d.unknown = false; } d.moved = false; break; }
		case Swap: { C t(move(*d.c)); *d.c = move(*s.c); *s.c = move(t); std::swap(d.m, s.m); std::swap(d.moved, s.moved); break; }
		case Make: d.c->~C(); d.m = M{}; d.moved = d.unknown = false; Maker<A>::make(d.mem, Maker<A>::forms() > 1 ? mc::choose(Maker<A>::forms()) : 0); d.c = (C*)d.mem; break;
		}
		if (mc::fresh()) compare(names[op]);
	}
};

// All states of two objects that mutations, copies and moves can reach, every step from each
template<typename A>
void closure(int lim, int vals)
{
	limit = lim; values = vals;
	TrackGlobal g;
	{
		World<A> w{2};
		for (;;)
		{
			if (mc::fresh()) w.compare("construction");
			mc::visit(w.canon(), 1);
			w.step();
		}
	}
}

// Every history of n objects, then destruction: nothing may remain
template<typename A>
void histories(int n, int depth, int lim, int vals)
{
	limit = lim; values = vals;
	TrackGlobal g;
	{
		World<A> w{n};
		for (int i = 0; i < depth; ++i) w.step();
	}
	g.expectEmpty("after all containers were destroyed");
}

// --- trees: all pairs of shapes
static std::vector<std::vector<int>> shapes;	// an insertion order (and removals, negative) per distinct shape

static void findShapes(int maxNodes)
{
	shapes.clear();
	std::set<string> seen;
	MallocBase * saved = gMalloc;
	TrackMalloc m{"shapes"}; gMalloc = &m;
	for (int n = 0; n <= maxNodes; ++n)
	{
		std::vector<int> order; for (int i = 1; i <= n; ++i) order.push_back(i);
		do
		{
			for (int removed = 0; removed <= 3; ++removed)
			{
				BinaryTree<int32> t{};
				auto h = order;
				for (int v : order) t.insert(v);
				// a node beside the others that comes and goes changes the colours
				if (removed == 1) { t.insert(n + 1); h.push_back(n + 1); t.remove(n + 1); h.push_back(-(n + 1)); }
				if (removed == 2) { t.insert(0); h.push_back(0); t.remove(0); h.push_back(-1000); }
				if (removed == 3) { for (int v : {n + 1, n + 2, 0}) { t.insert(v); h.push_back(v); } for (int v : {n + 1, n + 2, 0}) { t.remove(v); h.push_back(v ? -v : -1000); } }
				if (seen.insert(checkTree(t).canon).second) shapes.push_back(h);
			}
		} while (std::next_permutation(order.begin(), order.end()));
	}
	gMalloc = saved;
}
static void grow(BinaryTree<Obj> & t, std::vector<int> & m, const std::vector<int> & h, int scale, int base)
{
	for (int v : h)
	{
		int k = v == -1000 ? 0 : v < 0 ? -v : v;
		k = base + k * scale;
		if (v < 0) { t.remove(Obj{k}); m.erase(std::find(m.begin(), m.end(), k)); }
		else { t.insert(Obj{k}); m.insert(std::lower_bound(m.begin(), m.end(), k), k); }
	}
}

static void treePairs()
{
	TrackGlobal g;
	{
		int i = mc::choose((int)shapes.size()), j = mc::choose((int)shapes.size()), form = mc::choose(3);
		mc::note("shape %d %s shape %d", i, form == 0 ? "= copy of" : form == 1 ? "= move of" : "constructed from a copy of", j);
		BinaryTree<Obj> d{}, s{}; TreeOf::M md, ms;
		grow(d, md, shapes[i], 2, 1); grow(s, ms, shapes[j], 3, 2);
		if (form == 0) { d = s; md = ms; }
		else if (form == 1) { d = move(s); md = ms; ms.clear(); }
		else { d.~BinaryTree<Obj>(); new (&d) BinaryTree<Obj>((const BinaryTree<Obj> &)s); md = ms; }
		auto compare = [&](const char * when) {
			MC_CHECK(TreeOf::show(d) == TreeOf::show(md), "destination holds %s, expected %s %s", TreeOf::show(d).c_str(), TreeOf::show(md).c_str(), when);
			MC_CHECK(TreeOf::show(s) == TreeOf::show(ms), "source holds %s, expected %s %s", TreeOf::show(s).c_str(), TreeOf::show(ms).c_str(), when);
		};
		compare("after it");
		if (form != 1) MC_CHECK(checkTree(d).canon == checkTree(s).canon, "the copy of a tree has another shape");
		// one change on one side must not show in the other
		auto & t = mc::choose(2) ? d : s; auto & m = &t == &d ? md : ms;
		int k = mc::choose((int)m.size() + 1);
		if (k == (int)m.size()) { t.insert(Obj{100}); m.push_back(100); mc::note("insert(100)"); }
		else { int v = m[k]; mc::note("remove(%d)", v); t.remove(Obj{v}); m.erase(m.begin() + k); }
		compare("after a change");
	}
	g.expectEmpty("after both trees were destroyed");
}

// --- arrays: every pair of capacities and counts
static void arrayPairs(int cap)
{
	TrackGlobal g;
	{
		auto make = [&](Array<Obj> & a, std::vector<int> & m, int base, const char * who) {
			int c = mc::choose(cap + 1), n = c ? mc::choose(c + 1) : 0;
			mc::note("%s: capacity %d, %d items", who, c, n);
			if (c) a = Array<Obj>(uint64(c));
			for (int i = 0; i < n; ++i) { a.push(Obj{base + i}); m.push_back(base + i); }
		};
		Array<Obj> d, s; std::vector<int> md, ms;
		make(d, md, 100, "destination"); make(s, ms, 200, "source");
		int form = mc::choose(2);
		mc::note(form ? "move assignment" : "copy assignment");
		if (form) { d = move(s); md = ms; ms.clear(); } else { d = s; md = ms; }
		auto compare = [&](const char * when) {
			MC_CHECK(ArrayOf<ElemObj>::show(d) == ArrayOf<ElemObj>::show(md), "destination differs %s", when);
			MC_CHECK(ArrayOf<ElemObj>::show(s) == ArrayOf<ElemObj>::show(ms), "source differs %s", when);
			objs().expect(md.size() + ms.size(), when);
		};
		compare("after it");
		auto & t = mc::choose(2) ? d : s; auto & m = &t == &d ? md : ms;
		int more = mc::choose(4);
		mc::note("%d items more in the %s", more, &t == &d ? "destination" : "source");
		for (int i = 0; i < more; ++i) { t.push(Obj{300 + i}); m.push_back(300 + i); }
		if (!more && m.size()) { t.removeFirst(); m.erase(m.begin()); }
		compare("after a change");
	}
	g.expectEmpty("after both arrays were destroyed");
}

// --- sizes around the powers of two: every way to copy or move, over every size the destination had
static string longWord(int v) { return "item " + std::to_string(v * 7919 % 10007) + (v % 3 ? "" : " is longer than the others are"); }
template<typename T> struct Item { static T make(int v) { return T(v); } static long get(const T & t) { return (long)t; } };
template<> struct Item<Obj> { static Obj make(int v) { return Obj{v}; } static long get(const Obj & t) { return t.get(); } };
template<> struct Item<String> { static String make(int v) { return String{longWord(v).c_str()}; } static long get(const String & t) { MC_CHECK(t.getLength() == strlen(*t), "a text of length %llu", (unsigned long long)t.getLength()); int v = 0; const char * c = *t; while (*c && (*c < '0' || *c > '9')) ++c; v = atoi(c); return v; } };
template<typename T> static long shown(int v) { return std::is_same<T, String>::value ? v * 7919 % 10007 : v; }
using Longs = std::vector<long>;
template<typename T> struct BigArray
{
	using C = Array<T>; static constexpr bool sorted = false;
	static void add(C & c, int v) { c.push(Item<T>::make(v)); } static void drop(C & c, int) { c.removeLast(); }
	static Longs show(const C & c) { Longs l; for (auto & x : c) l.push_back(Item<T>::get(x)); MC_CHECK(c.getCount() == l.size(), "count %llu of %zu items", (unsigned long long)c.getCount(), l.size()); for (size_t i = 0; i < l.size(); ++i) MC_CHECK(Item<T>::get(c[i]) == l[i], "item %zu by index", i); return l; }
};
template<typename T> struct BigList
{
	using C = List<T>; static constexpr bool sorted = false;
	static void add(C & c, int v) { c.pushBack(Item<T>::make(v)); } static void drop(C & c, int) { c.removeBack(); }
	static Longs show(const C & c) { Longs l, b; for (auto & x : c) l.push_back(Item<T>::get(x)); for (auto * x = c.getTail(); x; x = x->prev) b.push_back(Item<T>::get(x->data)); MC_CHECK(c.getLength() == l.size() && Longs(b.rbegin(), b.rend()) == l, "backwards differs from forwards"); return l; }
};
template<typename T> struct BigSet
{
	using C = Set<T>; static constexpr bool sorted = true;
	static void add(C & c, int v) { c.set(Item<T>::make(v)); } static void drop(C & c, int v) { c.remove(Item<T>::make(v)); }
	static Longs show(const C & c) { Longs l; for (auto & x : c) l.push_back(Item<T>::get(x)); MC_CHECK(c.getCount() == l.size(), "count %llu of %zu items", (unsigned long long)c.getCount(), l.size()); for (auto & x : c) MC_CHECK(c.get(x), "a member is not found"); std::sort(l.begin(), l.end()); return l; }
};
template<typename T> struct BigTree
{
	using C = BinaryTree<T>; static constexpr bool sorted = true;
	static void add(C & c, int v) { c.insert(Item<T>::make(v)); } static void drop(C & c, int v) { c.remove(Item<T>::make(v)); }
	static Longs show(const C & c) { checkTree(c); Longs l; for (auto & x : c) l.push_back(Item<T>::get(x)); MC_CHECK(c.getNumNodes() == l.size(), "count %llu of %zu items", (unsigned long long)c.getNumNodes(), l.size()); std::sort(l.begin(), l.end()); return l; }
};
template<typename T> struct BigMap
{
	using C = Map<int32, T>; static constexpr bool sorted = true;
	static void add(C & c, int v) { c.insert(v, Item<T>::make(v)); } static void drop(C & c, int v) { c.remove(v); }
	static Longs show(const C & c) { Longs l; long n = 0; for (auto & x : c) { MC_CHECK(Item<T>::get(x.second) == shown<T>(x.first), "a key has the value of another"); l.push_back(shown<T>(x.first)); ++n; } for (auto & x : c) { auto it = c.find(x.first); MC_CHECK(it != c.end() && &*it == &x, "a key is not found"); } MC_CHECK(c.getCount() == (uint64)n, "count %llu of %ld pairs", (unsigned long long)c.getCount(), n); std::sort(l.begin(), l.end()); return l; }
};
struct BigString
{
	using C = String; static constexpr bool sorted = false; 
	static void add(C & c, int v) { c += (char)('!' + v % 90); } static void drop(C & c, int) { c.splice(c.getLength() - 1, 1, ""); }
	static Longs show(const C & c) { Longs l; MC_CHECK(c.getLength() == strlen(*c), "length %llu", (unsigned long long)c.getLength()); for (const char * p = *c; *p; ++p) l.push_back(*p); return l; }
};
template<typename B> struct ItemOf; template<template<typename> class B, typename T> struct ItemOf<B<T>> { using Type = T; };
template<> struct ItemOf<BigString> { using Type = char; };
template<typename B> static long shownBy(int v) { if constexpr (std::is_same<B, BigString>::value) return '!' + v % 90; else return shown<typename ItemOf<B>::Type>(v); }

template<typename B>
static void longCopies(int bits)
{
	using C = typename B::C;
	TrackGlobal g;
	{
		int e = mc::exponent(3, bits - 2, bits >= 10), d = mc::choose(3) - 1, n = (1 << e) + d, how = mc::choose(5), fill = mc::choose(5);
		const int had[] = {0, 1, n - 1, n + 1, 2 * n};
		mc::note("%d items, way %d, over %d", n, how, had[fill]);
		auto expect = [](const C & c, std::vector<int> m, const char * what) { Longs x; for (int v : m) x.push_back(shownBy<B>(v)); if (B::sorted) std::sort(x.begin(), x.end()); Longs y = B::show(c); MC_CHECK(y.size() == x.size(), "%s holds %zu items, expected %zu", what, y.size(), x.size()); for (size_t i = 0; i < x.size(); ++i) MC_CHECK(x[i] == y[i], "%s: item %zu is %ld, expected %ld", what, i, y[i], x[i]); mc::tick(); };
		std::vector<int> ms, md; C s{};
		for (int i = 0; i < n; ++i) { int v = B::sorted ? (i * 7 + 3) % (n + (n % 7 == 0)) : i; B::add(s, v); ms.push_back(v); }
		alignas(C) char mem[sizeof(C)]; C * c = nullptr;
		if (how == 0 || how == 2) { if (fill) return; }
		else { c = new (mem) C{}; for (int i = 0; i < had[fill]; ++i) { B::add(*c, 5000 + i); md.push_back(5000 + i); } }
		switch (how)
		{
		case 0: c = new (mem) C((const C &)s); md = ms; break;
		case 1: *c = (const C &)s; md = ms; break;
		case 2: c = new (mem) C(move(s)); md = ms; ms.clear(); break;
		case 3: *c = move(s); md = ms; ms.clear(); break;
		case 4: { C & self = s; s = (const C &)self; break; }
		}
		expect(*c, md, "the destination");
		bool movedText = (how == 2 || how == 3) && std::is_same<B, BigString>::value;
		if (!movedText) expect(s, ms, "the source");
		// each goes its own way
		for (int i = 0; i < 3 && md.size(); ++i) { B::drop(*c, md.back()); md.pop_back(); }
		for (int i = 0; i < 5; ++i) { B::add(*c, 9000 + i); md.push_back(9000 + i); }
		if (!movedText) { expect(s, ms, "the source, after changes to the destination"); for (int i = 0; i < 9; ++i) { B::add(s, 9500 + i); ms.push_back(9500 + i); } expect(s, ms, "the source, after changes"); }
		expect(*c, md, "the destination, after changes");
		// and back
		s = (const C &)*c; expect(s, md, "what was assigned back"); B::add(s, 9990);
		expect(*c, md, "what was assigned from"); c->~C();
		std::vector<int> me = md; me.push_back(9990); expect(s, me, "what outlives the other");
	}
	g.expectEmpty("after both were destroyed");
}

template<typename A>
static void both(const char * name, int lim, int vals, int limT, int valsT, int depth)
{
	static std::vector<string> names; names.reserve(100);
	names.push_back(string("closure_") + name);
	mc::addBfs(names.back().c_str(), [=] { closure<A>(mc::bound(lim, limT), mc::bound(vals, valsT)); });
	names.push_back(string("histories_") + name);
	mc::add(names.back().c_str(), 4, [=] { histories<A>(2, mc::bound(depth, depth + 1), 2, 1); });
	names.push_back(string("three_") + name);
	mc::add(names.back().c_str(), false, true, 8, [=] { histories<A>(3, 4, 2, 1); });
}

static void setup()
{
	findShapes(mc::thorough() ? 7 : 6);
	both<ArrayOf<ElemInt>>("array_int", 3, 2, 4, 2, 4);
	both<ArrayOf<ElemObj>>("array_obj", 2, 2, 3, 2, 4);
	both<ArrayOf<ElemStr>>("array_string", 2, 2, 3, 2, 3);
	both<ArrayOf<ElemList>>("array_of_lists", 2, 2, 3, 2, 3);
	both<ListOf<ElemObj>>("list_obj", 3, 2, 4, 2, 4);
	both<ListOf<ElemStr>>("list_string", 2, 2, 3, 2, 3);
	both<ListOf<ElemArr>>("list_of_arrays", 2, 2, 3, 2, 3);
	both<TreeOf>("tree", 2, 3, 3, 3, 4);
	both<MapOf<ElemInt, ElemObj>>("map_int_obj", 2, 2, 3, 2, 4);
	both<MapOf<ElemObj, ElemStr>>("map_obj_string", 2, 2, 3, 2, 3);
	both<MapOf<ElemStr, ElemArr>>("map_string_array", 2, 2, 3, 2, 3);
	both<SetOf>("set", 3, 4, 3, 5, 4);
	both<StringOf>("string", 2, 1, 3, 1, 4);
	both<PairOf>("pair", 1, 1, 1, 1, 3);
	both<TupleOf>("tuple", 1, 1, 2, 1, 3);
	mc::add("long_array_int", 1, [] { longCopies<BigArray<int32>>(mc::bound(10, 14)); });
	mc::add("long_array_obj", 2, [] { longCopies<BigArray<Obj>>(mc::bound(9, 12)); });
	mc::add("long_array_string", 2, [] { longCopies<BigArray<String>>(mc::bound(8, 11)); });
	mc::add("long_list_obj", 2, [] { longCopies<BigList<Obj>>(mc::bound(9, 12)); });
	mc::add("long_list_string", 2, [] { longCopies<BigList<String>>(mc::bound(8, 11)); });
	mc::add("long_set_int", 2, [] { longCopies<BigSet<int32>>(mc::bound(9, 12)); });
	mc::add("long_set_string", 2, [] { longCopies<BigSet<String>>(mc::bound(8, 11)); });
	mc::add("long_tree_obj", 2, [] { longCopies<BigTree<Obj>>(mc::bound(9, 12)); });
	mc::add("long_map_obj", 2, [] { longCopies<BigMap<Obj>>(mc::bound(9, 12)); });
	mc::add("long_map_string", 2, [] { longCopies<BigMap<String>>(mc::bound(8, 11)); });
	mc::add("long_string", 2, [] { longCopies<BigString>(mc::bound(10, 15)); });
	mc::add("tree_pairs", 8, treePairs);
	mc::add("array_pairs", 8, [] { arrayPairs(mc::bound(6, 10)); });
}
MC_MAIN(setup)
