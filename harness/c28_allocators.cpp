// C28: containers over the allocators of the library itself: shared between containers, owned by one,
// exactly as large as it needs, or installed as the global one. Every history of operations up to the
// depth bound, compared with models after every step; the same history again must not take more
// memory from the system, and everything is returned in the end.
#include <map>
#include <set>
#include <string>
#include <vector>
#include "track.h"
#include "wrapmem.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/set.h"
#include "containers/string.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_pool.h"
#include "regex/regex.h"
#include "templates/function.h"

using std::vector;

// Elements of several sizes and alignments
struct Odd { unsigned char c[3]; };
struct alignas(32) Wide { int64 v, w[3]; };
struct Big { int32 v; char rest[100]; };
template<typename E> static E make(int v) { return E(v); }
template<> Odd make<Odd>(int v) { return {{(unsigned char)v, (unsigned char)(v + 1), (unsigned char)(v + 2)}}; }
template<> Wide make<Wide>(int v) { return {v, {v + 1, v + 2, v + 3}}; }
template<> Big make<Big>(int v) { Big b; b.v = v; ::memset(b.rest, v, sizeof b.rest); return b; }
template<typename E> static int read(const E & e) { return (int)e; }
template<> int read(const Odd & e) { return e.c[1] == (unsigned char)(e.c[0] + 1) && e.c[2] == (unsigned char)(e.c[0] + 2) ? e.c[0] : -1; }
template<> int read(const Wide & e) { return e.w[0] == e.v + 1 && e.w[1] == e.v + 2 && e.w[2] == e.v + 3 ? (int)e.v : -1; }
template<> int read(const Big & e) { for (char c : e.rest) if (c != (char)e.v) return -1; return e.v; }

template<typename T> static void aligned(const T * p, const char * what) { MC_CHECK(((uintp)p & (alignof(T) - 1)) == 0, "%s: %p is not aligned to %zu", what, (const void *)p, alignof(T)); }

struct Back		// allocators for pointers to them; the system's memory is accounted for
{
	enum { Ansi, Pool, PoolBuffer, Pooled, PooledOne, Binned, BinnedSmall, N };
	static const char * name(int k) { static const char * const n[] = {"system", "pool", "pool on a given buffer", "pools of 3", "pools of 1", "binned", "binned, few bins"}; return n[k]; }
	MallocBase * m = nullptr; void * buffer = nullptr; int kind; sizet size, align; uint32 n;
	// Room for n blocks at once of at most the size and alignment
	Back(int inKind, uint32 inN, sizet inSize, sizet inAlign) : kind{inKind}, size{inSize}, align{inAlign}, n{inN}
	{
		switch (kind)
		{
			case Ansi: m = new MallocAnsi; break;
			case Pool: m = new MallocPool{n, size, align}; break;
			case PoolBuffer: { sizet a = align < 16 ? 16 : align, bytes = n * (size + 8 + a); if (posix_memalign(&buffer, a, bytes)) mc::fail("memory"); m = new MallocPool{n, size, align, buffer}; break; }
			case Pooled: m = new MallocPooled{3, size, align}; break;
			case PooledOne: m = new MallocPooled{1, size, align, 2}; break;
			case Binned: m = new MallocBinned{{1ull << 16, 8, 1ull << 18, 8}, align}; break;
			case BinnedSmall: m = new MallocBinned{{1ull << 14, 16, 1ull << 18, 4}, align}; break;
		}
	}
	~Back() { delete m; ::free(buffer); }
	// Nothing is in use: every block of a pool can be had again, and no more
	void expectWhole()
	{
		if (kind != Pool && kind != PoolBuffer) return;
		std::set<void *> got;
		for (uint32 i = 0; i < n; ++i) { void * p = m->alloc(size, align); MC_CHECK(p && got.insert(p).second, "%s: only %u of %u blocks are left when none is in use", name(kind), i, n); }
		MC_CHECK(m->alloc(size, align) == nullptr, "%s: more than its %u blocks", name(kind), n);
		for (void * p : got) m->free(p);
	}
};

// Five containers of one kind of element over whatever the maker gives them
template<typename E, typename ArrayT, typename ListT, typename TreeT, typename MapT>
struct Five
{
	ArrayT * a[2]; ListT * l; TreeT * t; MapT * m;
	vector<int> ma[2]; std::vector<int> ml; std::multiset<int> mt; std::map<int, int> mm; int next = 0;
	static const int ops = 23;
	static constexpr size_t limit = 6;

	// False: not now
	bool apply(int op)
	{
		int v = ++next; bool note = mc::fresh();
		auto n = [&](const char * s) { if (note) mc::note("%s (%d)", s, v); };
		switch (op)
		{
			case 0: case 1: { int k = op; if (ma[k].size() >= limit) return false; n(k ? "second array: append" : "array: append"); a[k]->push(make<E>(v)); ma[k].push_back(v); return true; }
			case 2: if (ma[0].size() >= limit) return false; n("array: insert first"); a[0]->insertFirst(make<E>(v)); ma[0].insert(ma[0].begin(), v); return true;
			case 3: if (ma[0].empty()) return false; n("array: remove first"); a[0]->removeAt(0); ma[0].erase(ma[0].begin()); return true;
			case 4: if (ma[0].empty()) return false; n("array: reset"); a[0]->reset(); ma[0].clear(); return true;
			case 5: n("second array = array"); *(Array<E> *)a[1] = *(const Array<E> *)a[0]; ma[1] = ma[0]; return true;
			case 6: if (ma[1].empty()) return false; n("second array: remove last"); a[1]->removeLast(); ma[1].pop_back(); return true;
			case 7: if (ma[0].empty()) return false; n("array: copied for a moment"); { Array<E> c{*(const Array<E> *)a[0]}; MC_CHECK(c.getCount() == ma[0].size() && read(c[0]) == ma[0][0], "the copy"); } return true;
			case 8: if (ml.size() >= limit) return false; n("list: push back"); l->pushBack(make<E>(v)); ml.push_back(v); return true;
			case 9: if (ml.size() >= limit) return false; n("list: push front"); l->pushFront(make<E>(v)); ml.insert(ml.begin(), v); return true;
			case 10: if (ml.empty()) return false; n("list: remove front"); l->removeFront(); ml.erase(ml.begin()); return true;
			case 11: if (ml.empty()) return false; n("list: empty"); l->empty(); ml.clear(); return true;
			case 12: if (ml.size() < 2) return false; n("list: remove the second"); { auto it = l->begin(); ++it; l->remove(it); } ml.erase(ml.begin() + 1); return true;
			case 13: case 14: if (mt.size() >= limit) return false; { int k = op == 13 ? v : 100 - v; n(op == 13 ? "tree: insert the largest" : "tree: insert below"); t->insert(k); mt.insert(k); } return true;
			case 15: if (mt.empty()) return false; n("tree: remove the least"); t->remove(*mt.begin()); mt.erase(mt.begin()); return true;
			case 16: if (mt.empty()) return false; n("tree: remove the largest"); t->remove(*mt.rbegin()); mt.erase(--mt.end()); return true;
			case 17: case 18: if (mm.size() >= limit) return false; { int k = op == 17 ? v : -v; n(op == 17 ? "map: insert the last" : "map: insert the first"); m->insert(k, make<E>(v)); mm[k] = v; } return true;
			case 19: if (mm.empty()) return false; n("map: write"); (*m)[mm.begin()->first] = make<E>(v); mm.begin()->second = v; return true;
			case 20: if (mm.empty()) return false; n("map: remove the first"); m->remove(mm.begin()->first); mm.erase(mm.begin()); return true;
			case 21: if (mm.size() < 2) return false; n("map: remove the last"); m->remove(mm.rbegin()->first); mm.erase(--mm.end()); return true;
			case 22: if (mt.empty()) return false; n("tree: empty"); t->empty(); mt.clear(); return true;
		}
		return false;
	}
	void check()
	{
		if (!mc::fresh()) return;
		for (int k = 0; k < 2; ++k)
		{
			const Array<E> & x = *a[k];
			MC_CHECK(x.getCount() == ma[k].size(), "array %d counts %llu, expected %zu", k, (unsigned long long)x.getCount(), ma[k].size());
			for (size_t i = 0; i < ma[k].size(); ++i) { aligned(&x[i], "an element of an array"); MC_CHECK(read(x[i]) == ma[k][i], "array %d: element %zu is %d, expected %d", k, i, read(x[i]), ma[k][i]); }
		}
		MC_CHECK(l->getLength() == ml.size(), "the list counts %llu, expected %zu", (unsigned long long)l->getLength(), ml.size());
		size_t i = 0;
		for (auto * x = l->getHead(); x; x = x->next, ++i) { aligned(x, "a link"); MC_CHECK(i < ml.size() && read(x->data) == ml[i], "list: element %zu", i); }
		MC_CHECK(i == ml.size(), "the list ends after %zu of %zu", i, ml.size());
		MC_CHECK(t->getNumNodes() == mt.size(), "the tree counts %llu, expected %zu", (unsigned long long)t->getNumNodes(), mt.size());
		auto it = mt.begin();
		for (auto * x = mt.empty() ? nullptr : t->getMin(); x; x = x->next, ++it) { aligned(x, "a node"); MC_CHECK(it != mt.end() && x->data == *it, "tree: an element"); }
		MC_CHECK(it == mt.end(), "the tree ends early");
		MC_CHECK(m->getCount() == mm.size(), "the map counts %llu, expected %zu", (unsigned long long)m->getCount(), mm.size());
		auto at = mm.begin();
		for (auto & p : *m) { aligned(&p, "a pair"); MC_CHECK(at != mm.end() && p.first == at->first && read(p.second) == at->second, "map: a pair"); ++at; }
		MC_CHECK(at == mm.end(), "the map ends early");
	}
};

// Histories over one allocator for all five. A second, equal run finds all it needs
template<typename E>
static void shared(int depth)
{
	using F = Five<E, Array<E>, List<E>, BinaryTree<int64>, Map<int32, E>>;
	int kind = mc::choose(Back::N), from = mc::choose(3);
	mc::note("over one allocator: %s", Back::name(kind));
	TrackSystem t;
	{
		Back b{kind, 4 * F::limit + 4, 2048, 64};
		vector<int> ops;
		// Begin with nothing, some, or a lot
		static const vector<int> start[3] = {{}, {0, 0, 8, 8, 13, 17, 1}, {0, 0, 0, 0, 0, 8, 8, 9, 9, 13, 14, 13, 14, 17, 18, 17, 18, 5, 3, 10, 15, 20}};
		size_t taken = 0;
		for (int run = 0; run < 2; ++run)
		{
			{
				Array<E> x{b.m}, y{b.m}; List<E> l{b.m}; BinaryTree<int64> tr{b.m}; Map<int32, E> m{b.m};
				F f{{&x, &y}, &l, &tr, &m};
				for (int op : start[from]) if (!f.apply(op)) mc::fail("begin");
				for (int d = 0; d < depth; ++d)
				{
					if (!run) ops.push_back(mc::choose(F::ops));
					if (!f.apply(ops[d])) throw mc::Abandon{};
					f.check();
				}
			}
			if (!run) taken = t.count();
			else MC_CHECK(t.count() == taken, "%s: %zu blocks from the system after a history, %zu after the same again", Back::name(kind), taken, t.count());
			b.expectWhole();
		}
	}
	t.expectEmpty("after the allocator was destroyed");
}

// Each container owns its allocator
template<typename E, typename MallocT>
static void owned(int depth)
{
	using F = Five<E, Array<E, MallocT>, List<E, MallocT>, BinaryTree<int64, ThreeWayCompare, MallocT>, Map<int32, E, ThreeWayCompare, MallocT>>;
	int from = mc::choose(3);
	TrackSystem t;
	{
		vector<int> ops;
		static const vector<int> start[3] = {{}, {0, 0, 8, 8, 13, 17, 1}, {0, 0, 0, 0, 0, 8, 8, 9, 9, 13, 14, 13, 14, 17, 18, 17, 18, 5, 3, 10, 15, 20}};
		Array<E, MallocT> x, y; List<E, MallocT> l; BinaryTree<int64, ThreeWayCompare, MallocT> tr; Map<int32, E, ThreeWayCompare, MallocT> m;
		F f{{&x, &y}, &l, &tr, &m};
		for (int op : start[from]) if (!f.apply(op)) mc::fail("begin");
		for (int d = 0; d < depth; ++d) { if (!f.apply(mc::choose(F::ops))) throw mc::Abandon{}; f.check(); }
	}
	t.expectEmpty("after the containers were destroyed");
}

// A container alone over a pool with blocks of exactly the size it asks for, and as many as it needs
struct Probe : TrackMalloc
{
	sizet size = 0, align = 0;
	void * alloc(sizet s, sizet a) override { if (s > size) size = s; if (a > align) align = a; return TrackMalloc::alloc(s, a); }
};
template<typename C, typename Do>
static void exact(const char * what, Do && change, int depth)
{
	sizet size, align;
	{ Probe p; { C c{&p}; change(c, 0, 1); } size = p.size; align = p.align; }
	const uint32 most = 4;
	int kind = Back::Pool + mc::choose(4);
	mc::note("%s over an exact allocator: %s, %llu bytes", what, Back::name(kind), (unsigned long long)size);
	TrackSystem t;
	{
		Back b{kind, most, size, align};
		{
			C c{b.m}; vector<int> model; int v = 0;
			for (int d = 0; d < depth; ++d)
			{
				int op = mc::choose(2 + (int)model.size());
				if (op < 2)
				{
					if (model.size() >= most) throw mc::Abandon{};
					++v; mc::note(op ? "insert %d at the end" : "insert %d at the front", v);
					change(c, op, v); model.insert(op ? model.end() : model.begin(), v);
				}
				else { mc::note("remove element %d", op - 2); change(c, 2 + (op - 2), 0); model.erase(model.begin() + (op - 2)); }
				if (!mc::fresh()) continue;
				vector<int> is; change(c, -1, 0, &is);
				MC_CHECK(is == model, "%s over %s: does not hold what was put in", what, Back::name(kind));
			}
		}
		b.expectWhole();
	}
	t.expectEmpty("after the allocator was destroyed");
}

template<typename E>
static void exactList(int depth)
{
	exact<List<E>>("list", [](List<E> & l, int op, int v, vector<int> * out = nullptr)
	{
		if (op == -1) { for (auto & e : l) { aligned(&e, "an element"); out->push_back(read(e)); } }
		else if (op == 0) l.pushFront(make<E>(v));
		else if (op == 1) l.pushBack(make<E>(v));
		else { auto it = l.begin(); for (int k = 2; k < op; ++k) ++it; l.remove(it); }
	}, depth);
}
template<typename E>
static void exactMap(int depth)
{
	exact<Map<int32, E>>("map", [](Map<int32, E> & m, int op, int v, vector<int> * out = nullptr)
	{
		if (op == -1) { for (auto & p : m) { aligned(&p, "a pair"); MC_CHECK((p.first < 0 ? -p.first : p.first) == read(p.second), "a value"); out->push_back(read(p.second)); } }
		else if (op < 2) m.insert(op ? v : -v, make<E>(v));
		else { auto it = m.begin(); for (int k = 2; k < op; ++k) ++it; m.remove(int32(it->first)); }
	}, depth);
}

// Installed as the global allocator: strings, arrays of strings, functions and expressions
struct Installed
{
	MallocBase * old;
	explicit Installed(MallocBase * m) : old{gMalloc} { gMalloc = m; }
	~Installed() { gMalloc = old; }
};
static void installed(int depth)
{
	int kind = mc::choose(Back::N);
	mc::note("installed as the global allocator: %s", Back::name(kind));
	TrackSystem t;
	{
		Back b{kind, 512, 2048, 64};
		vector<int> ops; size_t taken = 0;
		for (int run = 0; run < 2; ++run)
		{
			{
				Installed i{b.m};
				String s{"ab"}; std::string ms = "ab"; Array<String> a; vector<std::string> ma; Map<String, int32> m; std::map<std::string, int> mm;
				Function<int32(int32)> fn; int add = 0; bool callable = false; Re::Regex * re = nullptr;
				struct Delete { Re::Regex *& r; ~Delete() { delete r; } } del{re};
				for (int d = 0; d < depth; ++d)
				{
					if (!run) ops.push_back(mc::choose(12));
					auto note = [&](const char * x) { if (mc::fresh()) mc::note("%s", x); };
					switch (ops[d])
					{
						case 0: note("append text"); s += "-appended text-"; ms += "-appended text-"; break;
						case 1: note("append a number"); s += int32(-12345678); ms += "-12345678"; break;
						case 2: note("format"); s = String::format("<%s|%d>", *s, d); ms = "<" + ms + "|" + std::to_string(d) + ">"; break;
						case 3: note("replace"); s.replaceAll("a", "aba"); { std::string r; for (char c : ms) { if (c == 'a') r += "aba"; else r += c; } ms = r; } break;
						case 4: note("upper case"); s = s.toUpper(); for (char & c : ms) c = (char)toupper(c); break;
						case 5: note("an element more"); a.push(s); ma.push_back(ms); break;
						case 6: if (ma.empty()) throw mc::Abandon{}; note("the first element less"); a.removeAt(0); ma.erase(ma.begin()); break;
						case 7: note("a key more"); m.insert(s, int32(d)); mm[ms] = d; break;
						case 8: if (mm.empty()) throw mc::Abandon{}; note("a key less"); m.remove(String{mm.begin()->first.c_str()}); mm.erase(mm.begin()); break;
						case 9: note("another function"); { add = d + 1; callable = true; Wide w = make<Wide>(add); fn = [w](int32 x) { return x + read(w); }; } break;
						case 10: note("another expression"); delete re; re = nullptr; re = new Re::Regex{String{"(a|[^b]{2})*\\b\\d?"}}; break;
						case 11: if (ms.size() < 3) throw mc::Abandon{}; note("a part"); s = s.substr(2, 1); ms = ms.substr(1, 2); break;
					}
					if (ms.size() > 400) throw mc::Abandon{};
					MC_CHECK(ms == *s && s.getLength() == ms.size(), "the string is '%s', expected '%s'", *s, ms.c_str());
					MC_CHECK(a.getCount() == ma.size(), "the array counts %llu", (unsigned long long)a.getCount());
					for (size_t k = 0; k < ma.size(); ++k) MC_CHECK(ma[k] == *a[k], "element %zu is '%s', expected '%s'", k, *a[k], ma[k].c_str());
					MC_CHECK(m.getCount() == mm.size(), "the map counts %llu", (unsigned long long)m.getCount());
					for (auto & p : mm) { int32 v = -1; MC_CHECK(m.find(String{p.first.c_str()}, v) && v == p.second, "key '%s'", p.first.c_str()); }
					if (callable) MC_CHECK(fn(5) == 5 + add, "the function gives %d", fn(5));
					if (re) MC_CHECK(re->accept("axxa7") && re->accept("xy") && !re->accept("bx"), "the expression");
				}
			}
			if (!run) taken = t.count();
			else MC_CHECK(t.count() == taken, "%s: %zu blocks from the system after a history, %zu after the same again", Back::name(kind), taken, t.count());
			b.expectWhole();
		}
	}
	t.expectEmpty("after the allocator was destroyed");
}

struct BinnedWide : MallocBinned { BinnedWide() : MallocBinned{{1ull << 14, 16, 1ull << 18, 4}, 64} {} };
struct PooledSmall : MallocPooled { PooledSmall() : MallocPooled{2, 2048, 64} {} };

static void setup()
{
	mc::add("shared_int32", 8, [] { shared<int32>(mc::bound(3, 4)); });
	mc::add("shared_odd", false, true, 8, [] { shared<Odd>(3); });
	mc::add("shared_wide", 8, [] { shared<Wide>(mc::bound(3, 4)); });
	mc::add("shared_big", false, true, 8, [] { shared<Big>(3); });
	mc::add("owned_pool", 8, [] { owned<int32, MallocPoolInline<8, 512, 64>>(mc::bound(3, 4)); });
	mc::add("owned_pooled", 8, [] { owned<Odd, MallocPooled>(2); });
	mc::add("owned_pooled_small", 8, [] { owned<Wide, PooledSmall>(mc::bound(3, 4)); });
	mc::add("owned_binned", 8, [] { owned<Wide, BinnedWide>(mc::bound(3, 4)); });
	mc::add("owned_ansi", 8, [] { owned<Big, MallocAnsi>(mc::bound(3, 4)); });
	mc::add("exact_list_int8", 8, [] { exactList<int8>(mc::bound(7, 9)); });
	mc::add("exact_list_odd", 8, [] { exactList<Odd>(mc::bound(7, 9)); });
	mc::add("exact_list_wide", 8, [] { exactList<Wide>(mc::bound(7, 9)); });
	mc::add("exact_list_big", 8, [] { exactList<Big>(mc::bound(7, 9)); });
	mc::add("exact_map_odd", 8, [] { exactMap<Odd>(mc::bound(6, 8)); });
	mc::add("exact_map_wide", 8, [] { exactMap<Wide>(mc::bound(6, 8)); });
	mc::add("installed", 8, [] { installed(mc::bound(4, 5)); });
}
MC_MAIN(setup)
