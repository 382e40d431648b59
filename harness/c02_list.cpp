// C02: List agrees with a sequence, in both directions, under every operation history.
#include "track.h"
#include "containers/list.h"

using Model = std::vector<int32>;
static int nextValue;
template<typename T> constexpr bool isObj = false;
template<> constexpr bool isObj<Obj> = true;

// Where each value (all are different) was seen first: items stay where they are
static std::unordered_map<int, const void*> places;
template<typename T>
void settle(List<T> & l, const Model & m)
{
	size_t k = 0; std::unordered_map<int, const void*> now;
	for (auto * p = l.getHead(); p && k < m.size(); p = p->next, ++k) { auto it = places.find(m[k]); if (it != places.end()) MC_CHECK(it->second == &p->data, "item %d was moved to another link", m[k]); now[m[k]] = &p->data; }
	places.swap(now);
}

template<typename T>
void compare(List<T> & l, const Model & m, const char * op, size_t extraObjs = 0)
{
	if (!mc::fresh()) return;
	const List<T> & c = l;
	MC_CHECK(l.getLength() == m.size(), "after %s: length %llu, expected %zu", op, (unsigned long long)l.getLength(), m.size());
	MC_CHECK((l.getHead() == nullptr) == m.empty() && (l.getTail() == nullptr) == m.empty(), "after %s: head or tail of an %s list", op, m.empty() ? "empty" : "non-empty");
	size_t k = 0;
	for (auto & x : l) { MC_CHECK(k < m.size() && val(x) == m[k], "after %s: forward iteration differs at %zu", op, k); ++k; }
	MC_CHECK(k == m.size(), "after %s: forward iteration visits %zu of %zu", op, k, m.size());
	k = 0;
	for (auto & x : c) { MC_CHECK(k < m.size() && val(x) == m[k], "after %s: const iteration differs", op); ++k; }
	MC_CHECK(k == m.size(), "after %s: const iteration count", op);
	k = m.size();
	for (auto * p = l.getTail(); p; p = p->prev) { MC_CHECK(k > 0 && val(p->data) == m[k - 1], "after %s: backward walk differs at %zu", op, k); --k; }
	MC_CHECK(k == 0, "after %s: backward walk misses %zu items", op, k);
	if (m.size())
	{
		MC_CHECK(c.getHead()->prev == nullptr && c.getTail()->next == nullptr, "after %s: the ends point to further links", op);
		auto it = l.begin(); for (size_t i = 1; i < m.size(); ++i) it++;
		for (size_t i = m.size() - 1; i > 0; --i) { (i & 1) ? (void)--it : (void)it--; MC_CHECK(val(*it) == m[i - 1], "after %s: iterator decrement", op); }
		MC_CHECK(it == l.begin() && !(it != l.begin()), "after %s: iterator equality", op);
	}
	if (isObj<T>) objs().expect(m.size() + extraObjs, op);
}

template<typename T>
void step(List<T> & l, Model & m)
{
	int n = (int)m.size();
	int v = nextValue, w = nextValue + 1; nextValue += 2;
	enum { PushBack, PushFront, PushBack2, PushFront2, RemoveLink, RemoveIt, RemoveBack, RemoveFront, PopBack, PopFront, Empty, Write, Num };
	int op = mc::choose(Num);
	switch (op)
	{
	case PushBack: { mc::note("pushBack(%d)", v); T & r = l.pushBack(T{v}); MC_CHECK(val(r) == v, "pushBack returned another item"); m.push_back(v); MC_CHECK(&r == &l.getTail()->data, "pushBack reference"); break; }
	case PushFront: { mc::note("pushFront(%d)", v); T & r = l.pushFront(T{v}); MC_CHECK(val(r) == v, "pushFront returned another item"); m.insert(m.begin(), v); MC_CHECK(&r == &l.getHead()->data, "pushFront reference"); break; }
	case PushBack2: case PushFront2:
	{
		T a{v}, b{w};
		mc::note("%s(%d, %d) of lvalues", op == PushBack2 ? "pushBack" : "pushFront", v, w);
		if (op == PushBack2) { l.pushBack(a, b); m.push_back(v); m.push_back(w); }
		else { l.pushFront(a, b); m.insert(m.begin(), v); m.insert(m.begin(), w); }
		MC_CHECK(val(a) == v && val(b) == w, "pushing lvalues modified them");
		break;
	}
	case RemoveLink: case RemoveIt:
	{
		if (n == 0) { if (op == RemoveIt) l.remove(l.end()); break; }
		int i = mc::choose(n);
		mc::note("remove(%s %d)", op == RemoveIt ? "iterator" : "link", i);
		if (op == RemoveLink) { auto * p = l.getHead(); for (int k = 0; k < i; ++k) p = p->next; l.remove(p); }
		else { auto it = l.begin(); for (int k = 0; k < i; ++k) ++it; l.remove(it); }
		m.erase(m.begin() + i);
		break;
	}
	case RemoveBack: mc::note("removeBack()"); MC_CHECK(l.removeBack() == (n > 0), "removeBack result"); if (n) m.pop_back(); break;
	case RemoveFront: mc::note("removeFront()"); MC_CHECK(l.removeFront() == (n > 0), "removeFront result"); if (n) m.erase(m.begin()); break;
	case PopBack: case PopFront:
	{
		T out{-9};
		mc::note("%s()", op == PopBack ? "popBack" : "popFront");
		bool r = op == PopBack ? l.popBack(out) : l.popFront(out);
		MC_CHECK(r == (n > 0), "pop result %d with %d items", r, n);
		int e = n == 0 ? -9 : op == PopBack ? m.back() : m.front();
		MC_CHECK(val(out) == e, "pop gave %d, expected %d", val(out), e);
		if (n) { if (op == PopBack) m.pop_back(); else m.erase(m.begin()); }
		break;
	}
	case Empty: mc::note("empty()"); l.empty(); m.clear(); break;
	case Write: { if (!n) break; int i = mc::choose(n); auto it = l.begin(); for (int k = 0; k < i; ++k) ++it; *it = T{v}; places[v] = places[m[i]]; m[i] = v; mc::note("item %d = %d", i, v); break; }
	}
}

template<typename T>
void histories(int depth)
{
	TrackGlobal g;
	nextValue = 100;
	{
		Model m;
		T src[3] = {T{1}, T{2}, T{3}};
		int shape = mc::choose(3);
		List<T> l = shape == 0 ? List<T>{} : shape == 1 ? List<T>{gMalloc} : List<T>{src + 0, src + 3};
		if (shape == 2) m = {1, 2, 3};
		mc::note(shape == 2 ? "List(1,2,3)" : "List()");
		places.clear(); settle(l, m);
		compare(l, m, "construction", 3);
		for (int d = 0; d < depth; ++d)
		{
			step(l, m);
			settle(l, m);
			compare(l, m, "step", 3);
			if (mc::fresh()) MC_CHECK(g.m.live.size() == m.size(), "%zu links allocated for %zu items", g.m.live.size(), m.size());
		}
	}
	g.expectEmpty("after the list was destroyed");
}

// Long lists: lengths around every power of two, filled in every way, thinned out or drained in every way
template<typename T>
void longLists(int bits)
{
	TrackGlobal g; places.clear();
	{
		int n = (1 << mc::exponent(2, bits - 1, bits >= 13)) + mc::choose(3) - 1, fill = mc::choose(4), op = mc::choose(7);
		mc::note("%d items by method %d, operation %d", n, fill, op);
		List<T> l; Model m;
		auto build = [&]
		{
			m.clear();
			for (int i = 0; i < n; ++i)
			{
				if (fill == 0) l.pushBack(T{i}); else if (fill == 1) l.pushFront(T{i});
				else if (fill == 2) { if (i & 1) l.pushFront(T{i}); else l.pushBack(T{i}); }
				else if (i % 3 == 0) { if (i + 2 < n) l.pushBack(T{i}, T{i + 1}, T{i + 2}); else for (int j = i; j < n; ++j) l.pushBack(T{j}); }
			}
			for (int i = 0; i < n; ++i) m.push_back(fill == 1 ? n - 1 - i : fill == 2 ? (i < n / 2 ? (n / 2 - i) * 2 - 1 : (i - n / 2) * 2) : i);
		};
		build(); settle(l, m); compare(l, m, "filling");
		switch (op)
		{
		case 0: case 1: case 2:		// remove every 2nd or 3rd link, or all but every 5th
		{
			int k = 0; Model r;
			for (auto * p = l.getHead(); p; ++k) { auto * q = p->next; bool out = op == 0 ? k % 2 == 1 : op == 1 ? k % 3 == 0 : k % 5 != 4; if (out) l.remove(p); else r.push_back(m[k]); p = q; }
			m = r; break;
		}
		case 3: { T out{-9}; while (m.size() > 3) { MC_CHECK(l.popBack(out) && val(out) == m.back(), "popBack gives %d, expected %d", val(out), m.back()); m.pop_back(); } break; }
		case 4: { T out{-9}; size_t i = 0; for (; i + 3 < m.size(); ++i) MC_CHECK(l.popFront(out) && val(out) == m[i], "popFront gives %d, expected %d", val(out), m[i]); m.erase(m.begin(), m.begin() + i); break; }
		case 5: { bool back = true; size_t b = 0, e = m.size(); while (e > b) { MC_CHECK(back ? l.removeBack() : l.removeFront(), "nothing to remove"); if (back) --e; else ++b; back = !back; } m.clear(); MC_CHECK(!l.removeBack() && !l.removeFront(), "removal from a drained list"); break; }
		default: l.empty(); places.clear(); compare(l, Model{}, "empty"); build(); break;
		}
		settle(l, m); compare(l, m, "thinning");
		T & r = l.pushBack(T{-2}); l.pushFront(T{-3}); m.push_back(-2); m.insert(m.begin(), -3);
		MC_CHECK(val(r) == -2 && &r == &l.getTail()->data, "pushBack reference");
		settle(l, m); compare(l, m, "filling again");
		MC_CHECK(g.m.live.size() == m.size(), "%zu links allocated for %zu items", g.m.live.size(), m.size());
	}
	g.expectEmpty("after the list was destroyed");
}

// Printing mentions every item once, in order
static void printing()
{
	TrackGlobal g;
	{
		int n = mc::choose(5); List<int32> l; std::vector<std::string> e;
		for (int i = 0; i < n; ++i) { int v = 10 + mc::choose(3) * 11; l.pushBack(v); e.push_back(std::to_string(v)); }
		String s = l.toString();
		std::vector<std::string> got; std::string cur;
		for (const char * p = *s; ; ++p) { if (*p >= '0' && *p <= '9') cur += *p; else { if (!cur.empty()) got.push_back(cur); cur.clear(); } if (!*p) break; }
		mc::note("%s", *s);
		MC_CHECK(got == e, "toString gives '%s'", *s);
	}
	g.expectEmpty("at end");
}

// Iterators reach into the item they stand on, and may start and stop at any link
static void iterators()
{
	TrackGlobal g;
	{
		struct Item { int32 v; int32 w; };
		int n = 1 + mc::choose(4), from = mc::choose(n), skip = mc::choose(n - from + 1); List<Item> l; const List<Item> & c = l;
		for (int i = 0; i < n; ++i) l.pushBack(Item{i, i * 10});
		auto it = l.begin(); auto ct = c.begin();
		for (int i = 0; i < from; ++i) { if (i & 1) { ++it; ct++; } else { it++; ++ct; } }
		mc::note("%d items, iterator on %d, %d further", n, from, skip);
		MC_CHECK(it->v == from && ct->w == from * 10 && (void*)&*it == (void*)&it->v && &*ct == &*it, "what an iterator points to");
		it->w = 7; MC_CHECK((*ct).w == 7, "writing through an iterator");
		auto back = it; for (int i = 0; i < skip; ++i) ++back;
		MC_CHECK((back == l.end()) == (from + skip == n) && (back != it) == (skip != 0), "comparison of iterators");
		int k = from; for (auto x = it; x != back; ++x) { MC_CHECK(x->v == k, "range of iterators"); ++k; } MC_CHECK(k == from + skip, "range of iterators");
		auto s = it; for (int i = from; i > 0; --i) { if (i & 1) --s; else s--; } MC_CHECK(s == l.begin() && s->v == 0, "going back");
	}
	g.expectEmpty("at end");
}

// Items of the list itself pushed again, alone or two at once
template<typename T, typename Make, typename Read>
static void ownItems(Make make, Read read)
{
	TrackGlobal g;
	{
		int n = 1 + mc::choose(5), i = mc::choose(n), j = mc::choose(n), op = mc::choose(6);
		List<T> l; Model m; for (int k = 0; k < n; ++k) { l.pushBack(make(k + 1)); m.push_back(k + 1); }
		auto at = [&](int k) -> T & { auto it = l.begin(); while (k--) ++it; return *it; };
		mc::note("%d items, operation %d with items %d and %d of the list", n, op, i, j);
		const T * where = &at(i);
		switch (op)
		{
		case 0: l.pushBack(at(i)); m.push_back(m[i]); break;
		case 1: l.pushFront(at(i)); m.insert(m.begin(), m[i]); break;
		case 2: l.pushBack(at(i), at(j)); m.push_back(m[i]); m.push_back(m[j]); break;
		case 3: l.pushFront(at(i), at(j)); { int a = m[i], b = m[j]; m.insert(m.begin(), a); m.insert(m.begin(), b); } break;
		case 4: at(i) = at(j); m[i] = m[j]; break;
		default: { const T & r = l.pushBack(at(i)); MC_CHECK(&r == &l.getTail()->data && read(r) == m[i], "the reference"); m.push_back(m[i]); l.removeFront(); m.erase(m.begin()); } break;
		}
		int at0 = op == 1 ? i + 1 : op == 3 ? i + 2 : op == 5 ? i - 1 : i; if (at0 >= 0) MC_CHECK(&at(at0) == where, "the item was moved");
		size_t k = 0; for (auto & x : l) { MC_CHECK(k < m.size() && read(x) == m[k], "item %zu is %d, expected %d", k, read(x), k < m.size() ? m[k] : -1); ++k; }
		MC_CHECK(k == m.size() && l.getLength() == m.size(), "length");
		for (auto * p = l.getTail(); p; p = p->prev) { MC_CHECK(k > 0 && read(p->data) == m[k - 1], "backward walk"); --k; }
		MC_CHECK(k == 0, "backward walk"); mc::outcome(std::to_string(op));
	}
	g.expectEmpty("after the list was destroyed"); objs().expect(0, "after the list was destroyed");
}

static void setup()
{
	mc::add("histories_int", 8, [] { histories<int32>(mc::bound(5, 6)); });
	mc::add("long_int", 4, [] { longLists<int32>(mc::bound(13, 17)); });
	mc::add("long_obj", 4, [] { longLists<Obj>(mc::bound(11, 14)); });
	mc::add("histories_obj", 8, [] { histories<Obj>(mc::bound(4, 6)); });
	mc::add("iterators", 1, iterators);
	mc::add("own_items_obj", 1, [] { ownItems<Obj>([](int v) { return Obj{v}; }, [](const Obj & o) { return (int)val(o); }); });
	mc::add("own_items_string", 1, [] { ownItems<String>([](int v) { char b[80]; snprintf(b, sizeof b, "%03d is a text longer than any small buffer would be", v); return String{b}; }, [](const String & s) { return atoi(*s); }); });
	mc::add("printing", 1, printing);
}
MC_MAIN(setup)
