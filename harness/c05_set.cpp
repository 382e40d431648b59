// C05: Set is a mathematical set: membership, union/intersection/difference, inclusion order.
#include "track.h"
#include "containers/set.h"
#include "treecheck.h"
#include <set>

using Mod = std::set<int>;
static std::string showSet(const Mod & m) { std::string s = "{"; for (int v : m) s += (s.size() > 1 ? "," : "") + std::to_string(v); return s + "}"; }

struct Reverse { int32 operator()(int32 a, int32 b) const { return b > a ? 2147483647 : b < a ? -2147483647 - 1 : 0; }	// only the sign counts
	 int32 operator()(const Obj & a, const Obj & b) const { return (*this)(a.get(), b.get()); } };

template<typename S, typename Fn>
void same(const S & s, const Mod & m, const char * what, Fn order)
{
	std::vector<int> e(m.begin(), m.end());
	if (order(0, 1) > 0) e = std::vector<int>(m.rbegin(), m.rend());
	MC_CHECK(s.getSize() == e.size() && s.getCount() == e.size() && s.getNumItems() == e.size(), "%s: size %llu, expected %s", what, (unsigned long long)s.getSize(), showSet(m).c_str());
	size_t k = 0;
	for (auto & x : s) { MC_CHECK(k < e.size() && val(x) == e[k], "%s: items differ from %s", what, showSet(m).c_str()); ++k; }
	MC_CHECK(k == e.size(), "%s: iteration stops early", what);
	checkTree(s.getTree());
}
static auto asc = [](int a, int b) { return a - b; };
static auto desc = [](int a, int b) { return b - a; };

// Build a set with the given members along one of several histories, so that equal sets have
// different tree shapes
template<typename S>
S build(unsigned mask, int universe, int how)
{
	S s;
	auto add = [&](int i) { s.set(typename std::remove_reference<decltype(*s.begin())>::type{i}); };
	if (how == 0) { for (int i = 0; i < universe; ++i) if (mask >> i & 1) add(i); }
	else if (how == 1) { for (int i = universe; i-- > 0;) if (mask >> i & 1) add(i); }
	else
	{
		for (int i = 0; i < universe; ++i) add((i * 3 + 1) % universe);		// coprime stride for universe != 3k
		for (int i = 0; i < universe; ++i) add(i);
		for (int i = 0; i < universe; ++i) if (!(mask >> i & 1)) s.remove(typename std::remove_reference<decltype(*s.begin())>::type{i});
	}
	return s;
}

// All pairs of subsets of a universe, several shapes each, all operators
template<typename S, typename Fn>
void algebra(int universe, int shapes, Fn order)
{
	TrackGlobal g;
	{
		unsigned ma = mc::choose(1 << universe); int ha = mc::choose(shapes);
		unsigned mb = mc::choose(1 << universe); int hb = mc::choose(shapes);
		S a = build<S>(ma, universe, ha), b = build<S>(mb, universe, hb);
		Mod A, B, U, I, D;
		for (int i = 0; i < universe; ++i)
		{
			if (ma >> i & 1) A.insert(i);
			if (mb >> i & 1) B.insert(i);
			if ((ma | mb) >> i & 1) U.insert(i);
			if ((ma & mb) >> i & 1) I.insert(i);
			if ((ma & ~mb) >> i & 1) D.insert(i);
		}
		mc::note("%s %s shapes %d %d", showSet(A).c_str(), showSet(B).c_str(), ha, hb);
		const S & ca = a; const S & cb = b;
		same(ca, A, "built", order); same(cb, B, "built", order);
		MC_CHECK((ca == cb) == (ma == mb), "%s == %s", showSet(A).c_str(), showSet(B).c_str());
		MC_CHECK((ca != cb) == (ma != mb), "%s != %s", showSet(A).c_str(), showSet(B).c_str());
		MC_CHECK((ca <= cb) == ((ma & ~mb) == 0), "%s <= %s", showSet(A).c_str(), showSet(B).c_str());
		MC_CHECK((ca >= cb) == ((mb & ~ma) == 0), "%s >= %s", showSet(A).c_str(), showSet(B).c_str());
		MC_CHECK((ca < cb) == ((ma & ~mb) == 0 && ma != mb), "%s < %s", showSet(A).c_str(), showSet(B).c_str());
		MC_CHECK((ca > cb) == ((mb & ~ma) == 0 && ma != mb), "%s > %s", showSet(A).c_str(), showSet(B).c_str());
		{
			S u = ca + cb, i = ca * cb, d = ca - cb;
			same(u, U, "union", order); same(i, I, "intersection", order); same(d, D, "difference", order);
			same(ca, A, "left operand after +,*,-", order); same(cb, B, "right operand after +,*,-", order);
		}
		{ S x = ca; S & r = (x += cb); MC_CHECK(&r == &x, "+= result"); same(x, U, "+=", order); same(cb, B, "right operand of +=", order); same(ca, A, "source of the copy", order); }
		{ S x = ca; S & r = (x *= cb); MC_CHECK(&r == &x, "*= result"); same(x, I, "*=", order); same(cb, B, "right operand of *=", order); }
		{ S x = ca; S & r = (x -= cb); MC_CHECK(&r == &x, "-= result"); same(x, D, "-=", order); same(cb, B, "right operand of -=", order); }
		if (ma == mb && ha == hb)
		{
			{ S x = ca; x += x; same(x, A, "x += x", order); }
			{ S x = ca; x *= x; same(x, A, "x *= x", order); }
			{ S x = ca; x -= x; same(x, Mod{}, "x -= x", order); }
			MC_CHECK(ca == ca && ca <= ca && ca >= ca && !(ca < ca) && !(ca > ca), "comparison with itself");
		}
	}
	g.expectEmpty("after the sets were destroyed");
}

// Every membership history up to the depth bound
template<typename T>
void histories(int universe, int depth)
{
	TrackGlobal g;
	{
		Set<T> s; Mod m;
		const Set<T> & c = s;
		for (int d = 0; d < depth; ++d)
		{
			int op = mc::choose(4 * universe + 1);
			int i = op % universe;
			if (op == 4 * universe)
			{
				mc::note("set(0, %d, 0)", universe - 1);
				s.set(T{0}, T{universe - 1}, T{0}); m.insert(0); m.insert(universe - 1);
			}
			else if (op / universe == 0)
			{
				mc::note("set(%d)", i);
				T & r = s.set(T{i}); MC_CHECK(val(r) == i, "set returned another item"); m.insert(i);
			}
			else if (op / universe == 1)
			{
				mc::note("remove(%d)", i);
				if (m.count(i) && (d & 1)) { auto it = s.begin(T{i}); MC_CHECK(s.remove(*it), "remove(stored item) result"); }
				else MC_CHECK(s.remove(T{i}) == (m.count(i) == 1), "remove(%d) result", i);
				m.erase(i);
			}
			else if (op / universe == 2)
			{
				mc::note("remove(%d, out)", i);
				T out{-5};
				bool r = s.remove(T{i}, out);
				MC_CHECK(r == (m.count(i) == 1) && val(out) == (r ? i : -5), "remove(%d, out) gave %d, %d", i, r, val(out)); m.erase(i);
			}
			else
			{
				// any/all with every pair of keys
				int j = mc::choose(universe);
				mc::note("any/all(%d,%d)", i, j);
				bool hi = m.count(i), hj = m.count(j);
				MC_CHECK(c.any(T{i}) == hi && c.all(T{i}) == hi, "any/all of one key");
				MC_CHECK(c.any(T{i}, T{j}) == (hi || hj), "any(%d,%d) with %s", i, j, showSet(m).c_str());
				MC_CHECK(c.all(T{i}, T{j}) == (hi && hj), "all(%d,%d) with %s", i, j, showSet(m).c_str());
				MC_CHECK(c.any(T{i}, T{j}, T{0}) == (hi || hj || m.count(0)), "any of three");
				MC_CHECK(c.all(T{i}, T{j}, T{0}) == (hi && hj && m.count(0)), "all of three");
			}
			if (!mc::fresh()) continue;
			same(c, m, "history", asc);
			for (int k = 0; k < universe; ++k)
			{
				bool has = m.count(k);
				MC_CHECK(c.get(T{k}) == has, "get(%d)", k);
				T out{-6};
				MC_CHECK(s.get(T{k}, out) == has && val(out) == (has ? k : -6), "get(%d, out)", k);
				MC_CHECK(c.get(T{k}, out) == has && val(out) == (has ? k : -6), "const get(%d, out)", k);
				auto b = c.begin(T{k}), e = c.end(T{k});
				if (has) MC_CHECK(val(*b) == k && ++b == e, "begin(%d)..end(%d)", k, k); else MC_CHECK(b == e && b == c.end(), "begin(absent)");
				auto b2 = s.begin(T{k}), e2 = s.end(T{k});
				if (has) MC_CHECK(val(*b2) == k && ++b2 == e2, "begin(%d)..end(%d)", k, k); else MC_CHECK(b2 == e2, "begin(absent)");
			}
		}
	}
	g.expectEmpty("after the set was destroyed");
}

// Large sets: structured subsets of a large universe, filled in structured orders, through every operator
static bool member(int pattern, int i, int n)
{
	switch (pattern)
	{
	case 0: return false;
	case 1: return true;
	case 2: return i % 2 == 0;
	case 3: return i % 3 == 1;
	case 4: return i < n / 2;
	case 5: return i >= n / 3;
	case 6: return i == n - 1;
	case 7: return i == 0;
	case 8: return i % 64 == 63;
	case 9: return i != n / 2;
	case 10: return i != n - 1;
	default: return i != 0;
	}
}
template<typename S, typename T, typename Fn>
void large(int maxBits, Fn order)
{
	TrackGlobal g;
	{
		int n = (1 << mc::exponent(3, maxBits - 2, maxBits >= 9 && std::is_same<S, Set<int32>>::value)) + mc::choose(3) - 1, pa = mc::choose(12), pb = mc::choose(12), fill = mc::choose(3);
		if (n > 60000 && (fill || pa % 5 != 1 || pb % 5 != 2)) throw mc::Abandon{};	// few of the largest
		mc::note("universe of %d, subsets %d and %d, order %d", n, pa, pb, fill);
		S a, b; Mod A, B, U, I, D;
		for (int k = 0; k < n; ++k)
		{
			int i = fill == 0 ? k : fill == 1 ? n - 1 - k : (int)((k * 7919ll) % n);
			if (member(pa, i, n)) { a.set(T{i}); A.insert(i); }
			if (member(pb, n - 1 - i, n)) { b.set(T{n - 1 - i}); B.insert(n - 1 - i); }
		}
		U = A; U.insert(B.begin(), B.end());
		for (int i : A) (B.count(i) ? I : D).insert(i);
		const S & ca = a; const S & cb = b;
		same(ca, A, "built", order); same(cb, B, "built", order);
		bool le = D.empty(), ge = I.size() == B.size();
		MC_CHECK((ca == cb) == (le && ge) && (ca != cb) == !(le && ge), "equality");
		MC_CHECK((ca <= cb) == le && (ca >= cb) == ge && (ca < cb) == (le && !ge) && (ca > cb) == (ge && !le), "inclusion");
		{ S u = ca + cb, i = ca * cb, d = ca - cb; same(u, U, "union", order); same(i, I, "intersection", order); same(d, D, "difference", order); }
		{ S x = ca; x += cb; same(x, U, "+=", order); x -= cb; same(x, D, "+= then -=", order); }
		{ S x = ca; x *= cb; same(x, I, "*=", order); }
		same(ca, A, "left operand", order); same(cb, B, "right operand", order);
		for (int i : B) { MC_CHECK(a.remove(T{i}) == (A.count(i) == 1), "remove(%d) result", i); mc::tick(); }
		same(ca, D, "removal of all items of the other", order);
		for (int i : U) MC_CHECK(ca.get(T{i}) == (D.count(i) == 1), "get(%d)", i);
	}
	g.expectEmpty("after the sets were destroyed");
}

// Items that are compared by a part of them: a set keeps the item it has
struct Part { int32 key; int32 tag; };
struct ByKey
{
	int32 operator()(const Part & a, const Part & b) const { return (a.key - b.key) * 9; }
	int32 operator()(const Part & a, int32 b) const { return (a.key - b) * 9; }
	int32 operator()(int32 a, const Part & b) const { return (a - b.key) * 9; }
};
static void parts()
{
	TrackGlobal g;
	{
		using S = Set<Part, ByKey>; const int N = 4; unsigned ma = mc::choose(1 << N), mb = mc::choose(1 << N);
		S a, b; for (int i = 0; i < N; ++i) { if (ma >> i & 1) a.set(Part{i, 100 + i}); if (mb >> (N - 1 - i) & 1) b.set(Part{N - 1 - i, 200 + N - 1 - i}); }
		const S & ca = a; const S & cb = b;
		mc::note("%u %u", ma, mb);
		auto same = [&](const S & s, unsigned fromA, unsigned fromB, const char * w)
		{
			int k = 0;
			for (auto & x : s) { while (k < N && !((fromA | fromB) >> k & 1)) ++k; MC_CHECK(k < N && x.key == k && x.tag == (fromA >> k & 1 ? 100 + k : 200 + k), "%s: item %d has tag %d", w, x.key, x.tag); ++k; }
			while (k < N && !((fromA | fromB) >> k & 1)) ++k;
			MC_CHECK(k == N, "%s: items missing", w);
			for (int i = 0; i < N; ++i)
			{
				bool has = (fromA | fromB) >> i & 1; Part out{-1, -1}; int e = fromA >> i & 1 ? 100 + i : 200 + i;
				MC_CHECK(s.get(i) == has && s.get(i, out) == has && out.tag == (has ? e : -1) && s.get(Part{i, 0}) == has, "%s: get(%d)", w, i);
				auto x = s.begin(i), y = s.end(i); if (has) MC_CHECK(x->tag == e && ++x == y, "%s: begin(%d)", w, i); else MC_CHECK(x == y, "%s: begin(%d)", w, i);
			}
			int i0 = 0, i1 = N - 1; bool h0 = (fromA | fromB) & 1, h1 = (fromA | fromB) >> i1 & 1;
			MC_CHECK(s.any(i0, i1) == (h0 || h1) && s.all(i0, i1) == (h0 && h1), "%s: any and all", w);
		};
		same(ca, ma, 0, "built"); same(cb, 0, mb, "built");
		same(ca + cb, ma, mb & ~ma, "union"); same(ca * cb, ma & mb, 0, "intersection"); same(ca - cb, ma & ~mb, 0, "difference");
		MC_CHECK((ca == cb) == (ma == mb) && (ca != cb) == (ma != mb) && (ca <= cb) == !(ma & ~mb) && (ca < cb) == (!(ma & ~mb) && ma != mb) && (ca >= cb) == !(mb & ~ma) && (ca > cb) == (!(mb & ~ma) && ma != mb), "comparison");
		for (int i = 0; i < N; ++i) { bool has = ma >> i & 1; Part & r = a.set(Part{i, 300 + i}); MC_CHECK(r.key == i && r.tag == (has ? 100 + i : 300 + i), "set(%d) returns tag %d", i, r.tag); Part out{-1, -1}; MC_CHECK(a.remove(i, out) && out.tag == (has ? 100 + i : 300 + i) && !a.remove(i) && !a.get(i), "remove(%d)", i); }
		MC_CHECK(a.getSize() == 0 && a.getTree().getNumNodes() == 0 && b.getTree().getNumNodes() == cb.getSize() && &b.getTree() == &cb.getTree(), "sizes");
	}
	g.expectEmpty("after the sets were destroyed");
}

// Arguments that are items of the set itself
static void ownItems()
{
	TrackGlobal g;
	{
		const int N = 6; unsigned mask = mc::choose(1 << N); int how = mc::choose(3), op = mc::choose(7);
		Set<Obj> s = build<Set<Obj>>(mask, N, how); const Set<Obj> & c = s; Mod m; for (int i = 0; i < N; ++i) if (mask >> i & 1) m.insert(i);
		if (m.empty()) return;
		int i = mc::choose((int)m.size()), j = mc::choose((int)m.size());
		mc::note("%s built by history %d, operation %d with its items %d and %d", showSet(m).c_str(), how, op, i, j);
		auto at = [&](int k) -> Obj & { auto it = s.begin(); while (k--) ++it; return *it; };
		auto ct = m.begin(); std::advance(ct, i); int vi = *ct; ct = m.begin(); std::advance(ct, j); int vj = *ct;
		Obj out{-5};
		switch (op)
		{
		case 0: { Obj & r = s.set(at(i)); MC_CHECK(&r == &at(i), "set of a stored item returns another one"); break; }
		case 1: s.set(at(i), at(j)); break;
		case 2: MC_CHECK(s.remove(at(i)), "remove of a stored item"); m.erase(vi); break;
		case 3: MC_CHECK(s.remove(at(i), out) && val(out) == vi, "remove of a stored item gives %d", val(out)); m.erase(vi); break;
		case 4: MC_CHECK(s.get(at(i), out) && val(out) == vi && c.get(at(i)), "get of a stored item"); break;
		case 5: MC_CHECK(c.any(at(i), at(j)) && c.all(at(i), at(j)) && c.all(at(j), at(i), at(j)), "any and all of stored items"); break;
		default: MC_CHECK(s.begin(at(i)) != s.end() && val(*s.begin(at(i))) == vi && val(*c.begin(at(j))) == vj, "lookup of a stored item"); break;
		}
		same(c, m, "own items", asc); objs().expect(m.size() + 1, "own items"); mc::outcome(std::to_string(op));
	}
	g.expectEmpty("after the set was destroyed"); objs().expect(0, "after the set was destroyed");
}

// Items given as variables stay what they are
static void variables()
{
	TrackGlobal g;
	{
		Set<Obj> s; Mod m;
		for (int d = 0; d < 4; ++d)
		{
			int op = mc::choose(5), k = mc::choose(4); Obj v{k}, w{k + 10}; const Obj c{k};
			mc::note("operation %d with %d", op, k);
			switch (op)
			{
			case 0: { Obj & r = s.set(v); MC_CHECK(val(r) == k && &r != &v, "set returns %d", val(r)); m.insert(k); break; }
			case 1: { Obj & r = s.set(c); MC_CHECK(val(r) == k, "set returns %d", val(r)); m.insert(k); break; }
			case 2: s.set(v, w, c); m.insert(k); m.insert(k + 10); break;
			case 3: s.set(w, Obj{k}); m.insert(k); m.insert(k + 10); break;
			default: MC_CHECK(s.remove(v) == (m.erase(k) == 1), "remove of %d", k); break;
			}
			MC_CHECK(val(v) == k && val(c) == k && val(w) == k + 10, "an item given as a variable was taken away");
			same(s, m, "variables", asc); objs().expect(m.size() + 3, "in the set");
			Set<Obj> t = s, u; u.set(v, c); t += u; Mod e = m; e.insert(k); same(t, e, "union", asc); same(u, Mod{k}, "right operand", asc); same(s, m, "source of the copy", asc);
		}
	}
	g.expectEmpty("after the set was destroyed"); objs().expect(0, "after the set was destroyed");
}

static void setup()
{
	mc::add("variables", 4, variables);
	mc::add("own_items", 4, ownItems);
	mc::add("algebra_int", 8, [] { algebra<Set<int32>>(mc::bound(5, 7), 3, asc); });
	mc::add("algebra_obj", 4, [] { algebra<Set<Obj>>(mc::bound(4, 5), 3, asc); });
	mc::add("algebra_reverse", 2, [] { algebra<Set<int32, Reverse>>(mc::bound(4, 5), 3, desc); });
	mc::add("large_int", 8, [] { large<Set<int32>, int32>(mc::bound(9, 12), asc); });
	mc::add("large_obj", 8, [] { large<Set<Obj>, Obj>(mc::bound(6, 9), asc); });
	mc::add("large_reverse", 8, [] { large<Set<int32, Reverse>, int32>(mc::bound(7, 10), desc); });
	mc::add("parts", 1, parts);
	mc::add("histories_int", 8, [] { histories<int32>(4, mc::bound(4, 5)); });
	mc::add("histories_obj", 4, [] { histories<Obj>(3, mc::bound(4, 5)); });
}
MC_MAIN(setup)
