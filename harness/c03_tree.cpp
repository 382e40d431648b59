// C03: BinaryTree is an ordered multiset over a balanced, threaded red-black tree, in every state
// reachable by insertions and removals up to the node bound.
#include "track.h"
#include "treecheck.h"
#include <algorithm>
#include <set>
#include <string>
#include "containers/string.h"

struct Rec { int64 key; int32 id; };

static uint64 comparisons;
struct Cmp
{
	// Only the sign of a comparison means something
	static int32 sign(int64 a, int64 b) { ++comparisons; return a > b ? (comparisons % 3 ? 1 + (int32)(comparisons % 1000) : 2147483647) : a < b ? (comparisons % 5 ? -1 - (int32)(comparisons % 7) : -2147483647 - 1) : 0; }
	int32 operator()(const Rec & a, const Rec & b) const { return sign(a.key, b.key); }
	int32 operator()(const Rec & a, int64 b) const { return sign(a.key, b); }
	int32 operator()(int64 a, const Rec & b) const { return sign(a, b.key); }
};
using Tree = BinaryTree<Rec, Cmp>;
using Model = std::vector<Rec>;		// sorted by key; the order among equal keys is the tree's

static bool hasId(const Model & m, int32 id) { for (auto & r : m) if (r.id == id) return true; return false; }

// Compare tree and model; adopt the tree's order among equal keys
static void compare(Tree & t, Model & m, const char * op)
{
	const Tree & c = t;
	// Always synchronise the order of equal keys, check only beyond the prefix
	Model seen;
	size_t guard = 0;
	for (auto it = t.begin(); it != t.end(); ++it) { if (++guard > m.size() + 4) mc::fail("%s: iteration visits more than %zu items", op, m.size()); seen.push_back(*it); }
	if (mc::fresh())
	{
		MC_CHECK(seen.size() == m.size() && t.getNumNodes() == m.size() && c.getCount() == m.size() && c.getSize() == m.size(),
			"%s: %zu items iterated, count %llu, expected %zu", op, seen.size(), (unsigned long long)t.getNumNodes(), m.size());
		for (size_t i = 0; i < m.size(); ++i)
		{
			MC_CHECK(seen[i].key == m[i].key, "%s: item %zu has the wrong key", op, i);
			MC_CHECK(hasId(m, seen[i].id), "%s: item with unexpected payload %d", op, seen[i].id);
			for (size_t j = 0; j < i; ++j) MC_CHECK(seen[j].id != seen[i].id, "%s: item appears twice", op);
			for (auto & r : m) if (r.id == seen[i].id) MC_CHECK(r.key == seen[i].key, "%s: payload moved to another key", op);
		}
		size_t k = 0;
		for (const auto & r : c) { MC_CHECK(r.id == seen[k].id, "%s: const iteration differs", op); ++k; }
		// backwards, through the iterators
		if (m.size())
		{
			auto it = t.begin(); for (size_t i = 1; i < m.size(); ++i) it++;
			for (size_t i = m.size(); i-- > 0;) { MC_CHECK((*it).id == seen[i].id && it->id == seen[i].id, "%s: reverse iteration differs", op); if (i) (i & 1) ? (void)--it : (void)it--; }
			MC_CHECK(it == t.begin(), "%s: reverse iteration does not end at the beginning", op);
		}
	}
	m = seen;
}

// Queries for every stored key and every gap
static void queries(Tree & t, const Model & m)
{
	if (!mc::fresh()) return;
	const Tree & c = t;
	int log = 0; while ((1ull << log) < m.size() + 1) ++log;
	std::vector<int64> keys;
	for (auto & r : m) { keys.push_back(r.key - 1); keys.push_back(r.key); keys.push_back(r.key + 1); }
	keys.push_back(0);
	for (int64 key : keys)
	{
		size_t lo = 0; while (lo < m.size() && m[lo].key < key) ++lo;
		size_t hi = lo; while (hi < m.size() && m[hi].key == key) ++hi;
		comparisons = 0;
		auto * n = t.findNode(key);
		MC_CHECK(comparisons <= (uint64)(2 * log + 1), "search took %llu comparisons among %zu items", (unsigned long long)comparisons, m.size());
		MC_CHECK((n != nullptr) == (hi > lo), "findNode of %s key", hi > lo ? "a stored" : "an absent");
		MC_CHECK((c.findNode(key) != nullptr) == (hi > lo), "const findNode");
		auto f = t.find(key); auto cf = c.find(key);
		if (hi > lo)
		{
			MC_CHECK(n->data.key == key && (*f).key == key && (*cf).key == key, "find returned another key");
			auto b = t.begin(key); auto e = t.end(key);
			auto cb = c.begin(key); auto ce = c.end(key);
			size_t k = lo;
			for (; b != e; ++b, ++cb, ++k) MC_CHECK(k < hi && (*b).id == m[k].id && (*cb).id == m[k].id, "begin(key)..end(key) is not exactly the matching range");
			MC_CHECK(k == hi && cb == ce, "begin(key)..end(key) covers %zu of %zu matching items", k - lo, hi - lo);
			auto last = t.end(key);
			MC_CHECK(hi == m.size() ? last == t.end() : (*last).id == m[hi].id, "end(key) is not the item after the last match");
		}
		else
		{
			MC_CHECK(f == t.end() && cf == c.end(), "find of an absent key is not end()");
			MC_CHECK(t.begin(key) == t.end() && c.begin(key) == c.end(), "begin(key) of an absent key is not end()");
			MC_CHECK(t.end(key) == t.end() && c.end(key) == c.end(), "end(key) of an absent key is not end()");
		}
	}
}

// A copy, and what the tree is assigned to whatever was there, are such trees as well
static void copies(const Tree & t, const Model & m)
{
	Model e = m;
	{ Tree c{t}; checkTree(c); compare(c, e, "copy"); }
	for (int kind = 0; kind < 8; ++kind)
	{
		static const int sizes[] = {1, 2, 3, 6};
		Tree o; for (int i = 0; i < sizes[kind / 2]; ++i) o.insert(Rec{kind & 1 ? i : -i, -1});
		o = t; checkTree(o); compare(o, e, "assignment");
		if (kind == 5) { o.insert(Rec{m.size() ? m[m.size() / 2].key : 0, -2}); checkTree(o); Tree p; p = o; checkTree(p); }
	}
}

static std::string canonical(const TreeShape & s, const Model & m)
{
	std::string c = s.canon;
	for (size_t i = 1; i < m.size(); ++i) c += m[i].key == m[i - 1].key ? '=' : '<';
	return c;
}

// The tree reacts only to the relative order of keys (it calls nothing but the comparator), so a
// state is its shape, its colors and which neighbours are equal: keys are renumbered per state.
static int64 gapKey(const Model & m, int gap)
{
	int64 lo = gap == 0 ? -(1ll << 60) : m[gap - 1].key;
	int64 hi = gap == (int)m.size() ? (1ll << 60) : m[gap].key;
	if (hi - lo < 8) mc::fail("internal: key space exhausted");
	return lo + (hi - lo) / 2;
}

enum { MInsert = 1, MUnique = 2, MReplace = 4, MDup = 8, MRemove = 16 };

static void body(int maxNodes, int ops)
{
	TrackGlobal g;
	{
		Tree t; Model m;
		int32 nextId = 1;
		for (;;)
		{
			TreeShape s = mc::fresh() ? checkTree(t) : TreeShape{};
			if (mc::fresh()) queries(t, m);
			if (mc::unseen(canonical(s, m))) copies(t, m);
			mc::visit(canonical(s, m), 1);
			int n = (int)m.size();

			std::vector<int> menu;
			if (n < maxNodes) { if (ops & MInsert) menu.push_back(0); if (ops & MUnique) menu.push_back(1); if (ops & MReplace) menu.push_back(2); }
			if (n > 0 && (ops & MDup)) { if (n < maxNodes) menu.push_back(3); menu.push_back(4); menu.push_back(5); }
			if (n > 0 && (ops & MRemove)) { menu.push_back(6); menu.push_back(7); if (ops & MDup) { menu.push_back(8); menu.push_back(9); } }
			int32 id = nextId++;
			int op = menu[mc::choose((int)menu.size())];
			// an insertion leaves every other item where it is
			std::vector<std::pair<int32, const Rec*>> places; if (op < 6) for (auto & r : t) places.push_back({r.id, &r});
			switch (op)
			{
			case 0: case 1: case 2:
			{
				int which = 0;
				int gap = 0;
				// gaps between distinct keys only (a gap inside a run of equal keys does not exist)
				std::vector<int> gaps;
				for (int i = 0; i <= n; ++i) if (i == 0 || i == n || m[i - 1].key != m[i].key) gaps.push_back(i);
				gap = gaps[mc::choose((int)gaps.size())];
				which = (ops & MInsert) ? id % 3 : (ops & MUnique) ? 1 : 2;
				Rec r{gapKey(m, gap), id};
				mc::note("add new key at rank %d by %s", gap, which == 0 ? "insert" : which == 1 ? "insertUnique" : "replace");
				Rec & out = which == 0 ? t.insert(r) : which == 1 ? t.insertUnique(r) : t.replace(r);
				MC_CHECK(out.id == id && out.key == r.key, "insertion returned a reference to another item");
				m.insert(m.begin() + gap, r);
				compare(t, m, "insertion of a new key");
				break;
			}
			case 3:
			{
				int i = mc::choose(n);
				Rec r{m[i].key, id};
				mc::note("insert duplicate of rank %d", i);
				Rec & out = t.insert(r);
				MC_CHECK(out.id == id, "insert returned a reference to another item");
				m.insert(m.begin() + i, r);
				compare(t, m, "insertion of a duplicate");
				break;
			}
			case 4:
			{
				int i = mc::choose(n);
				mc::note("insertUnique of stored rank %d", i);
				Rec & out = t.insertUnique(Rec{m[i].key, id});
				MC_CHECK(out.key == m[i].key && out.id != id && hasId(m, out.id), "insertUnique of a stored key did not return the stored item");
				compare(t, m, "insertUnique of a stored key");
				break;
			}
			case 5:
			{
				int i = mc::choose(n);
				mc::note("replace stored rank %d", i);
				Rec & out = t.replace(Rec{m[i].key, id});
				MC_CHECK(out.key == m[i].key && out.id == id, "replace did not return the new item");
				// exactly one of the equal items takes the new payload
				std::vector<int32> before, after;
				for (auto & r : m) before.push_back(r.id);
				for (auto & r : t) after.push_back(r.id);
				MC_CHECK(before.size() == after.size(), "replace changed the number of items");
				int changed = 0;
				for (size_t k = 0; k < before.size(); ++k) if (before[k] != after[k]) { ++changed; MC_CHECK(m[k].key == m[i].key && after[k] == id, "replace changed another item"); m[k].id = id; }
				MC_CHECK(changed == 1, "replace changed %d items", changed);
				compare(t, m, "replace of a stored key");
				break;
			}
			case 6: case 7: case 8:
			{
				int i = mc::choose(n);
				int how = id % 2;
				mc::note("remove rank %d by %s", i, how ? "iterator" : "node");
				auto it = t.begin(); for (int k = 0; k < i; ++k) ++it;
				Tree::NodeT * node = t.getMin(); for (int k = 0; k < i; ++k) node = node->next;
				Model e = m; e.erase(e.begin() + i);
				if (how)
				{
					auto next = t.remove(it);
					MC_CHECK(i + 1 == n ? next == t.end() : (next != t.end() && (*next).id == e[i].id), "remove(iterator) did not return the next item");
				}
				else
				{
					auto * next = t.removeNode(node);
					MC_CHECK(i + 1 == n ? next == nullptr : (next && next->data.id == e[i].id), "removeNode did not return the next item");
				}
				m = e;
				// the order among equal keys must not change either
				size_t k = 0; for (auto & r : t) { MC_CHECK(k < m.size() && r.id == m[k].id, "removal removed or moved another item"); ++k; }
				compare(t, m, "removal");
				break;
			}
			case 9:
			{
				int i = mc::choose(n + 1);
				int64 key = i == n ? gapKey(m, n) : m[i].key;
				mc::note("remove value %s", i == n ? "(absent)" : "(stored)");
				bool r = i < n && id % 2 ? t.remove(*t.find(key)) : t.remove(Rec{key, -1});
				MC_CHECK(r == (i < n), "remove(value) returned %d", r);
				if (i < n)
				{
					// one of the equal items is gone
					std::vector<int32> after; for (auto & x : t) after.push_back(x.id);
					int gone = -1, num = 0;
					for (int k = 0; k < n; ++k) if (std::find(after.begin(), after.end(), m[k].id) == after.end()) { gone = k; ++num; }
					MC_CHECK(num == 1 && m[gone].key == key, "remove(value) removed the wrong items");
					m.erase(m.begin() + gone);
				}
				compare(t, m, "remove(value)");
				break;
			}
			}
			if (mc::fresh()) { size_t k = 0; if (op < 6) for (auto & r : t) for (k = 0; k < places.size(); ++k) if (places[k].first == r.id) MC_CHECK(places[k].second == &r, "an insertion moved another item"); }
			MC_CHECK(g.m.live.size() == m.size(), "%zu nodes allocated for %zu items", g.m.live.size(), m.size());
		}
	}
}

// Long monotone / zig-zag / bit-reversed runs: the height stays logarithmic
static void large()
{
	TrackGlobal g;
	{
		Tree t;
		int order = mc::choose(5), bits = mc::exponent(4, mc::bound(8, 12), true), del = mc::choose(4);
		uint64 n = 1ull << bits;
		auto key = [&](uint64 i) -> int64
		{
			switch (order)
			{
			case 0: return (int64)i;
			case 1: return (int64)(n - i);
			case 2: return (i & 1) ? (int64)i : -(int64)i;
			case 3: { uint64 r = 0; for (int b = 0; b < bits; ++b) if (i >> b & 1) r |= 1ull << (bits - 1 - b); return (int64)r; }
			default: return (int64)((i * 2654435761ull) % n);
			}
		};
		mc::note("order %d, %llu keys, deletion %d", order, (unsigned long long)n, del);
		std::vector<int64> keys;
		for (uint64 i = 0; i < n; ++i) { t.insert(Rec{key(i), (int32)i}); keys.push_back(key(i)); mc::tick(); }
		checkTree(t);
		std::sort(keys.begin(), keys.end());
		int log = 0; while ((1ull << log) < n + 1) ++log;
		for (uint64 i = 0; i < n; i += 1 + n / 257) { comparisons = 0; auto * f = t.findNode(key(i)); MC_CHECK(f && f->data.key == key(i), "a stored key is not found"); MC_CHECK(comparisons <= (uint64)(2 * log + 1), "search took %llu comparisons among %llu items", (unsigned long long)comparisons, (unsigned long long)n); }
		auto same = [&](const char * w) { size_t k = 0; for (auto & r : t) { MC_CHECK(k < keys.size() && r.key == keys[k], "%s: order", w); ++k; } MC_CHECK(k == keys.size(), "%s: count", w); };
		same("bulk insertion");
		for (uint64 i = 0; i < n / 2 + n / 4; ++i)
		{
			size_t at = del == 0 ? 0 : del == 1 ? keys.size() - 1 : del == 2 ? keys.size() / 2 : (i * 7919) % keys.size();
			MC_CHECK(t.remove(Rec{keys[at], 0}), "remove of a stored key");
			keys.erase(keys.begin() + at);
			if ((i & (i + 1)) == 0) { checkTree(t); same("bulk removal"); }
			mc::tick();
		}
		checkTree(t); same("bulk removal");
		t.empty();
		MC_CHECK(t.getNumNodes() == 0 && t.begin() == t.end() && t.getRoot() == nullptr, "empty()");
		t.insert(Rec{3, 3}); t.insert(Rec{2, 2}, Rec{4, 4}, Rec{2, 5}); t.insertUnique(Rec{4, 6}, Rec{9, 7}); t.replace(Rec{9, 8}, Rec{1, 9});
		int64 e[] = {1, 2, 2, 3, 4, 9}; size_t k = 0;
		for (auto & r : t) { MC_CHECK(k < 6 && r.key == e[k], "variadic insertion"); if (r.key == 4) MC_CHECK(r.id == 4, "insertUnique overwrote"); if (r.key == 9) MC_CHECK(r.id == 8, "replace did not overwrite"); ++k; }
		MC_CHECK(k == 6, "variadic insertion count");
		checkTree(t);
	}
	g.expectEmpty("after the tree was destroyed");
}

// The nodes on their own: trees linked by hand
struct Raw
{
	using NodeT = Tree::NodeT;
	NodeT * root = nullptr;
	const NodeT * getRoot() const { return root; }
	const NodeT * getMin() const { return root ? root->getMin() : nullptr; }
	const NodeT * getMax() const { return root ? root->getMax() : nullptr; }
	NodeT * getMin() { return root ? root->getMin() : nullptr; }
	NodeT * getMax() { return root ? root->getMax() : nullptr; }
	uint64 getNumNodes() const { return root ? root->getNumNodes() : 0; }
};
static void rawNodes()
{
	using NodeT = Raw::NodeT;
	int n = mc::bound(6, 7), unique = mc::choose(2);
	Raw t; std::vector<int> left; std::vector<NodeT*> all; std::vector<int64> keys;
	struct Free { std::vector<NodeT*> & v; ~Free() { for (auto * p : v) delete p; } } guard{all};
	auto make = [&](int64 k) { auto * x = new NodeT{Rec{k, (int32)all.size()}}; all.push_back(x); return x; };
	for (int i = 0; i < n; ++i) left.push_back(i);
	auto same = [&](const char * w)
	{
		std::sort(keys.begin(), keys.end());
		if (!mc::fresh()) return;
		checkTree(t); size_t k = 0;
		for (const NodeT * p = t.getMin(); p; p = p->next, ++k) MC_CHECK(k < keys.size() && p->data.key == keys[k], "%s: order of nodes", w);
		MC_CHECK(k == keys.size(), "%s: number of nodes", w);
		for (int64 x = -1; x <= n; ++x) { auto * f = t.root->find(x); MC_CHECK((f != nullptr) == std::binary_search(keys.begin(), keys.end(), x) && (!f || f->data.key == x), "%s: find(%lld)", w, (long long)x); }
	};
	while (!left.empty())
	{
		int c = mc::choose((int)left.size()); int64 k = left[c]; left.erase(left.begin() + c);
		NodeT * x = make(k);
		mc::note("%s(%lld)", unique ? "insertUnique" : "insert", (long long)k);
		if (!t.root) { x->color = BinaryNodeColor::BLACK; t.root = x; }
		else { NodeT * r = unique ? t.root->insertUnique(x) : t.root->insert(x); MC_CHECK(r == x, "insertion of a new key returns another node"); t.root = t.root->getRoot(); }
		keys.push_back(k);
		if (unique)
		{
			NodeT * y = make(k), * r = t.root->insertUnique(y);
			MC_CHECK(r != y && r->data.key == k, "insertUnique of a stored key does not return the stored node");
		}
		same("insertion");
	}
	for (int step = 0; step < 3; ++step)
	{
		int c = mc::choose((int)keys.size()), how = (c + step) & 1; int64 k = keys[c];
		NodeT * x = t.root->find(k), * valid = nullptr;
		mc::note("remove(%lld)", (long long)k);
		NodeT * gone = how ? x->remove(valid) : x->remove();
		if (how && c + 1 < (int)keys.size()) MC_CHECK(valid && valid->data.key == keys[c + 1], "the next valid node of a removal"); else if (how) MC_CHECK(!valid, "the next valid node of the last one");
		MC_CHECK(gone->data.key == k, "the evicted node holds another item");
		if (gone == t.root) t.root = gone->left ? gone->left : gone->right;
		if (t.root) t.root = t.root->getRoot();
		keys.erase(keys.begin() + c);
		same("removal");
	}
}

// Iterators of trees: made, converted, compared and walked
static void iterators()
{
	TrackGlobal g;
	{
		Tree t; int n = mc::choose(7); for (int i = 0; i < n; ++i) t.insert(Rec{(i * 7 + 3) % n, i});
		const Tree & c = t;
		Tree::Iterator none; Tree::ConstIterator cnone; mc::note("%d items", n);
		MC_CHECK(none == t.end() && cnone == c.end(), "a default iterator is not the end");
		Tree::ConstIterator conv = t.begin(); MC_CHECK(conv == c.begin(), "conversion of an iterator");
		auto it = t.begin(); auto ct = c.begin(); int k = 0;
		while (it != t.end())
		{
			MC_CHECK(it->key == k && (*ct).key == k && ct->key == k && Tree::ConstIterator{it} == ct, "item %d", k);
			auto old = it++; auto cold = ct; ++ct; MC_CHECK(old->key == k && cold->key == k && old != it, "advancing");
			++k;
		}
		MC_CHECK(k == n && ct == c.end(), "iteration visits %d of %d", k, n);
	}
	g.expectEmpty("after the tree was destroyed");
}

// Arguments that are items of the tree itself
static void ownItems()
{
	TrackGlobal g;
	{
		int n = 1 + mc::choose(mc::bound(7, 9)), order = mc::choose(4), dup = mc::choose(2), op = mc::choose(7), i = mc::choose(n), j = mc::choose(n);
		auto text = [](int k) { char b[64]; snprintf(b, sizeof b, "longer than any small buffer would be %03d", k); return std::string{b}; };
		BinaryTree<String> t; std::multiset<std::string> m;
		for (int k = 0; k < n; ++k) { int x = order == 0 ? k : order == 1 ? n - 1 - k : order == 2 ? (k & 1 ? n - 1 - k / 2 : k / 2) : (k < n / 2 ? n / 2 - 1 - k : k); if (dup) x /= 2; t.insert(String{text(x).c_str()}); m.insert(text(x)); }
		auto at = [&](int k) -> String & { auto it = t.begin(); while (k--) ++it; return *it; };
		mc::note("%d items in order %d%s, operation %d with its items %d and %d", n, order, dup ? " with duplicates" : "", op, i, j);
		std::string a = *at(i), b = *at(j);
		switch (op)
		{
		case 0: { String & r = t.insert(at(i)); MC_CHECK(a == *r, "insert returns another item"); m.insert(a); break; }
		case 1: t.insert(at(i), at(j)); m.insert(a); m.insert(b); break;
		case 2: { String & r = t.insertUnique(at(i)); MC_CHECK(a == *r, "insertUnique returns another item"); break; }
		case 3: { String & r = t.replace(at(i)); MC_CHECK(a == *r, "replace returns another item"); break; }
		case 4: MC_CHECK(t.remove(at(i)), "remove of a stored item"); m.erase(m.find(a)); break;
		case 5: t.insertUnique(at(i), at(j)); t.replace(at(j), at(i)); break;
		default: { auto f = t.find(at(i)); MC_CHECK(f != t.end() && a == **f, "find of a stored item"); auto x = t.begin(at(i)), y = t.end(at(i)); size_t k = 0; for (; x != y; ++x, ++k) MC_CHECK(a == **x, "range of a stored item"); MC_CHECK(k == m.count(a), "range of a stored item"); }
		}
		checkTree(t); MC_CHECK(t.getNumNodes() == m.size(), "%llu items, expected %zu", (unsigned long long)t.getNumNodes(), m.size());
		auto e = m.begin(); for (auto & x : t) { MC_CHECK(e != m.end() && *e == *x, "item \"%s\"", *x); ++e; }
		MC_CHECK(e == m.end(), "items missing"); mc::outcome(std::to_string(op));
	}
	g.expectEmpty("after the tree was destroyed");
}

// Items given as variables stay what they are, those given as constants as well
static void variables()
{
	TrackGlobal g;
	{
		BinaryTree<Obj> t; std::vector<int> m;
		for (int d = 0; d < 4; ++d)
		{
			int op = mc::choose(7), k = mc::choose(4); Obj v{k}, w{k + 10}; const Obj c{k};
			mc::note("operation %d with %d", op, k);
			bool has = std::count(m.begin(), m.end(), k);
			switch (op)
			{
			case 0: { Obj & r = t.insert(v); MC_CHECK(val(r) == k && &r != &v, "insert returns %d", val(r)); m.push_back(k); break; }
			case 1: { Obj & r = t.insertUnique(v); MC_CHECK(val(r) == k, "insertUnique returns %d", val(r)); if (!has) m.push_back(k); break; }
			case 2: { Obj & r = t.replace(v); MC_CHECK(val(r) == k, "replace returns %d", val(r)); if (!has) m.push_back(k); break; }
			case 3: t.insert(v, c, w); m.push_back(k); m.push_back(k); m.push_back(k + 10); break;
			case 4: t.insertUnique(c, w, v); if (!has) m.push_back(k); if (!std::count(m.begin(), m.end(), k + 10)) m.push_back(k + 10); break;
			case 5: t.replace(w, c); if (!has) m.push_back(k); if (!std::count(m.begin(), m.end(), k + 10)) m.push_back(k + 10); break;
			default: MC_CHECK(t.remove(v) == has, "remove of %d", k); if (has) m.erase(std::find(m.begin(), m.end(), k)); break;
			}
			MC_CHECK(val(v) == k && val(c) == k && val(w) == k + 10, "an item given as a variable was taken away");
			std::sort(m.begin(), m.end()); checkTree(t); size_t i = 0;
			for (auto & x : t) { MC_CHECK(i < m.size() && val(x) == m[i], "item %zu", i); ++i; }
			MC_CHECK(i == m.size(), "%zu items, expected %zu", i, m.size()); objs().expect(m.size() + 3, "in the tree");
		}
	}
	g.expectEmpty("after the tree was destroyed"); objs().expect(0, "after the tree was destroyed");
}

static void setup()
{
	mc::add("variables", 4, variables);
	mc::add("own_items", 4, ownItems);
	mc::addBfs("distinct_keys", [] { body(mc::bound(13, 16), MInsert | MRemove); });
	mc::addBfs("duplicates", [] { body(mc::bound(7, 10), MInsert | MDup | MRemove); });
	mc::addBfs("unique_only", [] { body(mc::bound(10, 13), MUnique | MRemove); });
	mc::addBfs("replace_only", [] { body(mc::bound(10, 13), MReplace | MRemove); });
	mc::add("large", 8, large);
	mc::add("raw_nodes", 8, rawNodes);
	mc::add("iterators", 1, iterators);
}
MC_MAIN(setup)
