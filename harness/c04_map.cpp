// C04: Map is a dictionary: one value per key, ordered iteration, exact lookups.
#include "track.h"
#include "containers/map.h"
#include <algorithm>

// Order reversed: the map must use the compare type it was given, and nothing else
struct Reverse { int32 operator()(int32 a, int32 b) const { return b > a ? 2147483647 : b < a ? -2147483647 - 1 : 0; } };	// only the sign counts

struct IntKeys { using K = int32; using M = Map<int32, Obj>; static K key(int i) { return i * 3; } static int cmp(int a, int b) { return a - b; } };
struct RevKeys { using K = int32; using M = Map<int32, Obj, Reverse>; static K key(int i) { return i * 3; } static int cmp(int a, int b) { return b - a; } };
struct StrKeys { using K = String; using M = Map<String, Obj>; static K key(int i) { const char * s[] = {"", "a", "ab", "b", "ba", "c", "zz", "~"}; return String{s[i]}; } static int cmp(int a, int b) { return a - b; } };

template<typename S>
struct Run
{
	typename S::M map;
	std::map<int, int> model;	// key index -> value
	int keys;					// key universe
	int nextValue = 1;

	std::vector<std::pair<int, int>> ordered()
	{
		std::vector<std::pair<int, int>> v(model.begin(), model.end());
		std::sort(v.begin(), v.end(), [](auto & a, auto & b) { return S::cmp(a.first, b.first) < 0; });
		return v;
	}

	void compare(const char * op)
	{
		if (!mc::fresh()) return;
		const auto & c = map;
		auto e = ordered();
		MC_CHECK(map.getCount() == e.size() && c.getSize() == e.size() && c.getNumNodes() == e.size(), "after %s: count %llu, expected %zu", op, (unsigned long long)map.getCount(), e.size());
		size_t k = 0;
		for (auto & p : map) { MC_CHECK(k < e.size() && p.first == S::key(e[k].first) && val(p.second) == e[k].second, "after %s: iteration differs at %zu", op, k); ++k; }
		MC_CHECK(k == e.size(), "after %s: iteration visits %zu of %zu", op, k, e.size());
		k = 0;
		for (auto & p : c) { MC_CHECK(k < e.size() && p.getKey() == S::key(e[k].first) && val(p.getVal()) == e[k].second, "after %s: const iteration differs", op); ++k; }
		for (int i = 0; i < keys; ++i)
		{
			bool has = model.count(i);
			auto key = S::key(i);
			MC_CHECK(c.has(key) == has, "after %s: has(key %d) is %d", op, i, !has);
			{
				Obj out{-3};
				MC_CHECK(c.find(key, out) == has, "after %s: find(key %d, out) is %d", op, i, !has);
				MC_CHECK(val(out) == (has ? model[i] : -3), "after %s: find(key %d, out) gave %d", op, i, val(out));
			}
			auto it = map.find(key); auto ct = c.find(key);
			auto b = map.begin(key), en = map.end(key); auto cb = c.begin(key), ce = c.end(key);
			if (has)
			{
				MC_CHECK(it != map.end() && it->first == key && val(it->second) == model[i], "after %s: find(key %d)", op, i);
				MC_CHECK(ct != c.end() && val(ct->second) == model[i], "after %s: const find", op);
				MC_CHECK(b == it && ++b == en && cb == ct && ++cb == ce, "after %s: begin(key)..end(key) of key %d is not exactly its pair", op, i);
			}
			else
			{
				MC_CHECK(it == map.end() && ct == c.end(), "after %s: find of absent key %d", op, i);
				MC_CHECK(b == en && cb == ce && b == map.end(), "after %s: begin(key) of absent key %d", op, i);
			}
		}
		objs().expect(e.size(), op);
	}

	void put(int i, bool insert)
	{
		int v = nextValue++;
		auto key = S::key(i);
		std::vector<const Obj*> places(keys, nullptr);
		if (mc::fresh()) for (auto & p : map) for (int k = 0; k < keys; ++k) if (k != i && p.first == S::key(k)) places[k] = &p.second;
		if (insert)
		{
			mc::note("insert(key %d, %d)", i, v);
			Obj & r = map.insert(key, Obj{v});
			MC_CHECK(val(r) == v, "insert returned another value");
		}
		else
		{
			mc::note("[key %d] = %d", i, v);
			Obj & r = map[key];
			MC_CHECK(val(r) == (model.count(i) ? model[i] : 0), "operator[] of %s key gives %d", model.count(i) ? "a stored" : "a new", val(r));
			r = Obj{v};
		}
		MC_CHECK(key == S::key(i), "the caller's key was modified");
		model[i] = v;
		for (int k = 0; k < keys; ++k) if (places[k]) { auto it = map.find(S::key(k)); MC_CHECK(it != map.end() && &it->second == places[k], "putting key %d moved the value of key %d", i, k); }
		compare(insert ? "insert" : "operator[]");
	}

	void del(int i, int how)
	{
		bool has = model.count(i);
		auto key = S::key(i);
		if (how == 0)
		{
			mc::note("remove(key %d)", i);
			if (has && (nextValue & 1)) { auto it = map.find(key); MC_CHECK(map.remove(it->first), "remove(key of the stored pair) result"); }
			else MC_CHECK(map.remove(key) == has, "remove(key) result");
		}
		else if (how == 1)
		{
			Obj out{-4};
			mc::note("pop(key %d)", i);
			MC_CHECK(map.pop(key, out) == has, "pop result");
			MC_CHECK(val(out) == (has ? model[i] : -4), "pop gave %d", val(out));
		}
		else
		{
			mc::note("remove(find(key %d))", i);
			auto it = map.find(key);
			auto next = map.remove(it);
			if (has)
			{
				auto e = ordered(); size_t k = 0; while (e[k].first != i) ++k;
				if (k + 1 == e.size()) MC_CHECK(next == map.end(), "remove(iterator) of the last pair did not return end()");
				else MC_CHECK(next != map.end() && next->first == S::key(e[k + 1].first) && val(next->second) == e[k + 1].second, "remove(iterator) did not return the next pair");
			}
			else MC_CHECK(next == map.end(), "remove(end()) did not return end()");
		}
		model.erase(i);
		compare("removal");
	}
};

// All histories of `depth` operations over a small key universe
template<typename S>
void histories(int keys, int depth)
{
	TrackGlobal g;
	{
		Run<S> r; r.keys = keys;
		for (int d = 0; d < depth; ++d)
		{
			int op = mc::choose(5 * keys);
			int i = op % keys;
			if (op / keys < 2) r.put(i, op / keys); else r.del(i, op / keys - 2);
		}
	}
	g.expectEmpty("after the map was destroyed");
}

// Every insertion order of n keys, then every removal order of `rem` of them, then re-insertion
template<typename S>
void orders(int n, int rem)
{
	TrackGlobal g;
	{
		Run<S> r; r.keys = n;
		std::vector<int> left; for (int i = 0; i < n; ++i) left.push_back(i);
		int mode = mc::choose(2);
		int x = 0;
		while (!left.empty()) { int c = mc::choose((int)left.size()); r.put(left[c], (x++ + mode) & 1); left.erase(left.begin() + c); }
		for (int i = 0; i < n; ++i) left.push_back(i);
		int last = 0;
		for (int k = 0; k < rem; ++k) { int c = mc::choose((int)left.size()); last = left[c]; r.del(left[c], (k + mode) % 3); left.erase(left.begin() + c); }
		r.put(last, mode);
	}
	g.expectEmpty("after the map was destroyed");
}

// Large maps: keys in structured orders, from the whole range of the key type; lookups, overwriting, and removal of a part in another order
template<typename K> struct Keys;
template<> struct Keys<int32> { static int32 key(int64 i, int64 n) { return (int32)(-2147483648ll + (i == n - 1 ? 4294967295ll : i * (4294967295ll / n))); } };
template<> struct Keys<uint64> { static uint64 key(int64 i, int64 n) { return i == n - 1 ? ~0ull : (uint64)i * (~0ull / (uint64)n); } };
template<> struct Keys<uint8> { static uint8 key(int64 i, int64 n) { return (uint8)(i * 255 / (n > 1 ? n - 1 : 1)); } };
template<> struct Keys<float64> { static float64 key(int64 i, int64 n) { return i == 0 ? -1.0 / 0.0 : i == n - 1 ? 1.0 / 0.0 : (i - n / 2) * 0.37; } };
template<> struct Keys<String> { static String key(int64 i, int64 n) { std::string s; int64 d = 1; while (d < n) d *= 4; for (d /= 4; d; d /= 4) s += "+0a~"[i / d % 4]; return String{s.c_str()}; } };
static int64 shuffled(int order, int64 i, int64 n)
{
	switch (order) { case 0: return i; case 1: return n - 1 - i; case 2: return i & 1 ? n - 1 - i / 2 : i / 2; case 3: return (i * 7919 + 3) % n; default: return i < n / 2 ? n / 2 - 1 - i : i; }
}
template<typename K, typename C = ThreeWayCompare>
static void large(int maxBits, int sign)
{
	TrackGlobal g;
	{
		int64 n = (1 << mc::exponent(3, maxBits - 2, maxBits >= 11)) + mc::choose(3) - 1; if (sizeof(K) == 1 && n > 256) n = 256;
		int fill = mc::choose(5), drop = mc::choose(5), how = mc::choose(2);
		mc::note("%lld keys in order %d, removal in order %d", (long long)n, fill, drop);
		Map<K, int64, C> m; const Map<K, int64, C> & c = m; std::vector<int64> value(n, -1); int64 count = 0;
		auto all = [&](const char * w)
		{
			MC_CHECK((int64)m.getCount() == count, "%s: count %llu, expected %lld", w, (unsigned long long)m.getCount(), (long long)count);
			int64 i = sign > 0 ? 0 : n - 1;
			for (auto & p : c) { while (i >= 0 && i < n && value[i] < 0) i += sign; MC_CHECK(i >= 0 && i < n && p.first == Keys<K>::key(i, n) && p.second == value[i], "%s: iteration differs at key %lld", w, (long long)i); i += sign; }
			while (i >= 0 && i < n && value[i] < 0) i += sign;
			MC_CHECK(i == (sign > 0 ? n : -1), "%s: iteration stops early", w);
			for (i = 0; i < n; ++i) { K k = Keys<K>::key(i, n); int64 out = -7; MC_CHECK(c.find(k, out) == (value[i] >= 0) && out == (value[i] >= 0 ? value[i] : -7) && c.has(k) == (value[i] >= 0), "%s: lookup of key %lld", w, (long long)i); }
			mc::tick(n);
		};
		for (int64 i = 0; i < n; ++i) { int64 k = shuffled(fill, i, n); if (value[k] < 0) ++count; value[k] = i; if (i % 2 == how) m[Keys<K>::key(k, n)] = i; else m.insert(Keys<K>::key(k, n), i); }
		all("filling");
		for (int64 i = 0; i < n; i += 3) { int64 k = shuffled(drop, i, n); if (value[k] < 0) ++count; value[k] = n + i; if (how) m[Keys<K>::key(k, n)] = n + i; else m.insert(Keys<K>::key(k, n), n + i); }
		all("overwriting");
		for (int64 i = 0; i < n * 3 / 4; ++i)
		{
			int64 k = shuffled(drop, i, n), out = -7; K key = Keys<K>::key(k, n); bool has = value[k] >= 0;
			if (i % 3 == 0) MC_CHECK(m.remove(key) == has, "remove(key %lld) result", (long long)k);
			else if (i % 3 == 1) MC_CHECK(m.pop(key, out) == has && out == (has ? value[k] : -7), "pop(key %lld) result", (long long)k);
			else m.remove(m.find(key));
			if (has) --count; value[k] = -1;
			if (!(i & (i + 1))) all("removal");
		}
		all("removal");
		for (int64 i = 0; i < n; i += 2) { int64 k = shuffled(fill, i, n); MC_CHECK(m[Keys<K>::key(k, n)] == (value[k] >= 0 ? value[k] : 0), "operator[] of key %lld", (long long)k); if (value[k] < 0) { value[k] = 0; ++count; } }
		all("filling again");
	}
	g.expectEmpty("after the map was destroyed");
}

// Keys of another type than the map's, that compare with it
static void otherKeys()
{
	TrackGlobal g;
	{
		Map<String, int32> m; const Map<String, int32> & c = m; std::map<std::string, int> model; const char * names[] = {"", "a", "ab", "abc", "b", "bb", "B"};
		Map<int64, int32> w; std::map<int64, int> wide;
		for (int step = 0; step < 4; ++step)
		{
			int i = mc::choose(7), op = mc::choose(3); int64 k = (i - 3) * 3000000000ll; mc::note("%s of \"%s\"", op == 0 ? "[]" : op == 1 ? "remove" : "pop", names[i]);
			if (op == 0) { m[names[i]] = step + 1; model[names[i]] = step + 1; w[i < 4 ? (int64)k : k] = step + 1; wide[k] = step + 1; }
			else if (op == 1) { MC_CHECK(m.remove(String{names[i]}) == (model.erase(names[i]) == 1), "remove"); MC_CHECK(w.remove(k) == (wide.erase(k) == 1), "remove of a wide key"); }
			else { int32 out = -1; auto f = model.find(names[i]); MC_CHECK(m.pop(String{names[i]}, out) == (f != model.end()) && out == (f != model.end() ? f->second : -1), "pop"); if (f != model.end()) model.erase(f); w.remove(k); wide.erase(k); }
			if (!mc::fresh()) continue;
			MC_CHECK(m.getCount() == model.size() && w.getCount() == wide.size(), "count");
			auto e = model.begin(); for (auto & p : c) { MC_CHECK(e != model.end() && e->first == *p.first && e->second == p.second, "iteration"); ++e; }
			auto we = wide.begin(); for (auto & p : w) { MC_CHECK(we != wide.end() && we->first == p.first && we->second == p.second, "iteration over wide keys"); ++we; }
			for (int j = 0; j < 7; ++j) { MC_CHECK(c.has(String{names[j]}) == (model.count(names[j]) == 1), "has(%s)", names[j]); MC_CHECK(w.has((j - 3) * 3000000000ll) == (wide.count((j - 3) * 3000000000ll) == 1), "has of a wide key"); }
			MC_CHECK(!w.has((int64)(int32)3000000000ll), "a wide key is cut");
		}
	}
	g.expectEmpty("after the maps were destroyed");
}

// Arguments that are keys or values of the map itself
static void ownArguments()
{
	TrackGlobal g;
	{
		int n = 1 + mc::choose(mc::bound(6, 8)), order = mc::choose(5), i = mc::choose(n), j = mc::choose(n), op = mc::choose(8);
		mc::note("%d keys in order %d, operation %d with pairs %d and %d", n, order, op, i, j);
		auto name = [](int k) { char b[64]; snprintf(b, sizeof b, "a key longer than any small buffer would be %03d", k); return std::string{b}; };
		Map<String, String> m; const Map<String, String> & c = m; std::map<std::string, std::string> model;
		for (int k = 0; k < n; ++k) { int x = (int)shuffled(order, k, n); if (model.count(name(x * 2))) x = k; m[String{name(x * 2).c_str()}] = String{name(900 + x).c_str()}; model[name(x * 2)] = name(900 + x); }
		int size = (int)model.size(); if (i >= size || j >= size) return;
		auto at = [&](int k) { auto it = m.begin(); while (k--) ++it; return it; };
		std::string ki = *at(i)->first, kj = *at(j)->first, vj = *at(j)->second;
		String out{"-"};
		switch (op)
		{
		case 0: { String & r = m.insert(at(i)->first, at(j)->second); MC_CHECK(*r == vj, "insert returns another value"); model[ki] = vj; break; }
		case 1: { String & r = m.insert(at(j)->second, at(i)->first); MC_CHECK(*r == ki, "insert returns another value"); model[vj] = ki; break; }
		case 2: { String & r = m[at(i)->first]; MC_CHECK(&r == &at(i)->second, "operator[] of a stored key"); r = at(j)->second; model[ki] = vj; break; }
		case 3: { String & r = m[at(j)->second]; MC_CHECK(r.getLength() == 0, "operator[] of a new key"); model[vj] = ""; break; }
		case 4: MC_CHECK(m.remove(at(i)->first), "remove of a stored key"); model.erase(ki); break;
		case 5: MC_CHECK(m.pop(at(i)->first, out) && model[ki] == *out, "pop of a stored key"); model.erase(ki); break;
		case 6: MC_CHECK(c.find(at(i)->first, at(j)->second), "find of a stored key"); model[kj] = model[ki]; break;
		default: MC_CHECK(c.has(at(i)->first) && !c.has(at(i)->second) && m.find(at(i)->first) == at(i) && m.begin(at(i)->first) == at(i), "lookups of a stored key"); break;
		}
		MC_CHECK(m.getCount() == model.size(), "count %llu, expected %zu", (unsigned long long)m.getCount(), model.size());
		auto e = model.begin(); for (auto & p : c) { MC_CHECK(e != model.end() && e->first == *p.first && e->second == *p.second, "pair \"%s\", \"%s\"", *p.first, *p.second); ++e; }
		MC_CHECK(e == model.end(), "pairs missing"); mc::outcome(std::to_string(op));
	}
	g.expectEmpty("after the map was destroyed");
}

// Keys and values given as variables stay what they are, those of the map itself as well
static void variables()
{
	TrackGlobal g;
	{
		Map<Obj, Obj> m; const Map<Obj, Obj> & cm = m; std::map<int, int> model;
		for (int d = 0; d < 4; ++d)
		{
			int op = mc::choose(9), k = mc::choose(3), v = 20 + d; Obj key{k}, value{v}; const Obj ckey{k}, cvalue{v};
			mc::note("operation %d, key %d, value %d", op, k, v);
			Obj out{-3}; bool has = model.count(k); int was = has ? model[k] : -3;
			switch (op)
			{
			case 0: MC_CHECK(val(m.insert(key, value)) == v, "insert"); model[k] = v; break;
			case 1: MC_CHECK(val(m.insert(ckey, cvalue)) == v, "insert"); model[k] = v; break;
			case 2: MC_CHECK(val(m.insert(key, Obj{v})) == v, "insert"); model[k] = v; break;
			case 3: MC_CHECK(val(m.insert(Obj{k}, value)) == v, "insert"); model[k] = v; break;
			case 4: m[key] = value; model[k] = v; break;
			case 5: m[ckey] = cvalue; model[k] = v; break;
			case 6: if (has) { m.insert(m.find(key)->first, m.begin()->second); model[k] = model.begin()->second; } else { m[Obj{k}] = Obj{v}; model[k] = v; } break;
			case 7: if (!model.empty()) { int f = model.begin()->second; m.insert(key, m.begin()->second); model[k] = f; } break;
			default: if (d & 1) MC_CHECK(m.pop(key, out) == has && val(out) == was, "pop"); else MC_CHECK(m.remove(ckey) == has, "remove"); model.erase(k); break;
			}
			MC_CHECK(val(key) == k && val(value) == v && val(ckey) == k && val(cvalue) == v, "a key or a value given as a variable was taken away");
			MC_CHECK(m.getCount() == model.size(), "count"); auto e = model.begin();
			for (auto & p : cm) { MC_CHECK(e != model.end() && val(p.first) == e->first && val(p.second) == e->second, "pair %d, %d", val(p.first), val(p.second)); ++e; }
			MC_CHECK(e == model.end(), "pairs missing"); objs().expect(2 * model.size() + 5, "in the map");
			Obj got{-4}; MC_CHECK(cm.find(ckey, got) == (model.count(k) == 1) && val(got) == (model.count(k) ? model[k] : -4) && cm.has(key) == (model.count(k) == 1), "lookup");
		}
	}
	g.expectEmpty("after the map was destroyed"); objs().expect(0, "after the map was destroyed");
}

static void setup()
{
	mc::add("variables", 4, variables);
	mc::add("own_arguments", 2, ownArguments);
	mc::add("histories_int", 8, [] { histories<IntKeys>(3, mc::bound(5, 6)); });
	mc::add("histories_str", 4, [] { histories<StrKeys>(mc::bound(2, 3), mc::bound(4, 5)); });
	mc::add("histories_rev", 4, [] { histories<RevKeys>(3, mc::bound(3, 4)); });
	mc::add("large_int", 8, [] { large<int32>(mc::bound(11, 14), 1); });
	mc::add("large_u64", 2, [] { large<uint64>(mc::bound(8, 13), 1); });
	mc::add("large_u8", 2, [] { large<uint8>(8, 1); });
	mc::add("large_double", 2, [] { large<float64>(mc::bound(8, 13), 1); });
	mc::add("large_string", 4, [] { large<String>(mc::bound(7, 11), 1); });
	mc::add("large_rev", 2, [] { large<int32, Reverse>(mc::bound(8, 13), -1); });
	mc::add("other_keys", 8, otherKeys);
	mc::add("orders_int", 8, [] { orders<IntKeys>(mc::bound(6, 7), 3); });
	mc::add("orders_str", 4, [] { orders<StrKeys>(mc::bound(5, 6), 2); });
	mc::add("orders_rev", 2, [] { orders<RevKeys>(mc::bound(5, 6), 3); });
}
MC_MAIN(setup)
