// C19, shared parts: vectors of two, three and four components, every operator over every pair from small alphabets.
#pragma once
#include "mc.h"
#include "core_types.h"
#include "math/math.h"
#include "math/simd.h"
#include "containers/array.h"
#include <cmath>
#include <limits>
#include <type_traits>

template<typename V> struct Dim;
template<typename T> struct Dim<Vec2<T>> { static constexpr int n = 2; using Elem = T; static Vec2<T> make(const T * c) { return Vec2<T>{c[0], c[1]}; } template<typename U> using With = Vec2<U>; };
template<typename T> struct Dim<Vec3<T>> { static constexpr int n = 3; using Elem = T; static Vec3<T> make(const T * c) { return Vec3<T>{c[0], c[1], c[2]}; } template<typename U> using With = Vec3<U>; };
template<typename T> struct Dim<Vec4<T>> { static constexpr int n = 4; using Elem = T; static Vec4<T> make(const T * c) { return Vec4<T>{c[0], c[1], c[2], c[3]}; } template<typename U> using With = Vec4<U>; };

template<typename T> static bool same(T a, T b)
{
	if constexpr (std::is_floating_point<T>::value) if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	return a == b;
}

// Components of a vector, through every name
template<typename V> static typename Dim<V>::Elem comp(const V & v, int i)
{
	using T = typename Dim<V>::Elem;
	T c;
	if constexpr (Dim<V>::n == 2) c = i == 0 ? v.x : v.y;
	else if constexpr (Dim<V>::n == 3) c = i == 0 ? v.x : i == 1 ? v.y : v.z;
	else c = i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w;
	return c;
}

template<typename V> static std::string text(const V & v)
{
	std::string s = "(";
	for (int i = 0; i < Dim<V>::n; ++i) { char b[40]; snprintf(b, sizeof b, "%s%.9g", i ? "," : "", (double)comp(v, i)); s += b; }
	return s + ")";
}

template<typename V, typename F> static void expect(const V & got, F f, const char * what, const V & a, const V & b)
{
	for (int i = 0; i < Dim<V>::n; ++i)
		MC_CHECK(same(comp(got, i), f(i)), "%s of %s and %s is %s, component %d should be %.9g", what, text(a).c_str(), text(b).c_str(), text(got).c_str(), i, (double)f(i));
}

template<typename V> static void access()
{
	using T = typename Dim<V>::Elem; constexpr int n = Dim<V>::n;
	T c[4]; for (int i = 0; i < 4; ++i) c[i] = T(i * 3 + 1);
	V v = Dim<V>::make(c);
	const V & cv = v;
	for (int i = 0; i < n; ++i)
	{
		MC_CHECK(comp(v, i) == c[i] && v[i] == c[i] && cv[i] == c[i] && v.array[i] == c[i], "component %d", i);
		v[i] = T(50 + i);
		for (int j = 0; j < n; ++j) MC_CHECK(comp(v, j) == (j <= i ? T(50 + j) : c[j]), "writing component %d changed component %d", i, j);
	}
	V zero, s{T(7)};
	for (int i = 0; i < n; ++i) MC_CHECK(comp(zero, i) == T(0) && comp(s, i) == T(7), "default or scalar constructor, component %d", i);
	V copy = v; copy[0] = T(1);
	MC_CHECK(v[0] == T(50), "copies share components");
	if constexpr (n == 2) MC_CHECK(&v.u == &v.x && &v.v == &v.y && sizeof(V) == 2 * sizeof(T), "texture components");
	if constexpr (n == 3) MC_CHECK(&v.r == &v.x && &v.g == &v.y && &v.b == &v.z && sizeof(V) == 3 * sizeof(T), "colour components");
	if constexpr (n == 3)
	{
		Vec2<T> p{T(4), T(9)}; V q{p, T(2)};
		MC_CHECK(q.x == T(4) && q.y == T(9) && q.z == T(2), "vector of three from a vector of two");
	}
	if constexpr (n == 4)
	{
		Vec3<T> p{T(4), T(9), T(2)}; V q{p, T(6)}, r{p};
		MC_CHECK(q.x == T(4) && q.y == T(9) && q.z == T(2) && q.w == T(6), "vector of four from a vector of three and a scalar");
		MC_CHECK(r.x == T(4) && r.y == T(9) && r.z == T(2) && r.w == T(0), "vector of four from a vector of three");
		Vec3<T> t = q;
		MC_CHECK(t.x == T(4) && t.y == T(9) && t.z == T(2), "vector of four without its last component");
	}
	mc::outcome("ok");
}

// All operators on a pair of vectors. `exact`: sums of products are exact in T
template<typename V> static void pairOps(const V & a, const V & b, bool exact, bool arithmetic)
{
	using T = typename Dim<V>::Elem; constexpr int n = Dim<V>::n;
	constexpr bool fp = std::is_floating_point<T>::value;
	auto A = [&](int i) { return comp(a, i); }; auto B = [&](int i) { return comp(b, i); };
	bool divisible = true; for (int i = 0; i < n; ++i) if (!fp && B(i) == T(0)) divisible = false;
	const T s = B(0);
	if (arithmetic)
	{
		#define EACH(op, name) \
			{ \
				auto e = [&](int i) { return T(A(i) op B(i)); }; auto es = [&](int i) { return T(A(i) op s); }; auto se = [&](int i) { return T(s op A(i)); }; \
				const V ca = a, cb = b; \
				expect(V(ca op cb), e, name, a, b); expect(V(ca op s), es, name " by a scalar", a, b); \
				V c = a; V & rc = (c op##= cb); expect(c, e, name " in place", a, b); MC_CHECK(&rc == &c, name " in place does not return the vector itself"); \
				c = a; V & rd = (c op##= s); expect(c, es, name " in place by a scalar", a, b); MC_CHECK(&rd == &c, name " in place does not return the vector itself"); \
				expect(ca, A, "operand left after " name, a, b); expect(cb, B, "operand right after " name, a, b); \
				if (scalarFirst) expect(V(s op ca), se, name ", scalar first", a, b); \
				if (itself) { c = a; c op##= c; expect(c, [&](int i) { return T(A(i) op A(i)); }, name " in place by itself", a, a); \
				              for (int own = 0; own < n; ++own) { c = a; c op##= c[own]; expect(c, [&](int i) { return T(A(i) op A(own)); }, name " in place by a component of its own", a, a); } } \
			}
		bool scalarFirst = true, itself = true;
		EACH(+, "sum") EACH(-, "difference") EACH(*, "product")
		for (int i = 0; i < n; ++i) if (!fp && A(i) == T(0)) scalarFirst = itself = false;
		if (divisible) EACH(/, "quotient")
		expect(V(-a), [&](int i) { return T(-A(i)); }, "negation", a, a);
	}
	if (exact)
	{
		T dot{}, sq{}; for (int i = 0; i < n; ++i) dot += A(i) * B(i), sq += A(i) * A(i);
		MC_CHECK((a & b) == dot, "dot product of %s and %s", text(a).c_str(), text(b).c_str());
		MC_CHECK(a.getSquaredSize() == sq, "squared size of %s", text(a).c_str());
		if constexpr (n == 2)
		{
			Vec3<T> c = a ^ b;
			MC_CHECK(c.x == T(0) && c.y == T(0) && c.z == T(A(0) * B(1) - A(1) * B(0)), "cross product of %s and %s", text(a).c_str(), text(b).c_str());
		}
		if constexpr (n == 3)
		{
			V c = a ^ b;
			expect(c, [&](int i) { int j = (i + 1) % 3, k = (i + 2) % 3; return T(A(j) * B(k) - A(k) * B(j)); }, "cross product", a, b);
		}
		if constexpr (fp)
		{
			long double size = std::sqrt((long double)sq);
			MC_CHECK(std::fabs((long double)a.getSize() - size) <= 4 * std::numeric_limits<T>::epsilon() * (size + 1), "size of %s is %.9g", text(a).c_str(), (double)a.getSize());
			if (sq > T(0))
			{
				V m = a.getNormal(), c = a; V & r = c.normalize();
				MC_CHECK(&r == &c, "normalize does not return the vector itself");
				for (int i = 0; i < n; ++i)
					MC_CHECK(std::fabs((long double)comp(m, i) - A(i) / size) <= 8 * std::numeric_limits<T>::epsilon() && std::fabs((long double)comp(c, i) - A(i) / size) <= 8 * std::numeric_limits<T>::epsilon(),
						"normal of %s is %s, in place %s", text(a).c_str(), text(m).c_str(), text(c).c_str());
			}
		}
	}
	int eq = 0, ne = 0, lt = 0, gt = 0, le = 0, ge = 0; const int all = (1 << n) - 1;
	for (int i = 0; i < n; ++i) eq |= (A(i) == B(i)) << i, ne |= (A(i) != B(i)) << i, lt |= (A(i) < B(i)) << i, gt |= (A(i) > B(i)) << i, le |= (A(i) <= B(i)) << i, ge |= (A(i) >= B(i)) << i;
	MC_CHECK(a.cmpeq(b) == eq && a.cmpne(b) == ne && a.cmplt(b) == lt && a.cmpgt(b) == gt && a.cmple(b) == le && a.cmpge(b) == ge, "comparison masks of %s and %s: %x %x %x %x %x %x", text(a).c_str(), text(b).c_str(),
		a.cmpeq(b), a.cmpne(b), a.cmplt(b), a.cmpgt(b), a.cmple(b), a.cmpge(b));
	MC_CHECK((a == b) == (eq == all) && (a != b) == (ne == all) && (a < b) == (lt == all) && (a > b) == (gt == all) && (a <= b) == (le == all) && (a >= b) == (ge == all), "comparison of %s and %s", text(a).c_str(), text(b).c_str());
	mc::tick();
}

template<typename V> static V pick(const std::vector<typename Dim<V>::Elem> & alphabet, int n)
{
	typename Dim<V>::Elem c[4] = {};
	for (int i = 0; i < Dim<V>::n; ++i) c[i] = alphabet[mc::choose(n)];
	return Dim<V>::make(c);
}

// Every pair over a small alphabet, where all results are exact
template<typename V> static void small()
{
	using T = typename Dim<V>::Elem; constexpr int n = Dim<V>::n;
	static const std::vector<T> values = std::is_floating_point<T>::value ? std::vector<T>{T(-2), T(0), T(3), T(0.5), T(-7.25), T(1), T(100)} : std::vector<T>{T(-2), T(0), T(3), T(1), T(-7), T(100), T(-25)};
	const int k = n < 4 ? 7 : sizeof(T) == 4 ? mc::bound(6, 7) : mc::bound(5, 7);
	V a = pick<V>(values, k);
	mc::note("a = %s against every other", text(a).c_str());
	int c[4] = {};
	for (;;)
	{
		T e[4]; for (int i = 0; i < n; ++i) e[i] = values[c[i]];
		pairOps<V>(a, Dim<V>::make(e), true, true);
		int i = 0; while (i < n && ++c[i] == k) c[i++] = 0;
		if (i == n) break;
	}
	mc::outcome("ok");
}

// Extreme values in up to two components of each, the others small
template<typename V> static void extreme()
{
	using T = typename Dim<V>::Elem; constexpr int n = Dim<V>::n; constexpr bool fp = std::is_floating_point<T>::value;
	using L = std::numeric_limits<T>;
	static const std::vector<T> values = fp ? std::vector<T>{T(0), T(-0.0), T(1), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::quiet_NaN(), T(1) / T(3)}
	                                        : std::vector<T>{T(0), T(1), L::max(), L::lowest(), T(L::max() - 1), T(L::lowest() + 1), T(-1)};
	T x[4] = {T(1), T(2), T(3), T(4)}, y[4] = {T(1), T(3), T(2), T(4)};
	const int m = (int)values.size(), i = mc::choose(n), j = mc::choose(n), both = mc::choose(2);
	x[i] = values[mc::choose(m)]; y[j] = values[mc::choose(m)];
	mc::note("components %d and %d", i, j);
	for (int k = 0; k < (both ? m * m : 1); ++k)
	{
		if (both) { x[(i + 1) % n] = values[k % m]; y[(j + n - 1) % n] = values[k / m]; }
		V a = Dim<V>::make(x), b = Dim<V>::make(y);
		pairOps<V>(a, b, false, fp || !std::is_signed<T>::value || sizeof(T) < 4);	// signed overflow is undefined, but not in conversions
	}
	mc::outcome("ok");
}

template<typename U, typename T> static bool representable(T v)
{
	if constexpr (std::is_floating_point<T>::value && std::is_integral<U>::value) return v > (double)std::numeric_limits<U>::min() - 1 && v < (double)std::numeric_limits<U>::max() + (sizeof(U) < 8);
	else return true;
}
template<typename V, typename U> static void convertTo(const V & a)
{
	using W = typename Dim<V>::template With<U>;
	for (int i = 0; i < Dim<V>::n; ++i) if (!representable<U>(comp(a, i))) return;	// undefined in the language
	W w = a;
	for (int i = 0; i < Dim<V>::n; ++i) MC_CHECK(same(comp(w, i), static_cast<U>(comp(a, i))), "converted %s, component %d is %.9g", text(a).c_str(), i, (double)comp(w, i));
}
template<typename V> static void conversions()
{
	using T = typename Dim<V>::Elem;
	static const std::vector<T> values = std::is_floating_point<T>::value ? std::vector<T>{T(0), T(1.75), T(2.5), T(100), T(77.25)} : std::vector<T>{T(0), T(1), T(2), T(100), T(77)};
	// beyond what narrower types represent exactly
	static const std::vector<T> wide = std::is_same<T, float64>::value ? std::vector<T>{T(16777217.0), T(0.1), T(4294967295.0), T(1), T(9007199254740991.0)} : std::is_same<T, float32>::value ? std::vector<T>{T(16777216), T(0.1f), T(3e9f), T(1), T(-7.5f)}
		: sizeof(T) < 4 ? std::vector<T>{std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(-1), T(1), T(128)} : std::vector<T>{T(16777217), T(std::numeric_limits<T>::max()), T(std::numeric_limits<T>::max() - 1), T(33554435), T(-16777219)};
	V a = pick<V>(mc::choose(2) ? wide : values, 5);
	mc::note("%s", text(a).c_str());
	if (!std::is_same<T, float32>::value) convertTo<V, float32>(a);
	if (!std::is_same<T, float64>::value) convertTo<V, float64>(a);
	if (!std::is_same<T, int32>::value) { convertTo<V, int32>(a); if (std::is_floating_point<T>::value) convertTo<V, int32>(-a); }
	convertTo<V, int64>(a);
	if (!std::is_same<T, uint32>::value) convertTo<V, uint32>(a);
	convertTo<V, int8>(a);
	mc::outcome("ok");
}

// Vectors as elements of arrays: at every index, of every length, operated on in place
template<typename V> static void inArrays()
{
	using T = typename Dim<V>::Elem; constexpr int n = Dim<V>::n;
	int len = mc::choose(mc::bound(40, 200)), gap = mc::choose(2);
	mc::note("%d vectors of %d components of %zu bytes", len, n, sizeof(T));
	struct Offset { char c; V v; };	// placed by the compiler
	Array<V> a; std::vector<T> m;
	for (int i = 0; i < len; ++i)
	{
		T c[4] = {T(i % 50), T(i % 20 + 1), T(i % 7 + 2), T(i % 3 + 1)};
		if (gap) a.insertAt(0, Dim<V>::make(c)), m.insert(m.begin(), c, c + n); else a.insertLast(Dim<V>::make(c)), m.insert(m.end(), c, c + n);
	}
	for (int i = 0; i < len; ++i)
	{
		Offset o; o.v = a[i];
		a[i] += o.v; a[i] = a[i] - o.v * V{T(2)}; a[i] = o.v + a[i];		// back to zero
		for (int k = 0; k < n; ++k) { T x = m[i * n + k], e = T(T(x + T(T(x + x) - T(x * 2)))); MC_CHECK(comp(a[i], k) == e, "vector %d of %d, component %d", i, len, k); }
		a[i] = o.v;
	}
	for (int i = 0; i + 1 < len; ++i)
	{
		T dot{}; for (int k = 0; k < n; ++k) dot += m[i * n + k] * m[(i + 1) * n + k];
		if (sizeof(T) > 1) MC_CHECK((a[i] & a[i + 1]) == dot, "dot product of elements %d and %d", i, i + 1);
	}
	mc::outcome("ok");
}

template<typename T> static void family(std::string t)
{
	#define DIM(V, d) \
		mc::add(mc::keep("vec" d + t + "_access"), 1, access<V<T>>); mc::add(mc::keep("vec" d + t + "_pairs"), 4, small<V<T>>); \
		mc::add(mc::keep("vec" d + t + "_extreme"), 1, extreme<V<T>>); mc::add(mc::keep("vec" d + t + "_convert"), 1, conversions<V<T>>); mc::add(mc::keep("vec" d + t + "_arrays"), 1, inArrays<V<T>>);
	DIM(Vec2, "2") DIM(Vec3, "3") DIM(Vec4, "4")
}
