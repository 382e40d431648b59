// C21: scalar helpers against their definitions.
#include "mc.h"
#include "core_types.h"
#include "hal/platform_math.h"
#include <cmath>
#include <cstring>
#include <limits>
#include <type_traits>

template<typename T> static std::vector<T> edges()
{
	using L = std::numeric_limits<T>;
	std::vector<T> v;
	auto add = [&](long double x) { if (x >= (long double)L::lowest() && x <= (long double)L::max()) { T t = (T)x; for (T o : v) if (o == t) return; v.push_back(t); } };
	for (int i = 0; i < (int)sizeof(T) * 8 && i < 64; ++i) for (int d = -1; d <= 1; ++d) for (int s = -1; s <= 1; s += 2) add(s * ((long double)(1ull << i) + d));
	for (int i = -20; i <= 20; ++i) add(i);
	add((long double)L::max()); add((long double)L::lowest());
	if (std::is_floating_point<T>::value) { add(0.5L); add(-0.5L); add(1e-30L); add(-1e-30L); add((long double)L::min()); add(1e30L); add(-1e30L); }
	return v;
}

// Every value of a type of up to 16 bits, edges of the others
template<typename T> static std::vector<T> domain()
{
	if (sizeof(T) > 2) return edges<T>();
	std::vector<T> v;
	for (long x = (long)std::numeric_limits<T>::lowest(); x <= (long)std::numeric_limits<T>::max(); ++x) v.push_back((T)x);
	return v;
}

template<typename T> static int top(T x) { int k = -1; while (x > 0) { x = T(x / 2); ++k; } return k; }

template<typename T> static void unary(const char * name)
{
	for (T x : domain<T>())
	{
		if constexpr (std::is_integral<T>::value)
		{
			if (x > 0) MC_CHECK(PlatformMath::log2(x) == (T)top(x), "log2(%s %lld) is %lld", name, (long long)x, (long long)PlatformMath::log2(x));
			if (x == 0) MC_CHECK(PlatformMath::log2(x) == T(0), "log2(%s 0) is %lld", name, (long long)PlatformMath::log2(x));
		}
		if (!(std::is_signed<T>::value && std::is_integral<T>::value && sizeof(T) >= 4 && x == std::numeric_limits<T>::lowest()))
		{
			T e = x < T(0) ? T(-x) : x;
			MC_CHECK(PlatformMath::abs(x) == e, "abs(%s %.17g) is %.17g", name, (double)x, (double)PlatformMath::abs(x));
		}
		mc::tick();
	}
	mc::outcome("ok");
}

template<typename T> static void align(const char * name)
{
	if constexpr (std::is_integral<T>::value)
	{
		int k = mc::choose((int)sizeof(T) * 8 - (std::is_signed<T>::value ? 1 : 0) - 1);
		const sizet a = (sizet)1 << k;
		mc::note("%s aligned to %llu", name, (unsigned long long)a);
		for (T x : domain<T>())
		{
			if (x < 0) continue;
			const unsigned long long u = (unsigned long long)x, down = u / a * a, up = down + a;	// documented as strictly greater
			MC_CHECK((unsigned long long)PlatformMath::align2Down(x, a) == down, "%s %llu aligned down to %llu is %llu", name, u, (unsigned long long)a, (unsigned long long)PlatformMath::align2Down(x, a));
			if (up <= (unsigned long long)std::numeric_limits<T>::max() && up > u)
				MC_CHECK((unsigned long long)PlatformMath::align2Up(x, a) == up, "%s %llu aligned up to %llu is %llu", name, u, (unsigned long long)a, (unsigned long long)PlatformMath::align2Up(x, a));
		}
	}
	mc::outcome("ok");
}

template<typename T> static void minmax()
{
	// All orders, with ties, of up to five values; and all pairs of edge values
	static const std::vector<T> v = {T(3), T(1), T(7), T(2), T(5)};
	static const std::vector<T> e = edges<T>();
	int form = mc::choose(4);
	if (form == 0)
	{
		T a = e[mc::choose((int)e.size())];
		for (T b : e)
		{
			MC_CHECK(PlatformMath::min(a, b) == (b < a ? b : a) && PlatformMath::max(a, b) == (a < b ? b : a), "min or max of %.17g and %.17g", (double)a, (double)b);
			MC_CHECK(PlatformMath::min(a, b, a) == (b < a ? b : a) && PlatformMath::max(b, a, b) == (a < b ? b : a), "min or max of %.17g and %.17g, one twice", (double)a, (double)b);
		}
	}
	else
	{
		T x[5]; for (int i = 0; i < form + 2; ++i) x[i] = v[mc::choose(5)];
		T lo = x[0], hi = x[0]; for (int i = 1; i < form + 2; ++i) { if (x[i] < lo) lo = x[i]; if (x[i] > hi) hi = x[i]; }
		T m = form == 1 ? PlatformMath::min(x[0], x[1], x[2]) : form == 2 ? PlatformMath::min(x[0], x[1], x[2], x[3]) : PlatformMath::min(x[0], x[1], x[2], x[3], x[4]);
		T n = form == 1 ? PlatformMath::max(x[0], x[1], x[2]) : form == 2 ? PlatformMath::max(x[0], x[1], x[2], x[3]) : PlatformMath::max(x[0], x[1], x[2], x[3], x[4]);
		MC_CHECK(m == lo && n == hi, "min and max of %d values are %g and %g, should be %g and %g", form + 2, (double)m, (double)n, (double)lo, (double)hi);
	}
	mc::outcome("ok");
}

static void powers()
{
	// Integers: all bases and exponents whose power fits
	int b = mc::choose(61) - 30;
	mc::note("powers of %d", b);
	long long e = 1;
	for (int y = 0; y <= 62; ++y)
	{
		MC_CHECK(PlatformMath::pow((int64)b, y) == e && PlatformMath::pow((int64)b, (uint8)y) == e && PlatformMath::pow((int64)b, (uint64)y) == e && PlatformMath::pow((int64)b, (int16)y) == e, "%d to the power of %d is %lld", b, y, (long long)PlatformMath::pow((int64)b, y));
		if (e <= 2147483647ll && e >= -2147483648ll) MC_CHECK(PlatformMath::pow(b, y) == (int)e && PlatformMath::pow(b, (uint32)y) == (int)e, "%d to the power of %d", b, y);
		if (b >= 0) { uint32 u = 1; for (int i = 0; i < y; ++i) u *= (uint32)b; MC_CHECK(PlatformMath::pow((uint32)b, y) == u, "%d to the power of %d, modulo 2^32", b, y); }
		if (std::fabs((double)b) <= 4 && b)
		{
			float32 p = 1; for (int i = 0; i < y && i < 30; ++i) p *= (float32)b;
			if (y < 30 && std::fabs(p) < 16777216) MC_CHECK(PlatformMath::pow((float32)b, y) == p && PlatformMath::pow((float64)b, y) == (double)p, "%d.0 to the power of %d", b, y);
			if (y < 30 && std::fabs(p) < 16777216) MC_CHECK(std::fabs(PlatformMath::pow((float32)b, -y) * p - 1) < 1e-5 && std::fabs(PlatformMath::pow((float64)b, -y) * p - 1) < 1e-12, "%d.0 to the power of %d is %g", b, -y, PlatformMath::pow((float32)b, -y));
		}
		if (b && std::llabs(e) > (1ll << 62) / std::abs(b)) break;
		e *= b;
	}
	if (b == 1 || b == -1) for (int y : {-1, -2, -3, -1000001, -2147483647 - 1})
		MC_CHECK(PlatformMath::pow((float64)b, y) == (y % 2 ? b : 1) && PlatformMath::pow(b, y) == (y % 2 ? b : 1), "%d to the power of %d", b, y);
	if (b > 1 || b < -1) for (int y = -1; y > -5; --y) MC_CHECK(PlatformMath::pow(b, y) == 0, "%d to the power of %d is not zero", b, y);
	mc::outcome("ok");
}

// The floating functions, to a few units in the last place of the exact value
static void floats()
{
	struct { const char * name; float32 (*f)(float32); double (*d)(double); double lo, hi; } fs[] = {
		{"sin", PlatformMath::sin, std::sin, -10, 10}, {"cos", PlatformMath::cos, std::cos, -10, 10}, {"tan", PlatformMath::tan, std::tan, -1.5, 1.5},
		{"asin", PlatformMath::asin, std::asin, -1, 1}, {"acos", PlatformMath::acos, std::acos, -1, 1}, {"atan", PlatformMath::atan, std::atan, -100, 100},
		{"sqrt", PlatformMath::sqrt, std::sqrt, 0, 1e6}};
	auto & x = fs[mc::choose(7)]; int n = 2000;
	for (int i = 0; i <= n; ++i)
	{
		float32 v = (float32)(x.lo + (x.hi - x.lo) * i / n);
		double e = x.d(v);
		MC_CHECK(std::fabs(x.f(v) - e) <= 1e-6 * (1 + std::fabs(e)), "%s(%g) is %g, should be %g", x.name, v, x.f(v), e);
	}
	for (int b = 1; b < 20; ++b) for (int k = -20; k <= 20; ++k)
	{
		double e = std::pow(b * 0.5, k * 0.25);
		MC_CHECK(std::fabs(PlatformMath::pow(b * 0.5f, k * 0.25f) - e) <= 2e-6 * (1 + e), "%g to the power of %g is %g", b * 0.5, k * 0.25, PlatformMath::pow(b * 0.5f, k * 0.25f));
	}
	mc::outcome("ok");
}

// Every value of a 32-bit type, in pieces
static void full()
{
	const uint64 pieces = 4096; uint64 p = mc::choose((int)pieces);
	for (uint64 x = p << 20; x < (p + 1) << 20; ++x)
	{
		uint32 u = (uint32)x; int32 s = (int32)u; float32 f; ::memcpy(&f, &u, 4);
		if (u) MC_CHECK(PlatformMath::log2(u) == 31u - (uint32)__builtin_clz(u), "log2(%u) is %u", u, PlatformMath::log2(u));
		if (s > 0) MC_CHECK(PlatformMath::log2(s) == 31 - __builtin_clz(u), "log2(%d) is %d", s, PlatformMath::log2(s));
		if (s != std::numeric_limits<int32>::lowest()) MC_CHECK(PlatformMath::abs(s) == (s < 0 ? -s : s), "abs(%d) is %d", s, PlatformMath::abs(s));
		if (f == f) MC_CHECK(PlatformMath::abs(f) == std::fabs(f), "abs(%g) is %g", f, PlatformMath::abs(f));
		if (f >= 0 && f <= std::numeric_limits<float32>::max()) { double e = std::sqrt((double)f), r = PlatformMath::sqrt(f); MC_CHECK(std::fabs(r - e) <= 1e-6 * e, "sqrt(%g) is %g", f, r); }
		int k = u % 31; uint32 a = 1u << k;
		MC_CHECK(PlatformMath::align2Down(u, a) == u / a * a, "%u aligned down to %u is %u", u, a, PlatformMath::align2Down(u, a));
		if (((uint64)u / a + 1) * a <= 0xffffffffull) MC_CHECK(PlatformMath::align2Up(u, a) == (u / a + 1) * a, "%u aligned up to %u is %u", u, a, PlatformMath::align2Up(u, a));
		if (!(x & 0xffff)) mc::tick();
	}
	mc::outcome("ok");
}

static void setup()
{
	#define INTEGRAL(T) \
		mc::add(#T "_unary", 1, [] { unary<T>(#T); }); mc::add(#T "_align", 1, [] { align<T>(#T); }); mc::add(#T "_minmax", 1, minmax<T>);
	INTEGRAL(int8) INTEGRAL(uint8) INTEGRAL(int16) INTEGRAL(uint16) INTEGRAL(int32) INTEGRAL(uint32) INTEGRAL(int64) INTEGRAL(uint64)
	mc::add("float32_unary", 1, [] { unary<float32>("float32"); }); mc::add("float64_unary", 1, [] { unary<float64>("float64"); });
	mc::add("float32_minmax", 1, minmax<float32>); mc::add("float64_minmax", 1, minmax<float64>);
	mc::add("powers", 1, powers);
	mc::add("floats", 1, floats);
	mc::add("uint32_full", false, true, 8, full);
}
MC_MAIN(setup)
