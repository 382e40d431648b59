// C20: quaternions against rotations computed in double precision, matrices against their definition.
#include "mc.h"
#include "core_types.h"
#include "math/math.h"
#include "math/mat4.h"
#include <cmath>
#include <utility>

struct D3 { double x, y, z; };
static D3 operator+(D3 a, D3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static D3 operator*(double s, D3 a) { return {s * a.x, s * a.y, s * a.z}; }
static D3 cross(D3 a, D3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double dot(D3 a, D3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
// Rodrigues' formula
static D3 turned(D3 v, D3 axis, double angle) { return std::cos(angle) * v + std::sin(angle) * cross(axis, v) + (1 - std::cos(angle)) * dot(axis, v) * axis; }

static D3 axes[26]; static int numAxes = 0;
static const double pi = 3.14159265358979323846;
static const D3 probes[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 2, -3}, {-0.5, 4, 0.25}};

static void initAxes()
{
	if (numAxes) return;
	// The 13 directions to the neighbours of a cube first, then their opposites
	for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
	{
		int first = x ? x : y ? y : z;
		if (first > 0) axes[numAxes++] = (1 / std::sqrt((double)(x * x + y * y + z * z))) * D3{(double)x, (double)y, (double)z};
	}
	for (int i = 0; i < 13; ++i) axes[13 + i] = -1 * axes[i];
	numAxes = 26;
}
static Vec3<float32> f(D3 v) { return Vec3<float32>{(float32)v.x, (float32)v.y, (float32)v.z}; }

static void near(const Vec3<float32> & got, D3 e, double tolerance, const char * what)
{
	double scale = 1 + std::sqrt(dot(e, e));
	MC_CHECK(std::fabs(got.x - e.x) < tolerance * scale && std::fabs(got.y - e.y) < tolerance * scale && std::fabs(got.z - e.z) < tolerance * scale,
		"%s is (%g,%g,%g), should be (%g,%g,%g)", what, got.x, got.y, got.z, e.x, e.y, e.z);
}
static constexpr double eps = 4e-6;

struct Turn { D3 axis; double angle; };
static Turn pickTurn(int numAngles, int step)
{
	initAxes();
	int a = mc::choose(numAxes), k = mc::choose(numAngles) - numAngles / 2;
	return {axes[a], k * step * pi / 12};
}
static Quat make(Turn t) { return Quat{(float32)t.angle, f(t.axis)}; }

// One rotation: every way to build it and to look at it
static void single()
{
	Turn t = pickTurn(49, 1);
	mc::note("%g degrees about (%g,%g,%g)", t.angle * 180 / pi, t.axis.x, t.axis.y, t.axis.z);
	const Quat q = make(t);
	auto R = [&](D3 v) { return turned(v, t.axis, t.angle); };
	MC_CHECK(std::fabs(q.getSquaredSize() - 1) < eps, "a rotation has size %g", q.getSize());
	for (D3 p : probes)
	{
		near(q * f(p), R(p), eps, "the rotated vector");
		near(-q * (q * f(p)), p, 2 * eps, "the vector rotated and rotated back");
		near((-q * q) * f(p), p, 2 * eps, "the vector rotated by the inverse times the rotation");
		near((q * -q) * f(p), p, 2 * eps, "the vector rotated by the rotation times its inverse");
		near(-q * f(p), turned(p, t.axis, -t.angle), eps, "the vector rotated by the inverse");
		near(Quat{(float32)-t.angle, f(t.axis)} * f(p), turned(p, t.axis, -t.angle), eps, "the vector rotated by the negative angle");
		near(Quat{f(t.angle * t.axis)} * f(p), R(p), eps, "the vector rotated by the rotation vector");
		near((Quat{} * q) * f(p), R(p), eps, "the vector rotated by identity times the rotation");
		near((q * Quat{}) * f(p), R(p), eps, "the vector rotated by the rotation times identity");
		near(Quat{} * f(p), p, eps, "the vector rotated by identity");
	}
	auto ax = q.getAxes();
	near(ax[0], R({1, 0, 0}), eps, "the first axis"); near(ax[1], R({0, 1, 0}), eps, "the second axis"); near(ax[2], R({0, 0, 1}), eps, "the third axis");
	near(q.getRight(), R({1, 0, 0}), eps, "right"); near(q.getLeft(), R({-1, 0, 0}), eps, "left");
	near(q.getUp(), R({0, 1, 0}), eps, "up"); near(q.getDown(), R({0, -1, 0}), eps, "down");
	near(q.getForward(), R({0, 0, 1}), eps, "forward"); near(q.getBackward(), R({0, 0, -1}), eps, "backward");
	// The angle of a rotation undone is none, or a whole turn, up to rounding
	for (const Quat & u : {q * -q, -q * q, (q * -q) * (q * -q), (-q * q) * (q * -q)})
	{
		double a = u.getAngle(); float32 b = -9.f; Vec3<float32> axis; u.getAngleAndAxis(b, axis);
		MC_CHECK(std::min(std::fabs(a), std::fabs(a - 2 * pi)) < 4e-3, "the angle of a rotation undone is %g", a);
		MC_CHECK(std::fabs(a - b) < 1e-5, "getAngle is %g, getAngleAndAxis says %g", a, b);
		MC_CHECK(axis.x == axis.x && axis.y == axis.y && axis.z == axis.z, "the axis of a rotation undone is not a number");
		for (D3 p : probes) near(Quat{b, axis} * f(p), p, 1e-3, "the vector rotated by the angle and axis of a rotation undone");
	}
	// Angle and axis denote the same rotation, even where there is no axis
	{
		float32 angle = -9.f; Vec3<float32> axis; q.getAngleAndAxis(angle, axis);
		for (D3 p : probes) near(Quat{angle, axis} * f(p), R(p), 1e-3, "the vector rotated by the extracted angle and axis");
	}
	// The axis itself, but for whole turns, which have no axis
	if (std::fabs(std::sin(t.angle / 2)) > 0.01)
	{
		float32 angle = -9.f; Vec3<float32> axis;
		q.getAngleAndAxis(angle, axis);
		MC_CHECK(std::fabs(q.getAngle() - angle) < 1e-5, "getAngle is %g, getAngleAndAxis says %g", q.getAngle(), angle);
		MC_CHECK(std::fabs(axis.getSquaredSize() - 1) < 1e-4, "the extracted axis has size %g", axis.getSize());
		for (D3 p : probes) near(Quat{angle, axis} * f(p), R(p), 1e-4, "the vector rotated by the extracted angle and axis");
		// The same angle and axis, if the angle was within a turn
		if (t.angle > 0 && t.angle < 2 * pi - 0.01) { MC_CHECK(std::fabs(angle - t.angle) < 1e-4, "the extracted angle is %g, should be %g", angle, t.angle); near(axis, t.axis, 1e-4, "the extracted axis"); }
	}
	mc::outcome("ok");
}

// The product of two, applied right to left
static void pairs()
{
	int n = mc::bound(17, 25);
	Turn a = pickTurn(n, mc::bound(3, 2)), b = pickTurn(n, mc::bound(3, 2));
	const Quat p = make(a), q = make(b), pq = p * q;
	for (D3 v : probes)
	{
		near(pq * f(v), turned(turned(v, b.axis, b.angle), a.axis, a.angle), 2 * eps, "the vector rotated by a product");
		near(-pq * f(v), turned(turned(v, a.axis, -a.angle), b.axis, -b.angle), 2 * eps, "the vector rotated by the inverse of a product");
	}
	MC_CHECK(std::fabs(pq.getSquaredSize() - 1) < 2 * eps, "a product of rotations has size %g", pq.getSize());
	// Its angle, which rounding blurs near none and near whole turns
	double w = std::cos(a.angle / 2) * std::cos(b.angle / 2) - std::sin(a.angle / 2) * std::sin(b.angle / 2) * (a.axis.x * b.axis.x + a.axis.y * b.axis.y + a.axis.z * b.axis.z);
	double e = 2 * std::acos(std::max(-1., std::min(1., w))), tol = std::fabs(w) > 0.999 ? 4e-3 : 2e-4;
	float32 angle = -9.f; Vec3<float32> axis; pq.getAngleAndAxis(angle, axis);
	MC_CHECK(std::fabs(pq.getAngle() - e) < tol && std::fabs(angle - e) < tol, "the angle of a product is %g and %g, should be %g", pq.getAngle(), angle, e);
	mc::outcome("ok");
}

// Associativity, on the components themselves
static void triples()
{
	Turn t[3]; for (auto & x : t) { initAxes(); x = {axes[mc::choose(13)], (1 + mc::bound(2, 1) * mc::choose(mc::bound(3, 6))) * pi / 5}; }
	const Quat a = make(t[0]), b = make(t[1]), c = make(t[2]), l = (a * b) * c, r = a * (b * c);
	for (int i = 0; i < 4; ++i) MC_CHECK(std::fabs(l[i] - r[i]) < eps, "the product of three depends on grouping: component %d is %g or %g", i, l[i], r[i]);
	mc::outcome("ok");
}

// Small rotation vectors, down to none
static void vectors()
{
	initAxes();
	D3 axis = axes[mc::choose(numAxes)]; double size = mc::choose(40) == 0 ? 0 : 1;
	int k = mc::choose(30);
	size *= std::pow(10., -k / 2.);
	D3 v = size * axis;
	mc::note("rotation vector of size %g", size);
	const Quat q{f(v)};
	for (D3 p : probes) near(q * f(p), size > 0 ? turned(p, axis, size) : p, eps, "the vector rotated by a small rotation vector");
	mc::outcome("ok");
}

// Axes whose components all differ, and angles of several turns
static void skew()
{
	static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	static const double sizes[][3] = {{1, 2, 3}, {0.1, 1, 5}, {1, 1.25, 1.5}};
	int p = mc::choose(6), sign = mc::choose(8), which = mc::choose(3), k = mc::choose(mc::bound(25, 121)) - mc::bound(12, 60);
	double c[3]; for (int i = 0; i < 3; ++i) c[i] = sizes[which][perms[p][i]] * (sign >> i & 1 ? -1 : 1);
	D3 axis = (1 / std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2])) * D3{c[0], c[1], c[2]};
	double angle = k * mc::bound(2, 1) * 0.4 / 2;
	mc::note("%g radians about (%g,%g,%g)", angle, axis.x, axis.y, axis.z);
	const Quat q{(float32)angle, f(axis)}, v{f(angle * axis)};
	for (D3 x : probes) for (double m : {1., 1e-6, 1e6})
	{
		D3 big = m * x, e = turned(big, axis, angle); double tol = 4 * eps * m / (1 + m * std::sqrt(dot(x, x))) * std::sqrt(dot(x, x)) + 1e-30;
		near(q * f(big), e, tol, "the rotated vector"); near(v * f(big), e, tol, "the vector rotated by the rotation vector"); near(-q * (q * f(big)), big, 2 * tol, "the vector rotated and rotated back");
	}
	if (std::fabs(std::sin(angle / 2)) > 0.05 && angle > 0 && angle < 2 * pi)
	{
		float32 a = -9.f; Vec3<float32> x; q.getAngleAndAxis(a, x);
		MC_CHECK(std::fabs(a - angle) < 1e-4, "the extracted angle is %g, should be %g", a, angle); near(x, axis, 1e-4, "the extracted axis");
	}
	mc::outcome("ok");
}

// The same rotation many times over, from either side: the angles add up
static void chains()
{
	initAxes();
	D3 axis = axes[mc::choose(numAxes)]; static const double angles[] = {0.01, 0.3, -0.7, 1.5707963267948966, 3.0};
	double angle = angles[mc::choose(5)]; bool left = mc::choose(2); int n = mc::bound(60, 400);
	mc::note("%g radians about (%g,%g,%g), %d times", angle, axis.x, axis.y, axis.z, n);
	const Quat q{(float32)angle, f(axis)}; Quat r; D3 v = probes[3];
	for (int i = 1; i <= n; ++i)
	{
		r = left ? q * r : r * q;
		near(r * f(v), turned(v, axis, i * (double)(float32)angle), eps * (2 + i), "the vector rotated by a power");
		MC_CHECK(std::fabs(r.getSquaredSize() - 1) < eps * (2 + i), "a power has size %g", r.getSize());
	}
	mc::outcome("ok");
}

// Matrices from fewer than sixteen elements: the rest is zero
template<typename T, int ... I> static void listed(std::integer_sequence<int, I...>)
{
	const Mat4<T> m{T(1), T(2), T(I + 3)...}; constexpr int n = sizeof...(I) + 2;
	for (int i = 0; i < 16; ++i) MC_CHECK(m(i) == (i < n ? T(i + 1) : T(0)), "matrix of %d elements, element %d", n, i);
}
template<typename T, int ... N> static void lists(std::integer_sequence<int, N...>) { int d[] = {(listed<T>(std::make_integer_sequence<int, N>{}), 0)...}; (void)d; }

template<typename T> static void matrix()
{
	lists<T>(std::make_integer_sequence<int, 15>{});
	// Which elements differ: the mask of comparison has the first element as highest bit
	T src[16]; for (int i = 0; i < 16; ++i) src[i] = T(i + 1);
	const Mat4<T> m{src};
	const Mat4<T> list{T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9), T(10), T(11), T(12), T(13), T(14), T(15), T(16)};
	const Mat4<T> same = m; const Mat4<T> sevens{T(7)};
	uint32_t high = mc::choose(256);
	if (high == 0)
	{
		for (int i = 0; i < 16; ++i)
		{
			MC_CHECK(m(i) == src[i] && list(i) == src[i] && sevens(i) == T(7) && (*m)[i] == src[i], "element %d", i);
			MC_CHECK(m(i / 4, i % 4) == src[i] && m[i / 4][i % 4] == src[i], "element %d by row and column", i);
		}
		Mat4<T> t = m; Mat4<T> & r = t.transpose();
		MC_CHECK(&r == &t, "transpose does not return the matrix itself");
		for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) MC_CHECK(t(i, j) == m(j, i) && t[i][j] == m[j][i], "transposed element %d %d", i, j);
		t.transpose();
		MC_CHECK(t == m && !(t != m) && list == m && same == m, "transposing twice, or copying, changes the matrix");
		MC_CHECK(m.a == 1 && m.d == 4 && m.e == 5 && m.k == 11 && m.p == 16, "named elements");
		for (int i = 0; i < 16; ++i)
		{
			Mat4<T> w = m; w(i) = T(100); MC_CHECK(w[i / 4][i % 4] == T(100), "writing element %d", i);
			Mat4<T> u = m; u(i / 4, i % 4) = T(100); MC_CHECK(u == w, "writing element %d by row and column", i);
			Mat4<T> x = m; x[i / 4][i % 4] = T(100); MC_CHECK(x == w, "writing element %d by row", i);
			Mat4<T> y = m; (*y)[i] = T(100); MC_CHECK(y == w && y != m, "writing element %d through the buffer", i);
		}
	}
	for (uint32_t low = 0; low < 256; ++low)
	{
		const uint32_t mask = high << 8 | low;
		Mat4<T> d = m;
		for (int i = 0; i < 16; ++i) if (!(mask >> (15 - i) & 1)) d(i) = T(99);
		MC_CHECK(m.cmp(d) == mask && d.cmp(m) == mask, "comparison mask %04x should be %04x", m.cmp(d), mask);
		MC_CHECK((m == d) == (mask == 0xffff) && (m != d) == (mask != 0xffff), "equality with mask %04x", mask);
	}
	mc::outcome("ok");
}

static void setup()
{
	mc::add("single", 8, single);
	mc::add("pairs", 8, pairs);
	mc::add("triples", 8, triples);
	mc::add("vectors", 1, vectors);
	mc::add("skew", 8, skew);
	mc::add("chains", 4, chains);
	mc::add("matrix_float", 1, matrix<float32>);
	mc::add("matrix_int", 1, matrix<int32>);
	mc::add("matrix_double", 1, matrix<float64>);
}
MC_MAIN(setup)
