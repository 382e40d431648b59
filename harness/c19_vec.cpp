// C19: vectors of two, three and four components, every operator over every pair from small alphabets.
#include "c19_vec.h"

static void constants()
{
	auto is = [](const char * name, auto v, std::vector<float32> e) { for (size_t i = 0; i < e.size(); ++i) MC_CHECK(v[(int32)i] == e[i], "constant %s, component %zu is %g", name, i, v[(int32)i]); };
	is("zero", Vec2<float32>::zero, {0, 0}); is("unit", Vec2<float32>::unit, {1, 1});
	is("zero", Vec3<float32>::zero, {0, 0, 0}); is("unit", Vec3<float32>::unit, {1, 1, 1});
	is("right", Vec3<float32>::right, {1, 0, 0}); is("left", Vec3<float32>::left, {-1, 0, 0});
	is("up", Vec3<float32>::up, {0, 1, 0}); is("down", Vec3<float32>::down, {0, -1, 0});
	is("forward", Vec3<float32>::forward, {0, 0, 1}); is("backward", Vec3<float32>::backward, {0, 0, -1});
	is("zero", Vec4<float32>::zero, {0, 0, 0, 0}); is("unit", Vec4<float32>::unit, {1, 1, 1, 1});
	// Nearly zero: far below and far above the threshold, in every component
	for (int i = 0; i < 3; ++i) for (float32 sign : {1.f, -1.f})
	{
		Vec3<float32> v{0.f};
		MC_CHECK(v.isNearlyZero(), "zero is not nearly zero");
		for (float32 m : {1e-20f, 1e-6f, 1e-4f, 5e-4f}) { v[i] = sign * m; MC_CHECK(v.isNearlyZero(), "%g in component %d is not nearly zero", sign * m, i); }
		for (float32 m : {1e-3f, 1e-2f, 1.f, 1e10f}) { v[i] = sign * m; MC_CHECK(!v.isNearlyZero(), "%g in component %d is nearly zero", sign * m, i); }
	}
	mc::outcome("ok");
}

static void simd()
{
	#if PLATFORM_USE_SIMD
	using S = Vector4<float32>;
	static const float32 values[] = {-2.f, 0.5f, 3.f, 1.f / 3.f};
	alignas(16) float32 a[4], b[4], r[5];
	for (int i = 0; i < 4; ++i) a[i] = values[mc::choose(4)];
	for (int c = 0; c < 256; ++c)
	{
		for (int i = 0; i < 4; ++i) b[i] = values[c >> 2 * i & 3];
		struct { const char * name; S::Type v; float32 (*f)(float32, float32); } ops[] = {
			{"sum", S::add(S::load(a), S::load(b)), [](float32 x, float32 y) { return x + y; }},
			{"difference", S::sub(S::load(a[0], a[1], a[2], a[3]), S::load(b)), [](float32 x, float32 y) { return x - y; }},
			{"product", S::mul(S::loadu(a), S::load(b[0], b[1], b[2], b[3])), [](float32 x, float32 y) { return x * y; }},
			{"quotient", S::div(S::load(a), S::loadu(b)), [](float32 x, float32 y) { return x / y; }},
			{"scalar", S::load(b[1]), nullptr}};
		for (auto & o : ops)
		{
			r[4] = 9.f;
			S::store(r, o.v);
			for (int i = 0; i < 4; ++i) MC_CHECK(r[i] == (o.f ? o.f(a[i], b[i]) : b[1]), "SIMD %s, component %d", o.name, i);
			MC_CHECK(r[4] == 9.f, "SIMD store writes past the vector");
		}
	}
	#endif
	mc::outcome("ok");
}

static void setup()
{
	family<float32>("f"); family<int32>("i");
	mc::add("constants", 1, constants);
	mc::add("simd", 1, simd);
}
MC_MAIN(setup)
