// C24: Type traits and type transformations agree with the language, over the closure of a set of
// base types under const, volatile, pointers, references and arrays; fixed-width types have their
// width and sign; a value's type selects the right overload.
#include "mc.h"
#include "core_types.h"
#include "templates/types.h"
#include "templates/enable_if.h"
#include "templates/type_info.h"
#include "templates/utility.h"
#include <type_traits>
#include <limits>

namespace u
{
	struct Empty {}; struct Data { int a; char b; };
	struct HasCtor { HasCtor() {} int a; }; struct HasCopy { HasCopy() = default; HasCopy(const HasCopy&) {} HasCopy & operator=(const HasCopy&) = default; int a; };
	struct HasAssign { HasAssign & operator=(const HasAssign &) { return *this; } int a; }; struct HasDtor { ~HasDtor() {} int a; };
	struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) {} MoveOnly & operator=(MoveOnly&&) { return *this; } int a; };
	struct Virtual { virtual void f() {} }; struct Derived : Data { int c; }; struct Deeper : Derived, private Empty {}; struct Member { HasDtor d; };
	union Un { int a; float b; }; enum En { e0, e1 }; enum class Ec : uint8 { e0 };
	struct Pad : NonCopyable { int a; }; struct Fixed : NonMovable { int a; };
}

// Classes with one member function of their own (or deleted, or defaulted), empty or not, and what derives from or holds them
namespace u
{
	template<bool> struct Payload {}; template<> struct Payload<true> { int32 payload; };
#define CLASS(Name, ...) template<bool data> struct Name : Payload<data> { __VA_ARGS__ }
	CLASS(Plain, ); CLASS(OwnCtor, OwnCtor() {}); CLASS(OwnDtor, ~OwnDtor() {}); CLASS(OwnCopy, OwnCopy() = default; OwnCopy(const OwnCopy &) {} OwnCopy & operator=(const OwnCopy &) = default;);
	CLASS(OwnMove, OwnMove() = default; OwnMove(OwnMove &&) {} OwnMove(const OwnMove &) = default; OwnMove & operator=(const OwnMove &) = default;); CLASS(OwnCopyAssign, OwnCopyAssign & operator=(const OwnCopyAssign &) { return *this; });
	CLASS(OwnMoveAssign, OwnMoveAssign() = default; OwnMoveAssign(const OwnMoveAssign &) = default; OwnMoveAssign & operator=(const OwnMoveAssign &) = default; OwnMoveAssign & operator=(OwnMoveAssign &&) { return *this; });
	CLASS(NoCopy, NoCopy() = default; NoCopy(const NoCopy &) = delete; NoCopy & operator=(const NoCopy &) = delete;); CLASS(NoAssign, NoAssign() = default; NoAssign(const NoAssign &) = default; NoAssign & operator=(const NoAssign &) = delete;);
	CLASS(OnlyMove, OnlyMove() = default; OnlyMove(OnlyMove &&) = default; OnlyMove & operator=(OnlyMove &&) = default;); CLASS(Poly, virtual void f() {}); CLASS(PolyDtor, virtual ~PolyDtor() {}); CLASS(Defaulted, Defaulted() = default; Defaulted(const Defaulted &) = default; Defaulted & operator=(const Defaulted &) = default; ~Defaulted() = default;);
	template<typename T> struct Heir : T {}; template<typename T> struct HeirMore : T { int64 more; }; template<typename T> struct HeirVirtual : virtual T {}; template<typename T> struct Holds { T t; }; template<typename T> struct HoldsMany { char c; T t[2]; };
}

// Name of a type, only to report it
template<typename T> static const char * nameOf() { const char * f = __PRETTY_FUNCTION__; const char * t = ::strstr(f, "T = "); return t ? t + 4 : f; }
#define SAME(what, A, B) MC_CHECK((std::is_same<A, B>::value), "%s of %s is %s", what, nameOf<T>(), (nameOf<A>()))
#define VALUE(what, A, B) MC_CHECK(bool(A) == bool(B), "%s of %s is %d", what, nameOf<T>(), int(A))

template<typename T> struct AllPointers { using Type = T; };
template<typename T, bool = std::is_pointer<T>::value> struct Strip { using Type = T; };
template<typename T> struct Strip<T, true> { using Type = typename Strip<std::remove_pointer_t<T>>::Type; };

template<typename T, typename = void> struct Inst { static void check() {} };
// complete object types
template<typename T> static void checkObject()
{
	if constexpr (std::is_object<T>::value && !(std::is_array<T>::value && std::extent<T>::value == 0))
	{
		VALUE("IsTrivial", IsTrivial<T>::value, std::is_trivial<T>::value);
		VALUE("IsPOD", IsPOD<T>::value, (std::is_standard_layout<T>::value && std::is_trivial<T>::value));
		VALUE("IsTriviallyCopyable", IsTriviallyCopyable<T>::value, std::is_trivially_copyable<T>::value);
		VALUE("IsTriviallyDestructible", IsTriviallyDestructible<T>::value, std::is_trivially_destructible<T>::value);
		using E = std::remove_all_extents_t<T>;
		// (the language's notion includes destruction, the library's does not)
		if (std::is_trivially_destructible<E>::value) VALUE("IsTriviallyConstructible", IsTriviallyConstructible<T>::value, std::is_trivially_default_constructible<E>::value);
		if (!std::is_const<E>::value && !std::is_volatile<E>::value && std::is_copy_assignable<E>::value)
			VALUE("IsTriviallyAssignable", IsTriviallyAssignable<T>::value, std::is_trivially_copy_assignable<E>::value);
	}
}

template<typename T, typename U> static void against()
{
	VALUE("IsSameType", (IsSameType<T, U>::value), (std::is_same<T, U>::value));
	VALUE("IsSameType (exchanged)", (IsSameType<U, T>::value), (std::is_same<T, U>::value));
	if constexpr (!std::is_reference<U>::value)
		VALUE("IsPointerOf", (IsPointerOf<T, U>::value), (std::is_same<T, U*>::value || std::is_same<T, const U*>::value || std::is_same<T, volatile U*>::value || std::is_same<T, const volatile U*>::value));
	using A = typename ChooseType<true, T, U>::Type; using B = typename ChooseType<false, T, U>::Type;
	SAME("ChooseType true", A, T); SAME("ChooseType false", B, U);
}

template<typename T> static constexpr int enabled(EnableIfT<IsReference<T>::value, int>) { return 1; }
template<typename T> static constexpr int enabled(EnableIfT<!IsReference<T>::value, int>) { return 2; }

template<typename T> static void checkType()
{
	using NoCV = std::remove_cv_t<T>;
	constexpr bool plain = std::is_same<T, NoCV>::value;
	if (plain)	// classifications are stated for unqualified types
	{
		VALUE("IsPointer", IsPointer<T>::value, std::is_pointer<T>::value);
		VALUE("IsVoid", IsVoid<T>::value, std::is_void<T>::value);
		// long is not one of the platform's types
		constexpr bool longs = std::is_same<T, long>::value || std::is_same<T, unsigned long>::value || std::is_same<T, char16_t>::value || std::is_same<T, char32_t>::value;
		if (!longs) VALUE("IsIntegral", IsIntegral<T>::value, std::is_integral<T>::value);
		VALUE("IsVoidPointer", IsVoidPointer<T>::value, (std::is_pointer<T>::value && std::is_void<std::remove_pointer_t<T>>::value));
	}
	VALUE("IsReference", IsReference<T>::value, std::is_reference<T>::value);
	VALUE("IsVolatile", IsVolatile<T>::value, std::is_volatile<T>::value);
	VALUE("IsArray", IsArray<T>::value, std::is_array<T>::value);
	VALUE("IsCFunction", IsCFunction<T>::value, std::is_function<T>::value);
	using Id = typename TypeIdentity<T>::Type; SAME("TypeIdentity", Id, T);
	using RP = typename RemovePointer<T>::Type; SAME("RemovePointer", RP, std::remove_pointer_t<T>);
	using RA = typename RemoveAllPointers<T>::Type; using SA = typename Strip<T>::Type; SAME("RemoveAllPointers", RA, SA);
	using RR = typename RemoveReference<T>::Type; SAME("RemoveReference", RR, std::remove_reference_t<T>);
	using RV = typename RemoveVolatile<T>::Type; SAME("RemoveVolatile", RV, std::remove_volatile_t<T>);
	using RC = typename RemoveConst<T>::Type; SAME("RemoveConst", RC, std::remove_const_t<T>);
	using RCV = typename RemoveConstVolatile<T>::Type; SAME("RemoveConstVolatile", RCV, std::remove_cv_t<T>);
	using RX = typename RemoveArray<T>::Type; SAME("RemoveArray", RX, std::remove_extent_t<T>);
	using AP = typename AddPointer<T>::Type; SAME("AddPointer", AP, std::add_pointer_t<T>);
	using NT = typename NakedType<T>::Type; SAME("NakedType", NT, std::remove_const_t<std::remove_reference_t<T>>);
	using DT = typename DecayType<T>::Type; SAME("DecayType", DT, std::decay_t<T>);
	int which = enabled<T>(0); MC_CHECK(which == (std::is_reference<T>::value ? 1 : 2), "EnableIf selects the wrong overload for %s", nameOf<T>());
	checkObject<T>();
	against<T, T>(); against<T, std::remove_cv_t<T>>(); against<T, std::remove_pointer_t<T>>(); against<T, std::remove_cv_t<std::remove_pointer_t<T>>>(); against<T, std::remove_reference_t<T>>(); against<T, std::decay_t<T>>(); against<T, int>(); against<T, void>();
	if constexpr (!std::is_function<T>::value) { against<T, const T>(); against<T, volatile T>(); }
	if constexpr (!std::is_reference<T>::value) against<T, T*>();
	if constexpr (!std::is_void<T>::value && !std::is_const<T>::value && !std::is_volatile<T>::value) against<T, T&>();
	mc::outcome(nameOf<T>());
}

template<typename T, int depth> static void walk()
{
	constexpr bool isVoid = std::is_void<T>::value, isFn = std::is_function<T>::value, isRef = std::is_reference<T>::value, unbounded = std::is_array<T>::value && std::extent<T>::value == 0;
	if constexpr (depth == 0) checkType<T>();
	else switch (mc::choose(9))
	{
	case 0: checkType<T>(); break;
	case 1: if constexpr (!isRef && !isFn && !std::is_const<T>::value) walk<const T, depth - 1>(); break;
	case 2: if constexpr (!isRef && !isFn && !std::is_volatile<T>::value) walk<volatile T, depth - 1>(); break;
	case 3: if constexpr (!isRef) walk<T*, depth - 1>(); break;
	case 4: if constexpr (!isVoid) walk<T&, depth - 1>(); break;
	case 5: if constexpr (!isVoid) walk<T&&, depth - 1>(); break;
	case 6: if constexpr (!isVoid && !isRef && !isFn && !unbounded) walk<T[3], depth - 1>(); break;
	case 7: if constexpr (!isVoid && !isRef && !isFn && !unbounded) walk<T[], depth - 1>(); break;
	case 8: if constexpr (!std::is_array<T>::value && !isFn) walk<T(int), depth - 1>(); break;
	}
}
template<typename T> static void closure()
{
#ifdef MC_DEEP
	walk<T, 4>();
#else
	walk<T, 3>();
#endif
}
template<typename... T> static void bases() { using F = void (*)(); static const F f[] = {walk<T, 1>...}; f[mc::choose(sizeof...(T))](); }

template<typename T> static void special1() { checkType<T>(); checkType<const T>(); checkType<T[2]>(); }
template<typename T> static void special2() { switch (mc::choose(6)) { case 0: special1<T>(); break; case 1: special1<u::Heir<T>>(); break; case 2: special1<u::HeirMore<T>>(); break; case 3: special1<u::HeirVirtual<T>>(); break; case 4: special1<u::Holds<T>>(); break; case 5: special1<u::HoldsMany<T>>(); break; } }
template<template<bool> class... C> static void special() { using F = void (*)(); static const F f[] = {special2<C<false>>..., special2<C<true>>...}; f[mc::choose(2 * sizeof...(C))](); }

template<typename B, typename T> static void base() { VALUE("IsBaseOf", (IsBaseOf<B, T>::value), (std::is_base_of<B, T>::value)); }
template<typename T, typename... B> static void basesOf() { (base<B, T>(), ...); }
template<typename... T> static void hierarchy() { (basesOf<T, T...>(), ...); mc::outcome("ok"); }

struct CopyNo : NonCopyable {}; struct MoveNo : NonMovable {};
template<typename T> static void width(const char * name, size_t size, bool isSigned)
{
	MC_CHECK(sizeof(T) == size, "%s has %zu bytes", name, sizeof(T));
	MC_CHECK((T(-1) < T(0)) == isSigned, "%s has the wrong sign", name);
}
static void platform()
{
	width<int8>("int8", 1, true); width<int16>("int16", 2, true); width<int32>("int32", 4, true); width<int64>("int64", 8, true);
	width<uint8>("uint8", 1, false); width<uint16>("uint16", 2, false); width<uint32>("uint32", 4, false); width<uint64>("uint64", 8, false);
	width<ubyte>("ubyte", 1, false); width<byte>("byte", 1, true); width<intp>("intp", sizeof(void*), true); width<uintp>("uintp", sizeof(void*), false); width<sizet>("sizet", sizeof(sizeof(0)), false);
	width<float32>("float32", 4, true); width<float64>("float64", 8, true); width<float128>("float128", 16, true);
	width<char8>("char8", 1, false); width<char16>("char16", 2, false); width<char32>("char32", 4, false); MC_CHECK(sizeof(ansichar) == 1 && sizeof(widechar) == sizeof(L'a'), "characters");
	MC_CHECK((std::is_same<decltype("a"[0]), const ansichar&>::value) && (std::is_same<decltype(L"a"[0]), const widechar&>::value), "characters are those of literals");
	MC_CHECK(std::numeric_limits<float32>::is_iec559 && std::numeric_limits<float64>::digits == 53, "floating point");
	MC_CHECK(!std::is_copy_constructible<CopyNo>::value && !std::is_copy_assignable<CopyNo>::value && std::is_default_constructible<CopyNo>::value, "a non copyable object can be copied");
	MC_CHECK(!std::is_move_constructible<MoveNo>::value && !std::is_move_assignable<MoveNo>::value, "a non movable object can be moved");
#define NAMED(T) MC_CHECK(std::string(*TypeDebugInfo<T>::debugName) == #T && TypeDebugInfo<T>::debugName.getLength() == sizeof(#T) - 1, "name of %s is %s", #T, *TypeDebugInfo<T>::debugName);
	NAMED(int8) NAMED(int16) NAMED(int32) NAMED(int64) NAMED(uint8) NAMED(uint16) NAMED(uint32) NAMED(uint64)
	MC_CHECK(std::string(*TypeDebugInfo<void>::getDebugName()) == "void", "name of void");
	mc::outcome("ok");
}

static void setup()
{
	mc::add("closure_int", 1, closure<int32>); mc::add("closure_void", 1, closure<void>); mc::add("closure_class", 1, closure<u::HasDtor>); mc::add("closure_function", 1, closure<void(int)>);
	mc::add("bases", 1, bases<bool, char, wchar_t, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, char16_t, char32_t, float, double, long double, decltype(nullptr),
		u::Empty, u::Data, u::HasCtor, u::HasCopy, u::HasAssign, u::HasDtor, u::MoveOnly, u::Virtual, u::Derived, u::Deeper, u::Member, u::Un, u::En, u::Ec, u::Pad, int (), int (int, ...), int () noexcept, int (int, ...) noexcept, int u::Data::*, void (u::Data::*)()>);
	mc::add("hierarchy", 1, hierarchy<u::Empty, u::Data, u::Derived, u::Deeper, u::Virtual, u::HasDtor, u::Un, u::En, int, NonCopyable, u::Pad, u::Fixed, NonMovable>);
	mc::add("special_members", 1, special<u::Plain, u::OwnCtor, u::OwnDtor, u::OwnCopy, u::OwnMove, u::OwnCopyAssign, u::OwnMoveAssign, u::NoCopy, u::NoAssign, u::OnlyMove, u::Poly, u::PolyDtor, u::Defaulted>);
	mc::add("platform", 1, platform);
}
MC_MAIN(setup)
