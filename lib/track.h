// Instrumented allocator and element types shared by the harnesses: boring bookkeeping that
// judges object lifetimes and memory ownership from the outside.
#pragma once

#include "mc.h"
#include "hal/platform_memory.h"
#include "hal/memory_base.h"
#include <map>

// An allocator that knows every live block. Backed by posix_memalign, so that ASan watches it too.
struct TrackMalloc : public MallocBase
{
	struct Block { sizet size, align; };
	std::unordered_map<void*, Block> live;
	uint64_t allocs = 0, frees = 0;
	const char * name;

	explicit TrackMalloc(const char * inName = "global") : name{inName} {}
	~TrackMalloc() override
	{
		for (auto & b : live) ::free(b.first);
	}

	void * alloc(sizet size, sizet alignment = DEFAULT_ALIGNMENT) override
	{
		if (alignment < sizeof(void*)) alignment = sizeof(void*);
		void * p = nullptr;
		if (size > (1ull << 26)) mc::fail("allocator %s: absurd allocation of %llu bytes", name, (unsigned long long)size);
		if (posix_memalign(&p, alignment, size ? size : 1) != 0) mc::fail("allocator %s: bad alignment %llu", name, (unsigned long long)alignment);
		::memset(p, 0xA5, size);	// nobody may rely on fresh memory being zero
		live[p] = {size, alignment};
		++allocs;
		return p;
	}

	void * realloc(void * orig, sizet size, sizet alignment = DEFAULT_ALIGNMENT) override
	{
		if (!orig) return alloc(size, alignment);
		auto it = live.find(orig);
		if (it == live.end()) mc::fail("allocator %s: realloc of a block it does not own", name);
		void * p = alloc(size, alignment);
		it = live.find(orig);
		::memcpy(p, orig, it->second.size < size ? it->second.size : size);
		free(orig);
		return p;
	}

	void free(void * orig) override
	{
		if (!orig) return;
		auto it = live.find(orig);
		if (it == live.end()) mc::fail("allocator %s: free of a block it does not own (double free or foreign block)", name);
		live.erase(it);
		++frees;
		::free(orig);
	}

	void expectEmpty(const char * when)
	{
		if (!live.empty()) mc::fail("allocator %s: %zu block(s) leaked %s", name, live.size(), when);
	}
};

// Registry of live instrumented objects
struct ObjRegistry
{
	std::unordered_map<const void*, int> live;
	uint64_t made = 0, gone = 0;
	void birth(const void * p)
	{
		if (!live.emplace(p, 1).second) mc::fail("lifetime: object constructed over a live object");
		++made;
	}
	void death(const void * p)
	{
		if (!live.erase(p)) mc::fail("lifetime: destructor called on a dead or never constructed object");
		++gone;
	}
	void use(const void * p, const char * what)
	{
		if (!live.count(p)) mc::fail("lifetime: %s of a dead or never constructed object", what);
	}
	void expectEmpty(const char * when)
	{
		if (!live.empty()) mc::fail("lifetime: %zu object(s) never destroyed %s", live.size(), when);
	}
	void expect(size_t n, const char * when)
	{
		if (live.size() != n) mc::fail("lifetime: %zu live objects, expected %zu, %s", live.size(), n, when);
	}
};
inline ObjRegistry & objs() { static ObjRegistry r; return r; }

// A non-trivial element. value -1: moved from.
struct Obj
{
	int32 value;
	void * self;	// detects bitwise relocation of a type that forbids it

	Obj() : value{0}, self{this} { objs().birth(this); }
	Obj(int32 v) : value{v}, self{this} { objs().birth(this); }
	Obj(const Obj & o) : value{(o.check("copy construction from"), o.value)}, self{this} { objs().birth(this); }
	Obj(Obj && o) : value{(o.check("move construction from"), o.value)}, self{this} { objs().birth(this); o.value = -1; }
	Obj & operator=(const Obj & o) { check("assignment to"); o.check("assignment from"); value = o.value; return *this; }
	Obj & operator=(Obj && o) { check("assignment to"); o.check("assignment from"); int32 v = o.value; o.value = -1; value = v; return *this; }
	~Obj() { objs().death(this); value = -77; }

	void check(const char * what) const
	{
		objs().use(this, what);
		if (self != this) mc::fail("lifetime: %s an object that was relocated bitwise", what);
	}
	int32 get() const { check("read"); return value; }

	bool operator<(const Obj & o) const { return get() < o.get(); }
	bool operator>(const Obj & o) const { return get() > o.get(); }
	bool operator==(const Obj & o) const { return get() == o.get(); }
	bool operator!=(const Obj & o) const { return get() != o.get(); }
};

// The same, but it can only be moved
struct MovObj : public Obj
{
	MovObj() = default;
	MovObj(int32 v) : Obj{v} {}
	MovObj(MovObj &&) = default;
	MovObj & operator=(MovObj &&) = default;
	MovObj(const MovObj &) = delete;
	MovObj & operator=(const MovObj &) = delete;
};

// Uniform access to int and Obj elements
inline int32 val(const Obj & o) { return o.get(); }
inline int32 val(int32 v) { return v; }

template<typename V> inline std::string show(const V & v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += std::to_string(v[i]); }
	return s + "]";
}

// Route the library's default allocator through a tracker for the length of a case
struct TrackGlobal
{
	MallocBase * saved;
	TrackMalloc m;
	TrackGlobal() : saved{gMalloc}, m{"global"} { gMalloc = &m; objs().live.clear(); }
	~TrackGlobal() { gMalloc = saved; }
	void expectEmpty(const char * when) { objs().expectEmpty(when); m.expectEmpty(when); }
};
