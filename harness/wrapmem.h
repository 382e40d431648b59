// Counts what the library takes from and returns to the C allocator (linked with --wrap).
#pragma once
#include "mc.h"
#include <cstdlib>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>

struct SystemMemory
{
	std::unordered_map<void*, size_t> live;
	bool on = false;
	std::function<bool(size_t)> refuse;						// true: the system has no memory
	std::function<void*(size_t, size_t)> place;				// where the block goes, or null for anywhere
	std::function<bool(void*)> unplace;						// true: the block came from place
};
inline SystemMemory & sys() { static SystemMemory s; return s; }

extern "C"
{
	int __real_posix_memalign(void ** p, size_t align, size_t size);
	void __real_free(void * p);
	void * __real_malloc(size_t size);
	void * __real_realloc(void * p, size_t size);
	size_t __real_malloc_usable_size(void * p);
}

// Blocks aligned as requested and not better: what lies before them is part of the block of the system
struct Offset { void * base; size_t size; };
inline std::unordered_map<void*, Offset> & offsets() { static std::unordered_map<void*, Offset> m; return m; }
inline void * takeBlock(size_t align, size_t size)
{
	if (sys().refuse && sys().refuse(size)) return nullptr;
	if (sys().place) if (void * q = sys().place(align, size)) { ::memset(q, 0xA5, size); return q; }
	void * base = nullptr;
	if (__real_posix_memalign(&base, 2 * align, align + size)) return nullptr;
	void * p = (char*)base + align;
	::memset(p, 0xA5, size);
	ASAN_POISON_MEMORY_REGION(base, align);
	sys().on = false; sys().live[p] = size; offsets()[p] = {base, size}; sys().on = true;
	return p;
}
inline void returnBlock(void * p)
{
	auto it = offsets().find(p);
	if (it == offsets().end()) { __real_free(p); return; }
	bool on = sys().on; sys().on = false;
	void * base = it->second.base; offsets().erase(it);
	ASAN_UNPOISON_MEMORY_REGION(base, (char*)p - (char*)base);
	__real_free(base);
	sys().on = on;
}

extern "C"
{
	int __wrap_posix_memalign(void ** p, size_t align, size_t size)
	{
		if (align < sizeof(void*) || (align & (align - 1))) return 22;	// EINVAL, as the C library does
		if (!sys().on) return __real_posix_memalign(p, align, size);
		void * q = takeBlock(align, size);
		if (!q) return 12;	// ENOMEM, *p is left alone
		*p = q; return 0;
	}
	void * __wrap_malloc(size_t size) { return sys().on ? takeBlock(16, size) : __real_malloc(size); }
	void * __wrap_calloc(size_t n, size_t size) { void * p = __wrap_malloc(n * size); if (p) ::memset(p, 0, n * size); return p; }
	void * __wrap_aligned_alloc(size_t align, size_t size) { void * p = nullptr; return __wrap_posix_memalign(&p, align < sizeof(void*) ? sizeof(void*) : align, size) ? nullptr : p; }
	void * __wrap_memalign(size_t align, size_t size) { return __wrap_aligned_alloc(align, size); }
	size_t __wrap_malloc_usable_size(void * p) { auto it = offsets().find(p); return it == offsets().end() ? __real_malloc_usable_size(p) : it->second.size; }
	void __wrap_free(void * p)
	{
		if (p && sys().on)
		{
			if (sys().unplace && sys().unplace(p)) return;
			sys().on = false;
			if (!sys().live.erase(p)) mc::fail("free of memory that was not allocated, or was freed already");
			sys().on = true;
		}
		returnBlock(p);
	}
	void * __wrap_realloc(void * p, size_t size)
	{
		if (!p) return __wrap_malloc(size);
		if (!size) { __wrap_free(p); return nullptr; }
		if (!sys().on && !offsets().count(p)) return __real_realloc(p, size);
		size_t had = __wrap_malloc_usable_size(p);
		void * q = __wrap_malloc(size);
		if (q) { ::memcpy(q, p, had < size ? had : size); __wrap_free(p); }
		return q;
	}
}

// Track system memory while alive; nothing may be left at the end
struct TrackSystem
{
	TrackSystem() { sys().live.clear(); sys().refuse = nullptr; sys().place = nullptr; sys().unplace = nullptr; sys().on = true; }
	~TrackSystem() { sys().on = false; sys().refuse = nullptr; sys().place = nullptr; sys().unplace = nullptr; }
	void expectEmpty(const char * when) { sys().on = false; if (!sys().live.empty()) mc::fail("%zu block(s) of system memory never freed %s", sys().live.size(), when); sys().on = true; }
	size_t count() { return sys().live.size(); }
};

// Hands out slots of one stretch of memory, side by side or a given distance apart, in an order that is explored
struct Arena
{
	char * base = nullptr; size_t slot = 0, stride = 0, used = 0; int n; std::vector<bool> taken; size_t room; bool far;
	explicit Arena(int inN, size_t inSlot, size_t inStride = 0) : slot{inSlot}, stride{inStride ? inStride : inSlot}, n{inN}, taken(inN, false), room{stride * inN}, far{inStride != 0}
	{
		bool on = sys().on; sys().on = false;
		if (far)
		{
			// Addresses are only reserved; a page or two of each stride is ever used
			static char * region = nullptr; static size_t reserved = 0;
			if (reserved < room)
			{
				if (region) ::munmap(region, reserved);
				void * p = ::mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
				if (p == MAP_FAILED) { region = nullptr; reserved = 0; sys().on = on; throw mc::Abandon{}; } region = (char*)p; reserved = room;
			}
			base = region;
		}
		else { void * p = nullptr; if (__real_posix_memalign(&p, 4096, room)) mc::fail("memory"); base = (char*)p; }
		sys().on = on;
		for (int i = 0; i < n; ++i) ASAN_POISON_MEMORY_REGION(base + i * stride, slot);
		sys().place = [this](size_t align, size_t size) -> void * {
			if (size > slot || stride % align) mc::fail("arena: a block of %zu aligned to %zu", size, align);
			int free = 0; for (int i = 0; i < n; ++i) free += !taken[i];
			if (!free) return nullptr;
			int k = mc::choose(free), i = 0; for (;; ++i) if (!taken[i] && k-- == 0) break;
			taken[i] = true; ++used; mc::note("(slot %d)", i);
			char * q = base + i * stride; ASAN_UNPOISON_MEMORY_REGION(q, size);
			return q;
		};
		sys().unplace = [this](void * p) {
			if ((char*)p < base || (char*)p >= base + room) return false;
			size_t off = (size_t)((char*)p - base);
			if (off % stride || !taken[off / stride]) mc::fail("free of memory that was not allocated, or was freed already");
			taken[off / stride] = false; --used; ASAN_POISON_MEMORY_REGION((char*)p, slot);
			return true;
		};
	}
	~Arena()
	{
		sys().place = nullptr; sys().unplace = nullptr;
		for (int i = 0; i < n; ++i) ASAN_UNPOISON_MEMORY_REGION(base + i * stride, slot);
		if (far) return;
		bool on = sys().on; sys().on = false; __real_free(base); sys().on = on;
	}
};
