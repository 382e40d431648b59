// C13: MallocBinned, MallocAnsi and MallocObject hand out usable, disjoint, aligned memory.
#include "wrapmem.h"
#include <array>
#include "track.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_object.h"

struct Live { unsigned char * p; sizet size; unsigned char tag; };
static void fill(Live & b) { if (b.size <= 4096) ::memset(b.p, b.tag, b.size); else { ::memset(b.p, b.tag, 2048); ::memset(b.p + b.size - 2048, b.tag, 2048); } }
static bool intact(const Live & b) { for (sizet i = 0; i < b.size; ++i) { if (b.size > 4096 && i == 2048) i = b.size - 2048; if (b.p[i] != b.tag) return false; } return true; }

struct Model
{
	std::vector<Live> live; unsigned char tag = 0;
	void accept(void * q, sizet size, sizet align)
	{
		MC_CHECK(q != nullptr, "no block of %llu aligned to %llu", (unsigned long long)size, (unsigned long long)align);
		MC_CHECK(((uintp)q & (align - 1)) == 0, "block %p is not aligned to %llu", q, (unsigned long long)align);
		for (auto & b : live) MC_CHECK((unsigned char*)q + size <= b.p || b.p + b.size <= (unsigned char*)q, "block of %llu overlaps a block of %llu in use", (unsigned long long)size, (unsigned long long)b.size);
		live.push_back({(unsigned char*)q, size, ++tag});
		fill(live.back());
	}
	void check() { if (mc::fresh()) for (auto & b : live) MC_CHECK(intact(b), "the contents of a block of %llu in use changed", (unsigned long long)b.size); }
};

struct Config { MallocBinned::BucketInfo info; sizet align; sizet top; };
// top: the largest size the buckets serve (one increment below the maximum)
static const Config configs[] = {
	{{1 << 16, 1 << 3, 1 << 18, 1 << 3}, 8, 1 << 15},
	{{1 << 10, 1 << 4, 1 << 10, 1 << 2}, 16, 1 << 8},
	{{1 << 9, 1 << 3, 1 << 8, 1 << 1}, 8, 1 << 7},
	{{1 << 8, 1 << 3, 1 << 11, 1 << 4}, 32, 1 << 7},
};

// Every history of a few sizes, one per bucket boundary
static void binnedHistories(int depth)
{
	TrackSystem t;
	{
		int c = mc::choose(4); const Config & k = configs[c]; 
		MallocBinned m{k.info, k.align}; Model s;
		sizet mid = k.info.allocUnitMinSize * k.info.allocUnitIncrement;
		const sizet sizes[] = {1, k.info.allocUnitMinSize, k.info.allocUnitMinSize + 1, mid, k.top};
		mc::note("configuration %d", c);
		for (int d = 0; d < depth; ++d)
		{
			int op = mc::choose(7 + (int)s.live.size());
			if (op < 5) { mc::note("alloc(%llu)", (unsigned long long)sizes[op]); s.accept(m.alloc(sizes[op]), sizes[op], k.align); }
			else if (op == 5) { mc::note("alloc beyond"); MC_CHECK(m.alloc(k.info.allocUnitMaxSize * 8) == nullptr, "memory beyond the largest bucket was handed out"); }
			else if (op == 6) { mc::note("free of foreign memory"); char x[16]; m.free(x); }
			else { mc::note("free #%d", op - 7); m.free(s.live[op - 7].p); s.live.erase(s.live.begin() + (op - 7)); }
			s.check();
		}
	}
	t.expectEmpty("after the allocator was destroyed");
}

// Every size that the buckets cover
static void binnedSizes()
{
	TrackSystem t;
	{
		int c = mc::choose(4); const Config & k = configs[c]; MallocBinned m{k.info, k.align}; Model s;
		sizet step = c ? 1 : mc::bound(23, 1);
		mc::note("configuration %d: every size up to %llu", c, (unsigned long long)k.top);
		for (sizet size = 1; size <= k.top; size += size < 1100 ? 1 : step)
		{
			s.accept(m.alloc(size, k.align), size, k.align); mc::tick();
			if (s.live.size() == 24) { s.check(); for (auto & b : s.live) m.free(b.p); s.live.clear(); }
		}
		for (sizet p = 1; p <= k.top; p *= 2) for (int d = -1; d <= 1; ++d) if (p + d >= 1 && p + d <= k.top) s.accept(m.alloc(p + d), p + d, 8);
		s.check();
	}
	t.expectEmpty("after the allocator was destroyed");
}

// Buckets grow and reuse: k blocks of one size, freed, allocated again, takes no further memory
static void binnedReuse()
{
	TrackSystem t;
	{
		int c = mc::choose(4); const Config & k = configs[c]; MallocBinned m{k.info, k.align};
		sizet size = k.info.allocUnitMinSize; for (int i = mc::choose(3); i > 0; --i) size *= k.info.allocUnitIncrement;
		if (size > k.top) return;
		int n = mc::pick((const int[]){1, 3, 17, 70});
		mc::note("configuration %d: %d blocks of %llu", c, n, (unsigned long long)size);
		size_t after = 0;
		for (int round = 0; round < 3; ++round)
		{
			Model s; for (int i = 0; i < n; ++i) s.accept(m.alloc(size, 8), size, 8);
			s.check();
			if (round == 0) after = t.count(); else MC_CHECK(t.count() == after, "the same use again takes more memory");
			for (int i = 0; i < n; ++i) m.free(s.live[round & 1 ? n - 1 - i : i].p);
		}
	}
	t.expectEmpty("after the allocator was destroyed");
}

// MallocAnsi: all histories of allocation, reallocation and release
static void ansi(int depth)
{
	TrackSystem t;
	{
		MallocAnsi m; Model s;
		static const sizet sizes[] = {1, 24, 100}, aligns[] = {8, 64, 1, 4096};
		for (int d = 0; d < depth; ++d)
		{
			int n = (int)s.live.size(), op = mc::choose(1 + 3 * n + 1);
			if (op == 0) { sizet size = mc::pick(sizes), align = mc::pick(aligns); mc::note("alloc(%llu, %llu)", (unsigned long long)size, (unsigned long long)align); s.accept(m.alloc(size, align), size, align < 8 ? 8 : align); }
			else if (op == 1 + 3 * n) { mc::note("realloc of null"); s.accept(m.realloc(nullptr, 24, 64), 24, 64); }
			else
			{
				int i = (op - 1) / 3, what = (op - 1) % 3; Live b = s.live[i];
				s.live.erase(s.live.begin() + i);
				if (what == 0) { mc::note("free #%d", i); m.free(b.p); }
				else if (what == 1)
				{
					sizet size = mc::pick(sizes), align = mc::pick(aligns); mc::note("realloc #%d to %llu aligned %llu", i, (unsigned long long)size, (unsigned long long)align);
					unsigned char * q = (unsigned char*)m.realloc(b.p, size, align); MC_CHECK(q != nullptr, "realloc failed");
					for (sizet j = 0; j < size && j < b.size; ++j) MC_CHECK(q[j] == b.tag, "realloc lost byte %llu", (unsigned long long)j);
					s.accept(q, size, align < 8 ? 8 : align);
				}
				else { mc::note("realloc #%d to nothing", i); MC_CHECK(m.realloc(b.p, 0) == nullptr, "realloc to nothing returned memory"); }
			}
			MC_CHECK(t.count() == s.live.size(), "%zu blocks held for %zu in use", t.count(), s.live.size());
			s.check();
		}
		for (auto & b : s.live) m.free(b.p);
		m.free(nullptr);
		MC_CHECK(m.alloc(64, 48) == nullptr, "an impossible alignment was granted");
	}
	t.expectEmpty("at end");
}

// Every size x alignment, and realloc between every pair of sizes
static void ansiSizes()
{
	MallocAnsi m;
	int a = mc::choose(mc::bound(60, 300)), b = 1 + mc::choose(mc::bound(60, 300)); sizet align = (sizet)1 << mc::choose(13);
	mc::note("%d to %d bytes aligned to %llu", a, b, (unsigned long long)align);
	TrackSystem t;
	{
		unsigned char * p = (unsigned char*)m.alloc(a, align); MC_CHECK(p && ((uintp)p & (align - 1)) == 0, "alloc(%d, %llu)", a, (unsigned long long)align);
		for (int i = 0; i < a; ++i) p[i] = (unsigned char)(i + 1);
		unsigned char * q = (unsigned char*)m.realloc(p, b, align); MC_CHECK(q && ((uintp)q & (align - 1)) == 0, "realloc(%d, %llu)", b, (unsigned long long)align);
		for (int i = 0; i < b; ++i) { if (i < a) MC_CHECK(q[i] == (unsigned char)(i + 1), "realloc from %d to %d lost byte %d", a, b, i); q[i] = 7; }
		m.free(q);
	}
	t.expectEmpty("at end");
}

// Sizes and alignments of any magnitude: content is kept to the last byte
static unsigned char stampAt(sizet i) { return (unsigned char)(i * 2654435761u >> 13); }
template<typename F> static void stamped(sizet size, F f) { for (sizet i = 0; i < size; i += i < 64 ? 1 : 4093) f(i); for (int b = 10; b < 40; ++b) for (int d = -2; d < 2; ++d) if (((sizet)1 << b) + d < size) f(((sizet)1 << b) + d); for (sizet i = size > 64 ? size - 64 : 0; i < size; ++i) f(i); }
static void ansiLarge()
{
	TrackSystem t;
	{
		MallocAnsi m; int top = mc::bound(25, 28);
		int a = mc::choose(top + 1), b = mc::choose(2) ? top : mc::choose(top + 1); int da = mc::choose(3) - 1;
		sizet from = std::max<sizet>(1, ((sizet)1 << a) + da), to = ((sizet)1 << b) + 1, align = (sizet)1 << mc::pick((const int[]){3, 13, 16, 17, 21, 24});
		if (a < top - 4 && b < top - 4 && align > 8192 && a != b) return;	// the small ones are in ansi_sizes
		mc::note("%llu to %llu bytes aligned to %llu", (unsigned long long)from, (unsigned long long)to, (unsigned long long)align);
		unsigned char * p = (unsigned char*)m.alloc(from, align); MC_CHECK(p && ((uintp)p & (align - 1)) == 0, "alloc");
		stamped(from, [&](sizet i) { p[i] = stampAt(i); });
		unsigned char * q = (unsigned char*)m.realloc(p, to, align); MC_CHECK(q && ((uintp)q & (align - 1)) == 0, "realloc");
		stamped(from, [&](sizet i) { if (i < to) MC_CHECK(q[i] == stampAt(i), "realloc lost byte %llu", (unsigned long long)i); });
		stamped(to, [&](sizet i) { q[i] = 7; });
		m.free(q);
	}
	t.expectEmpty("at end");
}

// Pools with more blocks than 16 bits count
static void binnedMany()
{
	TrackSystem t;
	{
		int c = mc::choose(3); static const Config many[] = {{{1 << 20, 1 << 3, 1 << 12, 1 << 3}, 8, 1 << 9}, {{(1 << 16) * 8, 1 << 3, 1 << 4, 1 << 1}, 8, 1 << 3}, {{(1 << 16) * 16 + 48, 1 << 4, 1 << 8, 1 << 2}, 16, 1 << 6}};
		const Config & k = many[c]; MallocBinned m{k.info, k.align}; int n = mc::pick((const int[]){1, 300, 65535, 65536, 65537, 140000});
		sizet unit = k.info.allocUnitMinSize; mc::note("configuration %d: %d blocks", c, n);
		std::vector<uint64*> p(n);
		for (int i = 0; i < n; ++i)
		{
			p[i] = (uint64*)m.alloc(unit, 8); if (i % 1024 == 0) mc::tick();
			MC_CHECK(p[i] && ((uintp)p[i] & (k.align - 1)) == 0, "block %d is missing or misaligned", i);
			for (sizet w = 0; w < unit / 8; ++w) p[i][w] = (uint64)i * 4 + w;
		}
		for (int i = 0; i < n; ++i) for (sizet w = 0; w < unit / 8; ++w) MC_CHECK(p[i][w] == (uint64)i * 4 + w, "block %d of %d changed", i, n);
		for (int i = 0; i < n; i += 2) m.free(p[i]);
		for (int i = 0; i < n; i += 2) { p[i] = (uint64*)m.alloc(unit, 8); p[i][0] = (uint64)i * 4; if (i % 1024 == 0) mc::tick(); }
		for (int i = 0; i < n; ++i) MC_CHECK(p[i][0] == (uint64)i * 4, "block %d of %d changed after others were freed", i, n);
	}
	t.expectEmpty("after the allocator was destroyed");
}

// An allocator that only records: object counts of any magnitude
struct Teller : MallocBase
{
	uint64 size = 0, align = 0; void * orig = nullptr; char block[64];
	void * alloc(sizet s, sizet a) override { size = s; align = a; orig = nullptr; return block; }
	void * realloc(void * o, sizet s, sizet a) override { size = s; align = a; orig = o; return block; }
	void free(void * o) override { orig = o; }
};
template<typename T> static void objectCounts()
{
	Teller r; MallocObject<T> m{&r};
	uint64 count = ((uint64)1 << mc::choose(45)) + mc::choose(3) - 1;
	mc::note("%llu objects of %zu bytes", (unsigned long long)count, sizeof(T));
	if (!count) return;
	T * p = m.alloc(count); MC_CHECK((void*)p == r.block && r.size == count * sizeof(T) && r.align == alignof(T), "space for %llu objects asks for %llu bytes aligned to %llu", (unsigned long long)count, (unsigned long long)r.size, (unsigned long long)r.align);
	r.size = r.align = 0;
	T * q = m.realloc(p, count); MC_CHECK((void*)q == r.block && r.orig == p && r.size == count * sizeof(T) && r.align == alignof(T), "reallocation for %llu objects asks for %llu bytes aligned to %llu", (unsigned long long)count, (unsigned long long)r.size, (unsigned long long)r.align);
	r.orig = nullptr; m.free(q); MC_CHECK(r.orig == q, "free");
}

struct alignas(128) Wide128 { unsigned char bytes[128]; };
struct alignas(4096) Page { unsigned char bytes[4096]; };
struct alignas(2) Half { unsigned char bytes[6]; };
struct alignas(64) Wide { unsigned char bytes[64]; };
struct Odd { unsigned char bytes[13]; };

// An allocator double that records the requests that reach it
struct Recorder : MallocBase
{
	MallocAnsi inner; std::vector<std::array<uint64, 4>> calls;	// kind, pointer, size, alignment
	explicit Recorder(int = 0) {}
	void * alloc(sizet s, sizet a) override { void * p = inner.alloc(s, a); calls.push_back({0, (uint64)p, s, a}); return p; }
	void * realloc(void * o, sizet s, sizet a) override { void * p = inner.realloc(o, s, a); calls.push_back({1, (uint64)o, s, a}); return p; }
	void free(void * o) override { calls.push_back({2, (uint64)o, 0, 0}); inner.free(o); }
};

template<typename T, typename M>
static void objectHistory(M & m, Recorder & r, int depth)
{
	std::vector<std::pair<T*, uint64>> live;
	auto expect = [&](uint64 kind, uint64 p, uint64 s, uint64 a) {
		MC_CHECK(r.calls.size() == 1 && r.calls[0][0] == kind && r.calls[0][1] == p && r.calls[0][2] == s && r.calls[0][3] == a, "the allocator was asked for another operation, block, size or alignment");
		r.calls.clear();
	};
	r.calls.clear();
	for (int d = 0; d < depth; ++d)
	{
		int op = mc::choose(2 + 2 * (int)live.size());
		if (op < 2) { uint64 n = op == 0 ? 1 : 5; mc::note("alloc(%llu)", (unsigned long long)n); T * p = op == 0 ? m.alloc() : m.alloc(n); MC_CHECK(p && ((uintp)p & (alignof(T) - 1)) == 0, "object memory is missing or misaligned"); expect(0, (uint64)p, n * sizeof(T), alignof(T)); live.push_back({p, n}); }
		else
		{
			int i = (op - 2) / 2; auto b = live[i];
			if (op & 1) { uint64 n = b.second * 2 + 1; mc::note("realloc #%d", i); T * p = m.realloc(b.first, n); MC_CHECK(p, "realloc"); expect(1, (uint64)b.first, n * sizeof(T), alignof(T)); live[i] = {p, n}; }
			else { mc::note("free #%d", i); m.free(b.first); expect(2, (uint64)b.first, 0, 0); live.erase(live.begin() + i); }
		}
		for (auto & b : live) ::memset((void*)b.first, d, b.second * sizeof(T));
	}
	for (auto & b : live) m.free(b.first);
}

template<typename T> struct Peek : MallocObject<T, Recorder> { using MallocObject<T, Recorder>::MallocObject; Recorder & rec() { return this->managedMalloc; } };

template<typename T>
static void objects(int depth)
{
	TrackSystem t;
	{
		int how = mc::choose(4); Recorder r;
		mc::note("objects of %zu bytes, owner %d", sizeof(T), how);
		if (how == 0) { MallocObject<T> m{&r}; objectHistory<T>(m, r, depth); }
		else if (how == 1) { MallocObject<T> a{&r}; MallocObject<T> m{move(a)}; objectHistory<T>(m, r, depth); }
		else if (how == 2) { Recorder other; MallocObject<T> a{&r}, m{&other}; m = move(a); objectHistory<T>(m, r, depth); }
		else { MallocBase * saved = gMalloc; gMalloc = &r; { MallocObject<T> m; gMalloc = saved; objectHistory<T>(m, r, depth); } }
	}
	t.expectEmpty("at end");
}

// An allocator owned by the wrapper: requests reach that one
template<typename T>
static void owned(int depth)
{
	TrackSystem t;
	{
		MallocObject<T, MallocAnsi> m; 
		T * a = m.alloc(), * b = m.alloc(3);
		MC_CHECK(a && b && ((uintp)a & (alignof(T) - 1)) == 0 && ((uintp)b & (alignof(T) - 1)) == 0, "owned allocator");
		::memset((void*)a, 1, sizeof(T)); ::memset((void*)b, 2, 3 * sizeof(T));
		b = m.realloc(b, 9); for (sizet i = 0; i < 3 * sizeof(T); ++i) MC_CHECK(((unsigned char*)b)[i] == 2, "owned realloc");
		m.free(a); m.free(b);
		struct Pool : MallocPooled { Pool() : MallocPooled{2, sizeof(T) * 4, alignof(T), 1} {} };
		MallocObject<T, Pool> p; T * x[5]; for (auto & q : x) { q = p.alloc(4); MC_CHECK(q && ((uintp)q & (alignof(T) - 1)) == 0, "pooled objects"); ::memset((void*)q, 3, 4 * sizeof(T)); }
		for (auto & q : x) p.free(q);
		MallocObject<T, MallocPooled> args{(uint32)3, (sizet)sizeof(T), (sizet)alignof(T), (uint32)1}; MC_CHECK(args.alloc() != nullptr, "owned allocator built from arguments");
	}
	t.expectEmpty("at end");
}

// The system refuses memory at any point: the request fails, what is in use stays as it is
static void ansiRefusals(int depth)
{
	TrackSystem t;
	{
		MallocAnsi m; Model s; bool refused = false;
		sys().refuse = [&](size_t) { return refused = mc::choose(2) == 1; };
		for (int d = 0; d < depth; ++d)
		{
			int n = (int)s.live.size(), op = mc::choose(2 + 3 * n); refused = false;
			if (op == 0) { void * q = m.alloc(40, 16); mc::note("alloc%s", refused ? " (refused)" : ""); if (refused) MC_CHECK(q == nullptr, "a block although the system had none"); else s.accept(q, 40, 16); }
			else if (op == 1) { void * q = m.realloc(nullptr, 40, 16); mc::note("realloc of null%s", refused ? " (refused)" : ""); if (refused) MC_CHECK(q == nullptr, "a block although the system had none"); else s.accept(q, 40, 16); }
			else
			{
				int i = (op - 2) / 3, what = (op - 2) % 3; Live b = s.live[i];
				if (what == 0) { mc::note("free #%d", i); m.free(b.p); s.live.erase(s.live.begin() + i); }
				else
				{
					sizet size = what == 1 ? b.size * 2 : b.size / 2 + 1;
					unsigned char * q = (unsigned char*)m.realloc(b.p, size, 32); mc::note("realloc #%d to %llu%s", i, (unsigned long long)size, refused ? " (refused)" : "");
					if (refused) MC_CHECK(q == nullptr, "a block although the system had none");
					else
					{
						MC_CHECK(q != nullptr, "realloc failed");
						for (sizet j = 0; j < size && j < b.size; ++j) MC_CHECK(q[j] == b.tag, "realloc lost byte %llu", (unsigned long long)j);
						s.live.erase(s.live.begin() + i); s.accept(q, size, 32);
					}
				}
			}
			MC_CHECK(t.count() == s.live.size(), "%zu blocks held for %zu in use", t.count(), s.live.size());
			s.check();
		}
		sys().refuse = nullptr;
		for (auto & b : s.live)
		{
			MC_CHECK(m.realloc(b.p, 10, 48) == nullptr && intact(b), "an impossible alignment was granted by realloc");
			m.free(b.p);
		}
	}
	t.expectEmpty("at end");
}

static void binnedRefusals(int depth)
{
	TrackSystem t;
	{
		// buckets of 8, 16 and 32 bytes, with 4, 2 and 1 blocks a pool
		MallocBinned m{{32, 1 << 3, 1 << 6, 1 << 1}, 8}; Model s; bool refused = false;
		sys().refuse = [&](size_t) { return refused = mc::choose(2) == 1; };
		static const sizet sizes[] = {7, 16, 32};
		for (int d = 0; d < depth; ++d)
		{
			int op = mc::choose(3 + (int)s.live.size()); refused = false;
			if (op < 3) { void * q = m.alloc(sizes[op], 8); mc::note("alloc(%llu)%s", (unsigned long long)sizes[op], refused ? " (refused)" : ""); if (refused) MC_CHECK(q == nullptr, "a block although the system had none"); else s.accept(q, sizes[op], 8); }
			else { mc::note("free #%d", op - 3); m.free(s.live[op - 3].p); s.live.erase(s.live.begin() + (op - 3)); }
			s.check();
		}
		sys().refuse = nullptr;
		void * q = m.alloc(8, 64); MC_CHECK(q == nullptr || ((uintp)q & 63) == 0, "a block is not aligned as asked");
	}
	t.expectEmpty("after the allocator was destroyed");
}

static void setup()
{
	mc::add("ansi_refusals", 4, [] { ansiRefusals(mc::bound(5, 6)); });
	mc::add("binned_refusals", 4, [] { binnedRefusals(mc::bound(7, 8)); });
	mc::add("binned_histories", 8, [] { binnedHistories(mc::bound(6, 7)); });
	mc::add("binned_sizes", 1, binnedSizes);
	mc::add("binned_reuse", 1, binnedReuse);
	mc::add("ansi", 8, [] { ansi(mc::bound(4, 4)); });
	mc::add("ansi_sizes", 8, ansiSizes);
	mc::add("object_int", 4, [] { objects<int32>(mc::bound(5, 6)); });
	mc::add("object_wide", 4, [] { objects<Wide>(mc::bound(5, 6)); });
	mc::add("object_odd", 4, [] { objects<Odd>(mc::bound(5, 6)); });
	mc::add("object_page", 4, [] { objects<Page>(mc::bound(4, 5)); });
	mc::add("object_wide128", 4, [] { objects<Wide128>(mc::bound(4, 5)); });
	mc::add("object_half", 4, [] { objects<Half>(mc::bound(4, 5)); });
	mc::add("object_counts", 1, [] { switch (mc::choose(5)) { case 0: objectCounts<int8>(); break; case 1: objectCounts<Odd>(); break; case 2: objectCounts<Half>(); break; case 3: objectCounts<Wide128>(); break; default: objectCounts<Page>(); } });
	mc::add("ansi_large", 8, ansiLarge);
	mc::add("binned_many", 1, binnedMany);
	mc::add("owned", 1, [] { owned<int32>(1); owned<Wide>(1); owned<Odd>(1); });
}
MC_MAIN(setup)
