// C12: MallocPooled: growing pools under every alloc/free history.
#include "wrapmem.h"
#include "track.h"
#include "hal/malloc_pool.h"

struct Live { unsigned char * p; sizet size; unsigned char tag; };
static bool intact(const Live & b) { for (sizet i = 0; i < b.size; ++i) if (b.p[i] != b.tag) return false; return true; }

struct Model
{
	std::vector<Live> live; size_t peak = 0; unsigned char tag = 0;
	void accept(void * q, sizet size, sizet align)
	{
		MC_CHECK(q != nullptr, "no block for a request that fits");
		MC_CHECK(((uintp)q & (align - 1)) == 0, "block %p is not aligned to %llu", q, (unsigned long long)align);
		for (auto & b : live) MC_CHECK((unsigned char*)q + size <= b.p || b.p + b.size <= (unsigned char*)q, "block overlaps a block in use");
		::memset(q, ++tag, size);
		live.push_back({(unsigned char*)q, size, tag});
		if (live.size() > peak) peak = live.size();
	}
	void check(MallocPooled & m, uint32 perPool, uint32 initial)
	{
		if (!mc::fresh()) return;
		char outside; MC_CHECK(!m.hasBlock(&outside), "the allocator claims a foreign address");
		for (auto & b : live) { MC_CHECK(intact(b), "the contents of a block in use changed"); MC_CHECK(m.hasBlock(b.p) && m.hasBlock(b.p + b.size - 1), "the allocator denies a block in use"); }
		uint32 want = (uint32)((peak + perPool - 1) / perPool); if (want < initial) want = initial;
		MC_CHECK(m.getNumPools() == want, "%u pools of %u blocks for at most %zu blocks in use at once (%u to begin with), expected %u", m.getNumPools(), perPool, peak, initial, want);
	}
};

static void histories(uint32 perPool, uint32 initial, sizet size, sizet align, int depth, uint32 maxLive)
{
	TrackSystem t;
	{
		MallocPooled m{perPool, size, align, initial};
		sizet real = align < 8 ? 8 : align;
		Model s; s.check(m, perPool, initial);
		for (int d = 0; d < depth; ++d)
		{
			enum { Alloc, AllocSmall, TooBig, Foreign, Fixed };
			int op = mc::choose(Fixed + (int)s.live.size());
			if (op == Alloc || op == AllocSmall)
			{
				if (s.live.size() >= maxLive) continue;
				if (op == AllocSmall && s.live.size() & 1) continue;
				mc::note("alloc(%s)", op == Alloc ? "full" : "1 byte");
				if (op == Alloc) s.accept(m.alloc(size, align), size, real); else s.accept(m.alloc(1), 1, 8);
			}
			else if (op == TooBig)
			{
				mc::note("alloc too big, too aligned");
				MC_CHECK(m.alloc(size + 1, align) == nullptr, "a block larger than the pools' blocks was handed out");
				MC_CHECK(m.alloc(size, real * 2) == nullptr, "a block aligned beyond the pools' blocks was handed out");
			}
			else if (op == Foreign)
			{
				mc::note("free of foreign memory, realloc");
				char x[8]; m.free(x);
				if (s.live.size())
				{
					Live b = s.live.back();
					void * q = m.realloc(b.p, size, 8); MC_CHECK(q != nullptr, "realloc within a block failed");
					for (sizet k = 0; k < b.size; ++k) MC_CHECK(((unsigned char*)q)[k] == b.tag, "realloc lost contents");
					s.live.back() = {(unsigned char*)q, size, b.tag}; ::memset(q, b.tag, size);
					MC_CHECK(m.realloc(q, size + 1, 8) == nullptr, "realloc returned a block smaller than requested");
				}
			}
			else { mc::note("free #%d", op - Fixed); m.free(s.live[op - Fixed].p); s.live.erase(s.live.begin() + (op - Fixed)); }
			s.check(m, perPool, initial);
		}
	}
	t.expectEmpty("after the allocator was destroyed");
}

// Many pools: allocate k blocks, free them in every order, allocate again
static void orders()
{
	TrackSystem t;
	{
		uint32 perPool = 1 + mc::choose(2), initial = 1 + mc::choose(2); int k = 1 + mc::choose(mc::bound(6, 7));
		MallocPooled m{perPool, 16, 8, initial}; Model s;
		mc::note("%d blocks from pools of %u", k, perPool);
		for (int i = 0; i < k; ++i) { s.accept(m.alloc(16, 8), 16, 8); s.check(m, perPool, initial); }
		int keep = mc::choose(k + 1);
		while ((int)s.live.size() > keep) { int i = mc::choose((int)s.live.size()); mc::note("free #%d", i); m.free(s.live[i].p); s.live.erase(s.live.begin() + i); s.check(m, perPool, initial); }
		for (int i = keep; i < k + 1; ++i) { s.accept(m.alloc(16, 8), 16, 8); s.check(m, perPool, initial); }
	}
	t.expectEmpty("after the allocator was destroyed");
}

// Every block size and alignment, several pools deep; every number of pools at destruction
static void shapes()
{
	TrackSystem t;
	{
		sizet size = 1 + mc::choose(mc::bound(40, 140)), align = (sizet)1 << mc::choose(mc::bound(8, 11)), real = align < 8 ? 8 : align;
		uint32 perPool = mc::pick((const int[]){1, 2, 3, 7}), initial = 1 + mc::choose(3); int k = mc::pick((const int[]){0, 1, 4, 9});
		mc::note("%d blocks of %llu aligned to %llu from pools of %u", k, (unsigned long long)size, (unsigned long long)align, perPool);
		MallocPooled m{perPool, size, align, initial}; Model s;
		for (int i = 0; i < k; ++i) s.accept(m.alloc(size, align), size, real);
		s.check(m, perPool, initial);
		for (int i = 0; i < k; i += 2) { m.free(s.live[i].p); }
		for (int i = (k - 1) | 1; i >= 0; --i) if (i < k && i % 2 == 0) s.live.erase(s.live.begin() + i);
		s.check(m, perPool, initial);
		for (int i = 0; i < k; i += 2) s.accept(m.alloc(size, align), size, real);
		s.check(m, perPool, initial);
	}
	t.expectEmpty("after the allocator was destroyed");
}

// Any number of pools comes and goes
static void manyPools()
{
	TrackSystem t;
	{
		int k = mc::choose(mc::bound(80, 400)); uint32 initial = 1 + mc::choose(3) * 5;
		mc::note("%d single-block pools, %u to begin with", k, initial);
		MallocPooled m{1, 24, 8, initial}; Model s;
		for (int i = 0; i < k; ++i) s.accept(m.alloc(24, 8), 24, 8);
		s.check(m, 1, initial);
		MallocPooled def; void * q = def.alloc(512, 16); MC_CHECK(q && ((uintp)q & 15) == 0 && def.hasBlock(q) && !m.hasBlock(q), "default allocator");
		::memset(q, 1, 512);
	}
	t.expectEmpty("after the allocator was destroyed");
}

// Where the system puts the pools: every order of their addresses, side by side or gigabytes apart, then every block freed and taken again
static void placements(uint32 perPool, int pools, bool far = false)
{
	TrackSystem t;
	{
		static const sizet size = 16, align = 8;
		size_t slot = 0;
		{ sys().refuse = [&](size_t s) { if (s > slot) slot = s; return false; }; MallocPooled probe{perPool, size, align, 1}; sys().refuse = nullptr; }
		if (!slot) mc::fail("no pool was made");
		slot = (slot + 7) & ~(size_t)7;
		size_t stride = far ? (size_t)(2 + mc::choose(3)) << 30 : 0;	// differences of addresses that 32 bits cannot hold
		if (far) mc::note("%zu GB apart", stride >> 30);
		Arena arena{pools, slot, stride};
		uint32 initial = 1 + mc::choose(pools < 3 ? pools : 3);
		{
			MallocPooled m{perPool, size, align, initial}; Model s; s.check(m, perPool, initial);
			int most = pools * (int)perPool, n = most - mc::choose((int)perPool);
			for (int i = 0; i < n; ++i) s.accept(m.alloc(size, align), size, align);
			s.check(m, perPool, initial);
			for (char * p = arena.base - 1; p <= arena.base + arena.room; p += p < arena.base ? 1 : (long)arena.stride)
				if (p < arena.base || p >= arena.base + arena.room) MC_CHECK(!m.hasBlock(p), "the allocator claims an address next to its pools");
			if (far) for (int i = 0; i < pools; ++i) for (size_t d : {slot, arena.stride / 2, arena.stride - 1}) MC_CHECK(!m.hasBlock(arena.base + i * arena.stride + d), "the allocator claims an address between its pools");
			for (int r = 0; r < 2; ++r)
			{
				int i = mc::choose((int)s.live.size()); mc::note("free #%d", i);
				m.free(s.live[i].p); s.live.erase(s.live.begin() + i);
				s.check(m, perPool, initial);
			}
			while ((int)s.live.size() < most) s.accept(m.alloc(size, align), size, align);
			s.check(m, perPool, initial);
			size_t held = arena.used;
			MC_CHECK(held == (size_t)pools, "%zu pools are held for %d blocks of use", held, most);
		}
		MC_CHECK(arena.used == 0, "%zu pools were not given back", arena.used);
	}
	t.expectEmpty("after the allocator was destroyed");
}

// The system refuses memory at any point: the request fails, everything else goes on
static void refusals(uint32 perPool, int depth)
{
	TrackSystem t;
	{
		MallocPooled m{perPool, 24, 8, 1}; Model s; size_t capacity = perPool;
		bool refused = false, asked = false;
		sys().refuse = [&](size_t) { asked = true; return refused = mc::choose(2) == 1; };
		for (int d = 0; d < depth; ++d)
		{
			int op = mc::choose(1 + (int)s.live.size());
			if (op == 0)
			{
				refused = asked = false;
				void * q = m.alloc(24, 8);
				mc::note("alloc%s", refused ? " (refused)" : "");
				MC_CHECK(asked == (s.live.size() == capacity), "the system was %sasked for memory with %zu of %zu blocks in use", asked ? "" : "not ", s.live.size(), capacity);
				if (refused) MC_CHECK(q == nullptr, "a block although the system had none");
				else { if (asked) capacity += perPool; s.accept(q, 24, 8); }
			}
			else { mc::note("free #%d", op - 1); m.free(s.live[op - 1].p); s.live.erase(s.live.begin() + (op - 1)); }
			for (auto & b : s.live) MC_CHECK(intact(b) && m.hasBlock(b.p), "a block in use was lost");
			MC_CHECK(m.getNumPools() * perPool == capacity, "%u pools for %zu blocks", m.getNumPools(), capacity);
		}
		sys().refuse = nullptr;
	}
	t.expectEmpty("after the allocator was destroyed");
}

static void setup()
{
	mc::add("placements_1", 8, [] { placements(1, mc::bound(7, 8)); });
	mc::add("placements_2", 8, [] { placements(2, mc::bound(6, 7)); });
	mc::add("placements_far", 8, [] { placements(1, mc::bound(5, 6), true); });
	mc::add("refusals_1", 4, [] { refusals(1, mc::bound(8, 10)); });
	mc::add("refusals_2", 4, [] { refusals(2, mc::bound(9, 11)); });
	mc::add("histories_1", 8, [] { histories(1, 1, 24, 8, mc::bound(8, 10), 5); });
	mc::add("histories_2", 8, [] { histories(2, 1, 8, 4, mc::bound(8, 10), 6); });
	mc::add("histories_2x2", 8, [] { histories(2, 2, 40, 16, mc::bound(8, 10), 6); });
	mc::add("histories_3", 8, [] { histories(3, 1, 16, 1, mc::bound(8, 10), 7); });
	mc::add("orders", 8, orders);
	mc::add("shapes", 4, shapes);
	mc::add("many_pools", 1, manyPools);
}
MC_MAIN(setup)
