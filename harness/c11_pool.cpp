// C11: MemoryPool / MallocPool under every acquire/release history of small pools.
#include "track.h"
#include "hal/malloc_pool.h"
#include <malloc.h>
#include <algorithm>

struct Live { unsigned char * p; sizet size; unsigned char tag; };

static bool intact(const Live & b) { for (sizet i = 0; i < b.size; ++i) if (b.p[i] != b.tag) return false; return true; }

// Shared rules for a block just handed out
static void accept(std::vector<Live> & live, void * q, sizet size, sizet align, unsigned char tag, const char * lo, const char * hi)
{
	MC_CHECK(q != nullptr, "no block although one is free");
	MC_CHECK(((uintp)q & (align - 1)) == 0, "block %p is not aligned to %llu", q, (unsigned long long)align);
	if (lo) MC_CHECK((char*)q >= lo && (char*)q + size <= hi, "block lies outside the pool's buffer");
	for (auto & b : live) MC_CHECK((unsigned char*)q + size <= b.p || b.p + b.size <= (unsigned char*)q, "block overlaps a block in use");
	::memset(q, tag, size);		// owners may use every byte (ASan watches the buffer's end)
	live.push_back({(unsigned char*)q, size, tag});
}

static const sizet sizes[] = {8, 1, 24, 13, 64, 16, 7, 40};
static const sizet aligns[] = {8, 16, 1, 64, 4, 32, 2, 128};

static void pools(int depth)
{
	int shape = mc::choose(12);		// block size, alignment and own/foreign buffer vary together, then cross
	sizet size = sizes[shape % 8], align = aligns[(shape * 3 + shape / 8) % 8], real = align < 8 ? 8 : align;
	bool foreign = shape % 3 == 1;
	uint32 n = mc::choose(4);
	sizet need = n * ((size + 8 + real - 1) & ~(real - 1));
	char * buf = nullptr;
	if (foreign) { void * p; if (posix_memalign(&p, real, need ? need : 1)) mc::fail("memory"); buf = (char*)p; ::memset(buf, 0x5A, need); }
	mc::note("pool of %u blocks of %llu aligned to %llu%s", n, (unsigned long long)size, (unsigned long long)align, foreign ? " in a foreign buffer" : "");
	{
		MemoryPool pool{n, size, align, buf};
		std::vector<Live> live; unsigned char tag = 1;
		char outside;
		for (int d = 0; ; ++d)
		{
			if (mc::fresh())
			{
				MC_CHECK(pool.getNumFreeBlocks() == n - live.size(), "%u blocks reported free, expected %zu", pool.getNumFreeBlocks(), n - live.size());
				MC_CHECK(pool.isExhausted() == (live.size() == n), "isExhausted is %d with %zu of %u blocks in use", pool.isExhausted(), live.size(), n);
				MC_CHECK(!pool.hasBlock(&outside) && !pool.hasBlock(nullptr), "the pool claims a foreign address");
				if (foreign) MC_CHECK(!pool.hasBlock(buf - 1) && !pool.hasBlock(buf + need), "the pool claims an address next to its buffer");
				for (auto & b : live) { MC_CHECK(intact(b), "the contents of a block in use changed"); MC_CHECK(pool.hasBlock(b.p) && pool.hasBlock(b.p + b.size - 1), "the pool denies a block of its own"); }
			}
			if (d == depth) break;
			int op = mc::choose(1 + (int)live.size());
			if (op == 0)
			{
				void * q = pool.acquireBlock();
				mc::note("acquire");
				if (live.size() == n) MC_CHECK(q == nullptr, "an exhausted pool handed out a block");
				else accept(live, q, size, real, ++tag, buf, buf ? buf + need : nullptr);
			}
			else { mc::note("release #%d", op - 1); pool.releaseBlock(live[op - 1].p); live.erase(live.begin() + op - 1); }
		}
		if (foreign) for (auto & b : live) { MC_CHECK(intact(b), "contents"); }
	}
	if (foreign) { ::free(buf); }	// still ours: a pool never frees a foreign buffer (ASan would see the double free)
}

// Every block size x alignment x count: the whole pool is usable at once, twice
static void shapes()
{
	sizet size = 1 + mc::choose(mc::bound(72, 300)), align = (sizet)1 << mc::choose(mc::bound(9, 13)), real = align < 8 ? 8 : align;
	uint32 n = mc::pick((const int[]){1, 2, 3, 5, 17});
	bool foreign = mc::choose(2);
	sizet need = n * ((size + 8 + real - 1) & ~(real - 1));
	void * p = nullptr; if (foreign && posix_memalign(&p, real, need)) mc::fail("memory");
	mc::note("%u blocks of %llu aligned to %llu", n, (unsigned long long)size, (unsigned long long)align);
	{
		MemoryPool pool{n, size, align, p};
		for (int round = 0; round < 2; ++round)
		{
			std::vector<Live> live;
			for (uint32 i = 0; i < n; ++i) accept(live, pool.acquireBlock(), size, real, (unsigned char)(i + 1), (char*)p, p ? (char*)p + need : nullptr);
			MC_CHECK(pool.acquireBlock() == nullptr && pool.isExhausted() && pool.getNumFreeBlocks() == 0, "more blocks than the pool has");
			for (auto & b : live) MC_CHECK(intact(b), "blocks share memory");
			for (auto & b : live) pool.releaseBlock(b.p);
			MC_CHECK(pool.getNumFreeBlocks() == n && !pool.isExhausted(), "released blocks are not free");
		}
	}
	::free(p);
}

// MallocPool: alloc / free / realloc with fitting and unfitting requests
static void mallocs(int depth)
{
	static const uint32 counts[] = {0, 1, 2, 3};
	uint32 n = mc::pick(counts); int kind = mc::choose(3);
	sizet size = kind == 0 ? 24 : kind == 1 ? 16 : 32, align = kind == 0 ? 8 : kind == 1 ? 32 : 16;
	MallocPool generic{n, size, align}; MallocPoolInline<3, 32, 16> inl;
	MallocBase & m = kind == 2 && n == 3 ? static_cast<MallocBase&>(inl) : generic;
	mc::note("MallocPool of %u blocks of %llu aligned to %llu", n, (unsigned long long)size, (unsigned long long)align);
	std::vector<Live> live; unsigned char tag = 0; char foreign[8];
	for (int d = 0; d < depth; ++d)
	{
		enum { Alloc, AllocSmall, TooBig, TooAligned, FreeForeign, Fixed };
		int op = mc::choose(Fixed + 3 * (int)live.size());
		if (op == Alloc || op == AllocSmall)
		{
			sizet s = op == Alloc ? size : 1, a = op == Alloc ? align : 1;
			mc::note("alloc(%llu, %llu)", (unsigned long long)s, (unsigned long long)a);
			void * q = op == Alloc ? m.alloc(s, a) : m.alloc(s);
			if (live.size() == n) MC_CHECK(q == nullptr, "an exhausted allocator handed out a block");
			else accept(live, q, s, a, ++tag, nullptr, nullptr);
		}
		else if (op == TooBig) { mc::note("alloc too big"); void * q = m.alloc(size + 1, align); MC_CHECK(q == nullptr, "a block larger than the pool's blocks was handed out"); }
		else if (op == TooAligned) { mc::note("alloc too aligned"); void * q = m.alloc(size, align * 2); MC_CHECK(q == nullptr, "a block aligned beyond the pool's blocks was handed out"); }
		else if (op == FreeForeign) { mc::note("free of foreign memory and null"); m.free(foreign); m.free(nullptr); }
		else
		{
			int i = (op - Fixed) / 3, what = (op - Fixed) % 3; Live & b = live[i];
			if (what == 0) { mc::note("free #%d", i); m.free(b.p); live.erase(live.begin() + i); }
			else if (what == 1)
			{
				sizet s = b.size == size ? 1 + size / 2 : size; mc::note("realloc #%d to %llu", i, (unsigned long long)s);
				void * q = m.realloc(b.p, s, 8); MC_CHECK(q != nullptr, "realloc within a block failed");
				sizet keep = s < b.size ? s : b.size; for (sizet k = 0; k < keep; ++k) MC_CHECK(((unsigned char*)q)[k] == b.tag, "realloc lost contents");
				Live o = b; live.erase(live.begin() + i); accept(live, q, s, 8, o.tag, nullptr, nullptr);
			}
			else
			{
				mc::note("realloc #%d too big", i);
				void * q = m.realloc(b.p, size + 1, 8);
				MC_CHECK(q == nullptr, "realloc returned a block smaller than requested");
			}
		}
		for (auto & b : live) MC_CHECK(intact(b), "the contents of a block in use changed");
	}
}

// Large pools: every block handed out once, released in several orders, handed out again
static void large()
{
	int ex = 6 + mc::choose(mc::bound(11, 13)); uint32 n = (1u << ex) + mc::choose(3) - 1; int order = mc::choose(4); sizet size = mc::pick((const sizet[]){8, 20, 56});
	mc::note("%u blocks of %llu, order %d", n, (unsigned long long)size, order);
	MemoryPool pool{n, size, 16};
	std::vector<uint32*> b(n); std::vector<uint32> at(n);
	for (int round = 0; round < 2; ++round)
	{
		std::vector<uint32*> sorted;
		for (uint32 i = 0; i < n; ++i)
		{
			if (pool.getNumFreeBlocks() != n - i || pool.isExhausted()) mc::fail("%u blocks reported free, expected %u", pool.getNumFreeBlocks(), n - i);
			b[i] = (uint32*)pool.acquireBlock();
			if (!b[i] || ((uintp)b[i] & 15) || !pool.hasBlock(b[i])) mc::fail("block %u of %u is %p", i, n, (void*)b[i]);
			b[i][0] = i; b[i][1] = ~i;
			sorted.push_back(b[i]);
		}
		MC_CHECK(pool.acquireBlock() == nullptr && pool.isExhausted() && pool.getNumFreeBlocks() == 0, "an exhausted pool handed out a block");
		std::sort(sorted.begin(), sorted.end());
		for (uint32 i = 1; i < n; ++i) if ((char*)sorted[i] - (char*)sorted[i - 1] < (long)size) mc::fail("blocks overlap");
		for (uint32 i = 0; i < n; ++i) if (b[i][0] != i || b[i][1] != ~i) mc::fail("the contents of block %u of %u changed", i, n);
		for (uint32 i = 0; i < n; ++i) at[i] = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (uint32)(((uint64)i * 2 + (i >= (n + 1) / 2 ? 1 - (n + 1) / 2 * 2 : 0)));
		for (uint32 i = 0; i < n; ++i) { pool.releaseBlock(b[at[i]]); if (pool.getNumFreeBlocks() != i + 1) mc::fail("%u blocks reported free, expected %u", pool.getNumFreeBlocks(), i + 1); }
		mc::tick();
	}
}

static void setup()
{
	mc::add("large", 4, large);
	mc::add("pools", 8, [] { pools(mc::bound(12, 14)); });
	mc::add("shapes", 4, shapes);
	mc::add("mallocs", 8, [] { mallocs(mc::bound(7, 8)); });
}
MC_MAIN(setup)
