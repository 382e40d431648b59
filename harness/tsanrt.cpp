// The callbacks behind sched.h. Compiled without instrumentation.
#include "mc.h"
#include "mcsched.h"
#include <deque>

namespace sched
{
	static const int MAXLOC = 12, MAXTHR = 5;
	struct View { int ts[MAXLOC]; };
	static void join(View & a, const View & b) { for (int i = 0; i < MAXLOC; ++i) if (b.ts[i] > a.ts[i]) a.ts[i] = b.ts[i]; }
	struct Msg { uint64_t value; View view; };
	struct Loc { volatile void * p; size_t size; std::vector<Msg> msgs; };
	struct Thread
	{
		void * sp; char * stack; void (*fn)(void*); void * arg; bool done;
		View view, relFence, acqPending;
		int pendingLoc; int pendingOrder;	// a plain store announced, whose value is not known yet
	};

	static Loc locs[MAXLOC]; static int nlocs;
	static Thread thr[MAXTHR]; static int nthr;
	static int cur = -1;
	static void * mainSp;
	static View sc;
	static uint64_t count;

	// void swtch(void ** save, void * load)
	extern "C" void mc_swtch(void ** save, void * load);
	asm(R"(
		.text
		.globl mc_swtch
	mc_swtch:
		pushq %rbp
		pushq %rbx
		pushq %r12
		pushq %r13
		pushq %r14
		pushq %r15
		movq %rsp, (%rdi)
		movq %rsi, %rsp
		popq %r15
		popq %r14
		popq %r13
		popq %r12
		popq %rbx
		popq %rbp
		ret
	)");

	static uint64_t peek(volatile void * p, size_t n)
	{
		switch (n) { case 1: return *(volatile uint8_t*)p; case 2: return *(volatile uint16_t*)p; case 4: return *(volatile uint32_t*)p; default: return *(volatile uint64_t*)p; }
	}
	static void poke(volatile void * p, size_t n, uint64_t v)
	{
		switch (n) { case 1: *(volatile uint8_t*)p = (uint8_t)v; break; case 2: *(volatile uint16_t*)p = (uint16_t)v; break; case 4: *(volatile uint32_t*)p = (uint32_t)v; break; default: *(volatile uint64_t*)p = v; }
	}

	static int find(const volatile void * p, size_t n)
	{
		for (int i = 0; i < nlocs; ++i)
		{
			const volatile char * a = (const volatile char*)locs[i].p, * b = (const volatile char*)p;
			if (a == b && locs[i].size == n) return i;
			if (a < b + n && b < a + locs[i].size) mc::fail("access of %zu bytes overlaps a shared location of %zu bytes", n, locs[i].size);
		}
		return -1;
	}

	static void commit(Thread & t)
	{
		if (t.pendingLoc < 0) return;
		Loc & l = locs[t.pendingLoc]; int i = t.pendingLoc; t.pendingLoc = -1;
		View v = t.relFence; t.view.ts[i] = (int)l.msgs.size(); v.ts[i] = t.view.ts[i];
		l.msgs.push_back({peek(l.p, l.size), v});
	}

	static void toMain() { int me = cur; cur = -1; mc_swtch(&thr[me].sp, mainSp); }

	static void entry()
	{
		Thread & t = thr[cur];
		t.fn(t.arg);
		commit(t);
		t.done = true;
		toMain();
		abort();
	}

	static void resume(int i)
	{
		cur = i;
		mc_swtch(&mainSp, thr[i].sp);
		cur = -1;
	}

	void begin() { nlocs = nthr = 0; cur = -1; memset(&sc, 0, sizeof sc); }

	void share(volatile void * p, size_t size)
	{
		if (nlocs == MAXLOC) mc::fail("internal: too many locations");
		Loc & l = locs[nlocs++]; l.p = p; l.size = size; l.msgs.clear();
		View v; memset(&v, 0, sizeof v);
		l.msgs.push_back({peek(p, size), v});
	}

	int spawn(void (*fn)(void*), void * arg)
	{
		if (nthr == MAXTHR) mc::fail("internal: too many threads");
		Thread & t = thr[nthr];
		static const size_t SZ = 64 << 10;
		if (!t.stack) t.stack = (char*)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		uint64_t * sp = (uint64_t*)(t.stack + SZ - 64);
		*--sp = 0;
		*--sp = (uint64_t)(void*)entry;
		for (int i = 0; i < 6; ++i) *--sp = 0;
		t.sp = sp; t.fn = fn; t.arg = arg; t.done = false; t.pendingLoc = -1;
		memset(&t.view, 0, sizeof(View)); memset(&t.relFence, 0, sizeof(View)); memset(&t.acqPending, 0, sizeof(View));
		return nthr++;
	}

	bool run(int maxSteps)
	{
		for (int i = 0; i < nthr; ++i) resume(i);	// up to the first access
		for (int step = 0; ; ++step)
		{
			int en[MAXTHR], n = 0;
			for (int i = 0; i < nthr; ++i) if (!thr[i].done) en[n++] = i;
			if (!n) break;
			if (step == maxSteps) { for (int i = 0; i < nlocs; ++i) poke(locs[i].p, locs[i].size, locs[i].msgs.back().value); return false; }
			resume(en[n == 1 ? 0 : mc::choose(n)]);
		}
		for (int i = 0; i < nlocs; ++i) poke(locs[i].p, locs[i].size, locs[i].msgs.back().value);
		return true;
	}

	uint64_t last(volatile void * p) { for (int i = 0; i < nlocs; ++i) if (locs[i].p == p) return locs[i].msgs.back().value; mc::fail("internal: unknown location"); }
	uint64_t accesses() { return count; }
	int self() { return cur; }

	// Called by an instrumented thread before an access: let the scheduler decide
	static int arrive(const volatile void * p, size_t n)
	{
		if (cur < 0) return -1;
		int i = find(p, n);
		if (i < 0) return -1;
		commit(thr[cur]);
		toMain();
		++count;
		return i;
	}

	enum { Relaxed = 0, Consume = 1, Acquire = 2, Release = 3, AcqRel = 4, Seq = 5 };
	static bool acquires(int o) { return o == Consume || o == Acquire || o == AcqRel || o == Seq; }
	static bool releases(int o) { return o == Release || o == AcqRel || o == Seq; }

	static uint64_t load(int i, int order)
	{
		Thread & t = thr[cur]; Loc & l = locs[i];
		if (order == Seq) join(t.view, sc);
		int oldest = t.view.ts[i], n = (int)l.msgs.size() - oldest;
		int k = (int)l.msgs.size() - 1 - (n > 1 ? mc::choose(n) : 0);
		t.view.ts[i] = k;
		join(t.acqPending, l.msgs[k].view);
		if (acquires(order)) join(t.view, l.msgs[k].view);
		if (order == Seq) join(sc, t.view);
		return l.msgs[k].value;
	}
	static void store(int i, uint64_t v, int order)
	{
		Thread & t = thr[cur]; Loc & l = locs[i];
		if (order == Seq) join(t.view, sc);
		t.view.ts[i] = (int)l.msgs.size();
		View mv = releases(order) ? t.view : t.relFence; mv.ts[i] = t.view.ts[i];
		l.msgs.push_back({v, mv});
		if (order == Seq) join(sc, t.view);
		poke(l.p, l.size, v);
	}
	// read-modify-write: f(old) -> new; returns old
	template<typename F> static uint64_t rmw(int i, int order, F f)
	{
		Thread & t = thr[cur]; Loc & l = locs[i];
		if (order == Seq) join(t.view, sc);
		Msg m = l.msgs.back();
		t.view.ts[i] = (int)l.msgs.size() - 1;
		join(t.acqPending, m.view);
		if (acquires(order)) join(t.view, m.view);
		uint64_t nv = f(m.value);
		t.view.ts[i] = (int)l.msgs.size();
		View mv = releases(order) ? t.view : t.relFence; join(mv, m.view); mv.ts[i] = t.view.ts[i];
		l.msgs.push_back({nv, mv});
		if (order == Seq) join(sc, t.view);
		poke(l.p, l.size, nv);
		return m.value;
	}
	static void plainRead(const volatile void * p, size_t n) { int i = arrive(p, n); if (i >= 0) poke(locs[i].p, n, load(i, Relaxed)); }
	static void plainWrite(const volatile void * p, size_t n) { int i = arrive(p, n); if (i >= 0) { thr[cur].pendingLoc = i; poke(locs[i].p, n, locs[i].msgs.back().value); } }
	static void fence(int order)
	{
		if (cur < 0) return;
		Thread & t = thr[cur]; commit(t);
		if (acquires(order)) join(t.view, t.acqPending);
		if (order == Seq) { join(t.view, sc); join(sc, t.view); }
		if (releases(order)) t.relFence = t.view;
	}
}

using namespace sched;
extern "C"
{
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
	void __tsan_vptr_update(void**, void*) {}
	void __tsan_vptr_read(void**) {}
	void __tsan_read_range(void*, unsigned long) {}
	void __tsan_write_range(void*, unsigned long) {}
#define RW(N) \
	void __tsan_read##N(void * p) { plainRead(p, N); } \
	void __tsan_write##N(void * p) { plainWrite(p, N); } \
	void __tsan_volatile_read##N(void * p) { plainRead(p, N); } \
	void __tsan_volatile_write##N(void * p) { plainWrite(p, N); } \
	void __tsan_unaligned_read##N(void * p) { plainRead(p, N); } \
	void __tsan_unaligned_write##N(void * p) { plainWrite(p, N); }
	RW(1) RW(2) RW(4) RW(8)
	void __tsan_read16(void * p) { if (cur >= 0) find(p, 16); }
	void __tsan_write16(void * p) { if (cur >= 0) find(p, 16); }
	void __tsan_unaligned_read16(void * p) { if (cur >= 0) find(p, 16); }
	void __tsan_unaligned_write16(void * p) { if (cur >= 0) find(p, 16); }

#define AT(N, T) \
	T __tsan_atomic##N##_load(const volatile T * p, int o) { int i = arrive(p, sizeof(T)); return i < 0 ? *p : (T)load(i, o & 7); } \
	void __tsan_atomic##N##_store(volatile T * p, T v, int o) { int i = arrive(p, sizeof(T)); if (i < 0) *p = v; else store(i, v, o & 7); } \
	T __tsan_atomic##N##_exchange(volatile T * p, T v, int o) { int i = arrive(p, sizeof(T)); if (i < 0) { T r = *p; *p = v; return r; } return (T)rmw(i, o & 7, [v](uint64_t) { return (uint64_t)v; }); } \
	T __tsan_atomic##N##_fetch_add(volatile T * p, T v, int o) { int i = arrive(p, sizeof(T)); if (i < 0) { T r = *p; *p = (T)(r + v); return r; } return (T)rmw(i, o & 7, [v](uint64_t x) { return (uint64_t)(T)(x + v); }); } \
	T __tsan_atomic##N##_fetch_sub(volatile T * p, T v, int o) { int i = arrive(p, sizeof(T)); if (i < 0) { T r = *p; *p = (T)(r - v); return r; } return (T)rmw(i, o & 7, [v](uint64_t x) { return (uint64_t)(T)(x - v); }); } \
	T __tsan_atomic##N##_fetch_and(volatile T * p, T v, int o) { int i = arrive(p, sizeof(T)); if (i < 0) { T r = *p; *p = (T)(r & v); return r; } return (T)rmw(i, o & 7, [v](uint64_t x) { return (uint64_t)(T)(x & v); }); } \
	T __tsan_atomic##N##_fetch_or(volatile T * p, T v, int o) { int i = arrive(p, sizeof(T)); if (i < 0) { T r = *p; *p = (T)(r | v); return r; } return (T)rmw(i, o & 7, [v](uint64_t x) { return (uint64_t)(T)(x | v); }); } \
	T __tsan_atomic##N##_fetch_xor(volatile T * p, T v, int o) { int i = arrive(p, sizeof(T)); if (i < 0) { T r = *p; *p = (T)(r ^ v); return r; } return (T)rmw(i, o & 7, [v](uint64_t x) { return (uint64_t)(T)(x ^ v); }); } \
	T __tsan_atomic##N##_fetch_nand(volatile T * p, T v, int o) { int i = arrive(p, sizeof(T)); if (i < 0) { T r = *p; *p = (T)~(r & v); return r; } return (T)rmw(i, o & 7, [v](uint64_t x) { return (uint64_t)(T)~(x & v); }); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T * p, T * e, T v, int o, int fo) \
	{ \
		int i = arrive(p, sizeof(T)); \
		if (i < 0) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
		if ((T)locs[i].msgs.back().value == *e) { rmw(i, o & 7, [v](uint64_t) { return (uint64_t)v; }); return 1; } \
		*e = (T)rmw(i, fo & 7, [](uint64_t x) { return x; }); \
		return 0; \
	} \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T * p, T * e, T v, int o, int fo) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, o, fo); } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T * p, T e, T v, int o, int fo) { T x = e; __tsan_atomic##N##_compare_exchange_strong(p, &x, v, o, fo); return x; }
	AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
	void __tsan_atomic_thread_fence(int o) { fence(o & 7); }
	void __tsan_atomic_signal_fence(int) {}
}
