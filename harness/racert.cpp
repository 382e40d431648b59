// The callbacks behind mcrace.h. Compiled without instrumentation.
#include "mc.h"
#include "mcrace.h"
#include <dlfcn.h>
#include <link.h>
#include <cxxabi.h>
#include <cstdarg>
#include <new>
#include <map>
#include <sys/mman.h>
#include <strings.h>
#include <malloc.h>

namespace race
{
	static const int N = 3;
	static const size_t STACK = 1 << 20;
	typedef uint16_t Clock;
	struct VC { Clock c[N]; };
	static void join(VC & a, const VC & b) { for (int i = 0; i < N; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

	struct Thread { void * sp; char * stack; void (*fn)(void*); void * arg; bool done, yields; int idle; const void * waits; VC vc; char * tls; };
	static Thread thr[N]; static int nthr, cur = -1; static void * mainSp; static int left; static bool parking;
	static uint64_t nacc, nsync;
	static std::string report; static bool bad;
	static std::map<const void*, VC> syncVars;				// what each synchronizing location last published
	static std::map<const void*, int> locks;				// lock or guard -> owner

	// ---- thread-local storage of the program: each thread has its own
	static size_t tlsSize, tlsInit; static char * tlsAt; static const void * tlsImage; static char * tlsMain;
	static struct { char * from, * to; } tlsOther[16]; static int ntlsOther;	// of the C and C++ libraries: not ours to look into
	static int findTls(dl_phdr_info * i, size_t, void * first)
	{
		for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS)
		{
			auto & h = i->dlpi_phdr[k]; size_t a = h.p_align ? h.p_align : 1;
			if (!*(bool*)first) { if (i->dlpi_tls_data && ntlsOther < 16) tlsOther[ntlsOther++] = {(char*)i->dlpi_tls_data, (char*)i->dlpi_tls_data + h.p_memsz}; continue; }
			tlsSize = h.p_memsz; tlsInit = h.p_filesz; tlsImage = (const void*)(i->dlpi_addr + h.p_vaddr);
			tlsAt = (char*)__builtin_thread_pointer() - (h.p_memsz + a - 1) / a * a;
		}
		*(bool*)first = false;		// the program itself comes first
		return 0;
	}
	static void tlsSwap(char * save, char * load) { if (tlsSize) { memcpy(save, tlsAt, tlsSize); memcpy(tlsAt, load, tlsSize); } }

	extern "C" void rc_swtch(void ** save, void * load);
	asm(R"(
		.text
		.globl rc_swtch
	rc_swtch:
		pushq %rbp
		pushq %rbx
		pushq %r12
		pushq %r13
		pushq %r14
		pushq %r15
		movq %rsp, (%rdi)
		movq %rsi, %rsp
		popq %r15
		popq %r14
		popq %r13
		popq %r12
		popq %rbx
		popq %rbp
		ret
	)");
	static void toMain() { int me = cur; cur = -1; rc_swtch(&thr[me].sp, mainSp); }
	static void entry() { thr[cur].fn(thr[cur].arg); thr[cur].done = true; toMain(); abort(); }

	// ---- memory given back during an execution is not reused before its end: an address means one block
	static bool active; static void ** quarantine; static size_t nquar; static const size_t QUAR = 1 << 22; extern "C" { void __real_free(void*); void * __real_malloc(size_t); void * __real_memset(void*, int, size_t); void * __real_memcpy(void*, const void*, size_t); }
	static void retire(void * p) { if (active && nquar < QUAR) quarantine[nquar++] = p; else __real_free(p); }

	// ---- shadow: per byte the last write and the last read of each thread
	struct Cell { uintptr_t key; uint32_t gen; uint8_t wt[8]; Clock wc[8]; Clock rc[N][8]; };
	static Cell * cells; static size_t ncells = 1 << 18, nused; static uint32_t gen;
	static Cell & cell(uintptr_t key)
	{
		size_t i = (key * 0x9E3779B97F4A7C15ull >> 40) & (ncells - 1);
		for (;; i = (i + 1) & (ncells - 1))
		{
			Cell & c = cells[i];
			if (c.gen != gen) { memset(&c, 0, sizeof c); c.gen = gen; c.key = key; if (++nused > ncells / 2) mc::fail("internal: shadow memory is full"); return c; }
			if (c.key == key) return c;
		}
	}
	static std::string name(const void * p)
	{
		Dl_info d; if (!dladdr(p, &d) || !d.dli_sname) return "a block of memory or a static object";
		int st; char * n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st); std::string s = n ? n : d.dli_sname; free(n);
		return s;
	}
	static bool busy;	// the detector itself uses the C library
	[[noreturn]] static void race(const std::string & what) { mc::fail("%s", what.c_str()); }
	static void access(const volatile void * vp, size_t n, bool write)
	{
		if (cur < 0 || bad || !n || busy) return;
		struct Busy { Busy() { busy = true; } ~Busy() { busy = false; } } b_;
		const char * p = (const char*)vp; Thread & t = thr[cur];
		if (p >= t.stack && p < t.stack + STACK) return;
		if (p >= tlsAt && p < tlsAt + tlsSize) return;
		for (int i = 0; i < ntlsOther; ++i) if (p >= tlsOther[i].from && p < tlsOther[i].to) return;
		++nacc;
		for (size_t k = 0; k < n; )
		{
			uintptr_t a = (uintptr_t)p + k; Cell & c = cell(a >> 3);
			for (int b = a & 7; b < 8 && k < n; ++b, ++k)
			{
				if (c.wc[b] && c.wt[b] != cur && c.wc[b] > t.vc.c[c.wt[b]]) { race(std::string(write ? "a write" : "a read") + " races with another thread's write: " + name(p + k)); }
				if (write)
				{
					for (int i = 0; i < nthr; ++i) if (i != cur && c.rc[i][b] > t.vc.c[i]) { race("a write races with another thread's read: " + name(p + k)); }
					c.wt[b] = (uint8_t)cur; c.wc[b] = t.vc.c[cur];
				}
				else c.rc[cur][b] = t.vc.c[cur];
			}
		}
	}

	// ---- synchronization
	static void arrive() { if (cur >= 0 && !bad) { ++nsync; if (parking || left > 0) toMain(); } }
	static void acquire(const void * p) { if (cur < 0) return; auto it = syncVars.find(p); if (it != syncVars.end()) join(thr[cur].vc, it->second); }
	static void release(const void * p) { if (cur < 0) return; VC & v = syncVars[p]; join(v, thr[cur].vc); ++thr[cur].vc.c[cur]; }
	// A thread that only waits (looks at the same memory again and again) lets the others go on
	static void yield() { if (cur >= 0) { thr[cur].idle = 0; thr[cur].yields = true; toMain(); } }
	static void progress(bool changed) { if (cur < 0) return; if (changed) thr[cur].idle = 0; else if (++thr[cur].idle >= 16) yield(); }
	static void block(const void * p) { thr[cur].waits = p; toMain(); }

	extern "C" char __libc_single_threaded;
	void begin()
	{
		__libc_single_threaded = 0;		// the C++ library counts references without atomics otherwise
		if (!cells)
		{
			quarantine = (void**)mmap(nullptr, QUAR * sizeof(void*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			cells = (Cell*)mmap(nullptr, ncells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			bool first = true; dl_iterate_phdr(findTls, &first);
			if (tlsSize) { tlsMain = (char*)malloc(tlsSize); for (auto & t : thr) t.tls = (char*)malloc(tlsSize); }
		}
		active = false; for (size_t i = 0; i < nquar; ++i) __real_free(quarantine[i]); nquar = 0;
		nthr = 0; cur = -1; nused = 0; ++gen; bad = false; report.clear(); syncVars.clear(); locks.clear(); active = true;
	}
	void spawn(void (*fn)(void*), void * arg)
	{
		if (nthr == N) mc::fail("internal: too many threads");
		Thread & t = thr[nthr];
		if (!t.stack) t.stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		uint64_t * sp = (uint64_t*)(t.stack + STACK - 64);
		*--sp = 0; *--sp = (uint64_t)(void*)entry; for (int i = 0; i < 6; ++i) *--sp = 0;
		t.sp = sp; t.fn = fn; t.arg = arg; t.done = t.yields = false; t.idle = 0; t.waits = nullptr; memset(&t.vc, 0, sizeof t.vc); t.vc.c[nthr] = 1;
		if (tlsSize) { memset(t.tls, 0, tlsSize); memcpy(t.tls, tlsImage, tlsInit); }
		++nthr;
	}
	static void resume(int i) { tlsSwap(tlsMain, thr[i].tls); cur = i; rc_swtch(&mainSp, thr[i].sp); cur = -1; tlsSwap(thr[i].tls, tlsMain); }
	void run(int preemptions)
	{
		left = preemptions; int last = -1;
		parking = true; for (int i = 0; i < nthr; ++i) resume(i); parking = false;	// to the first synchronizing operation: what precedes it commutes with the other threads
		for (;;)
		{
			int en[N], n = 0; bool lastOn = false;
			for (int i = 0; i < nthr; ++i) if (!thr[i].done && !thr[i].waits) { en[n++] = i; lastOn |= i == last; }
			if (!n)
			{
				for (int i = 0; i < nthr; ++i) if (!thr[i].done && !bad) { bad = true; report = "threads wait for one another for ever"; }
				break;
			}
			int next;
			if (last >= 0 && thr[last].yields)
			{
				thr[last].yields = false;
				if (lastOn && n > 1) { int m = 0; for (int i = 0; i < n; ++i) if (en[i] != last) en[m++] = en[i]; n = m; lastOn = false; }
			}
			if (lastOn)
			{
				next = last;
				if (n > 1 && left > 0 && !bad)
				{
					int k = mc::choose(n);		// 0: go on
					if (k) { int j = 0; for (int i = 0; i < n; ++i) if (en[i] != last && ++j == k) next = en[i]; --left; }
				}
			}
			else next = en[n == 1 || bad ? 0 : mc::choose(n)];
			last = next; resume(next);
		}
	}
	const char * found() { return bad ? report.c_str() : nullptr; }
	uint64_t accesses() { return nacc; }
	uint64_t syncs() { return nsync; }
	static void unblock(const void * p) { for (int i = 0; i < nthr; ++i) if (thr[i].waits == p) thr[i].waits = nullptr; }
	static bool acquires(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
	static bool releases(int o) { return o == 3 || o == 4 || o == 5; }
	// An atomic access; plain and atomic accesses to one location must be ordered too
	static void atomicRead(const volatile void * p, int o) { arrive(); if (acquires(o)) acquire((const void*)p); }
	static void atomicWrite(const volatile void * p, int o) { arrive(); if (releases(o)) release((const void*)p); }
	static void atomicRmw(const volatile void * p, int o) { arrive(); if (acquires(o)) acquire((const void*)p); if (releases(o)) release((const void*)p); }
}

using namespace race;
extern "C"
{
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
	void __tsan_vptr_update(void ** p, void * v) { if (*p != v) access(p, 8, true); else access(p, 8, false); }
	void __tsan_vptr_read(void ** p) { access(p, 8, false); }
	void __tsan_read_range(void * p, unsigned long n) { access(p, n, false); }
	void __tsan_write_range(void * p, unsigned long n) { access(p, n, true); }
#define RW(B) \
	void __tsan_read##B(void * p) { access(p, B, false); } \
	void __tsan_write##B(void * p) { access(p, B, true); } \
	void __tsan_volatile_read##B(void * p) { access(p, B, false); } \
	void __tsan_volatile_write##B(void * p) { access(p, B, true); } \
	void __tsan_unaligned_read##B(void * p) { access(p, B, false); } \
	void __tsan_unaligned_write##B(void * p) { access(p, B, true); } \
	void __tsan_unaligned_volatile_read##B(void * p) { access(p, B, false); } \
	void __tsan_unaligned_volatile_write##B(void * p) { access(p, B, true); }
	RW(1) RW(2) RW(4) RW(8) RW(16)

#define RMW(B, T, F, E) T __tsan_atomic##B##_##F(volatile T * p, T v, int o) { atomicRmw(p, o & 7); T r = *p; T w = (T)(E); *p = w; progress(r != w); return r; }
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T * p, int o) { atomicRead(p, o & 7); T r = *p; progress(false); return r; } \
	void __tsan_atomic##B##_store(volatile T * p, T v, int o) { atomicWrite(p, o & 7); *p = v; progress(true); } \
	RMW(B, T, exchange, v) RMW(B, T, fetch_add, r + v) RMW(B, T, fetch_sub, r - v) RMW(B, T, fetch_and, r & v) RMW(B, T, fetch_or, r | v) RMW(B, T, fetch_xor, r ^ v) RMW(B, T, fetch_nand, ~(r & v)) \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T * p, T * e, T v, int o, int fo) { arrive(); if (*p == *e) { if (acquires(o & 7)) acquire((const void*)p); if (releases(o & 7)) release((const void*)p); *p = v; progress(true); return 1; } if (acquires(fo & 7)) acquire((const void*)p); *e = *p; progress(false); return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T * p, T * e, T v, int o, int fo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, o, fo); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T * p, T e, T v, int o, int fo) { T x = e; __tsan_atomic##B##_compare_exchange_strong(p, &x, v, o, fo); return x; }
	AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)
	void __tsan_atomic_thread_fence(int) { static char all; if (cur >= 0) { arrive(); acquire(&all); release(&all); } }
	void __tsan_atomic_signal_fence(int) {}

	// Initialization of static objects (the compiler reads the guard's first byte with acquire order)
	int __wrap___cxa_guard_acquire(char * g)
	{
		if (cur < 0) { if (*g) return 0; return 1; }
		for (;;)
		{
			arrive();
			if (*g) { acquire(g); return 0; }
			if (!locks.count(g)) { locks[g] = cur; return 1; }
			block(g);
		}
	}
	void __wrap___cxa_guard_release(char * g) { if (cur >= 0) { release(g); locks.erase(g); unblock(g); } *g = 1; }
	void __wrap___cxa_guard_abort(char * g) { if (cur >= 0) { locks.erase(g); unblock(g); } }
	static int take(void * m, bool wait) { if (cur < 0) return 0; for (;;) { arrive(); if (!locks.count(m)) { locks[m] = cur; acquire(m); progress(true); return 0; } if (!wait) { progress(false); return 16; } block(m); } }
	static int leave(void * m) { if (cur >= 0) { release(m); locks.erase(m); unblock(m); arrive(); } return 0; }
	int __wrap_pthread_mutex_trylock(void * m) { return take(m, false); }
	int __wrap_pthread_mutex_lock(void * m) { return take(m, true); }
	int __wrap_pthread_mutex_unlock(void * m) { return leave(m); }
	int __wrap_pthread_spin_trylock(void * m) { return take(m, false); }
	int __wrap_pthread_spin_lock(void * m) { return take(m, true); }
	int __wrap_pthread_spin_unlock(void * m) { return leave(m); }
	// A reader-writer lock: owner -1 - n stands for n readers. A reader's unlock orders it before the next writer (and, harmlessly, reader)
	int __wrap_pthread_rwlock_wrlock(void * m) { return take(m, true); }
	int __wrap_pthread_rwlock_trywrlock(void * m) { return take(m, false); }
	static int share(void * m, bool wait) { if (cur < 0) return 0; for (;;) { arrive(); auto it = locks.find(m); if (it == locks.end() || it->second < 0) { if (it == locks.end()) locks[m] = -2; else --it->second; acquire(m); progress(true); return 0; } if (!wait) { progress(false); return 16; } block(m); } }
	int __wrap_pthread_rwlock_rdlock(void * m) { return share(m, true); }
	int __wrap_pthread_rwlock_tryrdlock(void * m) { return share(m, false); }
	int __wrap_pthread_rwlock_unlock(void * m) { if (cur < 0) return 0; auto it = locks.find(m); if (it != locks.end() && it->second < -2) { release(m); ++it->second; arrive(); return 0; } return leave(m); }
	int __wrap_sched_yield() { if (cur >= 0) yield(); return 0; }
	int __wrap_usleep(unsigned) { if (cur >= 0) yield(); return 0; }
	int __wrap_nanosleep(const void *, void *) { if (cur >= 0) yield(); return 0; }
	int __wrap_clock_nanosleep(int, int, const void *, void *) { if (cur >= 0) yield(); return 0; }
	unsigned long __wrap_pthread_self() { return cur >= 0 ? 0x1000 + cur : 0xFFF; }
	// Once: whoever comes first runs the routine (the C++ library passes its arguments in thread-local storage of its own, so no switch may come before)
	int __wrap_pthread_once(int * once, void (*routine)())
	{
		if (cur < 0) { if (*once != 2) { *once = 2; routine(); } return 0; }
		while (*once != 2)
		{
			if (!locks.count(once)) { locks[once] = cur; routine(); *once = 2; release(once); locks.erase(once); unblock(once); arrive(); return 0; }
			block(once);
		}
		arrive(); acquire(once); return 0;
	}

	// Memory
	void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); if (p && active) __real_memset(p, 0xA5, n); return p; }
	int __real_posix_memalign(void**, size_t, size_t); void * __real_malloc(size_t); void * __real_realloc(void*, size_t);
	int __wrap_posix_memalign(void ** p, size_t align, size_t size)
	{
		void * q = nullptr; int r = __real_posix_memalign(&q, align, size); if (r) return r;
		if (active) memset(q, 0xA5, size);
		access(p, 8, true); *p = q; return 0;
	}
	void __wrap_free(void * p) { if (!p) return; access(p, malloc_usable_size(p), true); retire(p); }
	void * __wrap_realloc(void * p, size_t n)
	{
		if (!p) return __real_malloc(n);
		size_t old = malloc_usable_size(p); void * q = __real_malloc(n); memcpy(q, p, old < n ? old : n); __wrap_free(p); return q;
	}

	// Parts of the C library that touch memory on the caller's behalf
	void * __real_memcpy(void*, const void*, size_t); void * __real_memmove(void*, const void*, size_t); void * __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t); void * __real_memchr(const void*, int, size_t);
	size_t __real_strlen(const char*); size_t __real_strnlen(const char*, size_t); int __real_strcmp(const char*, const char*); int __real_strncmp(const char*, const char*, size_t); int __real_strcasecmp(const char*, const char*); int __real_strncasecmp(const char*, const char*, size_t);
	char * __real_strcpy(char*, const char*); char * __real_strncpy(char*, const char*, size_t); char * __real_strcat(char*, const char*); char * __real_strchr(const char*, int); char * __real_strrchr(const char*, int); char * __real_strstr(const char*, const char*);
	int __real_vsnprintf(char*, size_t, const char*, va_list); int __real_vsprintf(char*, const char*, va_list); char * __real_strtok(char*, const char*); int __real_rand(); void __real_srand(unsigned); long __real_random(); char * __real_strerror(int);
#define R(p, n) access(p, n, false)
#define W(p, n) access(p, n, true)
	void * __wrap_memcpy(void * d, const void * s, size_t n) { R(s, n); W(d, n); return __real_memcpy(d, s, n); }
	void * __wrap_memmove(void * d, const void * s, size_t n) { R(s, n); W(d, n); return __real_memmove(d, s, n); }
	void * __wrap_memset(void * d, int c, size_t n) { W(d, n); return __real_memset(d, c, n); }
	int __wrap_memcmp(const void * a, const void * b, size_t n) { R(a, n); R(b, n); return __real_memcmp(a, b, n); }
	void * __wrap_memchr(const void * a, int c, size_t n) { void * r = (void*)__real_memchr(a, c, n); R(a, r ? (size_t)((char*)r - (char*)a) + 1 : n); return r; }
	size_t __wrap_strlen(const char * s) { size_t n = __real_strlen(s); R(s, n + 1); return n; }
	size_t __wrap_strnlen(const char * s, size_t m) { size_t n = __real_strnlen(s, m); R(s, n < m ? n + 1 : n); return n; }
	int __wrap_strcmp(const char * a, const char * b) { R(a, __real_strlen(a) + 1); R(b, __real_strlen(b) + 1); return __real_strcmp(a, b); }
	int __wrap_strncmp(const char * a, const char * b, size_t n) { R(a, __real_strnlen(a, n)); R(b, __real_strnlen(b, n)); return __real_strncmp(a, b, n); }
	int __wrap_strcasecmp(const char * a, const char * b) { R(a, __real_strlen(a) + 1); R(b, __real_strlen(b) + 1); return __real_strcasecmp(a, b); }
	int __wrap_strncasecmp(const char * a, const char * b, size_t n) { R(a, __real_strnlen(a, n)); R(b, __real_strnlen(b, n)); return __real_strncasecmp(a, b, n); }
	char * __wrap_strcpy(char * d, const char * s) { size_t n = __real_strlen(s) + 1; R(s, n); W(d, n); return __real_strcpy(d, s); }
	char * __wrap_strncpy(char * d, const char * s, size_t n) { R(s, __real_strnlen(s, n)); W(d, n); return __real_strncpy(d, s, n); }
	char * __wrap_strcat(char * d, const char * s) { size_t n = __real_strlen(s) + 1; R(s, n); W(d, __real_strlen(d) + n); return __real_strcat(d, s); }
	char * __wrap_strchr(const char * s, int c) { R(s, __real_strlen(s) + 1); return (char*)__real_strchr(s, c); }
	char * __wrap_strrchr(const char * s, int c) { R(s, __real_strlen(s) + 1); return (char*)__real_strrchr(s, c); }
	char * __wrap_strstr(const char * a, const char * b) { R(a, __real_strlen(a) + 1); R(b, __real_strlen(b) + 1); return (char*)__real_strstr(a, b); }
	int __wrap_vsnprintf(char * d, size_t n, const char * f, va_list ap) { R(f, __real_strlen(f) + 1); int r = __real_vsnprintf(d, n, f, ap); if (n && r >= 0) W(d, (size_t)r + 1 < n ? (size_t)r + 1 : n); return r; }
	int __wrap_snprintf(char * d, size_t n, const char * f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, n, f, ap); va_end(ap); return r; }
	int __wrap_vsprintf(char * d, const char * f, va_list ap) { int r = __real_vsprintf(d, f, ap); if (r >= 0) W(d, (size_t)r + 1); return r; }
	int __wrap_sprintf(char * d, const char * f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsprintf(d, f, ap); va_end(ap); return r; }
	// Functions of the C library that keep a state of their own
	static char libcState[4];
	char * __wrap_strtok(char * s, const char * d) { W(&libcState[0], 1); return __real_strtok(s, d); }
	int __wrap_rand() { W(&libcState[1], 1); return __real_rand(); }
	void __wrap_srand(unsigned x) { W(&libcState[1], 1); __real_srand(x); }
	long __wrap_random() { W(&libcState[1], 1); return __real_random(); }
	char * __wrap_setlocale(int c, const char * l) { if (l) W(&libcState[2], 1); return l ? nullptr : (char*)"C"; }
	char * __wrap_strerror(int e) { W(&libcState[3], 1); return __real_strerror(e); }
}

// C++ memory
void * operator new(size_t n) { void * p = __real_malloc(n ? n : 1); if (!p) abort(); return p; }
void * operator new[](size_t n) { return operator new(n); }
void * operator new(size_t n, std::align_val_t a) { void * p; if (__real_posix_memalign(&p, (size_t)a < 8 ? 8 : (size_t)a, n)) abort(); return p; }
void operator delete(void * p) noexcept { if (p) retire(p); }
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }
void operator delete(void * p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { operator delete(p); }
