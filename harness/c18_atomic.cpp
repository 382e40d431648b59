// C18: atomics are linearizable, and sequentially consistent across variables, under every
// interleaving and every value the memory model lets a thread see. See lib/mcsched.h.
#include "mc.h"
#include "mcsched.h"
#include <cstdio>
#include "hal/platform_crt.h"
#include "templates/atomic.h"
#include <set>
#include <type_traits>

enum Op { Load, Store, Assign, PreInc, PostInc, PreDec, PostDec, Add, Sub, Convert, Exchange, NumOps, RLoad = NumOps, RStore, NumAll };
static const char * const names[] = {"load", "store", "=", "++x", "x++", "--x", "x--", "+=", "-=", "convert", "exchange", "relaxed load", "relaxed store"};

static int32 items[64];
template<typename T> static T toT(int64 v) { return (T)v; }
template<> int32 * toT<int32*>(int64 v) { return items + 32 + v; }
template<typename T> static int64 fromT(T v) { return (int64)v; }
template<> const char * toT<const char*>(int64 v) { return (const char*)items + 32 + v; }
template<> int64 fromT<int32*>(int32 * p) { return p - (items + 32); }

// An atomic and direct access to its memory, as the platform layer sees it
template<typename T> struct Cell { alignas(8) Atomic<T> a; volatile T * raw() { return (volatile T*)&a; } };

template<typename T> static int64 amount(int64 k) { return std::is_pointer<T>::value ? k % 3 + 1 : k; }

template<typename T> __attribute__((noinline)) static int64 exec(Cell<T> & c, int op, int64 k)
{
	Atomic<T> & a = c.a;
	switch (op)
	{
	case Load: return fromT<T>(a.load());
	case Store: a.store(toT<T>(k)); return 0;
	case Assign: return fromT<T>(a = toT<T>(k));
	case PreInc: return fromT<T>(++a);
	case PostInc: return fromT<T>(a++);
	case PreDec: return fromT<T>(--a);
	case PostDec: return fromT<T>(a--);
	case Add: return fromT<T>(a += amount<T>(k));
	case Sub: return fromT<T>(a -= amount<T>(k));
	case Convert: return fromT<T>(static_cast<T>(a));
	case RLoad: return fromT<T>(a.load(Atomic<T>::AtomicOrder::Relaxed));
	case RStore: a.store(toT<T>(k), Atomic<T>::AtomicOrder::Relaxed); return 0;
	default: return fromT<T>(PlatformAtomics::exchange(c.raw(), toT<T>(k)));
	}
}

// The specification: one step on a plain value
template<typename T> static int64 wrap(int64 v) { if constexpr (std::is_pointer<T>::value) return v; else return (int64)(T)v; }
template<typename T> static int64 spec(int64 & v, int op, int64 k)
{
	int64 o = v;
	switch (op)
	{
	case Load: case Convert: case RLoad: return v;
	case Store: case RStore: v = wrap<T>(k); return 0;
	case Assign: return v = wrap<T>(k);
	case PreInc: return v = wrap<T>(v + 1);
	case PostInc: v = wrap<T>(v + 1); return o;
	case PreDec: return v = wrap<T>(v - 1);
	case PostDec: v = wrap<T>(v - 1); return o;
	case Add: return v = wrap<T>(v + amount<T>(k));
	case Sub: return v = wrap<T>(v - amount<T>(k));
	default: v = wrap<T>(k); return o;
	}
}

enum { Locs = 3 };
struct Step { int loc, op; int64 k; };
struct Program { std::vector<std::vector<Step>> threads; int64 init[Locs]; };
using Outcome = std::vector<int64>;	// all results in program order, then the final values

template<typename T> static void allowed(const Program & p, std::vector<size_t> & pc, const int64 * v, std::vector<Outcome> & res, std::set<Outcome> & out)
{
	bool any = false;
	for (size_t t = 0; t < p.threads.size(); ++t) if (pc[t] < p.threads[t].size())
	{
		any = true; const Step & s = p.threads[t][pc[t]];
		int64 w[Locs] = {v[0], v[1], v[2]}; int64 r = spec<T>(w[s.loc], s.op, s.k);
		++pc[t]; res[t].push_back(r); allowed<T>(p, pc, w, res, out); res[t].pop_back(); --pc[t];
	}
	if (!any) { Outcome o; for (auto & r : res) for (int64 x : r) o.push_back(x); for (int i = 0; i < Locs; ++i) o.push_back(v[i]); out.insert(o); }
}

static const Program * prog; static Outcome results[4];
template<typename T> static Cell<T> cells[Locs];
template<typename T> static void threadBody(void * arg)
{
	size_t t = (size_t)arg;
	for (auto & s : prog->threads[t]) { int64 r = exec<T>(cells<T>[s.loc], s.op, s.k); results[t].push_back(r); }
}

static std::string show(const Outcome & o) { std::string s; for (int64 x : o) s += std::to_string(x) + " "; return s; }
static std::string show(const Program & p)
{
	std::string s;
	for (auto & t : p.threads) { s += s.empty() ? "{ " : " || { "; for (auto & x : t) { s += x.loc == 2 ? "z " : x.loc ? "y " : "x "; s += names[x.op]; if (x.op == Store || x.op == RStore || x.op == Assign || x.op == Add || x.op == Sub || x.op == Exchange) s += " " + std::to_string(x.k); s += "; "; } s += "}"; }
	return s;
}

template<typename T> static void runProgram(Program & p, int maxSteps)
{
	static Program cached; static std::set<Outcome> ok; static bool have = false;
	auto same = [&] {
		if (!have || cached.threads.size() != p.threads.size() || cached.init[0] != p.init[0]) return false;
		for (size_t t = 0; t < p.threads.size(); ++t) { if (cached.threads[t].size() != p.threads[t].size()) return false; for (size_t i = 0; i < p.threads[t].size(); ++i) if (cached.threads[t][i].op != p.threads[t][i].op || cached.threads[t][i].loc != p.threads[t][i].loc) return false; }
		return true;
	};
	if (!same())
	{
		ok.clear(); cached = p; have = true;
		std::vector<size_t> pc(p.threads.size()); std::vector<Outcome> res(p.threads.size()); int64 v[Locs] = {wrap<T>(p.init[0]), wrap<T>(p.init[1]), wrap<T>(p.init[2])};
		allowed<T>(p, pc, v, res, ok);
	}
	prog = &p;
	sched::begin();
	for (int i = 0; i < Locs; ++i) { *cells<T>[i].raw() = toT<T>(p.init[i]); sched::share(cells<T>[i].raw(), sizeof(T)); }
	for (size_t t = 0; t < p.threads.size(); ++t) { results[t].clear(); sched::spawn(threadBody<T>, (void*)t); }
	mc::note("%s", show(p).c_str());
	if (!sched::run(maxSteps)) throw mc::Abandon{};
	Outcome o; for (size_t t = 0; t < p.threads.size(); ++t) for (int64 r : results[t]) o.push_back(r);
	for (int i = 0; i < Locs; ++i) o.push_back(fromT<T>((T)*cells<T>[i].raw()));
	MC_CHECK(ok.count(o), "%s: results and final values %sare those of no sequential order", show(p).c_str(), show(o).c_str());
	mc::outcome(show(o));
}

// All programs of the given shape over the given operations and locations
template<typename T> static void programs(std::vector<int> shape, std::vector<int> ops, int nlocs, int64 init)
{
	Program p; p.init[0] = init; p.init[1] = p.init[2] = 0; int64 k = 2; int n = (int)ops.size();
	for (int len : shape) { p.threads.push_back({}); for (int i = 0; i < len; ++i) { int c = mc::choose(n * nlocs); p.threads.back().push_back({c / n, ops[c % n], k}); k += 3; } }
	runProgram<T>(p, 60);
}
static std::vector<int> every() { std::vector<int> v; for (int i = 0; i < NumAll; ++i) v.push_back(i); return v; }	// relaxed ones too: one variable is coherent in any order

// ---- litmus tests with named guarantees
static Cell<int32> X, Y, Z; static int32 data[3]; static int64 R[6];
template<typename F> struct Call { static void go(void * f) { (*(F*)f)(); } };
template<typename F> static void thread(F & f) { sched::spawn(Call<F>::go, &f); }
static void fresh()
{
	sched::begin();
	for (auto * c : {&X, &Y, &Z}) { *c->raw() = 0; sched::share(c->raw(), 4); }
	for (auto & d : data) { d = 0; sched::share(&d, 4); }
	for (auto & r : R) r = -1;
}
static void go(int steps = 80) { if (!sched::run(steps)) throw mc::Abandon{}; }

static void storeBuffering()
{
	fresh();
	auto a = [] { X.a.store(1); R[0] = Y.a.load(); }; auto b = [] { Y.a = 1; R[1] = (int32)X.a; };
	thread(a); thread(b); go(); mc::note("store buffering");
	MC_CHECK(R[0] == 1 || R[1] == 1, "store buffering: both threads miss the other's store");
	mc::outcome(std::to_string(R[0]) + std::to_string(R[1]));
}
// By every operation that writes, and received by every operation that reads, on every type
enum { Publishers = 8, Receivers = 8 };
template<typename T> static void publication()
{
	int how = mc::choose(std::is_same<T, bool>::value ? 2 : (int)Publishers), got = mc::choose(std::is_same<T, bool>::value ? 2 : (int)Receivers);
	static Cell<T> F; T none = toT<T>(0), one = toT<T>(1); if constexpr (std::is_pointer<T>::value) none = toT<T>(7), one = toT<T>(9);
	fresh(); *F.raw() = none; sched::share(F.raw(), sizeof(T));
	auto w = [=] {
		data[0] = 11; data[1] = 22;
		if constexpr (std::is_same<T, bool>::value) { if (how) F.a = one; else F.a.store(one); }
		else switch (how) { case 0: F.a.store(one); break; case 1: F.a = one; break; case 2: ++F.a; break; case 3: F.a += 1; break; case 4: F.a++; break; case 5: F.a -= 1; break; case 6: --F.a; break; case 7: F.a--; break; }
	};
	auto r = [=] {
		bool f = false;
		if constexpr (std::is_same<T, bool>::value) f = got ? F.a.load() : (T)F.a;
		else switch (got) { case 0: f = (T)F.a != none; break; case 1: f = F.a.load() != none; break; case 2: f = F.a++ != none; break; case 3: f = F.a-- != none; break; case 4: f = (F.a += 2) != (T)(none + 2); break; case 5: f = (F.a -= 2) != (T)(none - 2); break; case 6: f = ++F.a != (T)(none + 1); break; case 7: f = --F.a != (T)(none - 1); break; }
		if (f) { R[0] = data[0]; R[1] = data[1]; }
	};
	thread(w); thread(r); go(); mc::note("publication by kind %d, received by kind %d, %zu bytes", how, got, sizeof(T));
	MC_CHECK(R[0] == -1 || (R[0] == 11 && R[1] == 22), "publication (kind %d, received by kind %d, %zu bytes): the flag is seen, the data is not", how, got, sizeof(T));
	mc::outcome(std::to_string(R[0]));
}
static void independentReads()
{
	fresh();
	auto w1 = [] { X.a.store(1); }; auto w2 = [] { Y.a.store(1); };
	auto r1 = [] { R[0] = X.a.load(); R[1] = Y.a.load(); }; auto r2 = [] { R[2] = Y.a.load(); R[3] = X.a.load(); };
	thread(w1); thread(w2); thread(r1); thread(r2); go(); mc::note("independent reads of independent writes");
	MC_CHECK(!(R[0] == 1 && R[1] == 0 && R[2] == 1 && R[3] == 0), "two readers disagree about the order of two writes");
}
static void lastOwner(int owners)
{
	fresh(); *X.raw() = owners; sched::begin(); sched::share(X.raw(), 4); for (auto & d : data) sched::share(&d, 4);
	static int32 sum; static int zeros; sum = -1; zeros = 0;
	struct Body { int i, n; void operator()() { data[i] = i + 1; if (--X.a == 0) { ++zeros; int32 s = 0; for (int k = 0; k < n; ++k) s += data[k]; sum = s; } } } b[3] = {{0, owners}, {1, owners}, {2, owners}};
	for (int i = 0; i < owners; ++i) thread(b[i]);
	go(); mc::note("last of %d owners", owners);
	MC_CHECK(zeros == 1, "%d owners believe to be the last", zeros);
	MC_CHECK(sum == owners * (owners + 1) / 2, "the last owner does not see what the others wrote (sum %d)", sum);
}
static void ticketLock()
{
	fresh();
	auto body = [] { int32 t = X.a++; while (Y.a.load() != t) {} int32 d = data[0]; data[0] = d + 1; Y.a++; };
	auto b2 = body; thread(body); thread(b2); go(18); mc::note("ticket lock");
	MC_CHECK((int32)sched::last(&data[0]) == 2, "ticket lock: %d entries counted", (int32)sched::last(&data[0]));
}
static void exchangeLock()
{
	fresh();
	auto body = [] { while (PlatformAtomics::exchange(X.raw(), 1)) {} int32 d = data[0]; data[0] = d + 1; PlatformAtomics::store(X.raw(), 0); };
	auto b2 = body; thread(body); thread(b2); go(16); mc::note("exchange lock");
	MC_CHECK((int32)sched::last(&data[0]) == 2, "exchange lock: %d entries counted", (int32)sched::last(&data[0]));
}
// Relaxed order: still atomic, coherent, and a thread sees its own stores
static void relaxed()
{
	fresh(); using O = Atomic<int32>::AtomicOrder;
	auto w = [] { X.a.store(1, O::Relaxed); X.a.store(2, O::Relaxed); R[4] = X.a.load(O::Relaxed); };
	auto r = [] { R[0] = X.a.load(O::Relaxed); R[1] = X.a.load(O::Relaxed); R[2] = X.a.load(O::Sequential); };
	auto i = [] { ++Z.a; R[5] = Z.a.load(O::Relaxed); }; auto i2 = [] { ++Z.a; };
	thread(w); thread(r); thread(i); thread(i2); go(); mc::note("relaxed");
	MC_CHECK(R[4] == 2, "a thread misses its own relaxed store");
	MC_CHECK(R[0] >= 0 && R[0] <= R[1] && R[1] <= R[2] && R[2] <= 2, "relaxed loads go back in time: %d %d %d", (int)R[0], (int)R[1], (int)R[2]);
	MC_CHECK((int32)sched::last(Z.raw()) == 2 && R[5] >= 1, "increments were lost");
	MC_CHECK((int32)sched::last(X.raw()) == 2, "relaxed stores");
}
// What a thread learns through a second one is as good as what it learns directly
static void transitive(int how)
{
	fresh();
	auto w = [] { data[0] = 11; X.a = 1; };
	auto m = [how] { int32 f = how & 1 ? (int32)X.a : X.a.load(); if (f) { data[1] = data[0]; if (how & 2) ++Y.a; else Y.a.store(1); } };
	auto r = [how] { int32 f = how & 4 ? Y.a++ : Y.a.load(); if (f) { R[0] = data[0]; R[1] = data[1]; R[2] = X.a.load(); } };
	thread(w); thread(m); thread(r); go(); mc::note("publication through another thread, kind %d", how);
	MC_CHECK(R[0] == -1 || (R[0] == 11 && R[1] == 11 && R[2] == 1), "publication through another thread (kind %d): %d %d %d", how, (int)R[0], (int)R[1], (int)R[2]);
	mc::outcome(std::to_string(R[0]));
}
// Mutual exclusion with loads and stores only, which sequential consistency makes possible
static void peterson(int how)
{
	fresh();
	struct Body
	{
		int me, how;
		void operator()()
		{
			Atomic<int32> & mine = me ? Y.a : X.a, & theirs = me ? X.a : Y.a;
			if (how & 1) mine = 1; else mine.store(1);
			if (how & 2) Z.a = 1 - me; else Z.a.store(1 - me);
			while ((how & 4 ? (int32)theirs : theirs.load()) && Z.a.load() == 1 - me) {}
			int32 d = data[0]; data[0] = d + 1;
			mine.store(0);
		}
	} a{0, how}, b{1, how};
	thread(a); thread(b); go(20); mc::note("Peterson's lock, kind %d", how);
	MC_CHECK((int32)sched::last(&data[0]) == 2, "Peterson's lock (kind %d): %d entries counted", how, (int32)sched::last(&data[0]));
}
// A queue of one producer and one consumer over three slots
static void ring(int n)
{
	fresh(); static int32 got[4]; for (auto & g : got) g = -1;
	auto producer = [n] { for (int i = 0; i < n; ++i) { while (X.a.load() - Y.a.load() >= 2) {} data[i % 2] = 10 + i; X.a += 1; } };
	auto consumer = [n] { for (int i = 0; i < n; ++i) { while ((int32)X.a == i) {} got[i] = data[i % 2]; ++Y.a; } };
	thread(producer); thread(consumer); go(n == 2 ? mc::bound(20, 28) : mc::bound(22, 25)); mc::note("queue of %d items", n);
	for (int i = 0; i < n; ++i) MC_CHECK(got[i] == 10 + i, "item %d of the queue is %d", i, got[i]);
}
// A counter that hands out numbers, while others subtract and watch
static void tickets()
{
	fresh(); struct Body { int i; void operator()() { R[i] = X.a++; R[i + 3] = ++X.a; } } b[3] = {{0}, {1}, {2}};
	for (auto & x : b) thread(x);
	go(); mc::note("numbers handed out");
	uint64 seen = 0; for (int i = 0; i < 6; ++i) { int64 v = i < 3 ? R[i] : R[i] - 1; MC_CHECK(v >= 0 && v < 6 && !(seen >> v & 1), "number %d handed out twice, or never counted", (int)v); seen |= 1ull << v; }
	for (int i = 0; i < 3; ++i) MC_CHECK(R[i] < R[i + 3], "a later number is less");
	MC_CHECK((int32)sched::last(X.raw()) == 6, "the counter ends at %d", (int32)sched::last(X.raw()));
}
// N threads, every mix of counting operations: nothing is lost
static void counters()
{
	static const int cand[] = {PreInc, PostInc, PreDec, PostDec, Add, Sub};
	Program p; p.init[0] = 5; p.init[1] = p.init[2] = 0; int n = 4;
	for (int t = 0; t < n; ++t) p.threads.push_back({{0, mc::pick(cand), 7 + t}});
	runProgram<int32>(p, 60);
}

// ---- one thread: every operation is exact, for every 8-bit value and around all boundaries
template<typename T> static void sequential(int64 v, int op, int64 k)
{
	if (!std::is_pointer<T>::value) { v = wrap<T>(v); if (op != Add && op != Sub) k = wrap<T>(k); }
	Cell<T> c; c.a.store(toT<T>(v)); int64 m = v;
	int64 r = exec<T>(c, op, k), e = spec<T>(m, op, k);
	if (!std::is_pointer<T>::value) e = (int64)(T)e;
	MC_CHECK(r == e, "%s on %lld with %lld (%zu bytes) returns %lld, expected %lld", names[op], (long long)v, (long long)k, sizeof(T), (long long)r, (long long)e);
	MC_CHECK(fromT<T>(c.a.load()) == m && fromT<T>((T)c.a) == m && fromT<T>(c.a.load(Atomic<T>::AtomicOrder::Relaxed)) == m, "%s on %lld with %lld (%zu bytes) leaves %lld, expected %lld", names[op], (long long)v, (long long)k, sizeof(T), (long long)fromT<T>(c.a.load()), (long long)m);
	c.a.store(toT<T>(k), Atomic<T>::AtomicOrder::Relaxed); MC_CHECK(fromT<T>(c.a.load()) == (std::is_pointer<T>::value ? k : wrap<T>(k)), "relaxed store");
	Atomic<T> d{toT<T>(v)}; MC_CHECK(fromT<T>(d.load()) == v, "initial value");
	mc::tick();
}
template<typename T> static void sequentialWide()
{
	int op = mc::choose(NumOps); int bits = sizeof(T) * 8; int i = mc::choose(bits), d = mc::choose(3) - 1;
	int64 v = (int64)((1ull << i) + (uint64)(int64)d);
	for (int j = 0; j < bits; ++j) for (int64 e = -1; e <= 1; ++e) sequential<T>(v, op, (int64)((1ull << j) + (uint64)e));
	mc::note("%s around bit %d of %d", names[op], i, bits);
}
template<typename T> static void sequentialByte()
{
	int op = mc::choose(NumOps), v = mc::choose(256);
	for (int k = 0; k < 256; ++k) sequential<T>(v, op, (T)k);
	mc::note("%s on byte %d", names[op], v);
}
static void sequentialPointer()
{
	int op = mc::choose(NumOps), v = mc::choose(32) - 16, k = mc::choose(28) - 14;
	sequential<int32*>(v, op, k < 0 ? -k : k);
	static struct Wide { int64 w[5]; } wide[32]; Atomic<Wide*> w; w = wide + 10; w += 3; MC_CHECK(w.load() == wide + 13, "pointer to 40 bytes"); --w; MC_CHECK(w.load() == wide + 12 && w-- == wide + 12 && (w -= 2) == wide + 9, "pointer to 40 bytes");
	mc::note("%s on pointer %d", names[op], v);
}

static void setup()
{
	using V = std::vector<int>;
	auto grow = [](V quick, V more) { if (mc::thorough()) quick.insert(quick.end(), more.begin(), more.end()); return quick; };
	mc::add("programs_2x2", 8, [] { programs<int32>({2, 2}, every(), 1, 5); });
	mc::add("programs_1x3", 4, [] { programs<int32>({1, 1, 1}, every(), 1, 5); });
	mc::add("programs_1x4", 8, [] { programs<int32>({1, 1, 1, 1}, mc::thorough() ? every() : V{Load, Store, PreInc, PostDec, Sub, Exchange, RLoad}, 1, 5); });
	mc::add("programs_2x3", 8, [=] { programs<int32>({3, 3}, grow({Load, Store, Assign, PreInc, PostDec, Add}, {Exchange, RLoad}), 1, 5); });
	mc::add("programs_4_2", 8, [=] { programs<int32>({4, 2}, grow({Load, Assign, PreInc, RStore}, {Sub, PostDec}), 1, 5); });
	mc::add("programs_3", 8, [=] { if (mc::thorough()) programs<int32>({2, 2, 1}, {Load, Store, PreInc, Sub, Assign, PostDec, Exchange}, 1, 5); else programs<int32>({2, 1, 1}, {Load, Store, Assign, PreInc, PostDec, Sub, Convert}, 1, 5); });
	mc::add("two_variables", 8, [] { programs<int32>({2, 2}, {Load, Store, Assign, Convert, PreInc, PostDec, Sub}, 2, 5); });
	mc::add("two_variables_long", 8, [=] { programs<int32>({3, 3}, grow({Load, Store}, {PreInc}), 2, 5); });
	mc::add("two_variables_3", 8, [=] { programs<int32>({2, 1, 1}, grow({Load, Store, Add, Convert, Assign}, {PreInc, PostDec}), 2, 5); });
	mc::add("two_variables_2_2_1", 8, [=] { programs<int32>({2, 2, 1}, grow({Load, Store}, {Add}), 2, 5); });
	mc::add("two_variables_2_2_2", 8, [=] { if (mc::thorough()) programs<int32>({2, 2, 2}, {Load, Store}, 2, 5); else programs<int32>({2, 2, 2}, {Assign, Convert}, 1, 5); });
	mc::add("three_variables", 8, [=] { programs<int32>({2, 2}, grow({Load, Store, Assign, PreInc}, {Convert, Sub, PostDec}), 3, 5); });
	mc::add("three_variables_3", 8, [=] { if (mc::thorough()) programs<int32>({2, 2, 2}, {Load, Assign}, 3, 5); else programs<int32>({2, 1, 1}, {Load, Store, Add}, 3, 5); });
	mc::add("transitive", 1, [] { transitive(mc::choose(8)); });
	mc::add("peterson", 4, [] { peterson(mc::choose(8)); });
	mc::add("ring_2", 4, [] { ring(2); });
	mc::add("ring_3", 8, [] { ring(3); });
	mc::add("tickets", 8, tickets);
	mc::add("bytes", 4, [] { programs<uint8>(mc::thorough() ? V{2, 2} : V{1, 2}, every(), 1, 254); });
	mc::add("words", 4, [] { programs<int16>(mc::thorough() ? V{2, 2} : V{1, 2}, every(), 1, 32766); });
	mc::add("longs", 4, [] { programs<uint64>(mc::thorough() ? V{2, 2} : V{1, 2}, every(), 1, -2); });
	mc::add("pointers", 4, [] { programs<int32*>(mc::thorough() ? V{2, 2} : V{1, 2}, every(), 1, 3); });
	mc::add("counters", 4, counters);
	mc::add("store_buffering", 1, storeBuffering);
	mc::add("publication", 1, [] {
		switch (mc::choose(13))
		{
		case 0: publication<int32>(); break; case 1: publication<uint32>(); break; case 2: publication<int8>(); break; case 3: publication<uint8>(); break; case 4: publication<int16>(); break;
		case 5: publication<uint16>(); break; case 6: publication<int64>(); break; case 7: publication<uint64>(); break; case 8: publication<char>(); break; case 9: publication<widechar>(); break;
		case 10: publication<bool>(); break; case 11: publication<int32*>(); break; default: publication<const char*>(); break;
		}
	});
	mc::add("two_bytes", 4, [=] { programs<int8>({2, 2}, grow({Load, Assign, PreInc, PostDec, Sub}, {Store, Convert}), 2, 5); });
	mc::add("two_words", 4, [=] { programs<uint16>({2, 2}, grow({Convert, Store, PostInc, PreDec, Sub}, {Load, Assign}), 2, 5); });
	mc::add("two_longs", 4, [=] { programs<int64>({2, 2}, grow({Load, Store, PreInc, PostDec, Sub}, {Assign, Convert}), 2, 5); });
	mc::add("two_pointers", 4, [=] { programs<int32*>({2, 2}, grow({Convert, Assign, PostInc, PreDec, Sub}, {Load, Store}), 2, 5); });
	mc::add("independent_reads", 1, independentReads);
	mc::add("last_owner_2", 1, [] { lastOwner(2); });
	mc::add("last_owner_3", 1, [] { lastOwner(3); });
	mc::add("ticket_lock", 1, ticketLock);
	mc::add("exchange_lock", 1, exchangeLock);
	mc::add("relaxed", 1, relaxed);
	mc::add("seq_u8", 1, sequentialByte<uint8>);
	mc::add("seq_i8", 1, sequentialByte<int8>);
	mc::add("seq_i16", 1, sequentialWide<int16>);
	mc::add("seq_u16", 1, sequentialWide<uint16>);
	mc::add("seq_i32", 1, sequentialWide<int32>);
	mc::add("seq_u32", 1, sequentialWide<uint32>);
	mc::add("seq_i64", 1, sequentialWide<int64>);
	mc::add("seq_u64", 1, sequentialWide<uint64>);
	mc::add("seq_pointer", 1, sequentialPointer);
}
MC_MAIN(setup)
