// A deterministic scheduler and weak-memory machine for code compiled with -fsanitize=thread.
//
// The harness is compiled with the compiler's thread instrumentation, but linked against our own
// callbacks (harness/tsanrt.cpp) instead of libtsan. Every access to memory registered with
// share() becomes a scheduling point, and every visible value a choice of the explorer:
//  - threads are coroutines; which one performs its next access is mc::choose()
//  - memory is a view machine: each location keeps all messages (values) written to it; a load may
//    read any message not older than the thread's view; acquire/release/seq_cst transfer views
//    (plain and relaxed accesses transfer nothing), read-modify-writes read the latest message
#pragma once
#include <cstdint>
#include <cstddef>

namespace sched
{
	void begin();								// forget everything
	void share(volatile void * p, size_t size);	// register a location, with its current value
	int spawn(void (*fn)(void*), void * arg);
	bool run(int maxSteps);						// explore one schedule; false if cut by the step bound
	uint64_t last(volatile void * p);			// newest value of a location
	uint64_t accesses();						// instrumented accesses so far (all executions)
	int self();
}
