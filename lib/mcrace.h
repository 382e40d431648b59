// A deterministic scheduler with a happens-before race detector for code compiled with
// -fsanitize=thread. The harness links against our own callbacks (harness/racert.cpp), not libtsan.
//
// Threads are coroutines. Between two synchronizing operations a thread runs undisturbed: if no two
// threads make conflicting unordered accesses (which is what the detector decides, access by access,
// with vector clocks) all schedules that keep the order of the synchronizing operations are
// equivalent, so it is enough to explore the orders of those. At each of them (atomic access, lock,
// initialization guard) which thread goes on is mc::choose(), up to a number of preemptions.
#pragma once
#include <cstdint>
#include <cstddef>

namespace race
{
	void begin();								// forget everything, release the memory of the last execution
	void spawn(void (*fn)(void*), void * arg);	// a thread; what the main program did before is ordered before it
	void run(int preemptions);					// explore one schedule, to the end of all threads
	const char * found();						// description of the first race (or deadlock), or null
	uint64_t accesses(), syncs();				// totals
}
