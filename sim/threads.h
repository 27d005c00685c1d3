// Simulated threads: pthread calls of the code under test become fibers of one
// thread, and every load and store of the instrumented code is a point where the
// schedule may switch.
#pragma once
#include "core.h"

namespace sim {
struct Point { int batch, thread; uint64_t at; }; // pause this thread of this batch before its at-th access
struct Schedule {
	enum { SERIAL, POINTS, RANDOM, STALL, RACY };
	int mode;
	int order;        // 0: creation order, 1: children first, 2: random priorities
	uint64_t seed;
	int shift;        // RANDOM: switch with probability 2^-shift per access
	std::vector<Point> points;
	long fail_create; // this pthread_create (counted from 0) fails with EAGAIN, -1: none
	Schedule() : mode(SERIAL), order(0), seed(1), shift(4), fail_create(-1) {}
};
struct ThreadStats {
	int batches;                                   // groups of threads alive at the same time
	std::vector<std::vector<uint64_t>> len;        // accesses per batch and thread
	uint64_t threads, switches, accesses, order_hash, forced;
	std::vector<std::pair<void *, void *>> conflicts; // code addresses of unordered conflicting accesses
	int open_end;                                  // threads still alive when the session ended
};
void threads_begin(const Schedule &, bool record);
ThreadStats threads_end();
bool threads_active();
void threads_main_stack(const void *bottom, size_t size); // the code under test runs on this stack
bool threads_live(); // is anything but the main thread unfinished?
} // namespace sim
