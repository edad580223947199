// Deterministic thread scheduler: real threads, exactly one runs at a time, a seeded choice decides every switch.
#pragma once
#include "core.hpp"

namespace sched {
enum Point { P_ALLOC, P_FREE, P_SYSCALL, P_CALLBACK, P_MEM, P_GLOBAL, P_SYNC, P_YIELD };
extern bool enabled; // true while simulated threads run
void pointSlow(Point p);
inline void point(Point p) { if (__builtin_expect(enabled, 0)) pointSlow(p); }

struct Config {
	int meanGap = 50;        // mean number of points between preemptions
	int maxSwitches = 400;   // preemptions per run (bounds the recorded schedule)
	int burst = 0, burstGap = 4; // the first so many points are preempted more densely
	bool globals = false;    // count only accesses to static storage, atomics, locks and calls to the outside, not heap accesses
};
// Runs the bodies as simulated threads to completion. Returns false if they stopped making progress.
bool run(std::vector<std::function<void()>> bodies, const Config& cfg);
int self();                 // simulated thread number, -1 outside
extern std::uint64_t switches, points;
extern std::uint64_t scheduleHash;
// used by the lock interposers
bool blockedYield();        // called when a lock is taken by a descheduled thread; false = deadlock
void yieldLocked();
} // namespace sched
