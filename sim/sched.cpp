#include "sched.hpp"
#include "race.hpp"
#include <cerrno>
#include <dlfcn.h>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace sim { void abortRun(const char* kind, const char* msg); }

namespace sched {
bool enabled = false;
std::uint64_t switches = 0, points = 0, scheduleHash = 0;
namespace {
struct Th {
	pthread_t th;
	sem_t sem;
	std::function<void()> body;
	bool done = false, waiting = false;
	int inLibSaved = 0;
};
std::vector<std::unique_ptr<Th>> ths;
sem_t mainSem;
thread_local int me = -1;
int current = -1;
Config cfg;
std::uint64_t gap = 0;
int switchesLeft = 0;
std::uint64_t pointLimit = 0, allPoints = 0, syncRun = 0;

void waitSem(sem_t* s) { while (sem_wait(s) != 0) {} }

void drawGap() {
	sim::HostScope hs;
	if (switchesLeft <= 0) { gap = ~0ull; return; }
	int mean = points < static_cast<std::uint64_t>(cfg.burst) ? cfg.burstGap : cfg.meanGap;
	auto g = sim::cur->pick(static_cast<std::uint32_t>(2 * mean + 1));
	gap = g == 0 ? ~0ull : g;
}
int pickOther(bool includeWaiting) {
	int c[16], n = 0;
	for (int i = 0; i < static_cast<int>(ths.size()); ++i)
		if (i != current && !ths[i]->done && (includeWaiting || !ths[i]->waiting)) c[n++] = i;
	if (n == 0) return -1;
	return c[sim::cur->pick(static_cast<std::uint32_t>(n))];
}
void switchTo(int t) {
	sim::HostScope hs;
	++switches;
	sim::cur->fault(sim::F_THREAD_SWITCH);
	scheduleHash = sim::mix(scheduleHash, (points << 4) | static_cast<unsigned>(t));
	int self = current;
	current = t;
	sem_post(&ths[t]->sem);
	if (self >= 0 && !ths[self]->done) waitSem(&ths[self]->sem);
}
void* entry(void* a) {
	auto idx = static_cast<int>(reinterpret_cast<std::intptr_t>(a));
	me = idx;
	waitSem(&ths[idx]->sem);
	ths[idx]->body();
	ths[idx]->done = true;
	race::threadEnd(idx);
	for (auto& t : ths) t->waiting = false;
	int n = pickOther(true);
	if (n >= 0) switchTo(n);
	else { current = -1; sem_post(&mainSem); }
	me = -1;
	return nullptr;
}
} // namespace

int self() { return me; }

void pointSlow(Point p) {
	if (me < 0 || me != current) return;
	if (++allPoints > pointLimit) sim::abortRun("no-progress", "simulated threads did not finish within the step bound");
	if (cfg.globals && (p == P_MEM || p == P_ALLOC || p == P_FREE)) return;
	++points;
	bool fair = false;
	if (p == P_SYNC || p == P_YIELD) {
		// a thread that polls something another thread has to do does not starve it
		if (++syncRun > 3000 || (p == P_YIELD && syncRun % 4 == 0)) { syncRun = 0; fair = true; }
	}
	if (!fair && --gap != 0) return;
	sim::HostScope hs;
	if (!fair) --switchesLeft;
	int n = pickOther(true);
	if (!fair || gap == 0) drawGap();
	if (n < 0) return;
	if (!fair) sim::cur->fault(sim::F_PREEMPT);
	switchTo(n);
}
bool blockedYield() {
	sim::HostScope hs;
	ths[me]->waiting = true;
	int n = pickOther(false);
	if (n < 0) return false;
	switchTo(n);
	return true;
}
void yieldLocked() { for (auto& t : ths) t->waiting = false; }

bool run(std::vector<std::function<void()>> bodies, const Config& c) {
	sim::HostScope hs;
	cfg = c;
	ths.clear();
	switches = points = 0;
	scheduleHash = 0;
	switchesLeft = c.maxSwitches;
	pointLimit = 60000000ull;
	allPoints = syncRun = 0;
	sem_init(&mainSem, 0, 0);
	race::start(static_cast<int>(bodies.size()));
	for (auto& b : bodies) {
		auto t = std::make_unique<Th>();
		sem_init(&t->sem, 0, 0);
		t->body = std::move(b);
		ths.push_back(std::move(t));
	}
	for (std::size_t i = 0; i < ths.size(); ++i)
		pthread_create(&ths[i]->th, nullptr, entry, reinterpret_cast<void*>(static_cast<std::intptr_t>(i)));
	drawGap();
	current = -1;
	int first = pickOther(true);
	enabled = true;
	current = first;
	sem_post(&ths[first]->sem);
	waitSem(&mainSem);
	enabled = false;
	for (auto& t : ths) pthread_join(t->th, nullptr);
	race::stop();
	ths.clear();
	return true;
}
} // namespace sched

// ---- blocking primitives: a simulated thread never blocks for real ----
namespace {
template <typename F> F realFn(const char* n) {
	void* p = ::dlsym(RTLD_NEXT, n);
	F f;
	std::memcpy(&f, &p, sizeof f);
	return f;
}
bool simThread() { return sched::enabled && sched::self() >= 0; }
void blockOr(const char* what) {
	if (!sched::blockedYield()) sim::abortRun("deadlock", what);
}
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
	static auto lock = realFn<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
	static auto tryl = realFn<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
	if (!simThread()) return lock(m);
	sched::point(sched::P_SYNC);
	for (;;) {
		int r = tryl(m);
		if (r != EBUSY) { if (r == 0) race::acquire(m); return r; }
		blockOr("every simulated thread waits for a lock");
	}
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	static auto unlock = realFn<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
	if (!simThread()) return unlock(m);
	race::release(m);
	int r = unlock(m);
	sched::yieldLocked();
	sched::point(sched::P_SYNC);
	return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	static auto tryl = realFn<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
	if (simThread()) sched::point(sched::P_YIELD);
	int r = tryl(m);
	if (r == 0 && simThread()) race::acquire(m);
	return r;
}
// A waiting thread is woken by any signal (spurious wakeups are legal), so it polls in turn with the others.
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	static auto wait = realFn<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
	if (!simThread()) return wait(c, m);
	pthread_mutex_unlock(m);
	blockOr("every simulated thread waits for a condition");
	race::acquire(c);
	return pthread_mutex_lock(m);
}
int pthread_cond_signal(pthread_cond_t* c) {
	static auto f = realFn<int (*)(pthread_cond_t*)>("pthread_cond_signal");
	if (!simThread()) return f(c);
	race::release(c);
	sched::yieldLocked();
	sched::point(sched::P_SYNC);
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
	static auto f = realFn<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
	if (!simThread()) return f(c);
	race::release(c);
	sched::yieldLocked();
	sched::point(sched::P_SYNC);
	return 0;
}
int sched_yield() {
	static auto f = realFn<int (*)()>("sched_yield");
	if (!simThread()) return f();
	sched::point(sched::P_YIELD);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
	static auto lock = realFn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
	static auto tryl = realFn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
	if (!simThread()) return lock(m);
	sched::point(sched::P_SYNC);
	for (;;) {
		int r = tryl(m);
		if (r != EBUSY) { if (r == 0) race::acquire(m); return r; }
		blockOr("every simulated thread waits for a lock");
	}
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
	static auto lock = realFn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
	static auto tryl = realFn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
	if (!simThread()) return lock(m);
	sched::point(sched::P_SYNC);
	for (;;) {
		int r = tryl(m);
		if (r != EBUSY) { if (r == 0) race::acquire(m); return r; }
		blockOr("every simulated thread waits for a lock");
	}
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
	static auto unlock = realFn<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
	if (!simThread()) return unlock(m);
	race::release(m);
	int r = unlock(m);
	sched::yieldLocked();
	sched::point(sched::P_SYNC);
	return r;
}
// glibc: 0 = never run, 2 = done; 1 marks "running" here (only one thread runs at a time)
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
	auto* v = reinterpret_cast<int*>(o);
	bool s = simThread();
	for (;;) {
		int x = __atomic_load_n(v, __ATOMIC_ACQUIRE);
		if (x == 2) { if (s) race::acquire(o); return 0; }
		if (x == 0) break;
		if (s) blockOr("once-initialisation never completes");
		else usleep(10);
	}
	__atomic_store_n(v, 1, __ATOMIC_RELEASE);
	if (s) sched::point(sched::P_SYNC);
	try {
		fn();
	} catch (...) {
		__atomic_store_n(v, 0, __ATOMIC_RELEASE);
		if (s) { race::release(o); sched::yieldLocked(); }
		throw;
	}
	if (s) race::release(o);
	__atomic_store_n(v, 2, __ATOMIC_RELEASE);
	if (s) { sched::yieldLocked(); sched::point(sched::P_SYNC); }
	return 0;
}
// Itanium ABI guard: byte 0 = initialised, byte 1 = in progress
int __cxa_guard_acquire(long long int* g) {
	auto* b = reinterpret_cast<unsigned char*>(g);
	bool s = simThread();
	for (;;) {
		if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { if (s) race::acquire(g); return 0; }
		if (!b[1]) { b[1] = 1; if (s) { race::acquire(g); sched::point(sched::P_SYNC); } return 1; }
		if (s) blockOr("static initialisation never completes");
		else usleep(10);
	}
}
void __cxa_guard_release(long long int* g) {
	auto* b = reinterpret_cast<unsigned char*>(g);
	bool s = simThread();
	if (s) race::release(g);
	b[1] = 0;
	__atomic_store_n(b, 1, __ATOMIC_RELEASE);
	if (s) { sched::yieldLocked(); sched::point(sched::P_SYNC); }
}
void __cxa_guard_abort(long long int* g) {
	reinterpret_cast<unsigned char*>(g)[1] = 0;
	if (simThread()) sched::yieldLocked();
}
}
