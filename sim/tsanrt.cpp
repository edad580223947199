// The callbacks the compiler inserts with -fsanitize=thread, answered by the simulator: every memory access of the
// library is a point where the scheduler may switch, and is checked against the happens-before order so far.
#include "race.hpp"
#include "sched.hpp"
#include <cstdint>

extern "C" char __data_start[], _end[];
namespace {
inline void acc(const void* p, std::size_t n, bool w, const void* pc) {
	if (__builtin_expect(!sched::enabled, 1)) return;
	race::access(p, n, w, pc);
	if (sim::inLib) sched::point(static_cast<const char*>(p) >= __data_start && static_cast<const char*>(p) < _end ? sched::P_GLOBAL : sched::P_MEM);
}
inline void before(const volatile void*) { if (sched::enabled && sim::inLib) sched::point(sched::P_SYNC); }
inline bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline void sync(const volatile void* a, int mo) {
	if (!sched::enabled) return;
	auto* p = const_cast<const void*>(a);
	if (acquires(mo)) race::acquire(p);
	if (releases(mo)) race::release(p);
}
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
	void __tsan_read##N(void* p) { acc(p, N, false, PC); } \
	void __tsan_write##N(void* p) { acc(p, N, true, PC); } \
	void __tsan_unaligned_read##N(void* p) { acc(p, N, false, PC); } \
	void __tsan_unaligned_write##N(void* p) { acc(p, N, true, PC); } \
	void __tsan_volatile_read##N(void* p) { acc(p, N, false, PC); } \
	void __tsan_volatile_write##N(void* p) { acc(p, N, true, PC); } \
	void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, false, PC); } \
	void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, true, PC); } \
	void __tsan_read##N##_pc(void* p, void*) { acc(p, N, false, PC); } \
	void __tsan_write##N##_pc(void* p, void*) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n) { acc(p, n, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) acc(p, sizeof *p, true, PC); }
void __tsan_vptr_read(void** p) { acc(p, sizeof *p, false, PC); }
#define AT(N, T) \
	T __tsan_atomic##N##_load(const volatile T* a, int mo) { before(a); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (acquires(mo)) race::acquire(const_cast<const T*>(a)); return v; } \
	void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { before(a); sync(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { before(a); sync(a, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { before(a); sync(a, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { before(a); sync(a, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { before(a); sync(a, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { before(a); sync(a, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { before(a); sync(a, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { before(a); sync(a, mo); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { before(a); sync(a, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { before(a); sync(a, mo); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { before(a); sync(a, mo); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) { static int all; race::acquire(&all); race::release(&all); }
void __tsan_atomic_signal_fence(int) {}
}
// bulk accesses of the instrumented code (linked with --wrap)
extern "C" {
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void* __wrap_malloc(std::size_t n) { void* p = __real_malloc(n); if (p && sched::enabled) race::forget(p, n); return p; }
void* __wrap_calloc(std::size_t a, std::size_t b) { void* p = __real_calloc(a, b); if (p && sched::enabled) race::forget(p, a * b); return p; }
void* __wrap_realloc(void* o, std::size_t n) { void* p = __real_realloc(o, n); if (p && sched::enabled) race::forget(p, n); return p; }
int __real_memcmp(const void*, const void*, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) { if (n) { acc(s, n, false, PC); acc(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, std::size_t n) { if (n) { acc(s, n, false, PC); acc(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { if (n) acc(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, std::size_t n) { if (n) { acc(a, n, false, PC); acc(b, n, false, PC); } return __real_memcmp(a, b, n); }
}
