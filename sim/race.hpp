// Happens-before tracking for simulated threads (vector clocks, a few cells per 8-byte granule).
#pragma once
#include <cstddef>
#include <cstdint>

namespace race {
void start(int threads);
void stop();
void threadEnd(int t);
void acquire(const void* sync);
void release(const void* sync);
void access(const void* p, std::size_t n, bool write, const void* pc);
void forget(const void* p, std::size_t n); // memory was (re)allocated
extern std::uint64_t accesses;
} // namespace race
