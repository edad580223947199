// Replacement operator new/delete: allocation faults, fresh-memory fill patterns, accounting.
#include "core.hpp"
#include "sched.hpp"
#include "race.hpp"
#include <cstdlib>
#include <cstdio>
#include <new>

namespace sim {
AllocState alloc;
thread_local int inLib = 0;

namespace {
struct Entry { void* p; std::size_t size; std::uint64_t no; };
struct Set {
	Entry* tab = nullptr;
	std::size_t cap = 0, used = 0, live = 0;
	static std::size_t hash(void* p) { auto x = reinterpret_cast<std::uintptr_t>(p) >> 4; return x * 0x9E3779B97F4A7C15ull >> 20; }
	static constexpr std::uintptr_t tomb = 1;
	void grow() {
		std::size_t ncap = cap == 0 ? 4096 : (live * 4 > cap ? cap * 2 : cap);
		auto* nt = static_cast<Entry*>(std::calloc(ncap, sizeof(Entry)));
		for (std::size_t i = 0; i < cap; ++i) {
			auto v = reinterpret_cast<std::uintptr_t>(tab[i].p);
			if (v <= tomb) continue;
			std::size_t j = hash(tab[i].p) & (ncap - 1);
			while (nt[j].p) j = (j + 1) & (ncap - 1);
			nt[j] = tab[i];
		}
		std::free(tab);
		tab = nt; cap = ncap; used = live;
	}
	void add(void* p, std::size_t size, std::uint64_t no) {
		if ((used + 1) * 2 > cap) grow();
		std::size_t j = hash(p) & (cap - 1);
		while (reinterpret_cast<std::uintptr_t>(tab[j].p) > tomb) j = (j + 1) & (cap - 1);
		if (!tab[j].p) ++used;
		tab[j] = {p, size, no};
		++live;
	}
	bool remove(void* p, std::size_t& size) {
		if (cap == 0) return false;
		std::size_t j = hash(p) & (cap - 1);
		while (tab[j].p) {
			if (tab[j].p == p) {
				size = tab[j].size;
				tab[j].p = reinterpret_cast<void*>(tomb);
				--live;
				return true;
			}
			j = (j + 1) & (cap - 1);
		}
		return false;
	}
	void clear() {
		if (tab) std::memset(static_cast<void*>(tab), 0, cap * sizeof(Entry));
		used = live = 0;
	}
} live;

void* take(std::size_t n, std::size_t align) {
	if (inLib && cur) {
		sched::point(sched::P_ALLOC);
		++alloc.total;
		if (n > alloc.limit) { ++alloc.overLimit; return nullptr; }
		if (n >= alloc.minSize) {
			auto k = alloc.seen++;
			if (k == alloc.failAt || (alloc.persistent && k > alloc.failAt)) {
				++alloc.failed;
				HostScope h;
				cur->fault(F_ALLOC_FAIL);
				// the exact size is not logged: it may legitimately depend on capacity growth
				cur->event("alloc-fault #%llu size=%zu", (unsigned long long) k, n);
				return nullptr;
			}
		}
	}
	void* p = align > 16 ? ::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
	if (!p) return nullptr;
	if (sched::enabled) race::forget(p, n);
	if (inLib && cur) {
		std::memset(p, cur->poison ? 0xA5 : 0x5C, n);
		live.add(p, n, alloc.total);
		alloc.liveBytes += static_cast<std::int64_t>(n);
		if (alloc.liveBytes > alloc.peakBytes) alloc.peakBytes = alloc.liveBytes;
	}
	return p;
}
void give(void* p) {
	if (!p) return;
	if (cur) {
		std::size_t n;
		if (live.remove(p, n)) {
			if (sched::enabled) race::forget(p, n);
			alloc.liveBytes -= static_cast<std::int64_t>(n);
			if (inLib) sched::point(sched::P_FREE);
		}
	}
	std::free(p);
}
} // namespace

void allocReset() { alloc = AllocState{}; live.clear(); }
std::size_t allocLive() { return live.live; }
std::string allocLiveReport() {
	std::string s;
	int shown = 0;
	for (std::size_t i = 0; i < live.cap && shown < 8; ++i)
		if (reinterpret_cast<std::uintptr_t>(live.tab[i].p) > 1) {
			s += sfmt("[block no.%llu size %zu]", (unsigned long long) live.tab[i].no, live.tab[i].size);
			++shown;
		}
	return s;
}
} // namespace sim

void* operator new(std::size_t n) { if (void* p = sim::take(n, 0)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if (void* p = sim::take(n, 0)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::take(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::take(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { if (void* p = sim::take(n, (std::size_t) a)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n, std::align_val_t a) { if (void* p = sim::take(n, (std::size_t) a)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::take(n, (std::size_t) a); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::take(n, (std::size_t) a); }
void operator delete(void* p) noexcept { sim::give(p); }
void operator delete[](void* p) noexcept { sim::give(p); }
void operator delete(void* p, std::size_t) noexcept { sim::give(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::give(p); }
