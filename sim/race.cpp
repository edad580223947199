#include "race.hpp"
#include "core.hpp"
#include "sched.hpp"
#include <dlfcn.h>
#include <execinfo.h>
#include <unordered_map>

namespace race {
std::uint64_t accesses = 0;
namespace {
constexpr int N = 8;
struct VC { std::uint32_t c[N] = {}; };
bool active = false;
int n = 0;
VC clk[N];
std::unordered_map<const void*, VC> syncs;
struct Cell { std::uint32_t clock; std::uint8_t tid, mask; bool write, used; const void* pc; };
struct Granule { Cell c[4]; std::uint8_t next; };
std::unordered_map<std::uintptr_t, Granule> shadow;

std::string where(const void* pc) {
	Dl_info i;
	if (pc && dladdr(pc, &i) && i.dli_sname) return sim::sfmt("%s+0x%zx", i.dli_sname, (std::size_t) ((const char*) pc - (const char*) i.dli_saddr));
	return sim::sfmt("%p", pc);
}
void one(std::uintptr_t g, std::uint8_t mask, bool write, int t, const void* pc) {
	auto& gr = shadow[g];
	int slot = -1;
	for (int i = 0; i < 4; ++i) {
		auto& c = gr.c[i];
		if (!c.used) { if (slot < 0) slot = i; continue; }
		if (c.tid == t) {
			if (c.mask == mask && (write || !c.write)) slot = i;
			continue;
		}
		if (!(c.mask & mask) || !(c.write || write)) continue;
		if (c.clock > clk[t].c[c.tid]) {
			sim::cur->violate("data-race", "thread %d %s and thread %d %s the same memory without synchronisation: %s and %s",
				t, write ? "writes" : "reads", c.tid, c.write ? "wrote" : "read", where(pc).c_str(), where(c.pc).c_str());
		}
	}
	if (slot < 0) slot = gr.next++ & 3;
	gr.c[slot] = {clk[t].c[t], static_cast<std::uint8_t>(t), mask, write, true, pc};
}
} // namespace

void start(int threads) {
	active = true;
	n = threads;
	shadow.clear();
	syncs.clear();
	for (int i = 0; i < N; ++i) { clk[i] = VC{}; clk[i].c[i] = 1; }
}
void stop() { active = false; shadow.clear(); syncs.clear(); }
void threadEnd(int) {}
void acquire(const void* s) {
	int t = sched::self();
	if (!active || t < 0) return;
	sim::HostScope hs;
	auto it = syncs.find(s);
	if (it == syncs.end()) return;
	for (int i = 0; i < n; ++i) if (it->second.c[i] > clk[t].c[i]) clk[t].c[i] = it->second.c[i];
}
void release(const void* s) {
	int t = sched::self();
	if (!active || t < 0) return;
	sim::HostScope hs;
	auto& v = syncs[s];
	for (int i = 0; i < n; ++i) if (clk[t].c[i] > v.c[i]) v.c[i] = clk[t].c[i];
	++clk[t].c[t];
}
void access(const void* p, std::size_t len, bool write, const void* pc) {
	int t = sched::self();
	if (!active || t < 0 || !sim::inLib) return;
	// the simulated thread's own stack is private
	sim::HostScope hs;
	char here;
	auto a = reinterpret_cast<std::uintptr_t>(p);
	auto sp = reinterpret_cast<std::uintptr_t>(&here);
	if (a + (1u << 23) > sp && a < sp + (1u << 23)) return;
	++accesses;
	while (len) {
		std::uintptr_t g = a >> 3;
		unsigned off = a & 7;
		unsigned k = 8 - off < len ? 8 - off : static_cast<unsigned>(len);
		one(g, static_cast<std::uint8_t>(((1u << k) - 1u) << off), write, t, pc);
		a += k;
		len -= k;
	}
}
void forget(const void* p, std::size_t len) {
	if (!active || !len) return;
	sim::HostScope hs;
	auto a = reinterpret_cast<std::uintptr_t>(p) >> 3, b = (reinterpret_cast<std::uintptr_t>(p) + len - 1) >> 3;
	if (b - a > shadow.size() * 2 + 64) {
		for (auto it = shadow.begin(); it != shadow.end();) if (it->first >= a && it->first <= b) it = shadow.erase(it); else ++it;
		return;
	}
	for (auto g = a; g <= b; ++g) shadow.erase(g);
}
} // namespace race
