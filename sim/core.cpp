#include "core.hpp"
#include <cstdio>
#include <map>
#include <unistd.h>

namespace sim {
std::vector<void (*)()>& runStart() { static std::vector<void (*)()> v; return v; }
const char* const faultNames[F_COUNT] = {
	"open_fail","read_eio","read_premature_eof","file_shrinks","file_grows","file_vanishes","stat_fail","mmap_fail","seek_fail",
	"short_read","eintr","write_enospc","write_eio","short_write","torn_write","mkdir_fail","close_fail","rename_fail",
	"crash","lost_file","truncated_file","bit_flip","splice","garbage","alloc_fail","callback_throws","map_declined",
	"preemption","thread_switch","source_throws"
};
Sim* cur = nullptr;
std::uint32_t* choiceTap = nullptr;
int traceFd = -1;
static void traceOut(const char* p, std::size_t n) { if (traceFd >= 0) { auto r = ::write(traceFd, p, n); (void) r; } }

int Sim::weighted(std::initializer_list<int> w) {
	int total = 0;
	for (int x : w) total += x;
	// recorded as the index so that replay and shrinking see small numbers
	if (ch.replay) return static_cast<int>(pick(static_cast<std::uint32_t>(w.size())));
	std::uint32_t v = static_cast<std::uint32_t>((splitmix(ch.rng) >> 32) % total);
	int idx = 0;
	for (int x : w) {
		if (v < static_cast<std::uint32_t>(x)) break;
		v -= x;
		++idx;
	}
	if (w.size() > 1) { ++ch.pos; ch.push(static_cast<std::uint32_t>(idx)); }
	return idx;
}

std::string sfmt(const char* fmt, ...) {
	char buf[2048];
	va_list ap; va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	return buf;
}

void Sim::event(const char* fmt, ...) {
	HostScope h;
	char buf[1024];
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	if (n < 0) return;
	if (n >= static_cast<int>(sizeof buf)) n = sizeof buf - 1;
	log = mix(log, fnv(std::string_view(buf, n)));
	++steps;
	if (verbose) { traceOut(buf, static_cast<std::size_t>(n)); traceOut("\n", 1); }
}
void Sim::observe(std::string_view s) {
	HostScope h;
	obs = mix(obs, fnv(s));
	if (verbose) {
		std::string t = "  observe " + std::string(s.substr(0, 4000)) + "\n";
		traceOut(t.data(), t.size());
	}
}
void Sim::violate(const char* kind, const char* fmt, ...) {
	HostScope h;
	if (failed()) return;
	char buf[6000];
	va_list ap; va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	violKind = kind;
	violMsg = buf;
	if (verbose) { std::string t = std::string("VIOLATION ") + kind + ": " + buf + "\n"; traceOut(t.data(), t.size()); }
}
} // namespace sim
