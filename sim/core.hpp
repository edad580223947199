// Simulator core: the one source of choices, the event log, counters, violations.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

inline std::uint64_t splitmix(std::uint64_t& s) {
	std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
	std::uint64_t s = a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull);
	return splitmix(s);
}
inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
	auto* c = static_cast<const unsigned char*>(p);
	for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
inline std::uint64_t fnv(std::string_view s, std::uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// Every random decision of a run is one entry of this sequence. A seed drives it in search mode; a
// recorded list drives it in replay mode (missing entries are 0 = "the simplest alternative").
extern std::uint32_t* choiceTap; // when set, choices are also stored here as they are drawn ([0] = count)
extern int traceFd;              // when >= 0, verbose events are written here at once (survives a crash)
struct Choices {
	bool replay = false;
	std::vector<std::uint32_t> in;
	std::vector<std::uint32_t> rec;
	std::uint64_t rng = 0;
	std::size_t pos = 0;
	void push(std::uint32_t v) {
		rec.push_back(v);
		if (choiceTap && choiceTap[0] < (1u << 22)) choiceTap[++choiceTap[0]] = v;
	}
	std::uint32_t raw(std::uint32_t n) {
		std::uint32_t v;
		if (replay) v = pos < in.size() ? in[pos] : 0;
		else v = static_cast<std::uint32_t>(splitmix(rng) >> 32);
		++pos;
		if (n != 0) v = replay ? (v < n ? v : v % n) : static_cast<std::uint32_t>((static_cast<std::uint64_t>(v) * n) >> 32);
		push(v);
		return v;
	}
	// 1 with probability num/den, else 0; replays as recorded.
	bool chance(std::uint32_t num, std::uint32_t den) {
		std::uint32_t v;
		if (replay) v = pos < in.size() ? (in[pos] != 0) : 0;
		else v = (splitmix(rng) >> 32) % den < num;
		++pos;
		push(v);
		return v != 0;
	}
};

enum Fault : int {
	F_OPEN_FAIL, F_READ_EIO, F_READ_SHORT_EOF, F_SHRINK, F_GROW, F_VANISH, F_STAT_FAIL, F_MMAP_FAIL, F_SEEK_FAIL,
	F_SHORT_READ, F_EINTR, F_WRITE_ENOSPC, F_WRITE_EIO, F_SHORT_WRITE, F_TORN_WRITE, F_MKDIR_FAIL, F_CLOSE_FAIL, F_RENAME_FAIL,
	F_CRASH, F_LOST_FILE, F_TRUNCATE, F_BITFLIP, F_SPLICE, F_GARBAGE, F_ALLOC_FAIL, F_THROW_CALLBACK, F_NULL_MAP,
	F_PREEMPT, F_THREAD_SWITCH, F_GETTER_THROW, F_COUNT
};
extern const char* const faultNames[F_COUNT];

// Named coverage probes: conditions a scenario wants to have reached.
enum { MAX_PROBES = 96 };
int probeId(const char* name); // registers on first use (before the workers fork or lazily, same order per run)

struct Shared; // counters shared with the driver

struct Sim {
	Choices ch;
	std::string prop, scenario;
	bool verbose = false;
	int poison = 0;           // which fill pattern fresh memory gets
	std::uint64_t log = 0;    // rolling hash of the event log
	std::uint64_t obs = 0;    // rolling hash of what the user observed
	std::uint64_t steps = 0;  // simulated time: number of simulated operations
	bool nontrivial = false;
	std::string trace;        // text of the event log when verbose
	std::vector<std::string> sampleNotes;
	std::string violKind, violMsg;
	std::uint32_t faults[F_COUNT] = {};

	std::uint32_t pick(std::uint32_t n) { return n <= 1 ? 0 : ch.raw(n); }
	std::uint32_t range(std::uint32_t lo, std::uint32_t hi) { return lo + pick(hi - lo + 1); }
	bool chance(std::uint32_t num, std::uint32_t den) { return ch.chance(num, den); }
	// Weighted pick, index 0 is the simplest.
	int weighted(std::initializer_list<int> w);
	std::uint64_t bits() { std::uint64_t a = ch.raw(0); return (a << 32) | ch.raw(0); }
	std::uint32_t bits32() { return ch.raw(0); }

	void event(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void observe(std::string_view s);
	void fault(Fault f) { ++faults[f]; nontrivial = true; }
	void probe(const char* name);
	void note(std::string s) { if (sampleNotes.size() < 40) sampleNotes.push_back(std::move(s)); }
	// Records the first violation; check failed() / throw Stop from scenario code.
	void violate(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	bool failed() const { return !violKind.empty(); }
};
struct Stop {}; // thrown by scenario code (never through library frames) to end a run early

extern Sim* cur; // the running simulation (null outside runs)

#define SIM_REQUIRE(cond, kind, ...) do { if (!(cond)) { ::sim::cur->violate(kind, __VA_ARGS__); throw ::sim::Stop{}; } } while (0)

std::string sfmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- memory ----
struct AllocState {
	// fault plan: fail the nth (0-based) in-library allocation of at least minSize bytes; persistent keeps failing.
	std::uint64_t failAt = ~0ull;
	std::uint64_t minSize = 0;
	bool persistent = false;
	std::uint64_t seen = 0;     // eligible allocations so far
	std::uint64_t failed = 0;
	std::uint64_t limit = 1ull << 29; // larger single requests fail like on a machine without that memory
	std::uint64_t overLimit = 0;
	std::int64_t liveBytes = 0;
	std::int64_t peakBytes = 0;
	std::uint64_t total = 0;
};
extern AllocState alloc;
extern thread_local int inLib; // >0 while library code runs
struct LibScope { int s; LibScope() : s(inLib) { inLib = 1; } ~LibScope() { inLib = s; } };
struct HostScope { int s; HostScope() : s(inLib) { inLib = 0; } ~HostScope() { inLib = s; } };
void allocReset();
std::size_t allocLive();                 // number of live blocks the library allocated
std::string allocLiveReport();

// ---- scenarios ----
struct Scenario {
	const char* prop;
	const char* name;
	int weight;
	void (*run)(Sim&);
	bool twoPoisons; // run twice with different fill patterns and compare
};
void addScenario(const Scenario& s);
struct Register { Register(const char* p, const char* n, int w, void (*f)(Sim&), bool two = false) { addScenario({p, n, w, f, two}); } };

std::vector<void (*)()>& runStart(); // called before every run
// Known findings and assumptions contributed to evidence
void addAssumption(const char* prop, const char* text);
struct Assumption { Assumption(const char* p, const char* t) { addAssumption(p, t); } };
} // namespace sim
