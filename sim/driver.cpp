// Search driver: seeds -> runs in worker processes; confirmation, minimisation, replay files, evidence.
#include "core.hpp"
#include "vfs.hpp"
#include "sched.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
namespace {
std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
std::vector<std::pair<std::string, std::string>>& assumptions() { static std::vector<std::pair<std::string, std::string>> r; return r; }

constexpr std::size_t TAB = 1u << 21;
constexpr int MAXW = 64;
struct Slot {
	std::atomic<std::uint64_t> index;    // run in progress
	std::atomic<int> state;              // 0 idle, 1 running
	char kind[64];
	char msg[4096];
	std::uint64_t violIndex;
	std::uint64_t log, obs;
};
struct SharedMem {
	std::atomic<std::uint64_t> runs, steps, nontrivial, distinct, distinctFull, recheck, nondet, scheduleSwitches, choices;
	std::atomic<std::uint64_t> scenarioRuns[64];
	std::atomic<std::uint64_t> faults[F_COUNT];
	std::atomic<std::uint64_t> probeCount[MAX_PROBES];
	char probeName[MAX_PROBES][80];
	std::atomic<int> probes;
	std::atomic<int> probeLock;
	std::atomic<int> stop;
	std::atomic<std::uint64_t> samples[8];
	std::atomic<int> nsamples;
	std::atomic<std::uint64_t> nondetIndex;
	Slot slot[MAXW];
	std::atomic<std::uint64_t> tab[TAB];
};
SharedMem* shm = nullptr;
int mySlot = 0;
bool counting = false;

bool insertHash(std::uint64_t h) {
	if (h == 0) h = 1;
	std::size_t i = h & (TAB - 1);
	for (int n = 0; n < 64; ++n) {
		std::uint64_t v = shm->tab[i].load(std::memory_order_relaxed);
		if (v == h) return false;
		if (v == 0) {
			if (shm->tab[i].compare_exchange_strong(v, h)) return true;
			if (v == h) return false;
		}
		i = (i + 1) & (TAB - 1);
	}
	return false; // table crowded: not counted
}

double now() {
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
void onAlarm(int) {
	auto& s = shm->slot[mySlot];
	std::strcpy(s.kind, "hang");
	std::strcpy(s.msg, "a run used more than its CPU bound");
	_exit(77);
}
void armTimer(int sec) {
	struct itimerval it{};
	it.it_value.tv_sec = sec;
	setitimer(ITIMER_PROF, &it, nullptr);
}

struct Result {
	std::string kind, msg;
	std::vector<std::uint32_t> rec;
	std::uint64_t log = 0, obs = 0, steps = 0;
	bool nontrivial = false;
};

Result execOnce(const Scenario& sc, std::uint64_t seed, const std::vector<std::uint32_t>* replay, int poison, bool verbose) {
	Result r;
	Sim s;
	s.prop = sc.prop;
	s.scenario = sc.name;
	s.verbose = verbose;
	s.poison = poison;
	s.ch.rng = seed;
	if (choiceTap) choiceTap[0] = 0;
	if (replay) { s.ch.replay = true; s.ch.in = *replay; }
	allocReset();
	vfs::reset();
	for (auto f : runStart()) f();
	cur = &s;
	inLib = 0;
	try {
		sc.run(s);
	} catch (const Stop&) {
	} catch (const std::exception& e) {
		inLib = 0;
		s.violate("exception-escaped", "exception reached the caller: %s", e.what());
	} catch (...) {
		inLib = 0;
		s.violate("exception-escaped", "unknown exception reached the caller");
	}
	inLib = 0;
	sched::enabled = false;
	vfs::finish();
	cur = nullptr;
	allocReset();
	r.kind = std::move(s.violKind);
	r.msg = std::move(s.violMsg);
	r.rec = std::move(s.ch.rec);
	r.log = s.log;
	r.obs = s.obs;
	r.steps = s.steps;
	r.nontrivial = s.nontrivial;
	if (counting) for (int i = 0; i < F_COUNT; ++i) if (s.faults[i]) shm->faults[i] += s.faults[i];
	return r;
}

// One run of the search: the scenario, plus (where asked) the same choices under another memory fill pattern.
Result execRun(const Scenario& sc, std::uint64_t seed, const std::vector<std::uint32_t>* replay, bool verbose, int cpuSec) {
	armTimer(cpuSec);
	Result r = execOnce(sc, seed, replay, 0, verbose);
	if (r.kind.empty() && sc.twoPoisons) {
		bool c = counting;
		counting = false;
		Result b = execOnce(sc, seed, &r.rec, 1, false);
		if (!b.kind.empty()) { r.kind = b.kind; r.msg = b.msg + " (with the second fill pattern)"; }
		else if (b.obs != r.obs || b.log != r.log) {
			Result a2 = execOnce(sc, seed, &r.rec, 0, false);
			if (a2.obs == r.obs && a2.log == r.log) {
				r.kind = "uninitialised-memory";
				r.msg = sfmt("the outcome depends on the contents of memory that was never written (%s differ)", b.obs != r.obs ? "observations" : "operation histories");
				if (verbose) {
					static const char sep[] = "---- with the second fill pattern ----\n";
					if (traceFd >= 0) { auto w = ::write(traceFd, sep, sizeof sep - 1); (void) w; }
					execOnce(sc, seed, &r.rec, 1, true);
				}
			}
		}
		counting = c;
	}
	armTimer(0);
	return r;
}

std::uint64_t runSeed(std::uint64_t seed, const std::string& prop, std::uint64_t i) { return mix(mix(seed, fnv(prop)), i); }
struct Plan2 { std::vector<const Scenario*> wheel; };
Plan2 wheelFor(const std::string& prop) {
	Plan2 p;
	for (auto& s : registry()) if (s.prop == prop) for (int i = 0; i < s.weight; ++i) p.wheel.push_back(&s);
	return p;
}
const Scenario* findScenario(const std::string& prop, const std::string& name) {
	for (auto& s : registry()) if (prop == s.prop && name == s.name) return &s;
	return nullptr;
}
bool freshProcess(const Scenario& s) { return std::string(s.prop) == "C08"; }

std::string classify(int status, int slot, const std::string& errFile, std::string& detail) {
	auto& sl = shm->slot[slot];
	if (WIFEXITED(status) && (WEXITSTATUS(status) == 77 || WEXITSTATUS(status) == 78)) { detail = sl.msg; return sl.kind; }
	std::string txt;
	{ std::ifstream f(errFile); std::stringstream ss; ss << f.rdbuf(); txt = ss.str(); }
	detail = txt.substr(0, 3500);
	auto k = txt.find("AddressSanitizer: ");
	if (k != std::string::npos) {
		auto e = txt.find_first_of(" \n", k + 18);
		return "crash-" + txt.substr(k + 18, e - k - 18);
	}
	if (txt.find("runtime error:") != std::string::npos) return "crash-undefined-behaviour";
	if (txt.find("terminate called") != std::string::npos) return "crash-terminate";
	if (txt.find("Assertion") != std::string::npos) return "crash-assertion";
	if (WIFSIGNALED(status)) return sfmt("crash-signal-%d", WTERMSIG(status));
	return sfmt("crash-exit-%d", WEXITSTATUS(status));
}

std::string tmpDir;
std::string errPath(int slot) { return tmpDir + "/err." + std::to_string(slot); }

void redirectErr(int slot) {
	int fd = ::open(errPath(slot).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
	if (fd >= 0) { dup2(fd, 2); ::close(fd); }
}

// Runs a recorded choice list in a child; returns the violation kind ("" = none).
std::string tryChoices(const Scenario& sc, std::uint64_t seed, const std::vector<std::uint32_t>& ch, std::vector<std::uint32_t>& outRec, std::string& msg, int cpu) {
	int pfd[2];
	if (pipe(pfd) != 0) return "";
	int slot = MAXW - 1;
	pid_t pid = fork();
	if (pid == 0) {
		::close(pfd[0]);
		redirectErr(slot);
		mySlot = slot;
		counting = false;
		Result r = execRun(sc, seed, &ch, false, cpu);
		std::string out = r.kind + "\n" + r.msg.substr(0, 3000);
		std::uint32_t n = static_cast<std::uint32_t>(r.rec.size()), m = static_cast<std::uint32_t>(out.size());
		auto put = [&](const void* p, std::size_t k) { auto* c = static_cast<const char*>(p); while (k) { auto w = ::write(pfd[1], c, k); if (w <= 0) break; c += w; k -= static_cast<std::size_t>(w); } };
		put(&m, 4); put(out.data(), m); put(&n, 4); put(r.rec.data(), n * 4ull);
		_exit(0);
	}
	::close(pfd[1]);
	std::string buf;
	char tmp[65536];
	for (;;) { auto k = ::read(pfd[0], tmp, sizeof tmp); if (k <= 0) break; buf.append(tmp, static_cast<std::size_t>(k)); }
	::close(pfd[0]);
	int status = 0;
	waitpid(pid, &status, 0);
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && buf.size() >= 8) {
		std::uint32_t m, n;
		std::memcpy(&m, buf.data(), 4);
		std::string out = buf.substr(4, m);
		std::memcpy(&n, buf.data() + 4 + m, 4);
		outRec.resize(n);
		if (n) std::memcpy(outRec.data(), buf.data() + 8 + m, n * 4ull);
		auto k = out.find('\n');
		msg = out.substr(k + 1);
		return out.substr(0, k);
	}
	outRec = ch;
	return classify(status, slot, errPath(slot), msg);
}

std::vector<std::uint32_t> minimise(const Scenario& sc, std::uint64_t seed, std::vector<std::uint32_t> best, const std::string& kind, double budget, int& tried) {
	double end = now() + budget;
	tried = 0;
	auto attempt = [&](std::vector<std::uint32_t> c) {
		if (now() > end) return false;
		while (!c.empty() && c.back() == 0) c.pop_back();
		if (c == best || c.size() > best.size()) return false;
		std::vector<std::uint32_t> rec;
		std::string msg;
		++tried;
		if (tryChoices(sc, seed, c, rec, msg, 20) != kind) return false;
		best = std::move(c);
		return true;
	};
	while (!best.empty() && best.back() == 0) best.pop_back();
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (std::size_t cut = best.size() / 2; cut >= 1 && now() < end; cut /= 2) {
			auto c = best;
			if (cut > c.size()) continue;
			c.resize(c.size() - cut);
			if (attempt(c)) progress = true;
		}
		for (std::size_t blk = std::max<std::size_t>(1, best.size() / 4); blk >= 1 && now() < end; blk /= 2) {
			for (std::size_t i = 0; i + blk <= best.size() && now() < end;) {
				auto z = best;
				bool allZero = true;
				for (std::size_t k = i; k < i + blk; ++k) { if (z[k]) allZero = false; z[k] = 0; }
				if (!allZero && attempt(z)) { progress = true; continue; }
				if (i + blk <= best.size()) {
					auto d = best;
					d.erase(d.begin() + static_cast<std::ptrdiff_t>(i), d.begin() + static_cast<std::ptrdiff_t>(i + blk));
					if (attempt(d)) { progress = true; continue; }
				}
				i += blk;
			}
			if (blk == 1) break;
		}
		for (std::size_t i = 0; i < best.size() && now() < end; ++i)
			for (int k = 0; k < 6 && i < best.size() && best[i] > 1; ++k) {
				auto c = best;
				c[i] /= 2;
				if (!attempt(c)) break;
				progress = true;
			}
	}
	return best;
}

std::string jsonEsc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += static_cast<char>(c); }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += static_cast<char>(c);
	}
	return o;
}

std::string traceOf(const Scenario& sc, std::uint64_t seed, const std::vector<std::uint32_t>* ch) {
	std::string file = tmpDir + "/trace";
	::unlink(file.c_str());
	pid_t pid = fork();
	if (pid == 0) {
		redirectErr(MAXW - 1);
		mySlot = MAXW - 1;
		counting = false;
		traceFd = ::open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
		execRun(sc, seed, ch, true, 20);
		_exit(0);
	}
	int st;
	waitpid(pid, &st, 0);
	std::ifstream f(file);
	std::stringstream ss;
	ss << f.rdbuf();
	return ss.str();
}

std::vector<std::string> splitLines(const std::string& s, std::size_t max) {
	std::vector<std::string> v;
	std::size_t i = 0;
	while (i < s.size() && v.size() < max) {
		auto j = s.find('\n', i);
		if (j == std::string::npos) j = s.size();
		v.push_back(s.substr(i, std::min<std::size_t>(j - i, 400)));
		i = j + 1;
	}
	return v;
}

int replayFile(const std::string& file) {
	std::ifstream f(file);
	if (!f) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
	std::stringstream ss;
	ss << f.rdbuf();
	std::string t = ss.str();
	auto field = [&](const std::string& k) {
		auto p = t.find("\"" + k + "\": ");
		if (p == std::string::npos) return std::string();
		p += k.size() + 4;
		if (t[p] == '"') { auto e = t.find('"', p + 1); return t.substr(p + 1, e - p - 1); }
		auto e = t.find_first_of(",\n}", p);
		return t.substr(p, e - p);
	};
	auto* sc = findScenario(field("property"), field("scenario"));
	if (!sc) { fprintf(stderr, "unknown scenario\n"); return 2; }
	std::vector<std::uint32_t> ch;
	auto p = t.find("\"choices\": [");
	p += 12;
	while (t[p] != ']') { char* e; ch.push_back(static_cast<std::uint32_t>(strtoul(t.c_str() + p, &e, 10))); p = static_cast<std::size_t>(e - t.c_str()); while (t[p] == ',' || t[p] == ' ') ++p; }
	std::uint64_t seed = strtoull(field("run_seed").c_str(), nullptr, 10);
	std::vector<std::uint32_t> rec;
	std::string msg, want = field("kind");
	std::string kind = tryChoices(*sc, seed, ch, rec, msg, 30);
	std::string tr = traceOf(*sc, seed, &ch);
	printf("%s", tr.c_str());
	if (kind.empty()) { printf("replay: no violation\n"); return 0; }
	printf("replay: kind=%s (recorded %s)\n%s\n", kind.c_str(), want.c_str(), msg.c_str());
	printf("VIOLATION property=%s replay=%s\n", sc->prop, file.c_str());
	return kind == want ? 1 : 3;
}
} // namespace

void addScenario(const Scenario& s) { registry().push_back(s); }
void addAssumption(const char* p, const char* t) { assumptions().push_back({p, t}); }
void abortRun(const char* kind, const char* msg) {
	auto& s = shm->slot[mySlot];
	snprintf(s.kind, sizeof s.kind, "%s", kind);
	snprintf(s.msg, sizeof s.msg, "%s", msg);
	_exit(78);
}
void Sim::probe(const char* name) {
	if (!counting) return;
	int n = shm->probes.load();
	for (int i = 0; i < n; ++i) if (std::strncmp(shm->probeName[i], name, 79) == 0) { ++shm->probeCount[i]; return; }
	int z = 0;
	while (!shm->probeLock.compare_exchange_weak(z, 1)) z = 0;
	n = shm->probes.load();
	int i = 0;
	for (; i < n; ++i) if (std::strncmp(shm->probeName[i], name, 79) == 0) break;
	if (i == n && n < MAX_PROBES) { snprintf(shm->probeName[n], 80, "%s", name); shm->probes = n + 1; }
	shm->probeLock = 0;
	if (i < MAX_PROBES) ++shm->probeCount[i];
}
} // namespace sim

using namespace sim;

static void recordRun(const Scenario& sc, const Result& r, std::uint64_t idx) {
	++shm->runs;
	shm->steps += r.steps;
	shm->choices += r.rec.size();
	insertHash(mix(r.log, r.obs)) ? void(++shm->distinctFull) : void();
	if (r.nontrivial) {
		++shm->nontrivial;
		if (insertHash(mix(r.log, 0x77))) {
			++shm->distinct;
			if (shm->nsamples < 4 && idx > 3) { int k = shm->nsamples++; if (k < 4) shm->samples[k] = idx + 1; }
		}
	}
	std::size_t k = static_cast<std::size_t>(&sc - registry().data());
	if (k < 64) ++shm->scenarioRuns[k];
}

static void workerLoop(int w, int jobs, const std::string& prop, std::uint64_t seed, std::uint64_t total, double deadline, std::uint64_t from) {
	mySlot = w;
	counting = true;
	redirectErr(w);
	auto wheel = wheelFor(prop).wheel;
	auto& sl = shm->slot[w];
	for (std::uint64_t i = from; i < total && !shm->stop; i += static_cast<std::uint64_t>(jobs)) {
		if (now() > deadline) break;
		auto rs = runSeed(seed, prop, i);
		const Scenario& sc = *wheel[(rs >> 7) % wheel.size()];
		sl.index = i;
		sl.state = 1;
		Result r;
		if (freshProcess(sc)) {
			pid_t pid = fork();
			if (pid == 0) {
				r = execRun(sc, rs, nullptr, false, 60);
				recordRun(sc, r, i);
				sl.log = r.log;
				sl.obs = r.obs;
				if (!r.kind.empty()) {
					snprintf(sl.kind, sizeof sl.kind, "%s", r.kind.c_str());
					snprintf(sl.msg, sizeof sl.msg, "%s", r.msg.c_str());
					_exit(10);
				}
				_exit(0);
			}
			int st;
			waitpid(pid, &st, 0);
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 10)) {
					std::string d, k = classify(st, w, errPath(w), d);
					snprintf(sl.kind, sizeof sl.kind, "%s", k.c_str());
					snprintf(sl.msg, sizeof sl.msg, "%s", d.c_str());
				}
				sl.violIndex = i;
				_exit(10);
			}
			if (i % 61 == 7) { // determinism gate: the same seed in another fresh process
				pid = fork();
				if (pid == 0) {
					counting = false;
					r = execRun(sc, rs, nullptr, false, 60);
					_exit(r.log == sl.log && r.obs == sl.obs && r.kind.empty() ? 0 : 11);
				}
				waitpid(pid, &st, 0);
				++shm->recheck;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { ++shm->nondet; shm->nondetIndex = i; }
			}
			sl.state = 0;
			continue;
		}
		r = execRun(sc, rs, nullptr, false, 20);
		recordRun(sc, r, i);
		if (!r.kind.empty()) {
			snprintf(sl.kind, sizeof sl.kind, "%s", r.kind.c_str());
			snprintf(sl.msg, sizeof sl.msg, "%s", r.msg.c_str());
			sl.violIndex = i;
			_exit(10);
		}
		if (i % 61 == 7) { // determinism gate: the recorded choices must give the identical history
			counting = false;
			Result b = execRun(sc, rs, &r.rec, false, 20);
			counting = true;
			++shm->recheck;
			if (b.log != r.log || b.obs != r.obs || b.kind != r.kind) { ++shm->nondet; shm->nondetIndex = i; }
		}
		sl.state = 0;
	}
	_exit(0);
}

int main(int argc, char** argv) {
	std::map<std::string, std::string> opt;
	for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
	char tmpl[] = "/tmp/simcheck.XXXXXX";
	tmpDir = mkdtemp(tmpl);
	struct Cleanup {
		pid_t owner = getpid();
		~Cleanup() {
			if (getpid() != owner) return;
			for (int i = 0; i < MAXW; ++i) ::unlink(errPath(i).c_str());
			::unlink((tmpDir + "/trace").c_str());
			::rmdir(tmpDir.c_str());
		}
	} cleanup;
	shm = static_cast<SharedMem*>(::mmap(nullptr, sizeof(SharedMem), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	struct sigaction sa{};
	sa.sa_handler = onAlarm;
	sigaction(SIGPROF, &sa, nullptr);

	if (opt.count("--replay")) return replayFile(opt["--replay"]);
	std::string prop = opt["--prop"];
	std::uint64_t seed = opt.count("--seed") ? strtoull(opt["--seed"].c_str(), nullptr, 10) : 1;
	std::string tier = opt.count("--tier") ? opt["--tier"] : "quick";
	auto wheel = wheelFor(prop).wheel;
	if (wheel.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
	if (opt.count("--only")) { // debugging: one scenario
		auto& r = registry();
		for (auto& s : r) if (prop == s.prop && opt["--only"] != s.name) s.weight = 0;
		wheel = wheelFor(prop).wheel;
	}
	if (opt.count("--one")) { // debugging: one run index, verbose
		std::uint64_t i = strtoull(opt["--one"].c_str(), nullptr, 10);
		auto rs = runSeed(seed, prop, i);
		const Scenario& sc = *wheel[(rs >> 7) % wheel.size()];
		printf("scenario %s\n", sc.name);
		fflush(stdout);
		traceFd = 1;
		Result r = execRun(sc, rs, nullptr, true, 30);
		printf("\nkind=%s msg=%s choices=%zu\n", r.kind.c_str(), r.msg.c_str(), r.rec.size());
		return r.kind.empty() ? 0 : 1;
	}
	int jobs = opt.count("--jobs") ? atoi(opt["--jobs"].c_str()) : 8;
	std::uint64_t total = strtoull(opt["--runs"].c_str(), nullptr, 10);
	double budget = opt.count("--time") ? atof(opt["--time"].c_str()) : 60;
	double t0 = now(), deadline = t0 + budget;
	std::string replayDir = opt.count("--replays") ? opt["--replays"] : ".";

	std::vector<pid_t> pids(static_cast<std::size_t>(jobs), 0);
	std::vector<std::uint64_t> next(static_cast<std::size_t>(jobs));
	fflush(stdout);
	struct Found { std::uint64_t index; std::string kind, msg; };
	std::vector<Found> found;
	auto spawn = [&](int w, std::uint64_t from) {
		shm->slot[w].state = 0;
		pid_t p = fork();
		if (p == 0) workerLoop(w, jobs, prop, seed, total, deadline, from);
		pids[static_cast<std::size_t>(w)] = p;
	};
	for (int w = 0; w < jobs; ++w) next[static_cast<std::size_t>(w)] = static_cast<std::uint64_t>(w);
	int violations = 0, unreproducible = 0;
	std::string violLine;
	bool keepGoing = opt.count("--all") != 0; // debugging: collect many
	double searchWall = 0;
	for (int round = 0; round < 6 && violations == 0; ++round) {
	double s0 = now();
	found.clear();
	shm->stop = 0;
	for (int w = 0; w < jobs; ++w) spawn(w, next[static_cast<std::size_t>(w)]);
	int alive = jobs;
	while (alive > 0) {
		int st;
		pid_t p = waitpid(-1, &st, 0);
		if (p < 0) break;
		int w = -1;
		for (int i = 0; i < jobs; ++i) if (pids[static_cast<std::size_t>(i)] == p) w = i;
		if (w < 0) continue;
		auto& sl = shm->slot[w];
		next[static_cast<std::size_t>(w)] = sl.index + static_cast<std::uint64_t>(jobs);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { --alive; continue; }
		Found f;
		f.index = sl.index;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 10) { f.kind = sl.kind; f.msg = sl.msg; }
		else { f.kind = classify(st, w, errPath(w), f.msg); ++shm->runs; }
		found.push_back(f);
		if (keepGoing && found.size() < 400) { spawn(w, f.index + static_cast<std::uint64_t>(jobs)); continue; }
		shm->stop = 1;
		--alive;
	}
	searchWall += now() - s0;
	if (keepGoing) {
		std::map<std::string, std::pair<int, Found>> groups;
		for (auto& f : found) {
			auto rs = runSeed(seed, prop, f.index);
			std::string key = std::string(wheel[(rs >> 7) % wheel.size()]->name) + " " + f.kind + " " + f.msg.substr(0, 60);
			auto it = groups.emplace(key, std::make_pair(0, f)).first;
			++it->second.first;
		}
		for (auto& [k, v] : groups) printf("%5d x [index %llu] %s\n      %s\n", v.first, (unsigned long long) v.second.index, k.c_str(), v.second.msg.substr(0, 1200).c_str());
	}

	std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.index < b.index; });
	if (!keepGoing) for (auto& f : found) {
		auto rs = runSeed(seed, prop, f.index);
		const Scenario& sc = *wheel[(rs >> 7) % wheel.size()];
		// 1. obtain the choice list (a crashing run records nothing, so the run is re-drawn up to the crash)
		std::vector<std::uint32_t> rec;
		std::string msg, kind;
		{
			// the same seed again in a fresh child, which stores each choice in shared memory as it is drawn
			constexpr std::size_t areaSize = (1u << 22) * 4ull + 64;
			auto* area = static_cast<std::uint32_t*>(::mmap(nullptr, areaSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
			pid_t pid = fork();
			if (pid == 0) {
				redirectErr(MAXW - 1);
				mySlot = MAXW - 1;
				counting = false;
				choiceTap = area;
				Result r = execRun(sc, rs, nullptr, false, 30);
				snprintf(shm->slot[MAXW - 1].kind, 64, "%s", r.kind.c_str());
				snprintf(shm->slot[MAXW - 1].msg, 4096, "%s", r.msg.c_str());
				_exit(11);
			}
			int st;
			waitpid(pid, &st, 0);
			rec.assign(area + 1, area + 1 + area[0]);
			if (WIFEXITED(st) && WEXITSTATUS(st) == 11) {
				kind = shm->slot[MAXW - 1].kind;
				msg = shm->slot[MAXW - 1].msg;
			} else kind = classify(st, MAXW - 1, errPath(MAXW - 1), msg);
			::munmap(area, areaSize);
		}
		if (kind.empty() || (kind != f.kind && kind.compare(0, 5, "crash") != 0)) {
			++unreproducible;
			fprintf(stderr, "unreproducible: run %llu gave %s (%s), then %s\n", (unsigned long long) f.index, f.kind.c_str(), f.msg.substr(0, 300).c_str(), kind.c_str());
			continue;
		}
		int tried = 0;
		auto small = rec;
		{
			std::vector<std::uint32_t> o;
			std::string m2;
			if (tryChoices(sc, rs, rec, o, m2, 30) != kind) { ++unreproducible; fprintf(stderr, "unreproducible in replay: run %llu %s\n", (unsigned long long) f.index, kind.c_str()); continue; }
			small = minimise(sc, rs, rec, kind, opt.count("--mintime") ? atof(opt["--mintime"].c_str()) : 20, tried);
			tryChoices(sc, rs, small, o, msg, 30);
		}
		std::string trace = traceOf(sc, rs, &small);
		::mkdir(replayDir.c_str(), 0755);
		std::string file = replayDir + "/" + prop + "-" + std::to_string(seed) + "-" + std::to_string(f.index) + ".json";
		{
			std::ofstream o(file);
			o << "{\n\"property\": \"" << prop << "\",\n\"scenario\": \"" << sc.name << "\",\n\"seed\": " << seed << ",\n\"run\": " << f.index << ",\n\"run_seed\": " << rs
			  << ",\n\"kind\": \"" << kind << "\",\n\"message\": \"" << jsonEsc(msg) << "\",\n\"choices_before_minimising\": " << rec.size() << ",\n\"minimising_attempts\": " << tried << ",\n\"choices\": [";
			for (std::size_t i = 0; i < small.size(); ++i) o << (i ? ", " : "") << small[i];
			o << "],\n\"trace\": [";
			auto lines = splitLines(trace, 400);
			for (std::size_t i = 0; i < lines.size(); ++i) o << (i ? ",\n" : "\n") << "\"" << jsonEsc(lines[i]) << "\"";
			o << "]\n}\n";
		}
		// replaying the file in a fresh process must reproduce it
		pid_t pid = fork();
		if (pid == 0) {
			int fd = ::open("/dev/null", O_WRONLY);
			dup2(fd, 1); dup2(fd, 2);
			execl("/proc/self/exe", argv[0], "--replay", file.c_str(), (char*) nullptr);
			_exit(127);
		}
		int st;
		waitpid(pid, &st, 0);
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) { ++unreproducible; fprintf(stderr, "replay of %s does not reproduce (status %d)\n", file.c_str(), st); continue; }
		printf("%s: %s: %s\n", sc.name, kind.c_str(), msg.substr(0, 1500).c_str());
		violLine = "VIOLATION property=" + prop + " replay=" + file;
		++violations;
		break;
	}
	if (found.empty() || keepGoing) break;
	}

	double wall = now() - t0;
	if (opt.count("--evidence")) {
		std::ostringstream o;
		o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
		o << "  \"evaluations\": " << shm->runs << ",\n  \"distinct_nontrivial\": " << shm->distinct << ",\n";
		o << "  \"rule\": \"one evaluation is one simulated run; its seed decides workload, storage contents, faults and schedule. Non-trivial: at least one fault, perturbation, damage or preemption actually took effect in the run. Distinct: different hash of the complete event history.\",\n";
		o << "  \"exhaustive\": false,\n";
		o << "  \"runs_per_hour\": " << static_cast<std::uint64_t>(static_cast<double>(shm->runs) / std::max(0.001, searchWall) * 3600) << ",\n";
		o << "  \"nontrivial_runs\": " << shm->nontrivial << ",\n  \"distinct_histories_with_outcome\": " << shm->distinctFull << ",\n";
		o << "  \"simulated_operations\": " << shm->steps << ",\n  \"simulated_time\": \"logical: one tick per simulated operation; the library has no clock\",\n  \"choices_drawn\": " << shm->choices << ",\n";
		o << "  \"determinism_rechecks\": " << shm->recheck << ",\n  \"nondeterministic_rechecks\": " << shm->nondet << ",\n  \"unreproducible\": " << unreproducible << ",\n";
		o << "  \"faults_injected\": {";
		bool first = true;
		for (int i = 0; i < F_COUNT; ++i) if (shm->faults[i]) { o << (first ? "" : ", ") << "\"" << faultNames[i] << "\": " << shm->faults[i]; first = false; }
		o << "},\n  \"scenario_runs\": {";
		first = true;
		for (std::size_t i = 0; i < registry().size() && i < 64; ++i) if (prop == registry()[i].prop) { o << (first ? "" : ", ") << "\"" << registry()[i].name << "\": " << shm->scenarioRuns[i]; first = false; }
		o << "},\n  \"conditions_reached\": {";
		std::vector<std::pair<std::string, std::uint64_t>> pr;
		for (int i = 0; i < shm->probes; ++i) pr.push_back({shm->probeName[i], shm->probeCount[i]});
		std::sort(pr.begin(), pr.end());
		first = true;
		for (auto& [n, c] : pr) { o << (first ? "" : ", ") << "\"" << n << "\": " << c; first = false; }
		o << "},\n  \"real_components\": [\"src/fastgltf.cpp\", \"src/io.cpp\", \"src/base64.cpp\", \"simdjson\", \"libstdc++ streams and filesystem\"],\n";
		o << "  \"stub_components\": [\"kernel file system calls (in-memory storage)\", \"operator new/delete front end\", \"application callbacks\", \"thread scheduling (one runs at a time)\"],\n";
		o << "  \"samples\": [";
		int ns = std::min<int>(shm->nsamples, 3);
		for (int k = 0; k < ns; ++k) {
			std::uint64_t idx = shm->samples[k] - 1;
			auto rs = runSeed(seed, prop, idx);
			const Scenario& sc = *wheel[(rs >> 7) % wheel.size()];
			auto lines = splitLines(traceOf(sc, rs, nullptr), 30);
			o << (k ? ", " : "") << "{\"run\": " << idx << ", \"scenario\": \"" << sc.name << "\", \"history\": [";
			for (std::size_t i = 0; i < lines.size(); ++i) o << (i ? ", " : "") << "\"" << jsonEsc(lines[i].substr(0, 200)) << "\"";
			o << "]}";
		}
		o << "]\n },\n \"assumptions\": [";
		first = true;
		for (auto& [p, t] : assumptions()) if (p == prop || p == "*") { o << (first ? "" : ", ") << "\"" << jsonEsc(t) << "\""; first = false; }
		o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
		std::ofstream f(opt["--evidence"]);
		f << o.str();
	}
	printf("%s: %llu runs, %llu distinct non-trivial, %.1f s, determinism %llu/%llu differ%s\n", prop.c_str(), (unsigned long long) shm->runs.load(), (unsigned long long) shm->distinct.load(), wall,
		(unsigned long long) shm->nondet.load(), (unsigned long long) shm->recheck.load(), unreproducible ? ", UNREPRODUCIBLE findings" : "");
	if (shm->nondet) printf("nondeterministic run index %llu\n", (unsigned long long) shm->nondetIndex.load());
	if (violations) { printf("%s\n", violLine.c_str()); return 1; }
	if (keepGoing && !found.empty()) return 1;
	return 0; // findings that could not be reproduced are not violations; they are counted in the evidence
}
