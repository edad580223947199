// Simulated storage: an in-memory file system behind the libc calls, with faults and crash images.
#pragma once
#include "core.hpp"
#include <map>
#include <memory>
#include <set>

namespace vfs {
using Bytes = std::vector<unsigned char>;
enum OpType { O_STAT, O_OPEN_R, O_OPEN_W, O_READ, O_WRITE, O_SEEK, O_CLOSE_R, O_CLOSE_W, O_MMAP, O_MKDIR, O_OTHER, O_TYPES };
struct File { Bytes data; bool dir = false; };

struct Mutation { // journal of everything that changed storage, in order
	enum K { MKDIR, CREATE, WRITE, TRUNC, UNLINK, RENAME, SYNC } k;
	std::string path, path2;
	std::size_t off = 0;
	Bytes data;
};

struct Plan {
	// Targeted fault: the at-th counted operation (0-based) whose type is in mask fails.
	int at = -1;
	std::uint32_t mask = ~0u;
	bool sticky = false;         // every later matching operation of that type fails as well
	int flavour = 0;             // which error among those possible for the type
	bool eofFault = false;       // for reads: premature end-of-file rather than an error
	std::string match;           // only operations on paths containing this
	// Environment action before the given counted operation (shrink, vanish, ...).
	int actAt = -1;
	std::function<void()> act;
	// Benign perturbation.
	int shortReadP = 0, eintrP = 0, shortWriteP = 0; // out of 16
	// Allow only n more bytes to be written on the whole storage (disk full), -1 = unlimited
	long long spaceLeft = -1;
};

struct State {
	std::map<std::string, std::shared_ptr<File>> files;
	Plan plan;
	bool active = false;
	int counted = 0;              // operations counted so far against the plan
	int fired = 0;                // failures injected (targeted or space)
	int readFaults = 0, openFaults = 0, writeFaults = 0;
	int storeFaults = 0;          // failed directory creations and opens, writes, closes for writing
	bool mmapUsed = false;
	std::vector<Mutation> journal;
	std::set<std::string> touched; // paths created/changed/removed by code under simulation
	std::vector<std::string> openedForWrite;
	std::uint64_t calls[O_TYPES] = {};
	std::size_t openHandles = 0, openMaps = 0;
	std::string cwd = "/sim/cwd";
};
extern State st;

void reset();                       // empty storage with /sim and /sim/cwd
void finish();                      // drop everything, close leftovers
void put(const std::string& path, const Bytes& data);
inline void put(const std::string& path, std::string_view s) { put(path, Bytes(s.begin(), s.end())); }
void mkdirs(const std::string& path);
std::shared_ptr<File> get(const std::string& path);
std::string norm(const std::string& path);
void setPlan(const Plan& p);        // resets the operation counter
void clearPlan();
using Files = std::map<std::string, std::shared_ptr<File>>;
Files cloneFiles();
inline std::map<std::string, File> all() { std::map<std::string, File> m; for (auto& [p, f] : st.files) m[p] = *f; return m; }
Files cloneFiles(const Files& f);
void apply(Files& f, const Mutation& m, std::size_t bytes = ~std::size_t(0)); // bytes: how much of a write survives
std::string handleReport();
} // namespace vfs
