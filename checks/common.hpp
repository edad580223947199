// Helpers shared by the scenarios: byte sources, loading and exporting with recorded outcomes, callback hosts.
#pragma once
#include "../model/model.hpp"
#include "../sim/sched.hpp"
#include <memory>
#include <optional>
#include <set>

namespace chk {
namespace fg = fastgltf;
namespace fs = std::filesystem;
using model::Bytes;
using sim::HostScope;
using sim::LibScope;
using sim::Sim;
using sim::Stop;
using sim::sfmt;

inline fg::Options operator+(fg::Options a, fg::Options b) { return static_cast<fg::Options>(static_cast<std::uint64_t>(a) | static_cast<std::uint64_t>(b)); }
constexpr fg::Options kDouble = fg::Options::AllowDouble;
constexpr fg::Options kExternal = static_cast<fg::Options>(static_cast<std::uint64_t>(fg::Options::AllowDouble) | static_cast<std::uint64_t>(fg::Options::LoadExternalBuffers) | static_cast<std::uint64_t>(fg::Options::LoadExternalImages));
inline bool has(fg::Options o, fg::Options b) { return (static_cast<std::uint64_t>(o) & static_cast<std::uint64_t>(b)) != 0; }

enum Src { BYTES, PATH, MAP, STREAM, GETTER, SRC_COUNT };
extern const char* const srcNames[SRC_COUNT];
enum Entry { AUTO, JSON, BINARY };
extern const char* const entryNames[3];

struct UserError { int tag; }; // thrown by simulated user code

// A user-written byte source that honours the documented interface to the letter: a region lives only until the next
// read, has exactly the requested size, and calls beyond the announced size are recorded.
class SimGetter final : public fg::GltfDataGetter {
public:
	explicit SimGetter(Bytes d) : data(std::move(d)) {}
	~SimGetter() noexcept override { HostScope h; drop(); }
	void read(void* ptr, std::size_t count) override;
	fg::span<std::byte> read(std::size_t count, std::size_t padding) override;
	void reset() override;
	std::size_t bytesRead() override { return idx; }
	std::size_t totalSize() override { HostScope h; call("totalSize"); return data.size(); }
	Bytes data;
	std::size_t idx = 0;
	unsigned char* region = nullptr;
	std::size_t regionSize = 0;
	int calls = 0, reads = 0, resets = 0, paddedReads = 0;
	bool strict = false;     // an explicit entry point is used: no detection, no second rewind
	void begin(bool s) { strict = s; reads = paddedReads = 0; resetSeen = false; }
	int throwAt = -1;        // throws UserError at this call
	bool closed = false;     // no call is allowed any more
	bool log = false;
	std::string firstProblem;
	void problem(std::string s) { if (firstProblem.empty()) firstProblem = std::move(s); }
	bool resetSeen = false;
	void drop();
private:
	void call(const char* what);
};

struct Source {
	std::unique_ptr<fg::GltfDataGetter> g;
	SimGetter* sim = nullptr;
	fg::Error err = fg::Error::None;
	std::string thrown;
	bool ok() const { return g != nullptr; }
	~Source() { LibScope l; g.reset(); }
	Source() = default;
	Source(Source&&) = default;
	Source& operator=(Source&&) = default;
	void close() { LibScope l; g.reset(); sim = nullptr; }
};
// bytes is used by BYTES and GETTER, path by the others.
Source openSource(int src, const std::string& path, const Bytes& bytes);

struct Outcome {
	bool opened = true;
	fg::Error err = fg::Error::None;
	std::string thrown;
	std::unique_ptr<fg::Asset> asset;
	Outcome() = default;
	Outcome(Outcome&&) = default;
	Outcome& operator=(Outcome&& o) { drop(); opened = o.opened; err = o.err; thrown = std::move(o.thrown); asset = std::move(o.asset); return *this; }
	~Outcome() { drop(); }
	void drop() { LibScope l; asset.reset(); }
	bool ok() const { return asset != nullptr; }
	std::string status() const; // "asset", "error <name>", "threw <what>"
	std::string text(const model::DumpOpts& d = {}) const;
};

struct LoadSpec {
	int entry = AUTO;
	std::string dir = "/sim/in";
	fg::Options opts = kExternal;
	fg::Category cats = fg::Category::All;
};
Outcome load(fg::Parser& p, fg::GltfDataGetter& g, const LoadSpec& l);
Outcome loadFrom(fg::Parser& p, int src, const std::string& path, const Bytes& bytes, const LoadSpec& l);

// Application side of the map/unmap/base64/extras callbacks.
struct Host {
	struct Region { std::uint64_t id, size; unsigned char* p; bool open; int unmaps; std::uint64_t hashAtUnmap; };
	std::vector<Region> regions;
	std::vector<std::string> problems;
	std::vector<std::string> calls; // protocol history
	int declineNum = 0;             // out of 8 requests are declined
	std::uint64_t declineSeed = 0;  // decides which, when set
	void restart();                 // forgets everything recorded, keeps the settings
	void finishProblems(bool loadOver);
	int throwAtMap = -1;
	bool shared = false;
	bool mapCb = false, unmapCb = false, b64Cb = false, extrasCb = false;
	int mapRequests = 0, declined = 0, decodes = 0, unmaps = 0;
	std::uint64_t extrasCalls = 0;
	std::map<std::pair<std::uint32_t, std::size_t>, std::vector<std::string>> extras;
	int throwAtExtras = -1, throwAtDecode = -1;
	static Host* current; // the host the callbacks must be called with
	std::uint64_t magic = 0x686f7374;
	~Host() { HostScope h; magic = 0; for (auto& r : regions) std::free(r.p); }
	void install(fg::Parser& p);
	bool custom(std::uint64_t id, const std::byte*& p, std::size_t& n) const;
	void problem(std::string s) { if (problems.size() < 20) problems.push_back(std::move(s)); }
	model::DumpOpts dumpOpts() const;
};

// the bytes an asset holds in memory (host resolves custom buffers)
bool bytesOf(const fg::DataSource& d, const Host* h, const std::byte*& p, std::size_t& n);

// ---- workloads ----
struct Work {
	fg::Asset asset;
	model::Encoded enc;
	std::string dir, path;
	std::string expected;   // content dump of what a full load has to give
	std::string expectedRaw;
	model::ExtrasMap extras;
};
model::DumpOpts contentDump();                       // by content, as loaded with kExternal
// by content; external files that the options did not ask to load are read from storage under dir
model::DumpOpts contentDump(const std::string& dir, fg::Options opts = fg::Options::None);
// stores the encoded files under dir
void store(const model::Encoded& e, const std::string& dir, const std::string& name);
std::unique_ptr<Work> makeWork(Sim& s, const model::GenOpts& g, const model::EncodeOpts& e, const std::string& dir = "/sim/in");
model::GenOpts randomGen(Sim& s, int maxScale = 1);
model::EncodeOpts randomEnc(Sim& s);
std::unique_ptr<fg::Parser> newParser(fg::Extensions e = model::allExtensions());
void destroy(std::unique_ptr<fg::Parser>& p);

// Turns on legal but unusual storage behaviour: split and interrupted transfers.
void benignStorage(Sim& s, vfs::Plan& p);

// Damage operators on stored bytes. Returns a description.
std::string damage(Sim& s, Bytes& b, bool glb, int kind = -1); // kind 10: a reference to another object
fg::Category randomCategories(Sim& s);

const char* errName(fg::Error e);
std::string show(const std::string& s, std::size_t n = 160);
// counts the objects of a list that are alive; compares two texts and reports the first differing lines
void requireEqual(Sim& s, const char* kind, const std::string& what, const std::string& expected, const std::string& got);

// ---- export ----
struct ExportOut {
	fg::Error err = fg::Error::None;
	std::string thrown;
	bool ok = false;
	Bytes bytes;
	std::vector<std::string> bufferPaths, imagePaths;
	std::string text() const;
};
ExportOut exportMemory(fg::Exporter& e, const fg::Asset& a, bool glb, fg::ExportOptions o);
ExportOut exportFile(fg::FileExporter& e, const fg::Asset& a, bool glb, const std::string& target, fg::ExportOptions o);
void debugDump(const Bytes& b); // debugging: to the real file named by VP_DUMP
fg::Error runValidate(const fg::Asset& a);
} // namespace chk
