#include "common.hpp"
#include <fcntl.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstdlib>
#include <cmath>

namespace chk {
const char* const srcNames[SRC_COUNT] = {"bytes", "path", "map", "stream", "user-source"};
const char* const entryNames[3] = {"loadGltf", "loadGltfJson", "loadGltfBinary"};

const char* errName(fg::Error e) {
	switch (e) {
		case fg::Error::None: return "None";
		case fg::Error::InvalidPath: return "InvalidPath";
		case fg::Error::MissingExtensions: return "MissingExtensions";
		case fg::Error::UnknownRequiredExtension: return "UnknownRequiredExtension";
		case fg::Error::InvalidJson: return "InvalidJson";
		case fg::Error::InvalidGltf: return "InvalidGltf";
		case fg::Error::InvalidOrMissingAssetField: return "InvalidOrMissingAssetField";
		case fg::Error::InvalidGLB: return "InvalidGLB";
		case fg::Error::MissingField: return "MissingField";
		case fg::Error::MissingExternalBuffer: return "MissingExternalBuffer";
		case fg::Error::UnsupportedVersion: return "UnsupportedVersion";
		case fg::Error::InvalidURI: return "InvalidURI";
		case fg::Error::InvalidFileData: return "InvalidFileData";
		case fg::Error::FailedWritingFiles: return "FailedWritingFiles";
		case fg::Error::FileBufferAllocationFailed: return "FileBufferAllocationFailed";
		default: return "?";
	}
}
std::string show(const std::string& s, std::size_t n) {
	std::string o;
	for (unsigned char c : s.substr(0, n)) { if (c < 32 || c > 126) o += sfmt("\\x%02x", c); else o += static_cast<char>(c); }
	return o;
}

// ---- SimGetter ----
void SimGetter::drop() {
	if (region) std::memset(region, 0xDB, regionSize); // simdjson is not instrumented, so it has to stumble over the content
	std::free(region);
	region = nullptr;
}
void SimGetter::call(const char* what) {
	int n = calls++;
	if (closed) problem(sfmt("%s called after the load returned", what));
	if (log) sim::cur->event("source.%s", what);
	if (n == throwAt) {
		sim::cur->fault(sim::F_GETTER_THROW);
		sim::cur->event("user source throws at call %d (%s)", n, what);
		throw UserError{1};
	}
}
void SimGetter::read(void* ptr, std::size_t count) {
	HostScope h;
	call("read");
	++reads;
	if (log) sim::cur->event("source.read(%zu) at %zu", count, idx);
	if (!resetSeen) problem("read before reset()");
	drop();
	std::size_t n = count;
	if (count > data.size() - idx) {
		problem(sfmt("asked for %zu bytes at offset %zu of %zu", count, idx, data.size()));
		n = data.size() - idx;
	}
	std::memcpy(ptr, data.data() + idx, n);
	idx += n;
}
fg::span<std::byte> SimGetter::read(std::size_t count, std::size_t padding) {
	HostScope h;
	call("read");
	++reads;
	++paddedReads;
	if (log) sim::cur->event("source.read(%zu, padding %zu) at %zu", count, padding, idx);
	if (!resetSeen) problem("read before reset()");
	drop();
	std::size_t n = count;
	if (count > data.size() - idx) {
		problem(sfmt("asked for %zu bytes at offset %zu of %zu", count, idx, data.size()));
		n = data.size() - idx;
		count = n;
	}
	regionSize = count + padding;
	region = static_cast<unsigned char*>(std::malloc(regionSize ? regionSize : 1));
	std::memset(region, sim::cur->poison ? '"' : '}', regionSize); // hostile padding
	std::memcpy(region, data.data() + idx, n);
	idx += n;
	return fg::span<std::byte>(reinterpret_cast<std::byte*>(region), count);
}
void SimGetter::reset() {
	HostScope h;
	call("reset");
	++resets;
	if (strict ? reads != 0 : paddedReads != 0) problem("rewound in the middle of a load");
	if (log) sim::cur->event("source.reset");
	drop();
	resetSeen = true;
	idx = 0;
}

Source openSource(int src, const std::string& path, const Bytes& bytes) {
	Source r;
	fs::path p(path);
	auto* data = reinterpret_cast<const std::byte*>(bytes.data());
	if (src == GETTER) {
		auto u = std::make_unique<SimGetter>(bytes);
		r.sim = u.get();
		r.g = std::move(u);
		return r;
	}
	try {
		LibScope l;
		if (src == BYTES) {
			auto e = fg::GltfDataBuffer::FromBytes(data, bytes.size());
			if (e.error() != fg::Error::None) r.err = e.error();
			else r.g = std::make_unique<fg::GltfDataBuffer>(std::move(e.get()));
		} else if (src == PATH) {
			auto e = fg::GltfDataBuffer::FromPath(p);
			if (e.error() != fg::Error::None) r.err = e.error();
			else r.g = std::make_unique<fg::GltfDataBuffer>(std::move(e.get()));
		} else if (src == MAP) {
			auto e = fg::MappedGltfFile::FromPath(p);
			if (e.error() != fg::Error::None) r.err = e.error();
			else r.g = std::make_unique<fg::MappedGltfFile>(std::move(e.get()));
		} else {
			auto g = std::make_unique<fg::GltfFileStream>(p);
			if (!g->isOpen()) r.err = fg::Error::InvalidPath;
			else r.g = std::move(g);
		}
	} catch (const std::bad_alloc&) {
		r.thrown = "bad_alloc";
	} catch (const fs::filesystem_error& e) {
		HostScope h;
		r.thrown = "filesystem_error";
	} catch (const std::exception& e) {
		HostScope h;
		r.thrown = e.what();
	}
	return r;
}

std::string Outcome::status() const {
	if (!thrown.empty()) return "threw " + thrown;
	if (!opened) return std::string("open failed ") + errName(err);
	if (asset) return "asset";
	return std::string("error ") + errName(err);
}
std::string Outcome::text(const model::DumpOpts& d) const {
	std::string t = status() + "\n";
	if (asset) t += model::dump(*asset, d);
	return t;
}

Outcome load(fg::Parser& p, fg::GltfDataGetter& g, const LoadSpec& l) {
	Outcome r;
	fs::path dir(l.dir);
	int saved = sim::inLib;
	try {
		LibScope ls;
		auto e = l.entry == AUTO ? p.loadGltf(g, dir, l.opts, l.cats) : l.entry == JSON ? p.loadGltfJson(g, dir, l.opts, l.cats) : p.loadGltfBinary(g, dir, l.opts, l.cats);
		r.err = e.error();
		if (e.error() == fg::Error::None) r.asset = std::make_unique<fg::Asset>(std::move(e.get()));
	} catch (const std::bad_alloc&) {
		sim::inLib = saved;
		r.thrown = "bad_alloc";
	} catch (const std::length_error&) {
		sim::inLib = saved;
		r.thrown = "length_error";
	} catch (const UserError&) {
		sim::inLib = saved;
		r.thrown = "user";
	} catch (const std::exception& e) {
		sim::inLib = saved;
		r.thrown = std::string("exception ") + e.what();
	}
	sim::inLib = saved;
	return r;
}
Outcome loadFrom(fg::Parser& p, int src, const std::string& path, const Bytes& bytes, const LoadSpec& l) {
	auto s = openSource(src, path, bytes);
	if (!s.ok()) {
		Outcome r;
		r.opened = false;
		r.err = s.err;
		r.thrown = s.thrown;
		return r;
	}
	return load(p, *s.g, l);
}

// ---- Host ----
Host* Host::current = nullptr;
namespace {
Host* hostOf(void* user, const char* what) {
	auto* h = static_cast<Host*>(user);
	if (h == nullptr || (Host::current && h != Host::current)) {
		if (Host::current) { Host::current->problem(sfmt("%s callback got a user pointer other than the current one", what)); return Host::current; }
	}
	return h;
}
fg::BufferInfo mapCb(std::uint64_t size, void* user) {
	HostScope hs;
	sched::point(sched::P_CALLBACK);
	auto* h = hostOf(user, "map");
	int n = h->mapRequests++;
	h->calls.push_back(sfmt("map %llu", (unsigned long long) size));
	sim::cur->event("map-callback size %llu", (unsigned long long) size);
	for (auto& r : h->regions) if (r.open && h->unmapCb) h->problem(sfmt("a region was requested while another was still mapped"));
	if (!h->unmapCb) for (auto& r : h->regions) r.open = false;
	if (n == h->throwAtMap) { sim::cur->fault(sim::F_THROW_CALLBACK); throw UserError{2}; }
	if (h->declineNum && (h->declineSeed ? static_cast<int>(sim::mix(h->declineSeed, static_cast<std::uint64_t>(n)) % 8) < h->declineNum : sim::cur->chance(static_cast<std::uint32_t>(h->declineNum), 8))) {
		++h->declined;
		sim::cur->fault(sim::F_NULL_MAP);
		sim::cur->event("map-callback declines");
		h->calls.back() += " declined";
		return fg::BufferInfo{nullptr, 7777};
	}
	Host::Region r{};
	r.id = 1000 + 7 * h->regions.size();
	r.size = size;
	if (size > (1u << 30)) { h->calls.back() += " too large"; return fg::BufferInfo{nullptr, 7777}; }
	r.p = static_cast<unsigned char*>(std::malloc(size ? size : 1));
	std::memset(r.p, sim::cur->poison ? 0x3C : 0xC3, size ? size : 1);
	r.open = true;
	h->regions.push_back(r);
	return fg::BufferInfo{r.p, r.id};
}
void unmapCb(fg::BufferInfo* info, void* user) {
	HostScope hs;
	sched::point(sched::P_CALLBACK);
	auto* h = hostOf(user, "unmap");
	++h->unmaps;
	sim::cur->event("unmap-callback id %llu", (unsigned long long) info->customId);
	h->calls.push_back(sfmt("unmap %llu", (unsigned long long) info->customId));
	for (auto& r : h->regions)
		if (r.id == info->customId && r.p == info->mappedMemory) {
			++r.unmaps;
			if (!r.open) h->problem(sfmt("region %llu unmapped twice", (unsigned long long) r.id));
			r.open = false;
			r.hashAtUnmap = sim::fnv(r.p, r.size);
			return;
		}
	h->problem(sfmt("unmap of an unknown region (id %llu)", (unsigned long long) info->customId));
}
int b64val(char c) { if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26; if (c >= '0' && c <= '9') return c - '0' + 52; if (c == '+') return 62; if (c == '/') return 63; return 0; }
void decodeCb(std::string_view text, std::uint8_t* out, std::size_t padding, std::size_t outSize, void* user) {
	HostScope hs;
	sched::point(sched::P_CALLBACK);
	auto* h = hostOf(user, "base64");
	int n = h->decodes++;
	sim::cur->event("base64-callback in %zu out %zu padding %zu", text.size(), outSize, padding);
	h->calls.push_back(sfmt("decode %zu", outSize));
	if (n == h->throwAtDecode) { sim::cur->fault(sim::F_THROW_CALLBACK); throw UserError{3}; }
	if (text.size() % 4 == 0 && outSize + padding != text.size() / 4 * 3) h->problem(sfmt("base64 callback: %zu characters, padding %zu, but output size %zu", text.size(), padding, outSize));
	for (auto& r : h->regions) if (r.open && (out < r.p || out + outSize > r.p + r.size)) h->problem("base64 callback was given memory outside the mapped region");
	std::size_t o = 0;
	std::uint32_t acc = 0; int bits = 0;
	for (char c : text) {
		if (c == '=') break;
		acc = (acc << 6) | static_cast<std::uint32_t>(b64val(c));
		bits += 6;
		if (bits >= 8) { bits -= 8; if (o < outSize) out[o++] = static_cast<std::uint8_t>(acc >> bits); }
	}
	while (o < outSize) out[o++] = 0;
}
void extrasCb(simdjson::dom::object* extras, std::size_t index, fg::Category cat, void* user);
} // namespace
} // namespace chk
#include <simdjson.h>
namespace chk {
namespace {
void extrasCb(simdjson::dom::object* extras, std::size_t index, fg::Category cat, void* user) {
	HostScope hs;
	sched::point(sched::P_CALLBACK);
	auto* h = hostOf(user, "extras");
	auto n = h->extrasCalls++;
	sim::cur->event("extras-callback category %u index %zu", static_cast<unsigned>(cat), index);
	std::string t = simdjson::minify(*extras);
	h->extras[{static_cast<std::uint32_t>(cat), index}].push_back(t);
	if (static_cast<int>(n) == h->throwAtExtras) { sim::cur->fault(sim::F_THROW_CALLBACK); throw UserError{4}; }
}
} // namespace

void Host::install(fg::Parser& p) {
	p.setUserPointer(this);
	p.setBufferAllocationCallback(mapCb ? chk::mapCb : nullptr, unmapCb ? chk::unmapCb : nullptr);
	p.setBase64DecodeCallback(b64Cb ? decodeCb : nullptr);
	p.setExtrasParseCallback(extrasCb ? chk::extrasCb : nullptr);
	current = this;
}
void Host::restart() {
	HostScope hs;
	for (auto& r : regions) std::free(r.p);
	regions.clear(); problems.clear(); calls.clear(); extras.clear();
	mapRequests = declined = decodes = unmaps = 0;
	extrasCalls = 0;
}
void Host::finishProblems(bool loadOver) {
	if (!loadOver) return;
	for (auto& r : regions) {
		if (unmapCb && r.unmaps != 1) problem(sfmt("region of %llu bytes was unmapped %d times", (unsigned long long) r.size, r.unmaps));
	}
}
bool Host::custom(std::uint64_t id, const std::byte*& p, std::size_t& n) const {
	for (auto& r : regions) if (r.id == id) { p = reinterpret_cast<const std::byte*>(r.p); n = r.size; return true; }
	return false;
}

bool bytesOf(const fg::DataSource& d, const Host* h, const std::byte*& p, std::size_t& n) {
	if (auto* a = std::get_if<fg::sources::Array>(&d)) { p = a->bytes.data(); n = a->bytes.size(); return true; }
	if (auto* a = std::get_if<fg::sources::Vector>(&d)) { p = a->bytes.data(); n = a->bytes.size(); return true; }
	if (auto* a = std::get_if<fg::sources::ByteView>(&d)) { p = a->bytes.data(); n = a->bytes.size(); return true; }
	if (auto* a = std::get_if<fg::sources::CustomBuffer>(&d)) return h && h->custom(a->id, p, n);
	return false;
}

// ---- workloads ----
void store(const model::Encoded& e, const std::string& dir, const std::string& name) {
	vfs::mkdirs(dir);
	vfs::put(dir + "/" + name, e.main);
	for (auto& [f, b] : e.files) {
		auto k = f.rfind('/');
		if (k != std::string::npos) vfs::mkdirs(dir + "/" + f.substr(0, k));
		vfs::put(dir + "/" + f, b);
	}
}
model::DumpOpts contentDump() { return contentDump("/sim/in", kExternal); }
model::DumpOpts contentDump(const std::string& dir, fg::Options opts) {
	model::DumpOpts d;
	d.content = true;
	d.categories = false;
	d.external = [dir, opts](const fg::sources::URI& u, bool image, Bytes& b) {
		if (!u.uri.isLocalPath() || has(opts, image ? fg::Options::LoadExternalImages : fg::Options::LoadExternalBuffers)) return false;
		auto f = vfs::get(vfs::norm(dir + "/" + std::string(u.uri.path())));
		if (!f || f->dir) return false;
		if (u.fileByteOffset > f->data.size()) return false;
		b.assign(f->data.begin() + static_cast<std::ptrdiff_t>(u.fileByteOffset), f->data.end());
		return true;
	};
	return d;
}
model::DumpOpts Host::dumpOpts() const {
	model::DumpOpts d;
	d.custom = [this](std::uint64_t id, const std::byte*& p, std::size_t& n) { return custom(id, p, n); };
	return d;
}
model::GenOpts randomGen(Sim& s, int maxScale) {
	model::GenOpts g;
	g.scale = maxScale == 0 ? 0 : s.weighted({4, 3, maxScale > 1 ? 1 : 0});
	g.physics = s.chance(1, 3);
	g.materials = s.chance(2, 3);
	g.textures = s.chance(2, 3);
	g.meshes = s.chance(3, 4);
	g.animations = s.chance(1, 2);
	g.meshopt = s.chance(1, 3);
	g.oddNames = s.chance(1, 2);
	g.fileNames = s.chance(1, 2);
	g.bigBuffers = s.chance(1, 8);
	return g;
}
model::EncodeOpts randomEnc(Sim& s) {
	model::EncodeOpts e;
	e.glb = s.chance(1, 2);
	e.pretty = s.chance(1, 3);
	e.shuffle = s.chance(1, 3);
	e.explicitDefaults = s.chance(1, 4);
	e.unknownKeys = s.chance(1, 5);
	e.glbTrailing = s.chance(1, 6);
	e.place = s.weighted({3, 1, 1});
	e.randomExtras = s.chance(1, 4);
	return e;
}
std::unique_ptr<Work> makeWork(Sim& s, const model::GenOpts& g, const model::EncodeOpts& e, const std::string& dir) {
	auto w = std::make_unique<Work>();
	w->asset = model::generate(s, g);
	auto enc = e;
	if (e.randomExtras) enc.extras = model::randomExtras(s, w->asset);
	w->enc = model::encode(s, w->asset, enc);
	w->extras = enc.extras;
	w->dir = dir;
	for (std::size_t i = 0; i < w->asset.images.size(); ++i)
		if (auto* u = std::get_if<fg::sources::URI>(&w->asset.images[i].data)) { // a file the asset merely refers to
			if (!u->uri.isLocalPath()) { w->enc.imagePlace[i] = model::Place::Remote; continue; }
			auto known = model::uris().find(std::string(u->uri.string()));
			std::string f(known != model::uris().end() ? known->second.path : std::string(u->uri.path()));
			if (!w->enc.files.count(f)) w->enc.files[f] = model::randomBytes(s, s.range(1, 80));
			w->enc.imagePlace[i] = model::Place::File;
			w->enc.imageFile[i] = f;
		}
	w->path = dir + "/main" + (w->enc.glb ? ".glb" : ".gltf");
	store(w->enc, dir, w->enc.glb ? "main.glb" : "main.gltf");
	auto d = contentDump(dir);
	d.reference = true;
	w->expected = model::dump(w->asset, d);
	return w;
}
std::unique_ptr<fg::Parser> newParser(fg::Extensions e) { LibScope l; return std::make_unique<fg::Parser>(e); }
void destroy(std::unique_ptr<fg::Parser>& p) { LibScope l; p.reset(); }

void benignStorage(Sim& s, vfs::Plan& p) {
	static const int lv[] = {0, 2, 8, 14};
	p.shortReadP = lv[s.pick(4)];
	p.eintrP = s.chance(1, 4) ? 3 : 0;
	p.shortWriteP = lv[s.pick(4)];
}
fg::Category randomCategories(Sim& s) {
	if (!s.chance(1, 4)) return fg::Category::All;
	if (s.chance(1, 3)) return fg::Category::OnlyRenderable;
	if (s.chance(1, 4)) return fg::Category::OnlyAnimations;
	std::uint32_t m = 0;
	for (int i = 0; i < 20; ++i) if (s.chance(1, 2)) m |= 1u << i;
	return static_cast<fg::Category>(m & static_cast<std::uint32_t>(fg::Category::All));
}

void requireEqual(Sim& s, const char* kind, const std::string& what, const std::string& expected, const std::string& got) {
	if (expected == got) return;
	s.violate(kind, "%s: %s", what.c_str(), model::firstDifference(expected, got).c_str());
	throw Stop{};
}

// ---- damage ----
namespace {
const char* const values[] = {"-1", "0", "1", "2", "3", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "-9223372036854775808",
	"1e308", "1e-320", "0.5", "-0.5", "-0", "1e999", "null", "true", "false", "\"\"", "\"x\"", "[]", "{}", "[0]", "[[]]", "{\"a\":0}", "5120", "5121", "5123", "5125", "5126", "5130", "34962", "\"SCALAR\"", "\"VEC3\"", "\"MAT4\"", "\"S\"", "\"V\"", "\"M\"",
	"\"STEP\"", "\"data:\"", "\"data:application/octet-stream;base64,\"", "\"data:application/octet-stream;base64,A\"", "\"data:application/octet-stream;base64,AAAA====\"", "\"data:;base64,====\"", "\"data:a,b\"", "\"%\"", "\"%4\"", "\"%zz\"", "\"file://\"", "\"a:b@\"", "\"//@:\"", "\"http://[::1\"", "\"..\"", "\".\"", "\"/\"",
	"[1,2]", "[1e400]", "[0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0]", "[-1]", "[\"\"]", "[null]", "[4294967296]"};
struct Tok { std::size_t b, e; };
// the JSON text part of the bytes
std::vector<Tok> scalars(const Bytes& b, std::size_t from, std::size_t to) {
	std::vector<Tok> v;
	for (std::size_t i = from; i < to;) {
		unsigned char c = b[i];
		if (c == '"') {
			std::size_t j = i + 1;
			while (j < to && b[j] != '"') j += b[j] == '\\' ? 2 : 1;
			if (j >= to) break;
			v.push_back({i, j + 1});
			i = j + 1;
		} else if (c == '-' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z')) {
			std::size_t j = i;
			while (j < to && b[j] > ' ' && b[j] != ',' && b[j] != '}' && b[j] != ']') ++j;
			v.push_back({i, j});
			i = j;
		} else ++i;
	}
	return v;
}
Tok compound(const Bytes& b, std::size_t from, std::size_t to, std::uint32_t which) { // the which-th { or [ with its end
	std::size_t n = 0;
	for (std::size_t i = from; i < to; ++i) {
		if (b[i] == '"') { ++i; while (i < to && b[i] != '"') i += b[i] == '\\' ? 2 : 1; continue; }
		if (b[i] != '{' && b[i] != '[') continue;
		if (n++ != which) continue;
		int depth = 0;
		for (std::size_t j = i; j < to; ++j) {
			if (b[j] == '"') { ++j; while (j < to && b[j] != '"') j += b[j] == '\\' ? 2 : 1; continue; }
			if (b[j] == '{' || b[j] == '[') ++depth;
			if (b[j] == '}' || b[j] == ']') if (--depth == 0) return {i, j + 1};
		}
	}
	return {0, 0};
}
// The integers that refer to an object of another list, with the number of objects that list has.
struct IndexTok { Tok t; std::size_t count; std::string kind; };
std::vector<IndexTok> indices(const Bytes& b, std::size_t from, std::size_t to) {
	static const std::map<std::string, const char*> target = {{"mesh", "meshes"}, {"skin", "skins"}, {"camera", "cameras"}, {"material", "materials"}, {"index", "textures"}, {"source", "images"}, {"sampler", "samplers"},
		{"bufferView", "bufferViews"}, {"buffer", "buffers"}, {"indices", "accessors"}, {"input", "accessors"}, {"output", "accessors"}, {"inverseBindMatrices", "accessors"}, {"node", "nodes"}, {"connectedNode", "nodes"},
		{"scene", "scenes"}, {"skeleton", "nodes"}, {"children", "nodes"}, {"joints", "nodes"}, {"nodes", "nodes"}, {"light", "lights"}, {"variants", "variants"}, {"shape", "shapes"}, {"collisionFilter", "collisionFilters"},
		{"physicsMaterial", "physicsMaterials"}, {"joint", "physicsJoints"}};
	std::map<std::string, std::pair<int, std::size_t>> lists; // the outermost list of objects of that name
	struct Frame { bool array; std::string key; std::size_t objects; };
	std::vector<Frame> stack;
	std::vector<std::pair<Tok, std::string>> ints;
	std::string key;
	for (std::size_t i = from; i < to;) {
		unsigned char c = b[i];
		if (c == '"') {
			std::size_t j = i + 1;
			while (j < to && b[j] != '"') j += b[j] == '\\' ? 2 : 1;
			if (j >= to) break;
			std::size_t k = j + 1;
			while (k < to && b[k] <= ' ') ++k;
			if (k < to && b[k] == ':') key.assign(b.begin() + static_cast<std::ptrdiff_t>(i + 1), b.begin() + static_cast<std::ptrdiff_t>(j));
			i = j + 1;
		} else if (c == '{' || c == '[') {
			if (c == '{' && !stack.empty() && stack.back().array) ++stack.back().objects;
			stack.push_back({c == '[', key, 0});
			++i;
		} else if (c == '}' || c == ']') {
			if (stack.empty()) break;
			auto f = stack.back();
			stack.pop_back();
			int depth = static_cast<int>(stack.size());
			if (f.array && f.objects) { auto it = lists.find(f.key); if (it == lists.end() || it->second.first > depth) lists[f.key] = {depth, f.objects}; }
			if (!stack.empty()) key = stack.back().key;
			++i;
		} else if (c >= '0' && c <= '9') {
			std::size_t j = i;
			while (j < to && b[j] >= '0' && b[j] <= '9') ++j;
			if (!(j < to && (b[j] == '.' || b[j] == 'e' || b[j] == 'E'))) ints.push_back({{i, j}, key});
			i = j;
			while (i < to && (b[i] == '.' || b[i] == 'e' || b[i] == 'E' || b[i] == '-' || b[i] == '+' || (b[i] >= '0' && b[i] <= '9'))) ++i;
		} else ++i;
	}
	std::vector<IndexTok> out;
	for (auto& [t, k] : ints) {
		auto it = target.find(k);
		const char* list = it != target.end() ? it->second : !k.empty() && (k[0] == '_' || (k[0] >= 'A' && k[0] <= 'Z')) ? "accessors" : nullptr;
		if (!list) continue;
		auto l = lists.find(list);
		out.push_back({t, l == lists.end() ? 0 : l->second.second, it != target.end() ? k : "attribute"});
	}
	return out;
}
void put32(Bytes& b, std::size_t at, std::uint32_t v) { for (int k = 0; k < 4; ++k) if (at + k < b.size()) b[at + k] = static_cast<unsigned char>(v >> (8 * k)); }
std::uint32_t get32(const Bytes& b, std::size_t at) { std::uint32_t v = 0; for (int k = 0; k < 4; ++k) if (at + k < b.size()) v |= static_cast<std::uint32_t>(b[at + k]) << (8 * k); return v; }
void replace(Bytes& b, std::size_t from, std::size_t to, std::string_view t) {
	Bytes n(b.begin(), b.begin() + static_cast<std::ptrdiff_t>(from));
	n.insert(n.end(), t.begin(), t.end());
	n.insert(n.end(), b.begin() + static_cast<std::ptrdiff_t>(to), b.end());
	b.swap(n);
}
} // namespace
std::string damage(Sim& s, Bytes& b, bool glb, int kind) {
	if (b.empty()) return "empty";
	std::size_t from = 0, to = b.size();
	bool g = glb && b.size() >= 20;
	std::uint32_t oldJson = 0;
	if (g) { from = 20; oldJson = get32(b, 12); to = std::min<std::size_t>(b.size(), 20ull + oldJson); if (to < from) to = from; }
	auto fix = [&](std::size_t before) { // keep the container consistent after an edit inside the JSON chunk
		if (!g) return;
		auto d = static_cast<std::int64_t>(b.size()) - static_cast<std::int64_t>(before);
		put32(b, 12, static_cast<std::uint32_t>(oldJson + d));
		put32(b, 8, static_cast<std::uint32_t>(get32(b, 8) + d));
	};
	std::size_t before = b.size();
	switch (kind >= 0 ? kind : s.weighted({10, 4, 3, 3, 2, 1, g ? 5 : 0, 2, 2, 3, 8})) {
		case 0: { // replace one JSON scalar
			auto v = scalars(b, from, to);
			if (v.empty()) return "nothing";
			auto t = v[s.pick(static_cast<std::uint32_t>(v.size()))];
			bool isKey = t.e < to && b[t.e] == ':';
			std::string nv;
			if (isKey) nv = s.chance(1, 2) ? "\"x\"" : std::string(b.begin() + static_cast<std::ptrdiff_t>(v[0].b), b.begin() + static_cast<std::ptrdiff_t>(v[0].e));
			else if (s.chance(1, 4)) { // a small change of a number
				auto old = std::string(b.begin() + static_cast<std::ptrdiff_t>(t.b), b.begin() + static_cast<std::ptrdiff_t>(t.e));
				long long x = strtoll(old.c_str(), nullptr, 10);
				nv = std::to_string(x + static_cast<int>(s.pick(7)) - 3);
			} else nv = values[s.pick(std::size(values))];
			sim::cur->fault(sim::F_GARBAGE);
			std::string old(b.begin() + static_cast<std::ptrdiff_t>(t.b), b.begin() + static_cast<std::ptrdiff_t>(t.e));
			replace(b, t.b, t.e, nv);
			fix(before);
			return sfmt("JSON token at %zu %s -> %s", t.b, show(old, 40).c_str(), show(nv, 60).c_str());
		}
		case 1: { // remove or duplicate an object/array, or replace it
			auto t = compound(b, from, to, s.pick(60));
			if (t.e == 0) return "nothing";
			sim::cur->fault(sim::F_SPLICE);
			auto k = s.pick(3);
			std::string old(b.begin() + static_cast<std::ptrdiff_t>(t.b), b.begin() + static_cast<std::ptrdiff_t>(t.e));
			std::string nv = k == 0 ? values[s.pick(std::size(values))] : k == 1 ? old + "," + old : (old[0] == '{' ? "{}" : "[]");
			replace(b, t.b, t.e, nv);
			fix(before);
			return sfmt("JSON value at %zu (%zu bytes) -> %s", t.b, old.size(), show(nv, 40).c_str());
		}
		case 2: { // remove a member or element: from a comma to the next
			std::vector<std::size_t> commas;
			for (std::size_t i = from; i < to; ++i) if (b[i] == ',') commas.push_back(i);
			if (commas.size() < 2) return "nothing";
			auto k = s.pick(static_cast<std::uint32_t>(commas.size() - 1));
			sim::cur->fault(sim::F_SPLICE);
			replace(b, commas[k], commas[k + 1], "");
			fix(before);
			return sfmt("removed bytes %zu..%zu", commas[k], commas[k + 1]);
		}
		case 3: { // bit flips
			auto n = s.range(1, 3);
			std::string d = "bit flips at";
			for (std::uint32_t i = 0; i < n; ++i) { auto at = s.pick(static_cast<std::uint32_t>(b.size())); b[at] ^= static_cast<unsigned char>(1u << s.pick(8)); d += " " + std::to_string(at); }
			sim::cur->fault(sim::F_BITFLIP);
			return d;
		}
		case 4: { // torn: only a prefix
			auto n = s.pick(static_cast<std::uint32_t>(b.size()));
			b.resize(n);
			sim::cur->fault(sim::F_TRUNCATE);
			return sfmt("truncated to %u", n);
		}
		case 5: { // a lost block: zeros
			auto at = s.pick(static_cast<std::uint32_t>(b.size()));
			auto n = std::min<std::size_t>(b.size() - at, s.range(1, 512));
			std::fill(b.begin() + at, b.begin() + static_cast<std::ptrdiff_t>(at + n), 0);
			sim::cur->fault(sim::F_TORN_WRITE);
			return sfmt("zeroed %zu bytes at %u", n, at);
		}
		case 6: { // container fields
			std::size_t binAt = 20ull + oldJson;
			std::size_t f[] = {0, 4, 8, 12, 16, binAt, binAt + 4};
			auto at = f[s.pick(7)];
			std::uint32_t old = get32(b, at);
			static const std::uint32_t vals[] = {0, 1, 2, 3, 4, 11, 12, 19, 20, 21, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff0u, 0x4E4F534Au, 0x004E4942u, 0x46546C67u};
			std::uint32_t nv = s.chance(1, 3) ? old + s.pick(17) - 8 : s.chance(1, 3) ? static_cast<std::uint32_t>(b.size()) - s.pick(30) : vals[s.pick(std::size(vals))];
			put32(b, at, nv);
			sim::cur->fault(sim::F_GARBAGE);
			return sfmt("container field at %zu: %u -> %u", at, old, nv);
		}
		case 7: { // bytes inserted
			auto at = s.pick(static_cast<std::uint32_t>(b.size() + 1));
			static const char* const ins[] = {"[", "{", "}", "]", ",", "\"", "\\", "\n", " ", ":", "\x00", "0", "\xff", "\xef\xbb\xbf"};
			std::string t = ins[s.pick(std::size(ins))];
			if (t.empty()) t = std::string(1, '\0');
			if (s.chance(1, 8)) { std::string r; for (std::uint32_t i = s.range(10, 3000); i-- > 0;) r += t; t = r; }
			replace(b, at, at, t);
			sim::cur->fault(sim::F_GARBAGE);
			if (s.chance(1, 2)) fix(before);
			return sfmt("inserted %zu bytes at %u", t.size(), at);
		}
		case 8: { // block moved from elsewhere
			auto src = s.pick(static_cast<std::uint32_t>(b.size())), dst = s.pick(static_cast<std::uint32_t>(b.size()));
			auto n = std::min<std::size_t>({b.size() - src, b.size() - dst, s.range(1, 64)});
			Bytes c(b.begin() + src, b.begin() + static_cast<std::ptrdiff_t>(src + n));
			std::copy(c.begin(), c.end(), b.begin() + dst);
			sim::cur->fault(sim::F_SPLICE);
			return sfmt("copied %zu bytes %u -> %u", n, src, dst);
		}
		case 10: { // a reference just past the end of its list, or to another object of it
			auto v = indices(b, from, to);
			if (v.empty()) return "nothing";
			std::map<std::string, std::vector<std::size_t>> kinds; // every kind of reference alike, however many there are
			for (std::size_t i = 0; i < v.size(); ++i) kinds[v[i].kind].push_back(i);
			auto& list = std::next(kinds.begin(), s.pick(static_cast<std::uint32_t>(kinds.size())))->second;
			auto& x = v[list[s.pick(static_cast<std::uint32_t>(list.size()))]];
			std::string old(b.begin() + static_cast<std::ptrdiff_t>(x.t.b), b.begin() + static_cast<std::ptrdiff_t>(x.t.e));
			std::string nv = std::to_string(s.weighted({4, 1, 1, 1}) == 0 ? x.count : s.pick(static_cast<std::uint32_t>(x.count + 2)));
			sim::cur->fault(sim::F_GARBAGE);
			replace(b, x.t.b, x.t.e, nv);
			fix(before);
			return sfmt("reference at %zu %s -> %s of %zu", x.t.b, show(old, 40).c_str(), nv.c_str(), x.count);
		}
		default: { // a string gets odd content
			auto v = scalars(b, from, to);
			std::vector<Tok> str;
			for (auto& t : v) if (b[t.b] == '"' && !(t.e < to && b[t.e] == ':')) str.push_back(t);
			if (str.empty()) return "nothing";
			auto t = str[s.pick(static_cast<std::uint32_t>(str.size()))];
			std::string old(b.begin() + static_cast<std::ptrdiff_t>(t.b), b.begin() + static_cast<std::ptrdiff_t>(t.e));
			std::string nv = old;
			switch (s.pick(5)) {
				case 0: nv = old.substr(0, 1 + s.pick(static_cast<std::uint32_t>(old.size() - 1))) + "\""; break;
				case 1: nv = "\"" + old.substr(2 < old.size() ? 2 : 1); break;
				case 2: nv.insert(1 + s.pick(static_cast<std::uint32_t>(old.size() - 1)), "%"); break;
				case 3: nv.insert(old.size() - 1, "="); break;
				default: nv.insert(1 + s.pick(static_cast<std::uint32_t>(old.size() - 1)), s.chance(1, 2) ? ":" : "@"); break;
			}
			sim::cur->fault(sim::F_GARBAGE);
			replace(b, t.b, t.e, nv);
			fix(before);
			return sfmt("string at %zu %s -> %s", t.b, show(old, 40).c_str(), show(nv, 60).c_str());
		}
	}
}

// ---- export ----
std::string ExportOut::text() const {
	std::string t = thrown.empty() ? (ok ? "ok" : std::string("error ") + errName(err)) : "threw " + thrown;
	t += sfmt("\nbytes %zu %016llx\n", bytes.size(), (unsigned long long) sim::fnv(bytes.data(), bytes.size()));
	for (auto& p : bufferPaths) t += "buffer " + p + "\n";
	for (auto& p : imagePaths) t += "image " + p + "\n";
	t += std::string(bytes.begin(), bytes.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(bytes.size(), 30000)));
	return t;
}
namespace {
template <class F> void guarded(ExportOut& r, F f) {
	int saved = sim::inLib;
	try {
		LibScope l;
		f();
	} catch (const std::bad_alloc&) {
		sim::inLib = saved;
		r.thrown = "bad_alloc";
	} catch (const std::length_error&) {
		sim::inLib = saved;
		r.thrown = "length_error";
	} catch (const UserError&) {
		sim::inLib = saved;
		r.thrown = "user";
	} catch (const std::exception& e) {
		sim::inLib = saved;
		r.thrown = std::string("exception ") + e.what();
	}
	sim::inLib = saved;
}
template <class V> void paths(std::vector<std::string>& o, const V& v) { for (auto& p : v) o.push_back(p.has_value() ? p->string() : std::string("-")); }
} // namespace
ExportOut exportMemory(fg::Exporter& e, const fg::Asset& a, bool glb, fg::ExportOptions o) {
	ExportOut r;
	guarded(r, [&] {
		if (glb) {
			auto x = e.writeGltfBinary(a, o);
			r.err = x.error();
			if (x.error() == fg::Error::None) {
				HostScope h;
				r.ok = true;
				auto* d = reinterpret_cast<const unsigned char*>(x->output.data());
				r.bytes.assign(d, d + x->output.size());
				paths(r.bufferPaths, x->bufferPaths);
				paths(r.imagePaths, x->imagePaths);
			}
		} else {
			auto x = e.writeGltfJson(a, o);
			r.err = x.error();
			if (x.error() == fg::Error::None) {
				HostScope h;
				r.ok = true;
				r.bytes.assign(x->output.begin(), x->output.end());
				paths(r.bufferPaths, x->bufferPaths);
				paths(r.imagePaths, x->imagePaths);
			}
		}
	});
	return r;
}
ExportOut exportFile(fg::FileExporter& e, const fg::Asset& a, bool glb, const std::string& target, fg::ExportOptions o) {
	ExportOut r;
	fs::path t(target);
	guarded(r, [&] {
		r.err = glb ? e.writeGltfBinary(a, t, o) : e.writeGltfJson(a, t, o);
		r.ok = r.err == fg::Error::None;
	});
	return r;
}
void debugDump(const Bytes& b) {
	static const char* f = std::getenv("VP_DUMP");
	if (!f || !sim::cur || !sim::cur->verbose) return;
	auto fd = syscall(SYS_open, f, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) { (void)!syscall(SYS_write, fd, b.data(), b.size()); syscall(SYS_close, fd); }
}
fg::Error runValidate(const fg::Asset& a) { LibScope l; return fg::validate(a); }
} // namespace chk
