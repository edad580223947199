// C14: everything acquired is released. C15: a loaded asset stands on its own.
// Both run histories over pools of sources, parsers, exporters and assets.
#include "exporting.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C14", "memory is counted at operator new/delete, descriptors and mappings at the libc calls; what the libraries set up once per process on first use is not counted");
sim::Assumption a2("C15", "an asset that was moved from is only destroyed or assigned to");

#define LIB(...) do { LibScope lib_; __VA_ARGS__; } while (0)
struct SrcObj {
	int kind = 0;
	std::size_t work = 0;
	std::unique_ptr<fg::GltfDataBuffer> buf;
	std::unique_ptr<fg::MappedGltfFile> map;
	std::unique_ptr<fg::GltfFileStream> str;
	std::unique_ptr<SimGetter> get;
	fg::GltfDataGetter& g() const { return buf ? static_cast<fg::GltfDataGetter&>(*buf) : map ? static_cast<fg::GltfDataGetter&>(*map) : str ? static_cast<fg::GltfDataGetter&>(*str) : *get; }
	SrcObj() = default;
	SrcObj(SrcObj&&) = default;
	SrcObj& operator=(SrcObj&&) = default;
	~SrcObj() { LibScope l; buf.reset(); map.reset(); str.reset(); if (get) { get->closed = true; } get.reset(); }
};
struct AssetObj { std::unique_ptr<fg::Asset> a; std::string dump; };

struct World {
	Sim& s;
	bool faults;
	std::vector<std::unique_ptr<Work>> works;
	std::vector<SrcObj> srcs;
	std::vector<std::unique_ptr<fg::Parser>> parsers;
	std::vector<std::unique_ptr<fg::FileExporter>> exporters;
	std::vector<AssetObj> assets;
	Host host;
	World(Sim& sim, bool f) : s(sim), faults(f) {}
	~World() { clear(); }
	void clear() {
		LibScope l;
		assets.clear(); parsers.clear(); exporters.clear(); srcs.clear();
	}
	std::size_t index(std::size_t n) { return s.pick(static_cast<std::uint32_t>(n)); }
	vfs::Plan plan(int range) {
		vfs::Plan p;
		if (faults && s.chance(1, 2)) { p.at = static_cast<int>(s.pick(static_cast<std::uint32_t>(range))); p.sticky = s.chance(1, 3); p.flavour = static_cast<int>(s.pick(8)); p.eofFault = s.chance(1, 2); }
		else if (!faults) benignStorage(s, p);
		return p;
	}
	std::string text(const fg::Asset& a) { return model::dump(a, host.dumpOpts()); }
	void open() {
		SrcObj o;
		o.kind = static_cast<int>(s.pick(SRC_COUNT));
		o.work = index(works.size());
		auto& w = *works[o.work];
		vfs::setPlan(plan(8));
		auto so = openSource(o.kind, w.path, w.enc.main);
		vfs::clearPlan();
		s.event("open %s from %s: %s", w.path.c_str(), srcNames[o.kind], so.ok() ? "ok" : errName(so.err));
		if (!so.ok()) { s.probe("open failed"); return; }
		switch (o.kind) {
			case BYTES: case PATH: o.buf.reset(static_cast<fg::GltfDataBuffer*>(so.g.release())); break;
			case MAP: o.map.reset(static_cast<fg::MappedGltfFile*>(so.g.release())); break;
			case STREAM: o.str.reset(static_cast<fg::GltfFileStream*>(so.g.release())); break;
			default: o.get.reset(static_cast<SimGetter*>(so.g.release())); break;
		}
		srcs.push_back(std::move(o));
	}
	void moveSource() {
		if (srcs.empty()) return;
		auto i = index(srcs.size()), j = index(srcs.size());
		auto& x = srcs[i];
		auto& y = srcs[j];
		bool assign = i != j && s.chance(1, 2) && ((x.buf && y.buf) || (x.map && y.map));
		if (x.buf) {
			if (assign) { LIB(*y.buf = std::move(*x.buf)); y.work = x.work; y.kind = x.kind; s.event("source move-assigned"); s.probe("source move-assigned"); srcs.erase(srcs.begin() + static_cast<std::ptrdiff_t>(i)); }
			else { LIB(x.buf = std::make_unique<fg::GltfDataBuffer>(std::move(*x.buf))); s.event("source moved"); s.probe("source moved"); }
		} else if (x.map) {
			if (assign) { LIB(*y.map = std::move(*x.map)); y.work = x.work; s.event("mapping move-assigned"); s.probe("mapping move-assigned"); srcs.erase(srcs.begin() + static_cast<std::ptrdiff_t>(i)); }
			else { LIB(x.map = std::make_unique<fg::MappedGltfFile>(std::move(*x.map))); s.event("mapping moved"); s.probe("mapping moved"); }
		}
	}
	void newParserObj() {
		auto p = newParser();
		host.install(*p);
		parsers.push_back(std::move(p));
	}
	void moveParser() {
		if (parsers.empty()) return;
		auto i = index(parsers.size()), j = index(parsers.size());
		if (i != j && s.chance(1, 2)) {
			LIB(*parsers[j] = std::move(*parsers[i]); parsers[i].reset());
			parsers.erase(parsers.begin() + static_cast<std::ptrdiff_t>(i));
			s.event("parser move-assigned"); s.probe("parser move-assigned");
		} else { LIB(parsers[i] = std::make_unique<fg::Parser>(std::move(*parsers[i]))); s.event("parser moved"); }
	}
	void load() {
		if (srcs.empty()) { open(); if (srcs.empty()) return; }
		if (parsers.empty()) newParserObj();
		auto& x = srcs[index(srcs.size())];
		auto& w = *works[x.work];
		auto& p = *parsers[index(parsers.size())];
		LoadSpec l;
		l.dir = faults && s.chance(1, 10) ? "/sim/nowhere" : w.dir;
		if (s.chance(1, 4)) l.opts = fg::Options::LoadExternalBuffers + kDouble;
		if (s.chance(1, 4)) l.opts = l.opts + fg::Options::GenerateMeshIndices;
		bool bad = faults && s.chance(1, 10);
		if (bad) l.entry = w.enc.glb ? JSON : BINARY;
		host.throwAtMap = faults && s.chance(1, 10) ? host.mapRequests + static_cast<int>(s.pick(3)) : -1;
		host.throwAtDecode = faults && s.chance(1, 10) ? host.decodes + static_cast<int>(s.pick(2)) : -1;
		host.throwAtExtras = faults && s.chance(1, 10) ? static_cast<int>(host.extrasCalls + s.pick(6)) : -1;
		for (auto& r : host.regions) r.open = false;
		if (x.get && faults && s.chance(1, 8)) x.get->throwAt = x.get->calls + static_cast<int>(s.pick(10));
		vfs::setPlan(plan(12));
		auto o = chk::load(p, x.g(), l);
		int fired = vfs::st.fired;
		vfs::clearPlan();
		if (x.get) x.get->throwAt = -1;
		s.event("load %s from %s -> %s", w.path.c_str(), srcNames[x.kind], o.status().c_str());
		s.observe(o.status());
		if (!o.ok()) { s.probe(o.thrown.empty() ? "load failed" : "load threw"); if (!faults) SIM_REQUIRE(false, "load-failed", "a load that nothing disturbed failed: %s", o.status().c_str()); (void) fired; return; }
		s.probe("asset loaded");
		AssetObj a;
		a.a = std::move(o.asset);
		a.dump = text(*a.a);
		if (!faults && !has(l.opts, fg::Options::GenerateMeshIndices)) {
			auto d = contentDump(w.dir, l.opts);
			d.custom = host.dumpOpts().custom;
			requireEqual(s, "load-wrong", "what was loaded is not what the file says", w.expected, model::dump(*a.a, d));
		}
		assets.push_back(std::move(a));
	}
	void moveAsset() {
		if (assets.empty()) return;
		auto i = index(assets.size()), j = index(assets.size());
		if (i != j && s.chance(2, 3)) {
			s.event("asset %zu move-assigned over asset %zu", i, j);
			s.probe("asset move-assigned over another");
			LIB(*assets[j].a = std::move(*assets[i].a));
			assets[j].dump = assets[i].dump;
			if (s.chance(1, 3)) { // and back into what was moved from
				LIB(*assets[i].a = std::move(*assets[j].a));
				s.probe("asset moved back");
				std::swap(i, j);
			}
			LIB(assets[i].a.reset());
			assets.erase(assets.begin() + static_cast<std::ptrdiff_t>(i));
		} else if (s.chance(1, 3)) {
			s.event("asset %zu move-assigned over an empty asset", i);
			LIB(auto n = std::make_unique<fg::Asset>(); *n = std::move(*assets[i].a); assets[i].a = std::move(n));
		} else {
			s.event("asset %zu moved", i);
			s.probe("asset moved");
			LIB(assets[i].a = std::make_unique<fg::Asset>(std::move(*assets[i].a)));
		}
	}
	void exportOne() {
		if (assets.empty()) return;
		if (exporters.empty() || s.chance(1, 3)) { std::unique_ptr<fg::FileExporter> n; LIB(n = std::make_unique<fg::FileExporter>()); exporters.push_back(std::move(n)); }
		auto& e = *exporters[index(exporters.size())];
		auto st = randomSettings(s);
		st.apply(e);
		auto& a = *assets[index(assets.size())].a;
		bool file = s.chance(2, 3);
		vfs::setPlan(plan(16));
		auto r = file ? exportFile(e, a, st.glb, std::string("/sim/out/x") + (st.glb ? ".glb" : ".gltf"), st.options()) : exportMemory(e, a, st.glb, st.options());
		vfs::clearPlan();
		s.event("export %s to %s -> %s", st.text().c_str(), file ? "files" : "memory", r.ok ? "ok" : r.thrown.empty() ? errName(r.err) : r.thrown.c_str());
		s.probe(r.ok ? "exported" : "export failed");
		if (s.chance(1, 4)) { std::unique_ptr<fg::FileExporter> n; LIB(n = std::make_unique<fg::FileExporter>(std::move(e))); exporters.push_back(std::move(n)); }
	}
	void destroyOne(int what) {
		if (what == 0 && !assets.empty()) { auto i = index(assets.size()); LIB(assets[i].a.reset()); assets.erase(assets.begin() + static_cast<std::ptrdiff_t>(i)); s.event("asset %zu destroyed", i); }
		else if (what == 1 && !srcs.empty()) { auto i = index(srcs.size()); srcs.erase(srcs.begin() + static_cast<std::ptrdiff_t>(i)); s.event("source %zu destroyed", i); }
		else if (what == 2 && !parsers.empty()) { auto i = index(parsers.size()); destroy(parsers[i]); parsers.erase(parsers.begin() + static_cast<std::ptrdiff_t>(i)); s.event("parser %zu destroyed", i); }
		else if (what == 3 && !exporters.empty()) { auto i = index(exporters.size()); LIB(exporters[i].reset()); exporters.erase(exporters.begin() + static_cast<std::ptrdiff_t>(i)); }
	}
	void checkAssets() {
		for (auto& x : assets) requireEqual(s, "asset-changed", "a loaded asset changed although nothing touched it", x.dump, text(*x.a));
	}
	std::size_t mappings() const { std::size_t n = 0; for (auto& x : srcs) if (x.map) ++n; return n; }
	std::size_t streams() const { std::size_t n = 0; for (auto& x : srcs) if (x.str) ++n; return n; }
};

void history(Sim& s, bool faults) {
	World w(s, faults);
	int n = static_cast<int>(s.range(1, 3));
	for (int i = 0; i < n; ++i) w.works.push_back(makeWork(s, randomGen(s, 1), randomEnc(s), sfmt("/sim/w%d", i)));
	w.host.mapCb = s.chance(1, 2);
	w.host.unmapCb = w.host.mapCb && s.chance(3, 4);
	w.host.b64Cb = s.chance(1, 4);
	w.host.extrasCb = s.chance(1, 3);
	vfs::mkdirs("/sim/out");
	// everything once, so that what the libraries set up on first use is there
	for (auto& x : w.works) {
		auto p = newParser();
		LoadSpec l;
		l.dir = x->dir;
		for (int src = 0; src < GETTER; ++src) {
			auto o = loadFrom(*p, src, x->path, x->enc.main, l);
			if (o.ok() && src == PATH) {
				fg::FileExporter e;
				exportFile(e, *o.asset, false, "/sim/out/warm.gltf", fg::ExportOptions::PrettyPrintJson);
				exportFile(e, *o.asset, true, "/sim/out/warm.glb", fg::ExportOptions::ValidateAsset);
			}
		}
		destroy(p);
	}
	auto live = sim::allocLive();
	auto handles = vfs::st.openHandles, maps = vfs::st.openMaps;
	SIM_REQUIRE(handles == 0 && maps == 0, "handle-leak", "left open by undisturbed loads and exports: %s", vfs::handleReport().c_str());
	int steps = static_cast<int>(s.range(6, 24));
	for (int k = 0; k < steps; ++k) {
		switch (s.weighted({4, 6, 2, 2, 3, 2, 1, faults ? 3 : 1, 3})) {
			case 0: w.open(); break;
			case 1: w.load(); break;
			case 2: w.moveSource(); break;
			case 3: w.moveParser(); break;
			case 4: w.moveAsset(); break;
			case 5: w.destroyOne(static_cast<int>(s.pick(4))); break;
			case 6: w.newParserObj(); break;
			case 7: w.exportOne(); break;
			default: w.destroyOne(static_cast<int>(s.pick(3))); break;
		}
		w.checkAssets();
		SIM_REQUIRE(vfs::st.openMaps == w.mappings(), "mapping-count", "%zu mapped sources, but %zu mappings", w.mappings(), vfs::st.openMaps);
		SIM_REQUIRE(vfs::st.openHandles == w.streams(), "handle-count", "%zu file streams, but %zu descriptors are open", w.streams(), vfs::st.openHandles);
		if (s.failed()) throw Stop{};
	}
	s.nontrivial = true;
	for (auto& x : w.assets) s.observe(x.dump);
	// destroy everything in any order
	while (!w.assets.empty() || !w.srcs.empty() || !w.parsers.empty() || !w.exporters.empty()) {
		w.destroyOne(static_cast<int>(s.pick(4)));
		w.checkAssets();
	}
	SIM_REQUIRE(vfs::st.openHandles == handles && vfs::st.openMaps == maps, "handle-leak", "left open: %s", vfs::handleReport().c_str());
	SIM_REQUIRE(sim::allocLive() == live, "memory-leak", "%zu blocks are still allocated", sim::allocLive() - live);
}
void withFaults(Sim& s) { history(s, true); }
void undisturbed(Sim& s) { history(s, false); }
sim::Register r1("C14", "object-histories", 1, withFaults, true);
sim::Register r2("C15", "object-histories", 1, undisturbed, true);
} // namespace
