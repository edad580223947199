// C04: damaged files are contained.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C04", "memory errors are those AddressSanitizer and UndefinedBehaviorSanitizer detect, and reads of uninitialised heap memory that change a result");

void damaged(Sim& s) {
	auto g = randomGen(s, 2);
	bool references = s.chance(1, 4); // only references are damaged, so that most of the files still load
	if (references) { g.scale = 1; g.bigBuffers = false; }
	auto e = randomEnc(s);
	Bytes bytes;
	std::string dir = "/sim/in", path = dir + "/main.gltf";
	std::unique_ptr<Work> w;
	if (s.chance(1, 30)) {
		bytes = model::randomBytes(s, s.pick(200));
		if (s.chance(1, 2)) { const char* m = "glTF\x02\0\0\0"; for (int i = 0; i < 8 && i < static_cast<int>(bytes.size()); ++i) bytes[static_cast<std::size_t>(i)] = static_cast<unsigned char>(m[i]); }
		vfs::mkdirs(dir);
	} else {
		w = makeWork(s, g, e, dir);
		if (s.chance(1, 4)) e.extras = model::randomExtras(s, w->asset);
		bytes = w->enc.main;
		auto n = s.weighted({1, 12, 4, 2, 1});
		for (int i = 0; i < n; ++i) {
			auto d = damage(s, bytes, w->enc.glb, references ? 10 : -1);
			s.event("damage: %s", d.c_str());
		}
		for (auto& [f, b] : w->enc.files)
			if (s.chance(1, 4)) {
				auto c = b;
				auto d = damage(s, c, false);
				s.event("damage to %s: %s", show(f).c_str(), d.c_str());
				vfs::put(vfs::norm(dir + "/" + f), c);
			}
	}
	vfs::put(path, bytes);
	LoadSpec l;
	l.dir = dir;
	l.opts = kExternal;
	l.entry = static_cast<int>(s.weighted({4, 1, 1}));
	if (s.chance(1, 3)) l.opts = l.opts + fg::Options::DecomposeNodeMatrices;
	if (s.chance(1, 3)) l.opts = l.opts + fg::Options::GenerateMeshIndices;
	if (s.chance(1, 4)) l.opts = l.opts + fg::Options::DontRequireValidAssetMember;
	if (s.chance(1, 4)) l.opts = static_cast<fg::Options>(static_cast<std::uint64_t>(l.opts) & ~static_cast<std::uint64_t>(fg::Options::LoadExternalBuffers));
	l.cats = randomCategories(s);
	Host host;
	if (s.chance(1, 3)) { host.mapCb = true; host.unmapCb = s.chance(2, 3); host.declineNum = s.chance(1, 3) ? 3 : 0; }
	host.b64Cb = s.chance(1, 6);
	host.extrasCb = s.chance(1, 3);
	vfs::Plan p;
	if (s.chance(1, 4)) benignStorage(s, p);
	vfs::setPlan(p);
	auto parser = newParser(s.chance(1, 5) ? static_cast<fg::Extensions>(s.bits() & static_cast<std::uint64_t>(model::allExtensions())) : model::allExtensions());
	{ LibScope ls; host.install(*parser); }
	int src = references ? BYTES : static_cast<int>(s.pick(SRC_COUNT));
	auto o = loadFrom(*parser, src, path, bytes, l);
	vfs::clearPlan();
	destroy(parser);
	s.event("%s from %s -> %s", entryNames[l.entry], srcNames[src], o.status().c_str());
	SIM_REQUIRE(o.thrown.empty() || o.thrown == "bad_alloc" || o.thrown == "length_error", "exception", "loading a damaged file threw: %s", o.thrown.c_str());
	s.observe(o.text(host.dumpOpts()));
	if (!o.ok()) { s.probe("load error"); return; }
	s.probe("damaged file loaded");
	auto v = runValidate(*o.asset);
	s.event("validate -> %s", errName(v));
	s.observe(errName(v));
	if (v != fg::Error::None) { s.probe("validation error"); return; }
	s.probe("validated after damage");
	bool glb = s.chance(1, 2);
	fg::ExportOptions eo = s.chance(1, 2) ? fg::ExportOptions::PrettyPrintJson : fg::ExportOptions::None;
	if (s.chance(1, 2)) {
		std::unique_ptr<fg::Exporter> ex;
		{ LibScope ls; ex = std::make_unique<fg::Exporter>(); }
		auto r = exportMemory(*ex, *o.asset, glb, eo);
		s.event("export to memory -> %s", r.thrown.empty() ? errName(r.err) : r.thrown.c_str());
		SIM_REQUIRE(r.thrown.empty() || r.thrown == "bad_alloc" || r.thrown == "length_error", "exception", "exporting a loaded asset threw: %s", r.thrown.c_str());
		s.observe(r.text());
		{ LibScope ls; ex.reset(); }
	} else {
		vfs::mkdirs("/sim/out");
		std::unique_ptr<fg::FileExporter> ex;
		{ LibScope ls; ex = std::make_unique<fg::FileExporter>(); }
		auto r = exportFile(*ex, *o.asset, glb, "/sim/out/x.gltf", eo);
		s.event("export to a file -> %s", r.thrown.empty() ? errName(r.err) : r.thrown.c_str());
		SIM_REQUIRE(r.thrown.empty() || r.thrown == "bad_alloc" || r.thrown == "length_error", "exception", "exporting a loaded asset threw: %s", r.thrown.c_str());
		s.observe(r.text());
		if (auto f = vfs::get("/sim/out/x.gltf")) s.observe(std::string(f->data.begin(), f->data.end()));
		{ LibScope ls; ex.reset(); }
	}
}
sim::Register r("C04", "damage", 1, damaged, true);
} // namespace
