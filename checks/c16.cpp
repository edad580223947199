// C16: a file export stays inside its target and keeps files apart.
#include "exporting.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C16", "storage compares file names byte by byte; the configured folders are relative to the target's directory and stay below it, absolute ones have no effect (as documented)");

bool within(const std::string& p, const std::string& dir) { return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'; }
void contained(Sim& s) {
	ExOpts eo;
	eo.gen = randomGen(s, 0);
	eo.gen.imagesInMemory = true;
	eo.collide = s.chance(5, 6);
	eo.longNames = true;
	s.nontrivial = true; // the names are the adversity
	const std::string dir = s.chance(1, 4) ? "/sim/out/x" : "/sim/out";
	vfs::put("/sim/secret.bin", std::string_view("untouchable"));
	vfs::put("/sim/x.bin", std::string_view("untouchable"));
	auto w = makeExportWork(s, eo, dir);
	std::unique_ptr<fg::FileExporter> e;
	{ LibScope l; e = std::make_unique<fg::FileExporter>(); }
	int rounds = static_cast<int>(s.range(1, 3));
	for (int k = 0; k < rounds; ++k) {
		auto st = randomSettings(s);
		st.apply(*e);
		if (s.chance(1, 4)) { // absolute folders are documented to have no effect
			static const char* const abs[] = {"/sim/elsewhere", "/sim/out", "/", "/sim/cwd/abs"};
			fs::path b(abs[s.pick(4)]), i(abs[s.pick(4)]);
			bool both = s.chance(1, 2), image = s.chance(1, 2);
			LibScope l;
			if (both || !image) e->setBufferPath(b);
			if (both || image) e->setImagePath(i);
		}
		static const char* const targets[] = {"scene", "x", "a", "buffer0", "image0", "a b", "buffer0.bin", "a.bin"};
		std::string leaf = targets[s.pick(std::size(targets))];
		if (leaf.find('.') == leaf.npos) leaf += s.chance(1, 4) ? ".bin" : st.glb ? ".glb" : ".gltf";
		std::string target = dir + "/" + leaf;
		if (w->refFiles.count(leaf)) continue; // the user overwrites a file the asset needs
		bool memory = s.chance(1, 4);
		auto before = vfs::cloneFiles();
		vfs::st.touched.clear();
		vfs::st.openedForWrite.clear();
		bool relative = !memory && s.chance(1, 6);
		auto cwd = vfs::st.cwd;
		if (relative) { vfs::mkdirs(dir); vfs::st.cwd = dir; before = vfs::cloneFiles(); }
		vfs::Plan p;
		if (s.chance(1, 5)) { p.at = static_cast<int>(s.pick(20)); p.flavour = static_cast<int>(s.pick(8)); }
		vfs::setPlan(p);
		ExportOut r = memory ? exportMemory(*e, w->asset, st.glb, st.options()) : exportFile(*e, w->asset, st.glb, relative ? leaf : target, st.options());
		bool fired = vfs::st.fired != 0;
		vfs::clearPlan();
		vfs::st.cwd = cwd;
		s.event("%s %s to %s -> %s", memory ? "memory" : "files", st.text().c_str(), target.c_str(), r.text().c_str());
		for (auto* set : {&vfs::st.openedForWrite}) for (auto& f : *set) {
			auto n = vfs::norm(f[0] == '/' ? f : (relative ? dir : cwd) + "/" + f);
			SIM_REQUIRE(!memory, "escape", "an in-memory export opens %s", n.c_str());
			SIM_REQUIRE(n == target || within(n, dir), "escape", "exporting to %s opens %s for writing", target.c_str(), n.c_str());
		}
		for (auto& f : vfs::st.touched) {
			bool parent = within(dir, f) || f == dir;
			auto x = vfs::get(f);
			SIM_REQUIRE(f == target || within(f, dir) || (parent && x && x->dir), "escape", "exporting to %s changes %s", target.c_str(), f.c_str());
		}
		for (auto& [f, b] : w->refFiles) {
			auto full = vfs::norm(dir + "/" + f);
			auto x = vfs::get(full);
			SIM_REQUIRE(x && x->data == b, "overwritten", "exporting overwrites %s, which the asset refers to", full.c_str());
		}
		for (auto& [f, x] : before) {
			if (f == target || within(f, dir)) continue;
			auto now = vfs::get(f);
			SIM_REQUIRE(now && now->data == x->data, "escape", "exporting to %s changes %s", target.c_str(), f.c_str());
		}
		s.observe(r.text());
		if (!r.ok) { s.probe(fired ? "failed by a fault" : "failed because of the names"); continue; }
		// no sharing
		ExportOut m = r;
		if (!memory) {
			// every buffer and image has its own file with its own bytes
			LoadSpec l;
			l.dir = dir;
			l.opts = kExternal;
			auto parser = newParser();
			auto o = loadFrom(*parser, PATH, target, {}, l);
			SIM_REQUIRE(o.ok(), "unreadable", "the exported file does not load: %s", o.status().c_str());
			// names are kept, so everything has to be equal
			auto got = model::dump(*o.asset, exportDump(dir));
			requireEqual(s, "shared", "buffers, images or the target share a file", w->expected, got);
			o.drop();
			destroy(parser);
			s.probe("export with colliding names read back");
			vfs::st.files = before;
		} else {
			std::map<std::string, std::size_t> seen;
			for (auto& [f, b] : w->refFiles) seen[vfs::norm(dir + "/" + f)] = 1;
			for (auto* list : {&m.bufferPaths, &m.imagePaths}) for (auto& f : *list) {
				if (f == "-") continue;
				SIM_REQUIRE(f[0] != '/', "escape", "the export names the absolute path %s", f.c_str());
				auto n = vfs::norm(dir + "/" + f);
				SIM_REQUIRE(within(n, dir), "escape", "the export names %s, outside of the target's directory", f.c_str());
				SIM_REQUIRE(seen.emplace(n, 0).second, "shared", "the export names %s twice", f.c_str());
			}
			s.probe("in-memory export with colliding names");
		}
	}
	LibScope l;
	e.reset();
}
sim::Register r("C16", "containment", 1, contained, true);
} // namespace
