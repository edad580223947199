// C11: a crash during export leaves nothing that loads as something else.
#include "exporting.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C11", "after the process stops, storage holds what had been written, in order, the last write possibly in part");
sim::Assumption a2("C11", "after the machine stops, each file is missing or keeps a prefix of what had been written to it, each independently of the others; images, whose length glTF does not record, are missing or keep everything");

void crashes(Sim& s) {
	ExOpts eo;
	eo.gen = randomGen(s, 1);
	eo.uris = s.chance(1, 3);
	const std::string dir = "/sim/out";
	auto w = makeExportWork(s, eo, dir);
	auto st = randomSettings(s);
	std::string target = dir + "/scene" + (st.glb ? ".glb" : ".gltf");
	vfs::mkdirs(dir);
	auto base = vfs::cloneFiles();
	std::size_t from = vfs::st.journal.size();
	ExportOut r;
	{
		vfs::Plan p;
		benignStorage(s, p);
		vfs::setPlan(p);
		fg::FileExporter e;
		st.apply(e);
		// the crash may also hit an export that is failing
		r = exportFile(e, w->asset, st.glb, target, st.options());
		vfs::clearPlan();
	}
	s.event("%s -> %s", st.text().c_str(), r.text().c_str());
	SIM_REQUIRE(r.ok, "failed", "exporting a valid asset to working storage failed: %s", r.text().c_str());
	std::vector<vfs::Mutation> j(vfs::st.journal.begin() + static_cast<std::ptrdiff_t>(from), vfs::st.journal.end());
	std::set<std::string> images;
	ExportOut mem;
	{
		fg::Exporter e;
		st.apply(e);
		mem = exportMemory(e, w->asset, st.glb, st.options());
		for (auto& f : mem.imagePaths) if (f != "-") images.insert(vfs::norm(dir + "/" + f));
	}
	auto complete = vfs::cloneFiles();
	int points = static_cast<int>(s.range(1, 6));
	for (int k = 0; k < points; ++k) {
		auto img = vfs::cloneFiles(base);
		bool machine = s.chance(1, 2);
		std::size_t n = s.pick(static_cast<std::uint32_t>(j.size() + 1));
		if (s.chance(1, 3)) n = j.size(); // at the very end nothing may be synced yet
		for (std::size_t i = 0; i < n; ++i) vfs::apply(img, j[i]);
		std::string what;
		if (!machine) {
			std::size_t part = 0;
			if (n < j.size() && j[n].k == vfs::Mutation::WRITE) {
				part = s.pick(static_cast<std::uint32_t>(j[n].data.size() + 1));
				vfs::apply(img, j[n], part);
			}
			what = sfmt("process stopped after %zu of %zu storage operations and %zu bytes of the next", n, j.size(), part);
		} else {
			what = sfmt("machine stopped after %zu of %zu storage operations", n, j.size());
			std::set<std::string> mine;
			for (std::size_t i = 0; i < n; ++i) if (j[i].k != vfs::Mutation::MKDIR) mine.insert(j[i].path);
			for (auto& f : mine) {
				auto it = img.find(f);
				if (it == img.end()) continue;
				auto& d = it->second->data;
				int fate = s.weighted({4, 2, 4});
				if (fate == 0) continue;
				if (fate == 1 || images.count(f)) { img.erase(it); what += " lost " + f; s.fault(sim::F_LOST_FILE); continue; }
				std::size_t keep = s.chance(1, 3) && d.size() ? d.size() - 1 - s.pick(std::min<std::uint32_t>(8, static_cast<std::uint32_t>(d.size()))) % d.size() : s.pick(static_cast<std::uint32_t>(d.size() + 1));
				if (keep < d.size()) { d.resize(keep); what += sfmt(" cut %s to %zu", f.c_str(), keep); s.fault(sim::F_TORN_WRITE); }
			}
		}
		s.fault(sim::F_CRASH);
		vfs::st.files = img;
		auto f = vfs::get(target);
		if (!f) { s.probe("no target file"); continue; }
		Bytes bytes = f->data;
		LoadSpec l;
		l.dir = dir;
		l.opts = kExternal;
		l.entry = s.chance(1, 4) ? (st.glb ? BINARY : JSON) : AUTO;
		int src = static_cast<int>(s.pick(SRC_COUNT));
		Host host;
		host.mapCb = host.unmapCb = s.chance(1, 5);
		auto parser = newParser();
		{ LibScope ls; host.install(*parser); }
		auto o = loadFrom(*parser, src, target, bytes, l);
		s.event("%s -> %s", what.c_str(), o.status().c_str());
		if (o.ok()) {
			auto d = exportDump(dir);
			d.custom = host.dumpOpts().custom;
			auto got = model::dump(*o.asset, d);
			requireEqual(s, "something-else", sfmt("after the %s the target loads as another asset", machine ? "machine stopped" : "process stopped"), w->expected, got);
			bool all = true;
			for (auto& [path, c] : complete) { auto x = img.find(path); if (x == img.end() || x->second->data != c->data) all = false; }
			s.probe(all ? "loads, complete" : "loads, with files missing or cut");
			s.observe(got);
		} else {
			SIM_REQUIRE(o.thrown.empty(), "exception", "loading after a crash throws: %s", o.thrown.c_str());
			s.probe(machine ? "machine stop: error" : "process stop: error");
			s.observe(o.status());
		}
		o.drop();
		destroy(parser);
	}
}
sim::Register r("C11", "crash during export", 1, crashes, true);
} // namespace
