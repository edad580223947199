// C10: a file export that reports success is complete on storage.
#include "exporting.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C10", "a write that storage reported as done stays done; an error at close means that the end of the file was lost");

// the files a complete export has to leave
std::string missingFiles(const std::vector<std::pair<std::string, Bytes>>& want) {
	for (auto& [f, b] : want) {
		auto x = vfs::get(f);
		if (!x) return f + " does not exist";
		if (x->dir) return f + " is a directory";
		if (x->data.size() != b.size()) return sfmt("%s has %zu bytes instead of %zu", f.c_str(), x->data.size(), b.size());
		if (x->data != b) return f + " has other bytes than the in-memory export";
	}
	return "";
}
void faults(Sim& s) {
	ExOpts eo;
	eo.gen = randomGen(s, 1);
	if (s.chance(1, 4)) eo.gen.bigBuffers = true;
	const std::string dir = "/sim/out";
	auto w = makeExportWork(s, eo, dir);
	auto st = randomSettings(s);
	std::string tdir = s.chance(1, 3) ? dir + "/new/x" : dir;
	if (tdir != dir) for (auto& [f, b] : w->refFiles) { vfs::mkdirs(vfs::norm(tdir + "/" + f + "/..")); vfs::put(vfs::norm(tdir + "/" + f), b); }
	std::string target = tdir + "/scene" + (st.glb ? ".glb" : ".gltf");
	ExportOut mem;
	{
		fg::Exporter e;
		st.apply(e);
		mem = exportMemory(e, w->asset, st.glb, st.options());
	}
	SIM_REQUIRE(mem.ok, "failed", "the in-memory export of a valid asset failed: %s", mem.text().c_str());
	std::vector<std::pair<std::string, Bytes>> want;
	for (auto& [f, b] : exportedFiles(mem, w->asset)) want.emplace_back(vfs::norm(tdir + "/" + f), b);
	want.emplace_back(target, mem.bytes);
	// what an earlier export left
	if (s.chance(1, 3)) {
		s.probe("files of an earlier export are there");
		for (auto& [f, b] : want) {
			if (!s.chance(1, 2)) continue;
			vfs::mkdirs(f.substr(0, f.rfind('/')));
			vfs::put(f, model::randomBytes(s, s.range(0, static_cast<std::uint32_t>(b.size() * 2 + 10))));
		}
	}
	auto before = vfs::cloneFiles();
	std::size_t total = 0;
	for (auto& [f, b] : want) total += b.size();
	std::unique_ptr<fg::FileExporter> e;
	{ LibScope l; e = std::make_unique<fg::FileExporter>(); }
	st.apply(*e);
	vfs::Plan p;
	vfs::setPlan(p);
	auto r = exportFile(*e, w->asset, st.glb, target, st.options());
	int ops = vfs::st.counted;
	vfs::clearPlan();
	s.event("%s to %s, %zu files of %zu bytes by %d operations -> %s", st.text().c_str(), target.c_str(), want.size(), total, ops, r.text().c_str());
	SIM_REQUIRE(r.ok, "failed", "exporting a valid asset to working storage failed: %s", r.thrown.empty() ? errName(r.err) : r.thrown.c_str());
	auto bad = missingFiles(want);
	SIM_REQUIRE(bad.empty(), "incomplete", "the export reports success on working storage, but %s", bad.c_str());
	int rounds = s.chance(1, 3) ? 2 : 1;
	for (int k = 0; k < rounds; ++k) {
		vfs::st.files = vfs::cloneFiles(before);
		if (s.chance(1, 3)) { LibScope l; e = std::make_unique<fg::FileExporter>(); }
		st.apply(*e);
		p = vfs::Plan{};
		benignStorage(s, p);
		int kind = s.weighted({6, 3, 1});
		if (kind == 0) {
			p.at = static_cast<int>(s.pick(static_cast<std::uint32_t>(ops + 2)));
			p.sticky = s.chance(1, 3);
			p.flavour = static_cast<int>(s.pick(8));
			static const std::uint32_t masks[] = {~0u, 1u << vfs::O_WRITE, 1u << vfs::O_CLOSE_W, 1u << vfs::O_OPEN_W, 1u << vfs::O_MKDIR};
			p.mask = masks[s.weighted({4, 2, 2, 2, 1})];
		} else if (kind == 1) {
			p.spaceLeft = s.pick(static_cast<std::uint32_t>(total + 2));
			if (s.chance(1, 4)) p.spaceLeft = static_cast<long long>(total) - static_cast<long long>(s.pick(3));
			if (p.spaceLeft < 0) p.spaceLeft = 0;
		}
		vfs::setPlan(p);
		r = exportFile(*e, w->asset, st.glb, target, st.options());
		int failures = vfs::st.storeFaults, fired = vfs::st.fired;
		vfs::clearPlan();
		s.event("with faults: %d fired, %d while storing -> %s", fired, failures, r.text().c_str());
		SIM_REQUIRE(r.thrown.empty(), "exception", "a storage fault gave an exception instead of an error: %s", r.thrown.c_str());
		if (r.ok) {
			bad = missingFiles(want);
			SIM_REQUIRE(bad.empty(), "incomplete", "the export reports success, but %s", bad.c_str());
			SIM_REQUIRE(failures == 0, "unreported", "the export reports success although %d storage operations failed", failures);
			s.probe(fired ? "success in spite of a fault that lost nothing" : "success");
		} else {
			SIM_REQUIRE(fired != 0, "failed", "exporting failed although storage only split its transfers: %s", errName(r.err));
			s.probe("error reported");
		}
		s.observe(r.text());
	}
	// storage works again
	if (s.chance(1, 4)) {
		vfs::st.files = vfs::cloneFiles(before);
		r = exportFile(*e, w->asset, st.glb, target, st.options());
		SIM_REQUIRE(r.ok, "no-recovery", "after the fault has gone the export fails: %s", r.text().c_str());
		bad = missingFiles(want);
		SIM_REQUIRE(bad.empty(), "no-recovery", "after the fault has gone the export reports success, but %s", bad.c_str());
	}
	LibScope l;
	e.reset();
}
sim::Register r("C10", "storage faults", 1, faults, true);
} // namespace
