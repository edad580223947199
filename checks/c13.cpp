// C13: running out of memory is survivable.
#include "exporting.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C13", "only requests of more than 9000 bytes fail: contents of files, buffers, images, output and what grows with them; the few bytes of a path or a stream buffer do not");

struct Budget { // failing allocations from here to the end of the scope
	Budget(std::uint64_t at, bool persistent, std::uint64_t size) { sim::alloc.seen = 0; sim::alloc.minSize = size; sim::alloc.persistent = persistent; sim::alloc.failAt = at; }
	~Budget() { sim::alloc.failAt = ~0ull; sim::alloc.persistent = false; sim::alloc.minSize = 0; }
};
constexpr std::uint64_t kMin = 9000;

void loading(Sim& s) {
	auto g = randomGen(s, 2);
	g.bigBuffers = !s.chance(1, 4);
	g.meshes = true;
	auto e = randomEnc(s);
	auto w = makeWork(s, g, e);
	LoadSpec l;
	l.dir = w->dir;
	if (s.chance(1, 4)) l.opts = l.opts + fg::Options::GenerateMeshIndices;
	Host host;
	if (s.chance(1, 3)) { host.mapCb = true; host.unmapCb = s.chance(1, 2); if (s.chance(1, 2)) { host.declineNum = 4; host.declineSeed = 1 + s.pick(100); } }
	int src = static_cast<int>(s.pick(SRC_COUNT));
	auto text = [&](const Outcome& o) { auto d = contentDump(w->dir, l.opts); d.custom = host.dumpOpts().custom; return o.text(d); };
	// an undisturbed load: what is right, how many allocations there are; it also makes the libraries initialise themselves
	std::string want;
	std::uint64_t allocs;
	{
		auto p = newParser();
		host.install(*p);
		Budget b(~0ull, false, kMin);
		auto o = loadFrom(*p, src, w->path, w->enc.main, l);
		allocs = sim::alloc.seen;
		SIM_REQUIRE(o.ok(), "rejected", "a well-formed file was rejected: %s", o.status().c_str());
		want = text(o);
		destroy(p);
	}
	if (allocs == 0) { s.probe("nothing large to allocate"); return; }
	auto live = sim::allocLive();
	auto handles = vfs::st.openHandles, maps = vfs::st.openMaps;
	{
		auto parser = newParser();
		host.restart();
		host.install(*parser);
		Source so;
		int rounds = static_cast<int>(s.range(1, 3));
		for (int k = 0; k < rounds; ++k) {
			auto at = s.pick(static_cast<std::uint32_t>(allocs));
			bool persistent = s.chance(1, 2);
			host.restart();
			auto before = sim::alloc.failed;
			Outcome o;
			{
				Budget b(at, persistent, kMin);
				if (!so.ok()) so = openSource(src, w->path, w->enc.main);
				if (!so.ok()) { o.opened = false; o.err = so.err; o.thrown = so.thrown; }
				else o = load(*parser, *so.g, l);
			}
			auto failed = sim::alloc.failed - before;
			s.event("allocation %u%s fails (%llu), %s -> %s", at, persistent ? " and later ones" : "", static_cast<unsigned long long>(failed), srcNames[src], o.status().c_str());
			SIM_REQUIRE(o.thrown.empty() || o.thrown == "bad_alloc", "exception", "running out of memory ended with %s", o.thrown.c_str());
			if (o.ok()) requireEqual(s, "partial", "out of memory, the load gave another asset", want, text(o));
			else SIM_REQUIRE(failed, "clean-load-failed", "a load failed although no allocation did: %s", o.status().c_str());
			if (failed) s.probe(!o.opened ? "opening failed" : o.ok() ? "the load did without" : o.thrown.empty() ? "load returned an error" : "load threw bad_alloc");
			for (auto& pr : host.problems) SIM_REQUIRE(false, "protocol", "%s", pr.c_str());
			if (o.thrown.empty()) { host.finishProblems(true); for (auto& pr : host.problems) SIM_REQUIRE(false, "protocol", "%s", pr.c_str()); }
			if (!so.ok()) {
				SIM_REQUIRE(vfs::st.openHandles == handles && vfs::st.openMaps == maps, "handle-leak", "a failed open left %s", vfs::handleReport().c_str());
			}
			s.observe(o.status());
		}
		// memory is back
		host.restart();
		if (!so.ok()) so = openSource(src, w->path, w->enc.main);
		SIM_REQUIRE(so.ok(), "no-recovery", "the source cannot be opened although memory is available again: %s", errName(so.err));
		auto o = load(*parser, *so.g, l);
		requireEqual(s, "no-recovery", "with memory available again the load gives another result", want, text(o));
		o.drop();
		so.close();
		destroy(parser);
	}
	SIM_REQUIRE(vfs::st.openHandles == handles && vfs::st.openMaps == maps, "handle-leak", "left open: %s", vfs::handleReport().c_str());
	SIM_REQUIRE(sim::allocLive() == live, "memory-leak", "%zu blocks are still allocated", sim::allocLive() - live);
}
void exporting(Sim& s) {
	ExOpts eo;
	eo.gen = randomGen(s, 2);
	eo.gen.bigBuffers = !s.chance(1, 4);
	const std::string dir = "/sim/out";
	auto w = makeExportWork(s, eo, dir);
	auto st = randomSettings(s);
	bool file = s.chance(1, 2);
	std::string target = dir + "/scene" + (st.glb ? ".glb" : ".gltf");
	auto fileText = [&] {
		std::string t;
		for (auto& [f, x] : vfs::st.files) if (f.compare(0, dir.size(), dir) == 0) t += sfmt("%s %s %zu %016llx\n", f.c_str(), x->dir ? "dir" : "file", x->data.size(), static_cast<unsigned long long>(sim::fnv(x->data.data(), x->data.size())));
		return t;
	};
	auto run = [&](fg::FileExporter& x) { return file ? exportFile(x, w->asset, st.glb, target, st.options()) : exportMemory(x, w->asset, st.glb, st.options()); };
	auto files = vfs::cloneFiles();
	ExportOut ref;
	std::uint64_t allocs;
	std::string wantFiles;
	{
		std::unique_ptr<fg::FileExporter> e;
		{ LibScope l; e = std::make_unique<fg::FileExporter>(); }
		st.apply(*e);
		Budget b(~0ull, false, kMin);
		ref = run(*e);
		allocs = sim::alloc.seen;
		LibScope l;
		e.reset();
	}
	SIM_REQUIRE(ref.ok, "failed", "the export of a valid asset failed: %s", ref.text().c_str());
	wantFiles = fileText();
	if (allocs == 0) { s.probe("nothing large to allocate"); return; }
	auto before = model::dump(w->asset);
	auto live = sim::allocLive();
	auto handles = vfs::st.openHandles, maps = vfs::st.openMaps;
	{
		std::unique_ptr<fg::FileExporter> e;
		{ LibScope l; e = std::make_unique<fg::FileExporter>(); }
		st.apply(*e);
		int rounds = static_cast<int>(s.range(1, 3));
		for (int k = 0; k < rounds; ++k) {
			vfs::st.files = vfs::cloneFiles(files);
			auto at = s.pick(static_cast<std::uint32_t>(allocs));
			bool persistent = s.chance(1, 2);
			auto f0 = sim::alloc.failed;
			ExportOut r;
			{ Budget b(at, persistent, kMin); r = run(*e); }
			auto failed = sim::alloc.failed - f0;
			s.event("allocation %u%s fails (%llu), %s to %s -> %s", at, persistent ? " and later ones" : "", static_cast<unsigned long long>(failed), st.text().c_str(), file ? "files" : "memory", r.thrown.empty() ? errName(r.err) : r.thrown.c_str());
			SIM_REQUIRE(r.thrown.empty() || r.thrown == "bad_alloc", "exception", "running out of memory ended with %s", r.thrown.c_str());
			if (r.ok) {
				SIM_REQUIRE(r.text() == ref.text(), "partial", "out of memory, the export gave other output");
				if (file) requireEqual(s, "partial", "out of memory, the export left other files", wantFiles, fileText());
			} else SIM_REQUIRE(failed, "failed", "an export failed although no allocation did");
			if (failed) s.probe(r.ok ? "the export did without" : r.thrown.empty() ? "export returned an error" : "export threw bad_alloc");
			SIM_REQUIRE(vfs::st.openHandles == handles, "handle-leak", "a failed export left %s", vfs::handleReport().c_str());
			requireEqual(s, "changed", "the export changed the asset", before, model::dump(w->asset));
			s.observe(r.text());
		}
		vfs::st.files = vfs::cloneFiles(files);
		auto r = run(*e);
		SIM_REQUIRE(r.ok && r.text() == ref.text(), "no-recovery", "with memory available again the export gives another result: %s", r.ok ? "other output" : errName(r.err));
		if (file) requireEqual(s, "no-recovery", "with memory available again the export leaves other files", wantFiles, fileText());
		LibScope l;
		e.reset();
	}
	SIM_REQUIRE(vfs::st.openHandles == handles && vfs::st.openMaps == maps, "handle-leak", "left open: %s", vfs::handleReport().c_str());
	SIM_REQUIRE(sim::allocLive() == live, "memory-leak", "%zu blocks are still allocated", sim::allocLive() - live);
}
sim::Register r1("C13", "loading", 3, loading, true);
sim::Register r2("C13", "exporting", 2, exporting, true);
} // namespace
