// C02: failed reads of the main file never yield an asset.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C02", "a file that is memory-mapped is not changed while it is mapped (the mapping is the file)");
sim::Assumption a2("C02", "a short count with no error means end-of-file, as POSIX says for regular files");

void mainFault(Sim& s) {
	auto g = randomGen(s);
	auto e = randomEnc(s);
	auto w = makeWork(s, g, e);
	const Bytes original = w->enc.main;
	int src = PATH + static_cast<int>(s.pick(3));
	LoadSpec l;
	l.opts = kDouble; // external files are C03's subject, only the main file is read here
	if (s.chance(1, 3)) l.entry = w->enc.glb ? BINARY : JSON;
	s.event("%s of %zu bytes from %s by %s", w->enc.glb ? "glb" : "json", original.size(), srcNames[src], entryNames[l.entry]);
	// how many storage operations does the load take?
	vfs::Plan p;
	vfs::setPlan(p);
	{
		auto parser = newParser();
		auto o = loadFrom(*parser, src, w->path, original, l);
		SIM_REQUIRE(o.ok(), "clean-load-failed", "an intact file could not be loaded: %s", o.status().c_str());
		destroy(parser);
	}
	int ops = vfs::st.counted;
	benignStorage(s, p);
	int kind = s.weighted({6, 3, 1});
	bool changed = false;
	if (kind == 0 || kind == 2) {
		p.at = static_cast<int>(s.pick(static_cast<std::uint32_t>(ops + 1)));
		p.sticky = s.chance(1, 3);
		p.flavour = static_cast<int>(s.pick(8));
		p.eofFault = s.chance(1, 2);
		p.mask = s.chance(1, 3) ? (1u << vfs::O_READ) : ~0u;
	}
	if (kind == 1 || kind == 2) {
		p.actAt = static_cast<int>(s.pick(static_cast<std::uint32_t>(ops + 1)));
		bool vanish = src == MAP || s.chance(1, 4);
		auto to = s.pick(static_cast<std::uint32_t>(original.size()));
		p.act = [&s, &w, &changed, vanish, to] {
			changed = true;
			if (vanish) {
				s.fault(sim::F_VANISH);
				vfs::st.files.erase(w->path);
			} else if (auto f = vfs::get(w->path)) {
				s.fault(sim::F_SHRINK);
				f->data.resize(std::min<std::size_t>(f->data.size(), to));
				s.event("the file shrinks to %u bytes", to);
			}
		};
	}
	vfs::setPlan(p);
	auto parser = newParser();
	auto o = loadFrom(*parser, src, w->path, original, l);
	int fired = vfs::st.fired;
	vfs::clearPlan();
	s.event("-> %s", o.status().c_str());
	SIM_REQUIRE(o.thrown.empty(), "exception", "a storage fault gave an exception instead of an error: %s", o.thrown.c_str());
	if (o.ok()) {
		if (fired || changed) s.probe("asset in spite of a fault"); else s.probe("fault not reached");
		// the asset has to be the complete one
		auto f = vfs::get(w->path);
		auto got = model::dump(*o.asset, contentDump(w->dir, l.opts));
		requireEqual(s, "asset-after-fault", sfmt("%s returned an asset after %d failed operations%s, but it is not the stored one", srcNames[src], fired, changed ? " and a change of the file" : ""), w->expected, got);
		s.observe(got);
	} else {
		SIM_REQUIRE(fired || changed, "clean-load-failed", "loading failed although storage only split its transfers: %s", o.status().c_str());
		s.probe(o.opened ? "error from the load" : "error from opening");
		s.observe(o.status());
	}
	// the storage has recovered: the same parser loads the file
	if (s.chance(1, 4)) {
		vfs::put(w->path, original);
		auto again = loadFrom(*parser, src, w->path, original, l);
		SIM_REQUIRE(again.ok(), "no-recovery", "after the fault has gone, loading fails: %s", again.status().c_str());
		requireEqual(s, "no-recovery", "loading after the fault has gone", w->expected, model::dump(*again.asset, contentDump(w->dir, l.opts)));
	}
	destroy(parser);
}
sim::Register r("C02", "main-file-faults", 1, mainFault, true);
} // namespace
