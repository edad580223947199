// C07: a reused exporter behaves like a fresh one.
#include "exporting.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C07", "the fresh exporter of the comparison gets the same settings and meets the same storage and the same fault");

// Makes an asset the exporter has to refuse, or that does not validate. Returns what was done.
const char* spoil(Sim& s, fg::Asset& a) {
	LibScope l;
	switch (s.pick(5)) {
		case 0: if (!a.images.empty()) { fg::sources::CustomBuffer c; c.id = 3; c.mimeType = fg::MimeType::PNG; a.images.back().data = c; return "an image that cannot be exported"; } break;
		case 1: if (!a.buffers.empty()) { fg::sources::CustomBuffer c; c.id = 3; c.mimeType = fg::MimeType::None; a.buffers.back().data = c; return "a buffer that cannot be exported"; } break;
		case 2: if (!a.buffers.empty()) { a.buffers.front().byteLength += 1000; return "a buffer shorter than declared"; } break;
		case 3: if (!a.accessors.empty()) { a.accessors.front().count = 0; return "an empty accessor"; } break;
		default: break;
	}
	fg::Scene sc;
	sc.nodeIndices.emplace_back(a.nodes.size() + 5);
	a.scenes.emplace_back(std::move(sc));
	return "a scene with a node that does not exist";
}
std::string storageText(const std::string& dir) {
	std::string t;
	for (auto& [f, x] : vfs::st.files) if (f.compare(0, dir.size(), dir) == 0) t += sfmt("%s %s %zu %016llx\n", f.c_str(), x->dir ? "dir" : "file", x->data.size(), static_cast<unsigned long long>(sim::fnv(x->data.data(), x->data.size())));
	return t;
}
void history(Sim& s) {
	const std::string dir = "/sim/out";
	std::vector<std::unique_ptr<ExWork>> pool;
	std::vector<std::string> dumps;
	int n = static_cast<int>(s.range(1, 3));
	for (int i = 0; i < n; ++i) {
		ExOpts eo;
		eo.gen = randomGen(s, 1);
		eo.collide = s.chance(1, 4);
		pool.push_back(makeExportWork(s, eo, dir));
		if (s.chance(1, 3)) { auto* what = spoil(s, pool.back()->asset); s.event("asset %d has %s", i, what); }
		dumps.push_back(model::dump(pool.back()->asset));
	}
	vfs::mkdirs(dir);
	std::unique_ptr<fg::FileExporter> e;
	{ LibScope l; e = std::make_unique<fg::FileExporter>(); }
	ExSettings st;
	std::unique_ptr<ExHost> host;
	int steps = static_cast<int>(s.range(2, 6));
	bool before = false;
	for (int k = 0; k < steps; ++k) {
		auto i = s.pick(static_cast<std::uint32_t>(n));
		auto& w = *pool[i];
		bool change = s.chance(1, 2) || k == 0;
		auto next = randomSettings(s);
		if (!change) { next.bufferFolder = st.bufferFolder; next.imageFolder = st.imageFolder; }
		st = next;
		if (change) st.apply(*e);
		if (s.chance(1, 3)) {
			if (s.chance(1, 4)) { host.reset(); ExHost::remove(*e); ExHost::current = nullptr; }
			else { host = std::make_unique<ExHost>(); host->install(*e); }
		}
		model::ExtrasMap give;
		if (host) {
			host->give = model::randomExtras(s, w.asset);
			host->throwAt = s.chance(1, 6) ? static_cast<int>(s.pick(8)) : -1;
		}
		if (s.chance(1, 6)) { LibScope l; auto moved = std::make_unique<fg::FileExporter>(std::move(*e)); e = std::move(moved); s.event("the exporter was moved"); }
		bool file = s.chance(1, 2);
		static const char* const leaves[] = {"scene", "x", "a", "buffer0"};
		std::string target = dir + "/" + leaves[s.pick(4)] + (s.chance(1, 8) ? ".bin" : st.glb ? ".glb" : ".gltf");
		vfs::Plan p;
		if (file && s.chance(1, 3)) { p.at = static_cast<int>(s.pick(20)); p.sticky = s.chance(1, 3); p.flavour = static_cast<int>(s.pick(4)); }
		std::uint64_t failAt = s.chance(1, 6) ? s.pick(40) : ~0ull;
		auto run = [&](fg::FileExporter& x) {
			if (host) { host->calls = 0; host->asked.clear(); }
			vfs::setPlan(p);
			sim::alloc.seen = 0;
			sim::alloc.failAt = failAt;
			sim::alloc.minSize = 1500;
			auto r = file ? exportFile(x, w.asset, st.glb, target, st.options()) : exportMemory(x, w.asset, st.glb, st.options());
			sim::alloc.failAt = ~0ull;
			vfs::clearPlan();
			return r.text() + (host ? sfmt("extras asked for %zu objects by %d calls\n", host->asked.size(), host->calls) : std::string()) + "storage\n" + storageText(dir);
		};
		auto files = vfs::cloneFiles();
		std::string want;
		{
			std::unique_ptr<fg::FileExporter> f;
			{ LibScope l; f = std::make_unique<fg::FileExporter>(); }
			st.apply(*f);
			if (host) host->install(*f);
			want = run(*f);
			LibScope l;
			f.reset();
		}
		vfs::st.files = files;
		auto got = run(*e);
		s.event("step %d: asset %u %s %s to %s -> %s", k, i, st.text().c_str(), file ? "files" : "memory", target.c_str(), got.substr(0, 60).c_str());
		requireEqual(s, "history", sfmt("after %d earlier exports the same exporter gives another result", k), want, got);
		if (host) for (auto& pr : host->problems) SIM_REQUIRE(false, "callback", "%s", pr.c_str());
		for (int q = 0; q < n; ++q) requireEqual(s, "changed", "exporting changed an asset", dumps[static_cast<std::size_t>(q)], model::dump(pool[static_cast<std::size_t>(q)]->asset));
		if (before) s.probe("export after an export");
		if (k && got.compare(0, 2, "ok") == 0) s.probe("success after earlier exports");
		if (got.compare(0, 2, "ok") != 0) s.probe("failing export in the history");
		before = true;
		if (k) s.nontrivial = true;
		s.observe(got);
	}
	LibScope l;
	e.reset();
}
sim::Register r("C07", "history", 1, history, true);
} // namespace
