// C08: parsers, exporters and validations on different threads are independent.
#include "exporting.hpp"
#include "thr_lib_ops.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C08", "simdjson and the standard library's compiled parts are not instrumented: races inside them are not looked for; they are preempted only at allocations and at calls from and to fastgltf");
sim::Assumption a2("C08", "a simulated weakly ordered machine is not modelled: memory is sequentially consistent, missing ordering shows as a data race");

enum Kind { LOAD, TYPE, VALIDATE, EXPORT_MEM, EXPORT_FILE, SHARED_VALIDATE, SHARED_EXPORT, SHARED_READ, KINDS };
const char* const kindNames[KINDS] = {"load", "detect", "validate", "export in memory", "export to files", "validate the shared asset", "export the shared asset", "read the shared asset"};
struct Op {
	int kind = LOAD, src = 0, entry = 0, times = 1;
	Bytes bytes;
	std::string path, dir;
	LoadSpec spec;
	fg::Extensions ext = model::allExtensions();
	bool mapCb = false, unmapCb = false, b64Cb = false, extrasCb = false;
	std::string expected;    // content of a well-formed file
	ExWork* ex = nullptr;    // own asset to export
	ExSettings set;
	std::string concurrent, solo;
};
struct Shared { std::unique_ptr<ExWork> ex; };

void perform(Op& o, const fg::Asset* shared, const std::string& outDir, std::string& text) {
	switch (o.kind) {
		case LOAD: {
			Host h;
			h.mapCb = o.mapCb; h.unmapCb = o.unmapCb; h.b64Cb = o.b64Cb; h.extrasCb = o.extrasCb;
			auto p = newParser(o.ext);
			{ LibScope l; p->setUserPointer(nullptr); }
			h.install(*p);
			Host::current = nullptr; // several hosts are in use at once
			for (int k = 0; k < o.times; ++k) {
				h.restart();
				auto r = loadFrom(*p, o.src, o.path, o.bytes, o.spec);
				text += r.text(h.dumpOpts());
				for (auto& c : h.calls) text += c + "\n";
				for (auto& [key, v] : h.extras) for (auto& e : v) text += sfmt("extras %u/%zu ", key.first, key.second) + e + "\n";
				h.finishProblems(true);
				for (auto& c : h.problems) text += "problem " + c + "\n";
				if (!o.expected.empty()) {
					auto d = contentDump(o.dir, o.spec.opts);
					d.custom = h.dumpOpts().custom;
					text += "content\n" + (r.ok() ? model::dump(*r.asset, d) : r.status());
				}
			}
			destroy(p);
			break;
		}
		case TYPE: {
			auto so = openSource(o.src, o.path, o.bytes);
			int t = -1;
			if (so.ok()) { LibScope l; t = static_cast<int>(fg::determineGltfFileType(*so.g)); }
			text += sfmt("type %d open %d %s", t, so.ok(), so.thrown.c_str());
			break;
		}
		case VALIDATE: text += errName(runValidate(o.ex->asset)); break;
		case SHARED_VALIDATE: text += errName(runValidate(*shared)); break;
		case SHARED_READ: {
			std::uint64_t h;
			{ LibScope l; h = thr::readEverything(*shared); }
			text += sfmt("%016llx", static_cast<unsigned long long>(h));
			break;
		}
		case EXPORT_MEM: case SHARED_EXPORT: {
			fg::Exporter* e;
			{ LibScope l; e = new fg::Exporter(); }
			o.set.apply(*e);
			for (int k = 0; k < o.times; ++k) {
				auto r = exportMemory(*e, o.kind == SHARED_EXPORT ? *shared : o.ex->asset, o.set.glb, o.set.options());
				text += r.text();
			}
			{ LibScope l; delete e; }
			break;
		}
		case EXPORT_FILE: {
			fg::FileExporter* e;
			{ LibScope l; e = new fg::FileExporter(); }
			o.set.apply(*e);
			for (int k = 0; k < o.times; ++k) {
				auto r = exportFile(*e, o.ex->asset, o.set.glb, outDir + (o.set.glb ? "/scene.glb" : "/scene.gltf"), o.set.options());
				text += r.text();
			}
			{ LibScope l; delete e; }
			for (auto& [p, f] : vfs::all()) {
				if (p.compare(0, outDir.size() + 1, outDir + "/") != 0) continue;
				text += p.substr(outDir.size()) + sfmt(" %d %zu %016llx\n", f.dir, f.data.size(), static_cast<unsigned long long>(sim::fnv(f.data.data(), f.data.size())));
			}
			break;
		}
	}
}

void threads(Sim& s) {
	int n = static_cast<int>(s.range(2, 4));
	auto small = [&] {
		auto g = randomGen(s);
		g.scale = s.weighted({5, 1});
		return g;
	};
	std::unique_ptr<ExWork> shared;
	if (s.chance(2, 3)) {
		ExOpts eo;
		eo.gen = small();
		eo.mayLoad = false;
		shared = makeExportWork(s, eo, "/sim/shared");
	}
	std::vector<std::unique_ptr<Work>> works;
	std::vector<std::unique_ptr<ExWork>> exs;
	std::vector<std::vector<Op>> ops(static_cast<std::size_t>(n));
	bool sameFile = s.chance(1, 3);
	for (int t = 0; t < n; ++t) {
		auto k = s.range(1, 3);
		for (std::uint32_t i = 0; i < k; ++i) {
			Op o;
			int sh = shared ? 2 : 0;
			o.kind = s.weighted({8, 1, 1, 2, 2, sh, sh, sh});
			o.dir = sfmt("/sim/t%d_%u", t, i);
			o.times = s.chance(1, 4) ? 2 : 1;
			if (o.kind == LOAD || o.kind == TYPE) {
				if (!sameFile || works.empty()) works.push_back(makeWork(s, small(), randomEnc(s), o.dir));
				auto& w = *works.back();
				o.dir = w.dir;
				o.path = w.path;
				o.bytes = w.enc.main;
				o.src = static_cast<int>(s.pick(SRC_COUNT));
				o.spec.dir = o.dir;
				o.spec.entry = s.chance(1, 3) ? (w.enc.glb ? BINARY : JSON) : AUTO;
				o.mapCb = s.chance(1, 3);
				o.unmapCb = o.mapCb && s.chance(1, 2);
				o.b64Cb = s.chance(1, 3);
				o.extrasCb = s.chance(1, 2);
				if (s.chance(1, 4)) { o.spec.opts = o.spec.opts + fg::Options::GenerateMeshIndices; }
				if (s.chance(1, 4)) { o.spec.opts = o.spec.opts + fg::Options::DecomposeNodeMatrices; }
				if (s.chance(1, 4)) o.spec.cats = randomCategories(s);
				if (s.chance(1, 6)) o.spec.opts = fg::Options::AllowDouble;
				if (s.chance(1, 6)) o.ext = static_cast<fg::Extensions>(static_cast<std::uint64_t>(o.ext) & s.bits());
				if (s.chance(1, 5)) {
					damage(s, o.bytes, w.enc.glb);
					if (o.src != BYTES && o.src != GETTER && !sameFile) vfs::put(o.path, o.bytes);
					s.probe("a damaged file on one thread");
				} else if (o.kind == LOAD && has(o.spec.opts, fg::Options::LoadExternalBuffers) && o.spec.cats == fg::Category::All && !has(o.spec.opts, fg::Options::GenerateMeshIndices)
					&& !has(o.spec.opts, fg::Options::DecomposeNodeMatrices) && o.ext == model::allExtensions() && !o.mapCb && (!sameFile || o.src == BYTES || o.src == GETTER)) o.expected = w.expected;
			} else if (o.kind == VALIDATE || o.kind == EXPORT_MEM || o.kind == EXPORT_FILE) {
				ExOpts eo;
				eo.gen = small();
				eo.mayLoad = false;
				exs.push_back(makeExportWork(s, eo, o.dir));
				o.ex = exs.back().get();
				o.set = randomSettings(s);
			} else if (o.kind == SHARED_EXPORT) o.set = randomSettings(s);
			ops[static_cast<std::size_t>(t)].push_back(std::move(o));
		}
	}
	vfs::Plan p;
	benignStorage(s, p);
	vfs::setPlan(p);
	sched::Config cfg;
	static const int gaps[] = {3000, 300, 40, 10, 20000};
	cfg.meanGap = gaps[s.pick(5)];
	cfg.maxSwitches = 600;
	if (s.chance(1, 3)) { cfg.globals = true; cfg.meanGap = static_cast<int>(s.range(1, 12)); }
	if (s.chance(1, 3)) { cfg.burst = static_cast<int>(s.range(200, 4000)); cfg.burstGap = static_cast<int>(s.range(1, 6)); }
	std::string outDir = "/sim/out_c";
	std::vector<std::function<void()>> bodies;
	const fg::Asset* sharedAsset = shared ? &shared->asset : nullptr;
	for (int t = 0; t < n; ++t) {
		auto* mine = &ops[static_cast<std::size_t>(t)];
		for (std::size_t i = 0; i < mine->size(); ++i) vfs::mkdirs(sfmt("/sim/c/%d_%zu", t, i)), vfs::mkdirs(sfmt("/sim/s/%d_%zu", t, i));
		bodies.push_back([mine, t, sharedAsset] {
			for (std::size_t i = 0; i < mine->size(); ++i) perform((*mine)[i], sharedAsset, sfmt("/sim/c/%d_%zu", t, i), (*mine)[i].concurrent);
		});
	}
	s.event("%d threads, mean gap %d", n, cfg.meanGap);
	sched::run(std::move(bodies), cfg);
	s.event("schedule %016llx, %llu switches", static_cast<unsigned long long>(sched::scheduleHash), static_cast<unsigned long long>(sched::switches));
	for (int t = 0; t < n; ++t)
		for (std::size_t i = 0; i < ops[static_cast<std::size_t>(t)].size(); ++i) {
			auto& o = ops[static_cast<std::size_t>(t)][i];
			perform(o, sharedAsset, sfmt("/sim/s/%d_%zu", t, i), o.solo);
			s.event("thread %d %s", t, kindNames[o.kind]);
			if (!o.expected.empty()) {
				auto k = o.solo.find("content\n");
				requireEqual(s, "content", sfmt("thread %d: a file loaded alone differs from what was written", t), o.expected, o.solo.substr(k + 8, o.expected.size()));
			}
			requireEqual(s, "result", sfmt("thread %d, %s: the result differs from running alone", t, kindNames[o.kind]), o.solo, o.concurrent);
			s.observe(o.concurrent);
			s.probe(kindNames[o.kind]);
		}
	if (sched::switches > 0) s.probe("threads interleaved");
	s.probe(n == 2 ? "2 threads" : n == 3 ? "3 threads" : "4 threads");
}
sim::Register r1("C08", "threads", 1, threads, false);
} // namespace
