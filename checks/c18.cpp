// C18: extras reach the right object exactly once and survive export.
#include "exporting.hpp"
#include <simdjson.h>
namespace {
using namespace chk;
sim::Assumption a1("C18", "extras are JSON objects; two extras are the same when their minified JSON is");

std::string minified(const std::string& t) {
	simdjson::dom::parser p;
	simdjson::padded_string ps(t);
	simdjson::dom::element e;
	if (p.parse(ps).get(e) != simdjson::SUCCESS) return "not JSON: " + t;
	return simdjson::minify(e);
}
std::string keyName(std::pair<std::uint32_t, std::size_t> k) { return sfmt("category %u index %zu", k.first, k.second); }
// the calls a load made against the extras of the file
void compare(const Host& h, const model::ExtrasMap& want, const fg::Asset* loaded, const char* what) {
	for (auto& pr : h.problems) SIM_REQUIRE(false, "callback", "%s: %s", what, pr.c_str());
	for (auto& [k, v] : h.extras) {
		auto it = want.find(k);
		SIM_REQUIRE(it != want.end(), "spurious", "%s: a call for %s, which has no extras", what, keyName(k).c_str());
		SIM_REQUIRE(v.size() == 1, "repeated", "%s: %zu calls for %s", what, v.size(), keyName(k).c_str());
		auto m = minified(it->second);
		SIM_REQUIRE(v[0] == m, "wrong-extras", "%s: %s got %s instead of %s", what, keyName(k).c_str(), show(v[0]).c_str(), show(m).c_str());
	}
	std::map<std::uint32_t, std::size_t> counts;
	if (loaded) for (auto& [cat, n] : model::categoryCounts(*loaded)) counts[cat] = n;
	for (auto& [k, v] : want) {
		if (k.second >= counts[k.first]) continue; // not loaded
		SIM_REQUIRE(h.extras.count(k), "missing", "%s: no call for %s", what, keyName(k).c_str());
	}
}
void parsing(Sim& s) {
	auto parser = newParser();
	int rounds = static_cast<int>(s.range(1, 4));
	std::vector<std::unique_ptr<Host>> hosts;
	for (int k = 0; k < rounds; ++k) {
		auto g = randomGen(s, 1);
		g.loose = s.chance(1, 3);
		auto enc = randomEnc(s);
		auto dir = "/sim/in" + std::to_string(k);
		enc.randomExtras = true;
		auto w = makeWork(s, g, enc, dir);
		Bytes bytes = w->enc.main;
		std::string spoilt;
		if (s.chance(1, 4)) spoilt = damage(s, bytes, w->enc.glb);
		vfs::put(w->path, bytes);
		if (hosts.empty() || s.chance(1, 2)) hosts.push_back(std::make_unique<Host>());
		auto& h = *hosts.back();
		h.extras.clear();
		h.extrasCalls = 0;
		h.extrasCb = s.chance(7, 8);
		h.throwAtExtras = s.chance(1, 8) ? static_cast<int>(s.pick(6)) : -1;
		{ LibScope l; h.install(*parser); }
		LoadSpec l;
		l.dir = dir;
		l.opts = s.chance(1, 2) ? kExternal : kDouble;
		if (s.chance(1, 3)) l.cats = randomCategories(s);
		vfs::Plan p;
		benignStorage(s, p);
		if (s.chance(1, 5)) { p.at = static_cast<int>(s.pick(30)); p.flavour = static_cast<int>(s.pick(8)); }
		vfs::setPlan(p);
		auto o = loadFrom(*parser, static_cast<int>(s.pick(SRC_COUNT)), w->path, bytes, l);
		bool fired = vfs::st.fired != 0;
		vfs::clearPlan();
		s.event("load %d, %s -> %s, %llu extras", k, spoilt.empty() ? "intact" : spoilt.c_str(), o.status().c_str(), static_cast<unsigned long long>(h.extrasCalls));
		bool clean = spoilt.empty() && !fired && h.throwAtExtras < 0;
		SIM_REQUIRE(!clean || o.ok(), "rejected", "a well-formed file with extras was rejected: %s", o.status().c_str());
		if (!h.extrasCb) SIM_REQUIRE(h.extras.empty(), "spurious", "extras were reported although the callback was removed");
		else if (spoilt.empty()) {
			if (o.ok()) { compare(h, w->extras, o.asset.get(), "load"); s.probe("extras of a complete load checked"); }
			else compare(h, w->extras, nullptr, "failed load");
		}
		s.observe(o.status());
	}
	destroy(parser);
}
void exporting(Sim& s) {
	std::unique_ptr<fg::FileExporter> e;
	{ LibScope l; e = std::make_unique<fg::FileExporter>(); }
	std::vector<std::unique_ptr<ExHost>> hosts;
	int rounds = static_cast<int>(s.range(1, 3));
	for (int k = 0; k < rounds; ++k) {
		ExOpts eo;
		eo.gen = randomGen(s, 1);
		eo.mayLoad = false;
		auto dir = "/sim/out" + std::to_string(k);
		auto w = makeExportWork(s, eo, dir);
		bool with = s.chance(7, 8);
		if (hosts.empty() || s.chance(1, 2)) hosts.push_back(std::make_unique<ExHost>());
		auto& h = *hosts.back();
		h.give = model::randomExtras(s, w->asset);
		h.asked.clear();
		h.calls = 0;
		h.throwAt = s.chance(1, 8) ? static_cast<int>(s.pick(10)) : -1;
		if (with) h.install(*e); else ExHost::remove(*e);
		auto st = randomSettings(s);
		st.apply(*e);
		bool file = s.chance(1, 2);
		auto target = dir + "/scene" + (st.glb ? ".glb" : ".gltf");
		auto r = file ? exportFile(*e, w->asset, st.glb, target, st.options()) : exportMemory(*e, w->asset, st.glb, st.options());
		s.event("export %d %s %s with%s callback -> %s after %d calls", k, file ? "to files" : "in memory", st.text().c_str(), with ? "" : "out", r.text().c_str(), h.calls);
		for (auto& pr : h.problems) SIM_REQUIRE(false, "callback", "export: %s", pr.c_str());
		if (with && h.throwAt >= 0 && h.throwAt < h.calls) {
			SIM_REQUIRE(r.thrown == "user", "callback", "the exception of the extras callback was lost: %s", r.text().c_str());
			s.probe("extras callback threw");
			continue;
		}
		SIM_REQUIRE(r.ok, "failed", "exporting with extras failed: %s", r.thrown.empty() ? errName(r.err) : r.thrown.c_str());
		if (!with) {
			SIM_REQUIRE(h.calls == 0, "callback", "the removed extras callback was called");
			h.give.clear();
		} else {
			for (auto& [cat, n] : model::categoryCounts(w->asset)) for (std::size_t i = 0; i < n; ++i) {
				auto it = h.asked.find({cat, i});
				SIM_REQUIRE(it != h.asked.end(), "not-asked", "the extras of category %u index %zu were not asked for", cat, i);
				SIM_REQUIRE(it->second == 1, "asked-twice", "the extras of category %u index %zu were asked for %d times", cat, i, it->second);
				h.asked.erase(it);
			}
			if (!h.asked.empty()) SIM_REQUIRE(false, "asked-beyond", "extras were asked for %s, which does not exist", keyName(h.asked.begin()->first).c_str());
		}
		if (!file) {
			auto pr = storeExport(r, w->asset, target);
			SIM_REQUIRE(pr.empty(), "paths", "%s", pr.c_str());
		}
		Bytes bytes = vfs::get(target)->data;
		debugDump(bytes);
		auto parser = newParser();
		Host host;
		host.extrasCb = true;
		{ LibScope l; host.install(*parser); }
		LoadSpec l;
		l.dir = dir;
		auto o = loadFrom(*parser, BYTES, target, bytes, l);
		SIM_REQUIRE(o.ok(), "unreadable", "what was exported with extras does not load: %s", o.status().c_str());
		compare(host, h.give, o.asset.get(), "after export");
		requireEqual(s, "content", "extras disturb the export", w->expected, model::dump(*o.asset, exportDump(dir)));
		s.probe("exported extras read back");
		s.observe(r.text());
		o.drop();
		destroy(parser);
	}
	LibScope l;
	e.reset();
}
sim::Register r("C18", "parsing", 1, parsing, true);
sim::Register r2("C18", "exporting", 1, exporting, true);
} // namespace
