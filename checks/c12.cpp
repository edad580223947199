// C12: what is exported reads back as the same asset.
#include "exporting.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C12", "assets hold only what the format can represent (model/gen.cpp); numbers differing only in the sign of zero are equal");

// The text with all whitespace outside of strings removed; "" with a problem when it is not made of balanced JSON.
std::string squeeze(std::string_view t, std::string& problem) {
	std::string o;
	std::string stack;
	bool in = false;
	for (std::size_t i = 0; i < t.size(); ++i) {
		auto c = static_cast<unsigned char>(t[i]);
		if (in) {
			if (c < 0x20) { problem = sfmt("control character %02x inside a string", c); return o; }
			o += t[i];
			if (c == '\\') { if (i + 1 < t.size()) o += t[++i]; continue; }
			if (c == '"') in = false;
			continue;
		}
		if (c == ' ' || c == '\n' || c == '\t' || c == '\r') continue;
		if (c == '"') in = true;
		if (c == '{' || c == '[') stack += t[i];
		if (c == '}' || c == ']') {
			if (stack.empty() || stack.back() != (c == '}' ? '{' : '[')) { problem = "unbalanced brackets"; return o; }
			stack.pop_back();
		}
		o += t[i];
	}
	if (in) problem = "unterminated string";
	else if (!stack.empty()) problem = "unbalanced brackets";
	return o;
}
std::string_view jsonOf(const Bytes& b, bool glb, std::string& problem) {
	std::string_view all(reinterpret_cast<const char*>(b.data()), b.size());
	if (!glb) return all;
	auto u32 = [&](std::size_t o) { std::uint32_t v = 0; if (o + 4 <= b.size()) std::memcpy(&v, b.data() + o, 4); return v; };
	if (b.size() < 20 || u32(0) != 0x46546C67 || u32(4) != 2) { problem = "no GLB header"; return {}; }
	if (u32(8) != b.size()) { problem = sfmt("the GLB header says %u bytes, the export has %zu", u32(8), b.size()); return {}; }
	if (u32(16) != 0x4E4F534A) { problem = "the first chunk is not JSON"; return {}; }
	std::size_t off = 12;
	while (off < b.size()) {
		if (off + 8 > b.size()) { problem = "torn chunk header"; return {}; }
		if (u32(off) % 4 != 0) { problem = sfmt("chunk of %u bytes, not a multiple of 4", u32(off)); return {}; }
		if (u32(off) > b.size() - off - 8) { problem = "chunk exceeds the file"; return {}; }
		off += 8 + u32(off);
	}
	return all.substr(20, u32(12));
}
void checkText(const Bytes& b, bool glb, std::string& squeezed) {
	std::string problem;
	auto j = jsonOf(b, glb, problem);
	SIM_REQUIRE(problem.empty(), "container", "%s", problem.c_str());
	squeezed = squeeze(j, problem);
	SIM_REQUIRE(problem.empty(), "json", "the export is not valid JSON: %s", problem.c_str());
}

void roundtrip(Sim& s) {
	ExOpts eo;
	eo.gen = randomGen(s, 2);
	const std::string dir = "/sim/out", target0 = dir + "/scene";
	auto w = makeExportWork(s, eo, dir);
	auto v = runValidate(w->asset);
	SIM_REQUIRE(v == fg::Error::None, "validate", "validate() rejects a valid asset: %s", errName(v));
	auto rounds = s.chance(1, 4) ? 2 : 1;
	for (int k = 0; k < rounds; ++k) {
		auto st = randomSettings(s);
		bool file = s.chance(1, 2);
		vfs::Plan p;
		benignStorage(s, p);
		std::string target = target0 + std::to_string(k) + (st.glb ? ".glb" : ".gltf");
		if (file && s.chance(1, 6)) target = dir + "/new/dir/scene" + (st.glb ? ".glb" : ".gltf");
		auto tdir = target.substr(0, target.rfind('/'));
		if (tdir != dir) for (auto& [f, b] : w->refFiles) { vfs::mkdirs(vfs::norm(tdir + "/" + f + "/..")); vfs::put(vfs::norm(tdir + "/" + f), b); }
		vfs::setPlan(p);
		ExportOut r;
		if (file) {
			fg::FileExporter e;
			st.apply(e);
			r = exportFile(e, w->asset, st.glb, target, st.options());
		} else {
			fg::Exporter e;
			st.apply(e);
			r = exportMemory(e, w->asset, st.glb, st.options());
		}
		vfs::clearPlan();
		s.event("export %s %s -> %s", file ? "to files" : "in memory", st.text().c_str(), r.text().c_str());
		SIM_REQUIRE(r.ok, "failed", "exporting a valid asset failed: %s", r.thrown.empty() ? errName(r.err) : r.thrown.c_str());
		if (!file) {
			auto pr = storeExport(r, w->asset, target);
			SIM_REQUIRE(pr.empty(), "paths", "%s", pr.c_str());
		}
		auto f = vfs::get(target);
		SIM_REQUIRE(f && !f->dir, "missing", "the export succeeded but %s is not on storage", target.c_str());
		Bytes bytes = f->data;
		debugDump(bytes);
		std::string flat;
		checkText(bytes, st.glb, flat);
		if (!file && s.chance(1, 3)) {
			// the other text layout says the same
			auto st2 = st;
			st2.pretty = !st.pretty;
			fg::Exporter e;
			st2.apply(e);
			auto r2 = exportMemory(e, w->asset, st2.glb, st2.options());
			SIM_REQUIRE(r2.ok, "failed", "the export fails with pretty printing %s", st2.pretty ? "on" : "off");
			std::string flat2;
			checkText(r2.bytes, st2.glb, flat2);
			if (flat != flat2) {
				SIM_REQUIRE(false, "pretty", "pretty printing changes the JSON: %s", model::firstDifference(flat, flat2).c_str());
			}
			s.probe("both layouts compared");
		}
		vfs::Plan p2;
		benignStorage(s, p2);
		vfs::setPlan(p2);
		LoadSpec l;
		l.dir = tdir;
		l.opts = kExternal;
		l.entry = s.chance(1, 4) ? (st.glb ? BINARY : JSON) : AUTO;
		int src = static_cast<int>(s.pick(SRC_COUNT));
		auto parser = newParser();
		auto o = loadFrom(*parser, src, target, bytes, l);
		vfs::clearPlan();
		s.event("reading back from %s -> %s", srcNames[src], o.status().c_str());
		SIM_REQUIRE(o.ok(), "unreadable", "the export does not load: %s", o.status().c_str());
		auto got = model::dump(*o.asset, exportDump(tdir));
		requireEqual(s, "content", "what was exported reads back differently", w->expected, got);
		s.observe(got);
		auto v2 = runValidate(*o.asset);
		SIM_REQUIRE(v2 == fg::Error::None, "validate", "the asset read back does not validate: %s", errName(v2));
		auto still = model::dump(w->asset, exportDump(dir));
		requireEqual(s, "changed", "exporting changed the asset", w->expected, still);
		s.probe(st.glb ? "GLB round trip" : "JSON round trip");
		if (st.pretty) s.probe("pretty printed round trip");
		if (w->loaded) s.probe("a loaded asset exported");
		o.drop();
		destroy(parser);
	}
}
sim::Register r("C12", "round trip", 1, roundtrip, true);
} // namespace
