// C05: a torn main file is never mistaken for a whole one.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C05", "the surviving part of a torn file is a prefix; external files are intact");

void torn(Sim& s) {
	auto g = randomGen(s);
	auto e = randomEnc(s);
	auto w = makeWork(s, g, e);
	Bytes bytes = w->enc.main;
	bool glb = w->enc.glb;
	if (!glb && s.chance(1, 4)) for (auto n = s.range(1, 9); n-- > 0;) bytes.push_back(" \n\t\r"[s.pick(4)]);
	std::size_t full = bytes.size();
	std::vector<std::size_t> cuts;
	auto add = [&](std::size_t c) { if (c < full) cuts.push_back(c); };
	auto near = [&](std::size_t c) { add(c + s.pick(9) >= 4 ? c + s.pick(9) - 4 : c); };
	for (int i = 0; i < 6; ++i) add(s.pick(static_cast<std::uint32_t>(full)));
	add(full - 1);
	if (full > 4) add(full - 1 - s.pick(4));
	if (glb) {
		static const std::size_t f[] = {0, 4, 8, 11, 12, 13, 16, 19, 20};
		add(f[s.pick(9)]);
		add(w->enc.jsonOffset + w->enc.jsonLength);
		near(w->enc.jsonOffset + w->enc.jsonLength);
		if (w->enc.binOffset) { add(w->enc.binOffset); near(w->enc.binOffset); near(w->enc.binOffset + w->enc.binLength); add(w->enc.binOffset + w->enc.binLength); }
	}
	if (full > 4096) add(4096 * s.range(1, static_cast<std::uint32_t>(full / 4096)));
	LoadSpec l;
	l.opts = kExternal;
	for (auto cut : cuts) {
		Bytes part(bytes.begin(), bytes.begin() + static_cast<std::ptrdiff_t>(cut));
		vfs::put(w->path, part);
		s.fault(sim::F_TRUNCATE);
		l.entry = s.chance(1, 4) ? (glb ? BINARY : JSON) : AUTO;
		int src = static_cast<int>(s.pick(SRC_COUNT));
		l.opts = kExternal;
		if (s.chance(1, 4)) l.opts = l.opts + fg::Options::DontRequireValidAssetMember;
		vfs::Plan p;
		benignStorage(s, p);
		vfs::setPlan(p);
		auto parser = newParser();
		auto o = loadFrom(*parser, src, w->path, part, l);
		vfs::clearPlan();
		s.event("cut at %zu of %zu from %s by %s -> %s", cut, full, srcNames[src], entryNames[l.entry], o.status().c_str());
		SIM_REQUIRE(o.thrown.empty(), "exception", "a torn file gave an exception: %s", o.thrown.c_str());
		s.observe(o.text());
		if (o.ok()) {
			bool onlySpace = true;
			for (std::size_t i = cut; i < full; ++i) { auto c = bytes[i]; if (c != ' ' && c != '\n' && c != '\t' && c != '\r') onlySpace = false; }
			SIM_REQUIRE(!glb, "torn-accepted", "a GLB cut to %zu of %zu bytes (declared length not reached) was accepted from %s", cut, full, srcNames[src]);
			SIM_REQUIRE(onlySpace, "torn-accepted", "a JSON file cut to %zu of %zu bytes was accepted from %s", cut, full, srcNames[src]);
			auto body = [&](std::string t) {
				if (!has(l.opts, fg::Options::DontRequireValidAssetMember)) return t;
				while (t.compare(0, 5, "asset") == 0) t.erase(0, t.find('\n') + 1);
				return t;
			}; // the asset member is not read then
			requireEqual(s, "torn-differs", "a file that lost only trailing whitespace", body(w->expected), body(model::dump(*o.asset, contentDump())));
			s.probe("lost only whitespace");
		} else s.probe(glb ? "torn GLB rejected" : "torn JSON rejected");
		o.drop();
		destroy(parser);
	}
	// whole again
	vfs::put(w->path, bytes);
	int src = static_cast<int>(s.pick(SRC_COUNT));
	l.entry = AUTO;
	l.opts = kExternal;
	auto parser = newParser();
	auto o = loadFrom(*parser, src, w->path, bytes, l);
	SIM_REQUIRE(o.ok(), "whole-rejected", "the whole file of %zu bytes was rejected from %s: %s", full, srcNames[src], o.status().c_str());
	requireEqual(s, "whole-differs", "the whole file", w->expected, model::dump(*o.asset, contentDump()));
	o.drop();
	destroy(parser);
}
sim::Register r("C05", "torn", 1, torn, true);
} // namespace
