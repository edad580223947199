// C17: the parser honours the byte-source contract.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C17", "the source follows the documented interface to the letter: a region lives only until the next read, padding holds arbitrary bytes");

void contract(Sim& s) {
	int n = static_cast<int>(s.range(1, 3));
	struct In { std::unique_ptr<Work> w; Bytes bytes; };
	std::vector<In> in;
	for (int i = 0; i < n; ++i) {
		In x;
		auto g = randomGen(s, 1);
		if (s.chance(1, 2)) g.scale = 0;
		auto e = randomEnc(s);
		e.glb = s.chance(2, 3);
		x.w = makeWork(s, g, e, sfmt("/sim/w%d", i));
		x.bytes = x.w->enc.main;
		auto& b = x.bytes;
		switch (s.weighted({3, 2, 3, 1})) {
			case 1: s.event("input %d damaged: %s", i, damage(s, b, x.w->enc.glb).c_str()); break;
			case 2: { // chunk lengths and the container length are what a careless parser trusts
				if (!x.w->enc.glb || b.size() < 20) break;
				std::size_t at = s.chance(1, 2) ? 12 : 8;
				std::size_t bin = 20 + (b[12] | b[13] << 8 | b[14] << 16);
				if (s.chance(1, 2) && bin + 8 <= b.size()) at = bin;
				std::uint32_t old = 0;
				std::memcpy(&old, b.data() + at, 4);
				static const std::uint32_t vals[] = {0, 1, 4, 0xFFFFFFFFu, 0x80000000u, 0x7FFFFFFFu, 0xFFFFFFE0u};
				std::uint32_t v = s.chance(1, 3) ? vals[s.pick(7)] : s.chance(1, 2) ? static_cast<std::uint32_t>(b.size()) + s.pick(40) - 20 : old + s.pick(64) - 32;
				std::memcpy(b.data() + at, &v, 4);
				s.fault(sim::F_GARBAGE);
				s.event("input %d: length at %zu %u -> %u", i, at, old, v);
				break;
			}
			case 3: b.resize(s.pick(static_cast<std::uint32_t>(b.size() + 1))); s.fault(sim::F_TRUNCATE); s.event("input %d cut to %zu", i, b.size()); break;
			default: break;
		}
		in.push_back(std::move(x));
	}
	std::vector<std::unique_ptr<SimGetter>> srcs;
	for (auto& x : in) srcs.push_back(std::make_unique<SimGetter>(x.bytes));
	auto parser = newParser();
	struct Kept { Outcome o; std::string dump; };
	std::vector<Kept> kept;
	int steps = static_cast<int>(s.range(1, 4));
	for (int k = 0; k < steps; ++k) {
		auto i = s.pick(static_cast<std::uint32_t>(n));
		auto& x = in[i];
		// no other source may be touched
		for (auto& y : srcs) y->closed = true;
		auto& g = *srcs[i];
		g.closed = false;
		LoadSpec l;
		l.dir = x.w->dir;
		l.entry = s.weighted({3, 1, 2});
		l.cats = randomCategories(s);
		if (s.chance(1, 4)) l.opts = kDouble;
		if (!s.chance(1, 3)) { // the source does not stand at its start
			g.idx = s.pick(static_cast<std::uint32_t>(x.bytes.size() + 1));
			s.probe("source not at its start");
		}
		g.begin(l.entry != AUTO);
		g.throwAt = s.chance(1, 8) ? g.calls + static_cast<int>(s.pick(12)) : -1;
		if (s.chance(1, 6)) {
			fg::GltfType t = fg::GltfType::Invalid;
			g.throwAt = -1;
			g.begin(false);
			{ LibScope ls; t = fg::determineGltfFileType(g); }
			s.event("type of input %u: %d", i, static_cast<int>(t));
			SIM_REQUIRE(g.firstProblem.empty(), "contract", "determineGltfFileType %s", g.firstProblem.c_str());
			SIM_REQUIRE(g.idx == 0, "contract", "determineGltfFileType did not rewind the source");
			g.begin(l.entry != AUTO);
		}
		auto o = load(*parser, g, l);
		int calls = g.calls;
		g.closed = true;
		g.drop();
		s.event("load input %u by %s -> %s, %d calls", i, entryNames[l.entry], o.status().c_str(), calls);
		SIM_REQUIRE(g.firstProblem.empty(), "contract", "the parser %s (%s)", g.firstProblem.c_str(), entryNames[l.entry]);
		SIM_REQUIRE(o.thrown.empty() || o.thrown == "user", "exception", "the load threw %s", o.thrown.c_str());
		if (o.thrown == "user") s.probe("source threw");
		// the source's memory may be reused at once
		auto saved = g.data;
		std::fill(g.data.begin(), g.data.end(), static_cast<unsigned char>(0xEE));
		std::string t = o.text();
		if (o.thrown.empty()) {
			auto p2 = newParser();
			auto r = loadFrom(*p2, BYTES, x.w->path, x.bytes, l);
			requireEqual(s, "differs", o.ok() ? "an asset depends on its source after the load" : "a source that may overwrite its regions gives another result", r.text(), t);
			r.drop();
			destroy(p2);
		}
		if (o.ok()) {
			s.probe("asset loaded");
			kept.push_back({std::move(o), t});
		} else s.probe("load failed");
		s.observe(t);
		for (auto& q : kept) requireEqual(s, "differs", "an asset depends on its source after the load", q.dump, q.o.text());
		if (s.chance(1, 3)) srcs[i] = std::make_unique<SimGetter>(saved); // the source is gone
		else g.data = saved;
		for (auto& y : srcs) SIM_REQUIRE(y->firstProblem.empty(), "contract", "the parser %s", y->firstProblem.c_str());
		s.nontrivial = true;
	}
	std::vector<std::unique_ptr<SimGetter>> gone;
	if (s.chance(1, 2)) gone.swap(srcs);
	gone.clear();
	destroy(parser);
	for (auto& q : kept) q.o.drop();
	for (auto& y : srcs) SIM_REQUIRE(y->firstProblem.empty(), "contract", "the parser %s", y->firstProblem.c_str());
}
sim::Register r("C17", "contract", 1, contract, true);
} // namespace
