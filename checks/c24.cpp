// C24: a well-formed file is read as it is written.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C24", "the independent encoder and the generator in /verif/model define what a well-formed file says");

void reading(Sim& s) {
	auto g = randomGen(s, 2);
	g.loose = s.chance(1, 4);
	auto e = randomEnc(s);
	auto w = makeWork(s, g, e);
	LoadSpec l;
	l.opts = kExternal;
	if (s.chance(1, 4)) l.opts = kDouble;
	l.entry = s.chance(1, 4) ? (w->enc.glb ? BINARY : JSON) : AUTO;
	int src = static_cast<int>(s.pick(SRC_COUNT));
	Host host;
	host.mapCb = s.chance(1, 4);
	host.unmapCb = host.mapCb && s.chance(3, 4);
	host.b64Cb = s.chance(1, 6);
	if (host.mapCb && s.chance(1, 3)) host.declineNum = 3;
	vfs::Plan p;
	benignStorage(s, p);
	vfs::setPlan(p);
	auto parser = newParser();
	{ LibScope ls; host.install(*parser); }
	auto o = loadFrom(*parser, src, w->path, w->enc.main, l);
	vfs::clearPlan();
	s.event("%s of %zu bytes from %s by %s -> %s", w->enc.glb ? "glb" : "json", w->enc.main.size(), srcNames[src], entryNames[l.entry], o.status().c_str());
	SIM_REQUIRE(o.ok(), "rejected", "a well-formed file was rejected: %s", o.status().c_str());
	auto d = contentDump(w->dir, l.opts);
	d.custom = host.dumpOpts().custom;
	auto got = model::dump(*o.asset, d);
	requireEqual(s, "content", "what was loaded is not what the file says", w->expected, got);
	s.observe(got);
	auto v = runValidate(*o.asset);
	SIM_REQUIRE(v == fg::Error::None || g.loose, "validate", "validate() rejects a valid asset: %s", errName(v));
	s.probe(w->enc.glb ? "GLB read back" : "JSON read back");
	o.drop();
	destroy(parser);
}
sim::Register r("C24", "reading", 1, reading, true);
} // namespace
