// C06: a reused parser behaves like a fresh one.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C06", "the fresh parser of the comparison gets the same callbacks and meets the same storage, source and fault");
sim::Assumption a2("C06", "a load that meets an allocation failure may fail earlier or later than a fresh parser, whose JSON parser owns no memory yet; it has to fail or to give the asset of an undisturbed load");

struct Input { std::unique_ptr<Work> w; Bytes bytes; std::string path; };
struct Settings {
	bool map = false, unmap = false, b64 = false, extras = false;
	int decline = 0, throwMap = -1, throwDecode = -1, throwExtras = -1;
	std::uint64_t seed = 1;
	void to(Host& h) const { h.mapCb = map; h.unmapCb = unmap; h.b64Cb = b64; h.extrasCb = extras; faults(h); }
	void faults(Host& h) const { h.declineNum = decline; h.declineSeed = seed; h.throwAtMap = throwMap; h.throwAtDecode = throwDecode; h.throwAtExtras = throwExtras; }
};
struct Step {
	int src = 0;
	LoadSpec l;
	vfs::Plan plan;
	int getterThrow = -1;
	std::uint64_t failAt = ~0ull;
};
std::string hostText(const Host& h) {
	std::string t;
	for (auto& c : h.calls) t += "call " + c + "\n";
	for (auto& [k, v] : h.extras) for (auto& x : v) t += sfmt("extras %u %zu ", k.first, k.second) + x + "\n";
	return t;
}
// One load; the asset is handed over in keep so that the caller decides how long it lives.
std::string runStep(fg::Parser& p, Host& h, const Input& in, const Step& st, bool faults, Outcome& keep) {
	h.restart();
	Host::current = &h;
	vfs::setPlan(faults ? st.plan : vfs::Plan{});
	sim::alloc.seen = 0;
	sim::alloc.minSize = 9000;
	sim::alloc.failAt = faults ? st.failAt : ~0ull;
	{
		auto so = openSource(st.src, in.path, in.bytes);
		if (!so.ok()) { keep.opened = false; keep.err = so.err; keep.thrown = so.thrown; }
		else {
			if (so.sim && faults) so.sim->throwAt = st.getterThrow;
			keep = load(p, *so.g, st.l);
		}
	}
	sim::alloc.failAt = ~0ull;
	vfs::clearPlan();
	return keep.text(h.dumpOpts()) + hostText(h);
}
void history(Sim& s) {
	std::vector<Input> in;
	int n = static_cast<int>(s.range(1, 4));
	for (int i = 0; i < n; ++i) {
		Input x;
		std::string dir = sfmt("/sim/w%d", i);
		auto g = randomGen(s, 1);
		auto e = randomEnc(s);
		x.w = makeWork(s, g, e, dir);
		x.bytes = x.w->enc.main;
		if (x.w->enc.glb && s.chance(1, 4)) { // the container without its binary chunk
			auto b = static_cast<std::ptrdiff_t>(x.w->enc.jsonOffset), n = static_cast<std::ptrdiff_t>(x.w->enc.jsonLength);
			if (s.chance(1, 2)) { x.bytes = Bytes(x.bytes.begin() + b, x.bytes.begin() + b + n); s.event("input %d: only the JSON chunk, without a container", i); }
			else {
				x.bytes.resize(static_cast<std::size_t>(b + n));
				for (int k = 0; k < 4; ++k) x.bytes[static_cast<std::size_t>(8 + k)] = static_cast<unsigned char>(x.bytes.size() >> (8 * k));
				s.event("input %d: without the binary chunk", i);
			}
			s.probe("container without its binary chunk");
		} else if (s.chance(1, 4)) { auto what = damage(s, x.bytes, x.w->enc.glb); s.event("input %d damaged: %s", i, what.c_str()); }
		x.path = dir + "/main.gltf";
		vfs::put(x.path, x.bytes);
		s.event("input %d: %s %zu bytes", i, x.w->enc.glb ? "glb" : "json", x.bytes.size());
		in.push_back(std::move(x));
	}
	auto ext = s.chance(1, 4) ? static_cast<fg::Extensions>(s.bits() & static_cast<std::uint64_t>(model::allExtensions())) : model::allExtensions();
	auto parser = newParser(ext);
	Settings set;
	auto host = std::make_unique<Host>();
	auto fresh = std::make_unique<Host>();
	host->install(*parser);
	std::vector<Outcome> alive; // assets of earlier steps live on or die between the loads
	int steps = static_cast<int>(s.range(2, 6));
	for (int k = 0; k < steps; ++k) {
		auto& x = in[s.pick(static_cast<std::uint32_t>(n))];
		if (s.chance(1, 2)) {
			set.map = s.chance(1, 2); set.unmap = set.map && s.chance(3, 4); set.b64 = s.chance(1, 3); set.extras = s.chance(1, 2);
			if (s.chance(1, 2)) { for (auto& o : alive) o.drop(); alive.clear(); host = std::make_unique<Host>(); }
			set.to(*host);
			host->install(*parser);
		}
		set.decline = s.chance(1, 4) ? static_cast<int>(s.range(1, 8)) : 0;
		set.seed = 1 + s.pick(1000);
		set.throwMap = s.chance(1, 10) ? static_cast<int>(s.pick(3)) : -1;
		set.throwDecode = s.chance(1, 10) ? static_cast<int>(s.pick(2)) : -1;
		set.throwExtras = s.chance(1, 10) ? static_cast<int>(s.pick(6)) : -1;
		set.faults(*host);
		if (k && s.chance(1, 3)) {
			s.probe("parser moved");
			LibScope l;
			if (s.chance(1, 2)) { s.event("parser move-constructed"); parser = std::make_unique<fg::Parser>(std::move(*parser)); }
			else {
				s.event("parser move-assigned");
				auto other = std::make_unique<fg::Parser>(s.chance(1, 2) ? model::allExtensions() : fg::Extensions::None);
				if (s.chance(1, 2)) { // the target has a past of its own
					auto& y = in[s.pick(static_cast<std::uint32_t>(n))];
					Host h2;
					Settings s2;
					s2.map = s.chance(1, 2);
					s2.to(h2);
					h2.install(*other);
					Step st;
					st.l.dir = y.w->dir;
					Outcome o;
					runStep(*other, h2, y, st, false, o);
				}
				*other = std::move(*parser);
				if (s.chance(1, 4)) { // and back again
					*parser = std::move(*other);
					other.reset();
				} else parser = std::move(other);
			}
		}
		Step st;
		st.src = static_cast<int>(s.pick(SRC_COUNT));
		switch (s.weighted({16, 1, 2, 2})) {
			case 0: st.l.dir = x.w->dir; break;
			case 1: st.l.dir = "/sim/nowhere"; break;
			case 2: st.l.dir.clear(); break; // nothing to look up, as far as the caller knows
			default: st.l.dir = in[s.pick(static_cast<std::uint32_t>(n))].w->dir; break;
		}
		st.l.entry = s.weighted({4, 1, 1});
		st.l.cats = randomCategories(s);
		static const fg::Options some[] = {fg::Options::DecomposeNodeMatrices, fg::Options::GenerateMeshIndices, fg::Options::LoadExternalBuffers, fg::Options::LoadExternalImages, fg::Options::DontRequireValidAssetMember, fg::Options::AllowDouble};
		st.l.opts = s.chance(2, 3) ? kExternal : fg::Options::None;
		for (auto o : some) if (s.chance(1, 5)) st.l.opts = st.l.opts + o;
		bool alloc = false;
		switch (s.weighted({6, 3, 1, 2})) {
			case 1: st.plan.at = static_cast<int>(s.pick(24)); st.plan.sticky = s.chance(1, 4); st.plan.flavour = static_cast<int>(s.pick(4)); st.plan.eofFault = s.chance(1, 2); break;
			case 2: if (st.src == GETTER) st.getterThrow = static_cast<int>(s.pick(14)); break;
			case 3: alloc = true; st.failAt = s.pick(16); break;
			default: break;
		}
		Outcome a, b;
		std::string want, got;
		auto doFresh = [&] {
			auto p2 = newParser(ext);
			set.to(*fresh);
			fresh->install(*p2);
			want = runStep(*p2, *fresh, x, st, !alloc, b);
			destroy(p2);
		};
		bool first = s.chance(1, 2);
		if (first) doFresh();
		auto fired = vfs::st.fired;
		auto failedBefore = sim::alloc.failed;
		got = runStep(*parser, *host, x, st, true, a);
		(void) fired;
		if (!first) doFresh();
		s.event("step %d: %s from %s -> %s", k, x.path.c_str(), srcNames[st.src], a.status().c_str());
		if (alloc && !a.ok() && sim::alloc.failed == failedBefore) requireEqual(s, "history", sfmt("after %d earlier loads the same parser gives another result", k), want, got);
		else if (alloc && !a.ok()) s.probe("allocation failure in the history");
		else requireEqual(s, "history", sfmt("after %d earlier loads the same parser gives another result", k), want, got);
		for (auto& pr : host->problems) SIM_REQUIRE(false, "callback", "%s", pr.c_str());
		if (!a.thrown.empty()) s.probe(("threw " + a.thrown).c_str());
		if (k && a.ok()) s.probe("success after earlier loads");
		if (!a.ok()) s.probe("failing load in the history");
		if (k) s.nontrivial = true;
		s.observe(got);
		b.drop();
		if (s.chance(1, 2)) { for (auto& o : alive) o.drop(); alive.clear(); }
		alive.push_back(std::move(a));
	}
	destroy(parser);
	for (auto& o : alive) o.drop();
}
sim::Register r("C06", "history", 1, history, true);
} // namespace
