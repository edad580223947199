// C09: buffer-map, unmap and base64 callbacks follow one protocol.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C09", "when a callback of the application throws, the library need not unmap the region the application was working on");

struct Want { std::multiset<std::uint64_t> maps, decodes; };
Want wanted(const Work& w, fg::Options opts, int mainEntry) {
	Want r;
	(void) mainEntry;
	if (w.enc.glb && w.enc.binLength) r.maps.insert(w.enc.binLength);
	auto one = [&](model::Place pl, std::size_t have, const std::string& file, bool load) {
		if (pl == model::Place::DataUri) { r.maps.insert(have); r.decodes.insert(have); }
		else if (pl == model::Place::File && load) r.maps.insert(w.enc.files.at(file).size());
	};
	for (std::size_t i = 0; i < w.asset.buffers.size(); ++i) {
		const std::byte* d = nullptr; std::size_t n = 0;
		if (!bytesOf(w.asset.buffers[i].data, nullptr, d, n)) continue;
		one(w.enc.bufferPlace[i], n, w.enc.bufferFile[i], has(opts, fg::Options::LoadExternalBuffers));
	}
	for (std::size_t i = 0; i < w.asset.images.size(); ++i) {
		const std::byte* d = nullptr; std::size_t n = 0;
		if (std::holds_alternative<fg::sources::BufferView>(w.asset.images[i].data)) continue;
		if (!bytesOf(w.asset.images[i].data, nullptr, d, n) && w.enc.imagePlace[i] == model::Place::DataUri) continue;
		one(w.enc.imagePlace[i], n, w.enc.imageFile[i], has(opts, fg::Options::LoadExternalImages));
	}
	return r;
}
std::string list(const std::multiset<std::uint64_t>& m) { std::string t; for (auto x : m) t += sfmt(" %llu", static_cast<unsigned long long>(x)); return t; }

void protocol(Sim& s) {
	int n = static_cast<int>(s.range(1, 2));
	std::vector<std::unique_ptr<Work>> works;
	for (int i = 0; i < n; ++i) {
		auto g = randomGen(s);
		g.materials = g.animations = g.physics = s.chance(1, 5);
		auto e = randomEnc(s);
		works.push_back(makeWork(s, g, e, sfmt("/sim/w%d", i)));
	}
	auto parser = newParser();
	std::unique_ptr<Host> host;
	std::vector<std::unique_ptr<Host>> old; // earlier hosts stay around: their assets may still use the regions
	std::vector<std::pair<Outcome, Host*>> assets;
	int steps = static_cast<int>(s.range(1, 5));
	for (int k = 0; k < steps; ++k) {
		auto& w = *works[s.pick(static_cast<std::uint32_t>(n))];
		if (!host || s.chance(1, 2)) {
			if (host) old.push_back(std::move(host));
			host = std::make_unique<Host>();
			host->mapCb = s.chance(4, 5);
			host->unmapCb = host->mapCb && s.chance(3, 4);
			host->b64Cb = s.chance(1, 2);
			host->install(*parser);
		}
		host->declineNum = host->mapCb && s.chance(1, 3) ? static_cast<int>(s.range(1, 8)) : 0;
		host->declineSeed = 1 + s.pick(1000);
		host->throwAtMap = s.chance(1, 16) ? host->mapRequests + static_cast<int>(s.pick(3)) : -1;
		host->throwAtDecode = s.chance(1, 16) ? host->decodes + static_cast<int>(s.pick(2)) : -1;
		auto firstRegion = host->regions.size(), firstCall = host->calls.size();
		auto maps0 = host->mapRequests, unmaps0 = host->unmaps, decodes0 = host->decodes;
		LoadSpec l;
		l.dir = w.dir;
		l.entry = s.chance(1, 3) ? (w.enc.glb ? BINARY : JSON) : AUTO;
		l.opts = kDouble;
		if (s.chance(4, 5)) l.opts = l.opts + fg::Options::LoadExternalBuffers;
		if (s.chance(4, 5)) l.opts = l.opts + fg::Options::LoadExternalImages;
		int src = static_cast<int>(s.pick(SRC_COUNT));
		Bytes main = w.enc.main;
		bool damaged = s.chance(1, 5);
		if (damaged) s.event("damaged: %s", damage(s, main, w.enc.glb).c_str());
		std::map<std::string, Bytes> saved;
		vfs::put(w.path, main);
		vfs::Plan p;
		benignStorage(s, p);
		bool fault = s.chance(1, 2);
		if (fault) { p.at = static_cast<int>(s.pick(30)); p.sticky = s.chance(1, 3); p.flavour = static_cast<int>(s.pick(8)); p.eofFault = s.chance(1, 2); p.mask = s.chance(1, 2) ? (1u << vfs::O_READ) : ~0u; }
		vfs::setPlan(p);
		auto o = loadFrom(*parser, src, w.path, main, l);
		int fired = vfs::st.fired;
		vfs::clearPlan();
		s.event("load %d of %s from %s -> %s", k, w.path.c_str(), srcNames[src], o.status().c_str());
		for (auto& pr : host->problems) SIM_REQUIRE(false, "protocol", "%s", pr.c_str());
		for (auto& h : old) for (auto& pr : h->problems) SIM_REQUIRE(false, "protocol", "%s", pr.c_str());
		bool userThrew = o.thrown == "user";
		if (userThrew) { s.probe("callback threw"); for (auto& r : host->regions) r.open = false; }
		SIM_REQUIRE(o.thrown.empty() || userThrew, "exception", "the load threw %s", o.thrown.c_str());
		if (!host->mapCb) SIM_REQUIRE(host->mapRequests == maps0, "map-unset", "the map callback was called although it is not set");
		if (!host->unmapCb) SIM_REQUIRE(host->unmaps == unmaps0, "unmap-unset", "the unmap callback was called although it is not set");
		if (!host->b64Cb) SIM_REQUIRE(host->decodes == decodes0, "decode-unset", "the base64 callback was called although it is not set");
		if (host->unmapCb && !userThrew)
			for (auto i = firstRegion; i < host->regions.size(); ++i) {
				SIM_REQUIRE(host->regions[i].unmaps == 1, "unmap-count", "a region of the load was unmapped %d times, the load ended with %s", host->regions[i].unmaps, o.status().c_str());
				s.probe(o.ok() ? "region mapped and unmapped" : "region unmapped by a failing load");
			}
		if (o.ok()) {
			if (!damaged) {
				auto want = wanted(w, l.opts, l.entry);
				std::multiset<std::uint64_t> maps, decodes;
				for (auto i = firstCall; i < host->calls.size(); ++i) {
					unsigned long long v = 0;
					if (std::sscanf(host->calls[i].c_str(), "map %llu", &v) == 1) maps.insert(v);
					else if (std::sscanf(host->calls[i].c_str(), "decode %llu", &v) == 1) decodes.insert(v);
				}
				if (host->mapCb) SIM_REQUIRE(maps == want.maps, "map-requests", "map requests differ from what was brought into memory: requested%s, held%s", list(maps).c_str(), list(want.maps).c_str());
				if (host->b64Cb) SIM_REQUIRE(decodes == want.decodes, "decode-requests", "the base64 decoder was called for%s instead of%s bytes", list(decodes).c_str(), list(want.decodes).c_str());
				auto d = contentDump(w.dir, l.opts);
				d.custom = host->dumpOpts().custom;
				requireEqual(s, "content", "what was loaded is not what the file says", w.expected, model::dump(*o.asset, d));
				if (fired) s.probe("asset in spite of a fault");
			}
			// the regions named by the asset
			std::set<std::uint64_t> ids;
			auto check = [&](const fg::DataSource& d) {
				auto* c = std::get_if<fg::sources::CustomBuffer>(&d);
				if (!c) return;
				s.probe("asset names a region");
				SIM_REQUIRE(ids.insert(c->id).second, "id-twice", "two objects of the asset name the same region");
				for (auto i = firstRegion; i < host->regions.size(); ++i) {
					auto& r = host->regions[i];
					if (r.id != c->id) continue;
					SIM_REQUIRE(!host->unmapCb || r.hashAtUnmap == sim::fnv(r.p, r.size), "late-write", "a region was written after it had been unmapped");
					return;
				}
				SIM_REQUIRE(false, "unknown-id", "the asset names a region this load did not get");
			};
			for (auto& b : o.asset->buffers) check(b.data);
			for (auto& i : o.asset->images) check(i.data);
			if (!damaged) {
				bool unusedBin = w.enc.glb && w.enc.binLength && (w.asset.buffers.empty() || w.enc.bufferPlace[0] != model::Place::Glb);
				auto got = host->regions.size() - firstRegion;
				SIM_REQUIRE(got == ids.size() + (unusedBin ? 1 : 0) || (unusedBin && got == ids.size()), "region-lost", "%zu regions were accepted, the asset names %zu", got, ids.size());
			}
			if (host->declined) s.probe("declining host");
		} else {
			SIM_REQUIRE(damaged || fired || userThrew, "clean-load-failed", "loading failed although nothing went wrong: %s", o.status().c_str());
		}
		for (auto i = firstCall; i < host->calls.size(); ++i) s.observe(host->calls[i]);
		s.observe(o.status());
		if (k) s.nontrivial = true;
	}
	// every region still holds what it held when it was unmapped
	auto late = [&](Host& h) { for (auto& r : h.regions) SIM_REQUIRE(r.unmaps == 0 || r.hashAtUnmap == sim::fnv(r.p, r.size), "late-write", "a region was written after it had been unmapped"); };
	if (host) late(*host);
	for (auto& h : old) late(*h);
	destroy(parser);
}
sim::Register r("C09", "protocol", 1, protocol, true);
} // namespace
