// C03: external buffers and images load completely or fail.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C03", "an external file is local to the directory the application names");

std::string prefixProblem(const std::byte* d, std::size_t n, const Bytes& want, std::size_t need) {
	if (n < need) return sfmt("holds %zu bytes, needs %zu", n, need);
	for (std::size_t i = 0; i < need; ++i) if (static_cast<unsigned char>(d[i]) != want[i]) return sfmt("byte %zu differs (0x%02x instead of 0x%02x)", i, static_cast<unsigned>(d[i]), want[i]);
	return "";
}

void externals(Sim& s) {
	auto g = randomGen(s);
	g.materials = g.animations = s.chance(1, 4);
	auto e = randomEnc(s);
	e.place = s.weighted({2, 1, 4});
	auto w = makeWork(s, g, e);
	std::vector<Bytes> bufs, imgs;
	for (auto& b : w->asset.buffers) { const std::byte* d = nullptr; std::size_t n = 0; bytesOf(b.data, nullptr, d, n); bufs.emplace_back(reinterpret_cast<const unsigned char*>(d), reinterpret_cast<const unsigned char*>(d) + n); }
	for (auto& b : w->asset.images) { const std::byte* d = nullptr; std::size_t n = 0; bytesOf(b.data, nullptr, d, n); imgs.emplace_back(reinterpret_cast<const unsigned char*>(d), reinterpret_cast<const unsigned char*>(d) + n); }
	for (std::size_t i = 0; i < imgs.size(); ++i) if (w->enc.imagePlace[i] == model::Place::File) imgs[i] = w->enc.files[w->enc.imageFile[i]];
	LoadSpec l;
	l.dir = w->dir;
	if (s.chance(1, 6)) l.opts = kDouble + fg::Options::LoadExternalBuffers;
	else if (s.chance(1, 6)) l.opts = kDouble + fg::Options::LoadExternalImages;
	Host host;
	host.mapCb = s.chance(1, 2);
	host.unmapCb = host.mapCb && s.chance(3, 4);
	host.b64Cb = s.chance(1, 6);
	if (host.mapCb && s.chance(1, 4)) host.declineNum = 3;
	auto names = std::vector<std::string>();
	for (auto& [f, b] : w->enc.files) names.push_back(f);
	// damage done before the load
	bool mustFail = false;
	std::map<std::string, Bytes> now = w->enc.files;
	bool before = !names.empty() && s.chance(1, 4);
	if (before) {
		auto n = names[s.pick(static_cast<std::uint32_t>(names.size()))];
		auto k = s.pick(3);
		auto full = vfs::norm(w->dir + "/" + n);
		if (k == 0) { vfs::st.files.erase(full); now.erase(n); s.fault(sim::F_LOST_FILE); s.event("%s is missing", show(n).c_str()); }
		else if (k == 1) { vfs::st.files.erase(full); vfs::mkdirs(full); now.erase(n); s.fault(sim::F_LOST_FILE); s.event("%s is a directory", show(n).c_str()); }
		else { auto& b = now[n]; b.resize(s.pick(static_cast<std::uint32_t>(b.size() + 1))); vfs::put(full, b); s.fault(sim::F_TRUNCATE); s.event("%s is cut to %zu bytes", show(n).c_str(), b.size()); }
		for (std::size_t i = 0; i < bufs.size(); ++i)
			if (has(l.opts, fg::Options::LoadExternalBuffers) && w->enc.bufferPlace[i] == model::Place::File && w->enc.bufferFile[i] == n && (!now.count(n) || now[n].size() < w->asset.buffers[i].byteLength)) mustFail = true;
		for (std::size_t i = 0; i < imgs.size(); ++i)
			if (has(l.opts, fg::Options::LoadExternalImages) && i < w->enc.imagePlace.size() && w->enc.imagePlace[i] == model::Place::File && w->enc.imageFile[i] == n && !now.count(n)) mustFail = true;
	}
	auto run = [&](fg::Parser& parser) { return loadFrom(parser, BYTES, w->path, w->enc.main, l); };
	vfs::Plan p;
	int ops = 0;
	{
		vfs::setPlan(p);
		auto parser = newParser();
		auto o = run(*parser);
		ops = vfs::st.counted;
		destroy(parser);
		if (!mustFail) SIM_REQUIRE(o.ok(), "clean-load-failed", "loading intact external files failed: %s", o.status().c_str());
	}
	benignStorage(s, p);
	int kind = ops ? s.weighted({2, 6, before ? 0 : 3}) : 0;
	std::map<std::string, Bytes> alt;
	std::string shrunk;
	if (kind == 1) {
		p.at = static_cast<int>(s.pick(static_cast<std::uint32_t>(ops)));
		p.sticky = s.chance(1, 3);
		p.flavour = static_cast<int>(s.pick(8));
		p.eofFault = s.chance(1, 2);
		p.mask = s.chance(1, 2) ? (1u << vfs::O_READ) : ~0u;
	} else if (kind == 2 && !names.empty()) {
		p.actAt = static_cast<int>(s.pick(static_cast<std::uint32_t>(ops)));
		auto n = names[s.pick(static_cast<std::uint32_t>(names.size()))];
		auto k = s.pick(3);
		auto r = s.bits32();
		p.act = [&, n, k, r] {
			auto full = vfs::norm(w->dir + "/" + n);
			auto f = vfs::get(full);
			if (!f || f->dir) return;
			if (k == 0) { s.fault(sim::F_VANISH); vfs::st.files.erase(full); s.event("%s vanishes", show(n).c_str()); return; }
			if (k == 1) { s.fault(sim::F_SHRINK); f->data.resize(f->data.empty() ? 0 : r % f->data.size()); }
			else { s.fault(sim::F_GROW); f->data.resize(f->data.size() + 1 + r % 5000, 0x77); }
			alt[n] = f->data;
			s.event("%s becomes %zu bytes", show(n).c_str(), f->data.size());
		};
	}
	vfs::setPlan(p);
	auto parser = newParser();
	{ LibScope ls; host.install(*parser); }
	auto o = run(*parser);
	int fired = vfs::st.fired;
	vfs::clearPlan();
	s.event("-> %s", o.status().c_str());
	SIM_REQUIRE(o.thrown.empty(), "exception", "a storage fault gave an exception: %s", o.thrown.c_str());
	if (mustFail) SIM_REQUIRE(!o.ok(), "missing-not-reported", "an external file is missing or too short, but an asset is returned");
	s.observe(o.status());
	if (o.ok()) {
		auto& a = *o.asset;
		SIM_REQUIRE(a.buffers.size() == bufs.size() && a.images.size() == imgs.size(), "count", "the asset has %zu buffers and %zu images instead of %zu and %zu", a.buffers.size(), a.images.size(), bufs.size(), imgs.size());
		for (std::size_t i = 0; i < bufs.size(); ++i) {
			const std::byte* d = nullptr;
			std::size_t n = 0;
			bool ext = w->enc.bufferPlace[i] == model::Place::File;
			if (!bytesOf(a.buffers[i].data, &host, d, n)) {
				bool wanted = !ext || has(l.opts, fg::Options::LoadExternalBuffers);
				if (std::holds_alternative<fg::sources::Fallback>(a.buffers[i].data) || w->enc.bufferPlace[i] == model::Place::Remote) continue;
				SIM_REQUIRE(!wanted, "not-loaded", "buffer %zu was not loaded although that was requested", i);
				continue;
			}
			s.probe(ext ? "external buffer checked" : "embedded buffer checked");
			auto pr = prefixProblem(d, n, bufs[i], w->asset.buffers[i].byteLength);
			SIM_REQUIRE(pr.empty(), "buffer-bytes", "buffer %zu (%s, %d faults): %s", i, ext ? "external" : "embedded", fired, pr.c_str());
			s.observe(sfmt("b%zu %016llx", i, (unsigned long long) sim::fnv(d, w->asset.buffers[i].byteLength)));
		}
		for (std::size_t i = 0; i < imgs.size(); ++i) {
			const std::byte* d = nullptr;
			std::size_t n = 0;
			if (std::holds_alternative<fg::sources::BufferView>(a.images[i].data)) continue;
			bool ext = i < w->enc.imagePlace.size() && w->enc.imagePlace[i] == model::Place::File;
			if (!bytesOf(a.images[i].data, &host, d, n)) {
				bool wanted = !ext || has(l.opts, fg::Options::LoadExternalImages);
				SIM_REQUIRE(!wanted || imgs[i].empty(), "not-loaded", "image %zu was not loaded although that was requested", i);
				continue;
			}
			s.probe(ext ? "external image checked" : "embedded image checked");
			Bytes got(reinterpret_cast<const unsigned char*>(d), reinterpret_cast<const unsigned char*>(d) + n);
			bool same = false;
			if (ext) {
				auto& f = w->enc.imageFile[i];
				same = now.count(f) && got == now[f];
				if (!same && alt.count(f)) same = got == alt[f];
			} else same = got == imgs[i];
			SIM_REQUIRE(same, "image-bytes", "image %zu (%s, %d faults) has %zu bytes that are not those of the file (%zu bytes)", i, ext ? "external" : "embedded", fired, n, ext && now.count(w->enc.imageFile[i]) ? now[w->enc.imageFile[i]].size() : imgs[i].size());
			s.observe(sfmt("i%zu %016llx", i, (unsigned long long) sim::fnv(d, n)));
		}
	} else if (!mustFail) {
		SIM_REQUIRE(fired || p.actAt >= 0, "clean-load-failed", "loading failed although nothing went wrong: %s", o.status().c_str());
		s.probe("fault reported");
	}
	o.drop();
	destroy(parser);
}
sim::Register r("C03", "external-files", 1, externals, true);
} // namespace
