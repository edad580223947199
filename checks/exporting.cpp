#include "exporting.hpp"
#include <algorithm>
namespace chk {
ExHost* ExHost::current = nullptr;
namespace {
std::optional<std::string> writeExtras(std::size_t index, fg::Category cat, void* user) {
	HostScope hs;
	sched::point(sched::P_CALLBACK);
	auto* h = static_cast<ExHost*>(user);
	if (ExHost::current && h != ExHost::current) { ExHost::current->problems.push_back("the extras callback got a user pointer other than the current one"); return std::nullopt; }
	int n = h->calls++;
	auto key = std::make_pair(static_cast<std::uint32_t>(cat), index);
	++h->asked[key];
	if (n == h->throwAt) { sim::cur->fault(sim::F_THROW_CALLBACK); throw UserError{5}; }
	auto it = h->give.find(key);
	if (it == h->give.end()) return std::nullopt;
	return it->second;
}
} // namespace
void ExHost::install(fg::Exporter& e) {
	LibScope l;
	e.setUserPointer(this);
	e.setExtrasWriteCallback(writeExtras);
	current = this;
}
void ExHost::remove(fg::Exporter& e) {
	LibScope l;
	e.setUserPointer(nullptr);
	e.setExtrasWriteCallback(nullptr);
}
std::string percent(const std::string& path) {
	std::string o;
	for (unsigned char c : path) {
		if (isalnum(c) || c == '/' || c == '.' || c == '-' || c == '_' || c >= 0x80) o += static_cast<char>(c);
		else o += sfmt("%%%02x", c);
	}
	return o;
}
model::DumpOpts exportDump(const std::string& dir) {
	auto d = contentDump(dir);
	d.negZero = false;
	d.exporting = true;
	return d;
}
std::unique_ptr<ExWork> makeExportWork(Sim& s, const ExOpts& o, const std::string& dir) {
	auto w = std::make_unique<ExWork>();
	auto ref = [&](const std::string& f, const Bytes& b) {
		w->refFiles[f] = b;
		auto full = vfs::norm(dir + "/" + f);
		vfs::mkdirs(full.substr(0, full.rfind('/')));
		vfs::put(full, b);
	};
	if (o.mayLoad && s.chance(1, 3)) {
		auto src = makeWork(s, o.gen, randomEnc(s), "/sim/src");
		LoadSpec l;
		l.dir = "/sim/src";
		l.opts = s.chance(1, 2) ? kExternal : kDouble;
		if (s.chance(1, 8)) l.opts = l.opts + fg::Options::DecomposeNodeMatrices;
		if (s.chance(1, 8)) l.opts = l.opts + fg::Options::GenerateMeshIndices;
		auto p = newParser();
		auto out = loadFrom(*p, BYTES, src->path, src->enc.main, l);
		destroy(p);
		if (!out.ok()) { s.probe("the source asset did not load"); throw Stop{}; } // C24 decides that
		LibScope ls;
		w->asset = std::move(*out.asset);
		w->loaded = true;
		auto text = model::dump(w->asset);
		bool finite = text.find("inf/") == text.npos && text.find("nan/") == text.npos;
		if (has(l.opts, fg::Options::DecomposeNodeMatrices) && (!finite || runValidate(w->asset) != fg::Error::None)) { s.probe("decomposing an arbitrary matrix gave an asset that is not valid"); throw Stop{}; }
		sim::HostScope h;
		for (auto& [f, b] : src->enc.files) ref(f, b);
	} else {
		w->asset = model::generate(s, o.gen);
	}
	w->mem.reserve(64);
	auto vary = [&](fg::DataSource& d, std::size_t i, bool image, fg::MimeType mime) {
		const std::byte* p = nullptr;
		std::size_t n = 0;
		if (!bytesOf(d, nullptr, p, n)) return;
		Bytes b(reinterpret_cast<const unsigned char*>(p), reinterpret_cast<const unsigned char*>(p) + n);
		if (o.byteViews && !image && s.chance(1, 6)) {
			w->mem.push_back(b);
			fg::sources::ByteView v;
			v.bytes = fg::span<const std::byte>(reinterpret_cast<const std::byte*>(w->mem.back().data()), n);
			v.mimeType = mime;
			d = v;
			s.probe("byte view exported");
		} else if (o.uris && s.chance(1, 8)) {
			static const char* const pieces[] = {"ref", "a b", "100%", "%41", "x#y", "q?r", "\"quoted\"", "\xc3\xa9", "sub/ref", "a:b", "sub/a:b", "buffer0.bin", "buffer1.bin", "image0.png", "image0.bin", "a.bin", "mesh.bin"};
			std::string f = pieces[s.pick(std::size(pieces))];
			if (f.find('.') == std::string::npos) f += std::to_string(i) + (image ? ".img" : ".dat");
			if (w->refFiles.count(f)) return;
			ref(f, b);
			fg::sources::URI u;
			u.fileByteOffset = 0;
			u.uri = fg::URI(percent(f));
			u.mimeType = image ? mime : fg::MimeType::None;
			d = std::move(u);
			s.probe("URI source exported");
		}
	};
	{
		for (std::size_t i = 0; i < w->asset.buffers.size(); ++i) vary(w->asset.buffers[i].data, i, false, fg::MimeType::GltfBuffer);
		for (std::size_t i = 0; i < w->asset.images.size(); ++i) {
			auto m = fg::MimeType::PNG;
			if (auto* x = std::get_if<fg::sources::Array>(&w->asset.images[i].data)) m = x->mimeType;
			if (auto* x = std::get_if<fg::sources::Vector>(&w->asset.images[i].data)) m = x->mimeType;
			vary(w->asset.images[i].data, i, true, m);
			if (auto* u = std::get_if<fg::sources::URI>(&w->asset.images[i].data); u && u->uri.isLocalPath()) {
				std::string f(u->uri.path());
				if (!w->refFiles.count(f) && !vfs::get(vfs::norm(dir + "/" + f))) ref(f, model::randomBytes(s, s.range(1, 60)));
			}
		}
	}
	if (!o.longNames) {
		// longer file names than storage can hold make an export fail, rightly
		auto trim = [](std::size_t n, std::string name) { while (name.size() > n || (!name.empty() && name.size() > n - 4 && (static_cast<unsigned char>(name.back()) & 0xc0) == 0x80)) name.pop_back(); return name; };
		for (auto& b : w->asset.buffers) if (b.name.size() > 200) b.name = trim(200, std::string(b.name)).c_str();
		for (auto& b : w->asset.images) if (b.name.size() > 200) b.name = trim(200, std::string(b.name)).c_str();
	}
	if (o.collide) {
		// names chosen to collide with each other, the generated names and the target
		static const char* const names[] = {"", "buffer0", "buffer1", "image0", "image1", "a", "a", "A", "x", "x.gltf", "../x", "../a", "..", ".", "/sim/secret", "/sim/out/x", "sub/a", "sub/../a", "a/b/c", "../out/x", "./a", "a\\b", "..\\a", "//a", "a//b", "a/", "/", "a_1", "a_0", "buffer0_1", "sub", "a\nb", "a%2e", "%2e%2e%2fx", "x.bin", "buffer0.bin/a", "...", "a/..", "a/../..", "a/../../../b", "sub/./a"};
		for (auto& b : w->asset.buffers) if (s.chance(3, 4)) b.name = names[s.pick(std::size(names))];
		for (auto& b : w->asset.images) if (s.chance(3, 4)) b.name = names[s.pick(std::size(names))];
	}
	auto d = exportDump(dir);
	d.reference = true;
	w->expected = model::dump(w->asset, d);
	return w;
}
fg::ExportOptions ExSettings::options() const {
	auto o = fg::ExportOptions::None;
	if (pretty) o |= fg::ExportOptions::PrettyPrintJson;
	if (validate) o |= fg::ExportOptions::ValidateAsset;
	return o;
}
std::string ExSettings::text() const { return sfmt("%s%s%s buffers '%s' images '%s'", glb ? "GLB" : "JSON", pretty ? " pretty" : "", validate ? " validating" : "", bufferFolder.c_str(), imageFolder.c_str()); }
void ExSettings::apply(fg::Exporter& e) const {
	fs::path b(bufferFolder), i(imageFolder);
	LibScope l;
	e.setBufferPath(b);
	e.setImagePath(i);
}
ExSettings randomSettings(Sim& s) {
	ExSettings x;
	x.glb = s.chance(1, 2);
	x.pretty = s.chance(1, 3);
	x.validate = s.chance(1, 3);
	static const char* const f[] = {"", "buffers", "data", "a/b", "sub dir", "50%", "data/", "./d"};
	x.bufferFolder = f[s.weighted({6, 2, 2, 2, 1, 1, 1, 1})];
	x.imageFolder = f[s.weighted({6, 2, 2, 2, 1, 1, 1, 1})];
	return x;
}
std::vector<std::pair<std::string, Bytes>> exportedFiles(const ExportOut& r, const fg::Asset& a) {
	std::vector<std::pair<std::string, Bytes>> o;
	auto add = [&](const std::vector<std::string>& paths, auto& list) {
		std::size_t i = 0;
		for (auto& x : list) {
			auto p = i < paths.size() ? paths[i] : "-";
			++i;
			if (p == "-") continue;
			const std::byte* d = nullptr;
			std::size_t n = 0;
			if (!bytesOf(x.data, nullptr, d, n)) continue;
			o.emplace_back(p, Bytes(reinterpret_cast<const unsigned char*>(d), reinterpret_cast<const unsigned char*>(d) + n));
		}
	};
	add(r.bufferPaths, a.buffers);
	add(r.imagePaths, a.images);
	return o;
}
std::string storeExport(const ExportOut& r, const fg::Asset& a, const std::string& target) {
	if (r.bufferPaths.size() != a.buffers.size() || r.imagePaths.size() != a.images.size())
		return sfmt("the export result names %zu buffer and %zu image paths for %zu buffers and %zu images", r.bufferPaths.size(), r.imagePaths.size(), a.buffers.size(), a.images.size());
	auto dir = target.substr(0, target.rfind('/'));
	vfs::mkdirs(dir);
	for (auto& [f, b] : exportedFiles(r, a)) {
		auto full = vfs::norm(dir + "/" + f);
		if (full.compare(0, 5, "/sim/") != 0) return "a file outside the simulated storage: " + full;
		vfs::mkdirs(full.substr(0, full.rfind('/')));
		vfs::put(full, b);
	}
	vfs::put(target, r.bytes);
	return "";
}
} // namespace chk
