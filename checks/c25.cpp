// C25: what validation accepts is safe to use.
#include "../model/rules.hpp"
#include "exporting.hpp"
#include <fastgltf/tools.hpp>
namespace {
using namespace chk;
sim::Assumption a1("C25", "the rules of the format are those stated in /verif/model/rules.cpp; reads outside of a buffer view but inside of its buffer are told by these rules, not by AddressSanitizer");

bool heldView(const fg::Asset& a, std::size_t v) {
	const std::byte* p = nullptr;
	std::size_t n = 0;
	return bytesOf(a.buffers[a.bufferViews[v].bufferIndex].data, nullptr, p, n);
}
template <class T> std::uint64_t readAs(Sim& s, const fg::Asset& a, const fg::Accessor& x) {
	std::uint64_t h = 0, n = 0;
	auto add = [&](const T& v) { h = h * 31 + sim::fnv(&v, sizeof(T)); };
	{
		LibScope ls;
		fg::iterateAccessor<T>(a, x, [&](T v) { add(v); ++n; });
		std::vector<T> all(x.count);
		fg::copyFromAccessor<T>(a, x, all.data());
		for (auto& v : all) add(v);
		add(fg::getAccessorElement<T>(a, x, 0));
		add(fg::getAccessorElement<T>(a, x, x.count - 1));
		if (x.bufferViewIndex.has_value()) for (auto&& v : fg::iterateAccessor<T>(a, x)) { add(v); ++n; }
	}
	SIM_REQUIRE(n == x.count * (x.bufferViewIndex.has_value() ? 2 : 1), "reading", "an accessor of %zu elements gave %llu", x.count, static_cast<unsigned long long>(n));
	return h;
}
// Everything a user does with an asset, by the indices in it.
void use(Sim& s, fg::Asset& a) {
	std::uint64_t h = 0;
	int read = 0;
	for (auto& x : a.accessors) {
		if (x.count > 100000) continue; // without any data
		if (x.bufferViewIndex.has_value() && !heldView(a, *x.bufferViewIndex)) continue;
		if (x.sparse && (!heldView(a, x.sparse->indicesBufferView) || !heldView(a, x.sparse->valuesBufferView))) continue;
		++read;
		switch (x.type) {
			case fg::AccessorType::Scalar: h ^= fg::getComponentByteSize(x.componentType) == 4 && x.componentType != fg::ComponentType::Float ? readAs<std::uint32_t>(s, a, x) : x.componentType == fg::ComponentType::Double ? readAs<double>(s, a, x) : readAs<float>(s, a, x); break;
			case fg::AccessorType::Vec2: h ^= readAs<fg::math::fvec2>(s, a, x); break;
			case fg::AccessorType::Vec3: h ^= readAs<fg::math::fvec3>(s, a, x); break;
			case fg::AccessorType::Vec4: h ^= readAs<fg::math::fvec4>(s, a, x); break;
			case fg::AccessorType::Mat2: h ^= readAs<fg::math::fmat2x2>(s, a, x); break;
			case fg::AccessorType::Mat3: h ^= readAs<fg::math::fmat3x3>(s, a, x); break;
			case fg::AccessorType::Mat4: h ^= readAs<fg::math::fmat4x4>(s, a, x); break;
			default: break;
		}
	}
	if (read) s.probe("accessors read");
	std::size_t visited = 0, limit = 0;
	for (std::size_t i = 0; i < a.scenes.size(); ++i) {
		limit += a.scenes[i].nodeIndices.size() * a.nodes.size();
		LibScope ls;
		fg::iterateSceneNodes(a, i, fg::math::fmat4x4(), [&](fg::Node& n, const fg::math::fmat4x4&) {
			h = h * 31 + n.children.size();
			if (++visited > limit) throw UserError{25};
		});
	}
	if (visited) s.probe("scene walked");
	model::forEachReference(a, [&](const char*, std::size_t& i, std::size_t) { h = h * 31 + i; });
	s.observe(std::to_string(h));
}
// What the encoder cannot write as it is.
bool writable(const fg::Asset& a) {
	for (auto& l : a.lights) if (l.type == fg::LightType::Spot && (!l.innerConeAngle.has_value() || !l.outerConeAngle.has_value())) return false;
	for (auto& m : a.meshes) for (auto& p : m.primitives) if (p.mappings.size() > a.materialVariants.size()) return false;
	return true;
}
std::string first(const std::vector<std::string>& v) { return v.empty() ? "" : v[0]; }

void safe(Sim& s) {
	auto g = randomGen(s, 1);
	g.bigBuffers = false;
	g.remote = g.remote && s.chance(1, 4);
	auto a = model::generate(s, g);
	auto kind = s.weighted({1, 6, 6, 3, 4, 4});
	if (kind >= 1 && kind <= 4) {
		auto n = s.weighted({0, 8, 1});
		for (int i = 0; i < n; ++i) {
			HostScope hs;
			auto d = kind == 1 ? model::breakReference(s, a) : kind == 2 ? model::breakRange(s, a) : kind == 3 ? model::breakHierarchy(s, a) : model::breakRule(s, a);
			if (d.empty()) continue;
			s.fault(sim::F_GARBAGE);
			s.event("wrong value: %s", d.c_str());
		}
	}
	std::unique_ptr<fg::Parser> parser;
	Outcome o;
	const bool stored = kind == 5 || (s.chance(3, 4) && writable(a));
	if (stored) { // written so, or damaged in storage
		auto e = randomEnc(s);
		auto enc = model::encode(s, a, e);
		auto bytes = enc.main;
		const std::string dir = "/sim/in", path = dir + (enc.glb ? "/main.glb" : "/main.gltf");
		store(enc, dir, enc.glb ? "main.glb" : "main.gltf");
		for (auto& im : a.images)
			if (auto* u = std::get_if<fg::sources::URI>(&im.data); u && u->uri.isLocalPath()) {
				auto known = model::uris().find(std::string(u->uri.string()));
				auto f = vfs::norm(dir + "/" + (known != model::uris().end() ? known->second.path : std::string(u->uri.path())));
				vfs::mkdirs(f.substr(0, f.rfind('/')));
				if (!vfs::get(f)) vfs::put(f, model::randomBytes(s, s.range(1, 40)));
			}
		if (kind == 5) {
			static const int kinds[] = {0, 0, 2, 3, 10, 10, 1};
			for (auto n = s.range(1, 2); n-- > 0;) { auto d = damage(s, bytes, enc.glb, kinds[s.pick(7)]); s.event("damage: %s", d.c_str()); }
			vfs::put(path, bytes);
		}
		LoadSpec l;
		l.dir = dir;
		l.opts = s.chance(4, 5) ? kExternal : kDouble;
		if (s.chance(1, 10)) l.opts = l.opts + fg::Options::GenerateMeshIndices;
		vfs::Plan p;
		if (s.chance(1, 4)) benignStorage(s, p);
		vfs::setPlan(p);
		parser = newParser();
		int src = static_cast<int>(s.pick(SRC_COUNT));
		o = loadFrom(*parser, src, path, bytes, l);
		vfs::clearPlan();
		s.event("%s -> %s", srcNames[src], o.status().c_str());
		if (!o.ok()) {
			SIM_REQUIRE(kind != 0, "rejected", "a well-formed file was rejected: %s", o.status().c_str());
			s.probe("load error");
			destroy(parser);
			return;
		}
	} else {
		LibScope ls;
		o.asset = std::make_unique<fg::Asset>(std::move(a));
	}
	auto v = model::judge(*o.asset);
	auto got = runValidate(*o.asset);
	s.event("validate -> %s; %zu unsafe (%s), %zu rules (%s), %zu grey", errName(got), v.unsafe.size(), first(v.unsafe).c_str(), v.rules.size(), first(v.rules).c_str(), v.grey.size());
	s.observe(errName(got));
	if (!v.unsafe.empty()) {
		SIM_REQUIRE(got != fg::Error::None, "unsafe", "validate() accepts an asset that is not safe to use: %s", v.unsafe[0].c_str());
		s.probe("unsafe asset refused");
	} else if (!v.rules.empty()) {
		SIM_REQUIRE(got != fg::Error::None, "rule", "validate() accepts an asset that breaks a rule it enforces: %s", v.rules[0].c_str());
		s.probe("rule broken and refused");
	} else if (v.grey.empty()) {
		SIM_REQUIRE(got == fg::Error::None, "valid", "validate() rejects a valid asset: %s", errName(got));
		s.probe(stored ? "valid asset accepted" : "valid asset in memory accepted");
	}
	if (got == fg::Error::None) use(s, *o.asset);
	else if (s.chance(1, 4)) { // an exporter that validates refuses it too, before it writes anything
		const bool glb = s.chance(1, 2);
		auto eo = fg::ExportOptions::ValidateAsset;
		if (s.chance(1, 2)) eo |= fg::ExportOptions::PrettyPrintJson;
		if (s.chance(1, 2)) {
			std::unique_ptr<fg::Exporter> ex;
			{ LibScope ls; ex = std::make_unique<fg::Exporter>(); }
			auto r = exportMemory(*ex, *o.asset, glb, eo);
			SIM_REQUIRE(!r.ok, "export", "an exporter that validates exports what validate() refuses (%s)", errName(got));
			LibScope ls; ex.reset();
		} else {
			vfs::mkdirs("/sim/out");
			std::unique_ptr<fg::FileExporter> ex;
			{ LibScope ls; ex = std::make_unique<fg::FileExporter>(); }
			auto r = exportFile(*ex, *o.asset, glb, "/sim/out/x.gltf", eo);
			SIM_REQUIRE(!r.ok, "export", "an exporter that validates exports what validate() refuses (%s)", errName(got));
			SIM_REQUIRE(!vfs::get("/sim/out/x.gltf"), "export", "a refused export left a file behind");
			LibScope ls; ex.reset();
		}
		s.probe("validating exporter refused");
	}
	o.drop();
	if (parser) destroy(parser);
}
sim::Register r("C25", "safe", 1, safe, true);
} // namespace
