#include <algorithm>
#include "model.hpp"
#include <cstdio>

namespace model {
namespace {
struct D {
	std::string out;
	const DumpOpts& o;
	std::string path;
	explicit D(const DumpOpts& o_) : o(o_) {}
	void line(std::string_view k, std::string_view v) { out += path; out += k; out += '='; out += v; out += '\n'; }
	struct Scope { D& d; std::size_t n; Scope(D& d_, const std::string& p) : d(d_), n(d_.path.size()) { d.path += p; } ~Scope() { d.path.resize(n); } };

	static std::string esc(std::string_view s) {
		std::string r = "\"";
		char b[8];
		for (unsigned char c : s) {
			if (c < 0x20 || c == '"' || c == '\\' || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
			else r += static_cast<char>(c);
		}
		return r + "\"";
	}
	std::string num(float f) const { if (!o.negZero && f == 0) f = 0; std::uint32_t u; std::memcpy(&u, &f, 4); return sim::sfmt("%.9g/%08x", static_cast<double>(f), u); }
	std::string num(double f) const { if (!o.negZero && f == 0) f = 0; std::uint64_t u; std::memcpy(&u, &f, 8); return sim::sfmt("%.17g/%016llx", f, static_cast<unsigned long long>(u)); }
	void u(std::string_view k, std::uint64_t v) { line(k, std::to_string(v)); }
	void i(std::string_view k, long long v) { line(k, std::to_string(v)); }
	void f(std::string_view k, float v) { line(k, num(v)); }
	void f(std::string_view k, double v) { line(k, num(v)); }
	void s(std::string_view k, std::string_view v) { line(k, esc(v)); }
	template <class V> void vec(std::string_view k, const V& v, std::size_t n) { std::string t; for (std::size_t j = 0; j < n; ++j) { if (j) t += ' '; t += num(v[j]); } line(k, t); }
	template <class O> void ou(std::string_view k, const O& v) { if (v.has_value()) u(k, static_cast<std::uint64_t>(v.value())); else line(k, "-"); }
	template <class O> void of(std::string_view k, const O& v) { if (v.has_value()) f(k, v.value()); else line(k, "-"); }
	template <class L> void ulist(std::string_view k, const L& l) { std::string t; for (auto x : l) t += std::to_string(static_cast<std::uint64_t>(x)) + " "; line(k, t); }
	template <class L> void attrs(std::string_view k, const L& l) { std::vector<std::string> v; for (auto& a : l) v.push_back(esc(a.name) + ":" + std::to_string(a.accessorIndex)); std::sort(v.begin(), v.end()); std::string t; for (auto& x : v) t += x + " "; line(k, t); } // members of a JSON object have no order

	void blob(const std::byte* p, std::size_t n) {
		std::string t = sim::sfmt("len %zu hash %016llx head ", n, static_cast<unsigned long long>(sim::fnv(p, n)));
		for (std::size_t j = 0; j < n && j < 24; ++j) t += sim::sfmt("%02x", static_cast<unsigned>(p[j]));
		line("bytes", t);
	}
	void mime(fg::MimeType m) { if (o.mime) u("mime", static_cast<std::uint64_t>(m)); }
	void uri(const fg::URI& x) {
		if (o.reference) {
			auto it = uris().find(std::string(x.string()));
			if (it != uris().end()) {
				auto& p = it->second;
				s("uri", p.string); s("path", p.path); s("scheme", p.scheme); s("userinfo", p.userinfo); s("host", p.host); s("port", p.port); s("query", p.query); s("fragment", p.fragment); u("valid", 1);
				return;
			}
		}
		s("uri", x.string()); s("path", x.path()); s("scheme", x.scheme()); s("userinfo", x.userinfo()); s("host", x.host()); s("port", x.port()); s("query", x.query()); s("fragment", x.fragment()); u("valid", x.valid());
	}
	// limit: number of bytes that matter in content mode
	void source(const fg::DataSource& d, std::size_t limit) {
		auto held = [&](const char* kind, const std::byte* p, std::size_t n, fg::MimeType m) {
			if (!o.content) line("source", kind);
			else { line("source", "held"); if (n > limit) n = limit; }
			blob(p, n);
			if (!o.content || limit == ~std::size_t(0)) mime(m);
		};
		std::visit(fg::visitor {
			[&](const std::monostate&) { line("source", "none"); },
			[&](const fg::sources::BufferView& v) { line("source", "bufferView"); u("view", v.bufferViewIndex); mime(v.mimeType); },
			[&](const fg::sources::URI& v) {
				Bytes b;
				if (o.content && o.external && o.external(v, limit == ~std::size_t(0), b)) { held("", reinterpret_cast<const std::byte*>(b.data()), b.size(), v.mimeType); return; }
				line("source", "uri"); u("offset", v.fileByteOffset); uri(v.uri); mime(v.mimeType);
			},
			[&](const fg::sources::Array& v) { held("array", v.bytes.data(), v.bytes.size(), v.mimeType); },
			[&](const fg::sources::Vector& v) { held("vector", v.bytes.data(), v.bytes.size(), v.mimeType); },
			[&](const fg::sources::ByteView& v) { held("view", v.bytes.data(), v.bytes.size(), v.mimeType); },
			[&](const fg::sources::CustomBuffer& v) {
				const std::byte* p; std::size_t n;
				if (o.custom && o.custom(v.id, p, n)) held("custom", p, n, v.mimeType);
				else { line("source", "custom"); u("id", v.id); mime(v.mimeType); }
			},
			[&](const fg::sources::Fallback&) { line("source", "fallback"); },
		}, d);
	}
	void tex(const char* k, const fg::TextureInfo& t) {
		Scope sc(*this, std::string(k) + ".");
		u("index", t.textureIndex); u("texCoord", t.texCoordIndex);
		if (t.transform) { Scope s2(*this, "transform."); f("rotation", t.transform->rotation); vec("offset", t.transform->uvOffset, 2); vec("scale", t.transform->uvScale, 2); ou("texCoord", t.transform->texCoordIndex); }
	}
	template <class O> void otex(const char* k, const O& t) { if (t.has_value()) tex(k, t.value()); }
	void bounds(const char* k, const std::optional<fg::AccessorBoundsArray>& b) {
		if (!b) { line(k, "-"); return; }
		std::string t = b->isType<double>() ? "f " : "i ";
		for (std::size_t j = 0; j < b->size(); ++j) t += (b->isType<double>() ? num(b->get<double>(j)) : std::to_string(b->get<std::int64_t>(j))) + " ";
		line(k, t);
	}
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	void geometry(const fg::Geometry& g) { ou("shape", g.shape); ou("node", g.node); u("convexHull", g.convexHull); }
#endif
};
} // namespace

std::string dump(const fg::Asset& a, const DumpOpts& o) {
	sim::HostScope hs;
	D d(o);
	auto each = [&](const char* cat, auto& list, auto fn) {
		d.u(std::string(cat) + ".count", list.size());
		std::size_t i = 0;
		for (auto& x : list) { D::Scope sc(d, std::string(cat) + "[" + std::to_string(i++) + "]."); fn(x); }
	};
	if (a.assetInfo.has_value()) { d.s("asset.version", a.assetInfo->gltfVersion); d.s("asset.copyright", a.assetInfo->copyright); d.s("asset.generator", a.assetInfo->generator); }
	else if (o.exporting) { d.s("asset.version", "2.0"); d.s("asset.copyright", ""); d.s("asset.generator", "fastgltf"); } // what the exporter writes
	else d.line("asset", "-");
	for (auto& e : a.extensionsUsed) d.s("used", e);
	for (auto& e : a.extensionsRequired) d.s("required", e);
	d.ou("defaultScene", a.defaultScene);
	if (o.categories) d.u("categories", static_cast<std::uint32_t>(a.availableCategories));
	each("accessors", a.accessors, [&](const fg::Accessor& x) {
		d.s("name", x.name); d.u("offset", x.byteOffset); d.u("count", x.count); d.u("type", static_cast<unsigned>(x.type)); d.u("component", static_cast<unsigned>(x.componentType));
		d.u("normalized", x.normalized); d.ou("view", x.bufferViewIndex); d.bounds("max", x.max); d.bounds("min", x.min);
		if (x.sparse.has_value()) { auto& s = x.sparse.value(); D::Scope sc(d, "sparse."); d.u("count", s.count); d.u("iview", s.indicesBufferView); d.u("ioff", s.indicesByteOffset); d.u("vview", s.valuesBufferView); d.u("voff", s.valuesByteOffset); d.u("itype", static_cast<unsigned>(s.indexComponentType)); }
	});
	each("animations", a.animations, [&](const fg::Animation& x) {
		d.s("name", x.name);
		each("channels", x.channels, [&](const fg::AnimationChannel& c) { d.u("sampler", c.samplerIndex); d.ou("node", c.nodeIndex); d.u("path", static_cast<unsigned>(c.path)); });
		each("samplers", x.samplers, [&](const fg::AnimationSampler& c) { d.u("in", c.inputAccessor); d.u("out", c.outputAccessor); d.u("interp", static_cast<unsigned>(c.interpolation)); });
	});
	each("buffers", a.buffers, [&](const fg::Buffer& x) { d.s("name", x.name); d.u("byteLength", x.byteLength); d.source(x.data, x.byteLength); });
	each("bufferViews", a.bufferViews, [&](const fg::BufferView& x) {
		d.s("name", x.name); d.u("buffer", x.bufferIndex); d.u("offset", x.byteOffset); d.u("length", x.byteLength); d.ou("stride", x.byteStride); d.ou("target", x.target);
		if (x.meshoptCompression) { auto& m = *x.meshoptCompression; D::Scope sc(d, "meshopt."); d.u("buffer", m.bufferIndex); d.u("offset", m.byteOffset); d.u("length", m.byteLength); d.u("count", m.count); d.u("mode", static_cast<unsigned>(m.mode)); d.u("filter", static_cast<unsigned>(m.filter)); d.u("stride", m.byteStride); }
	});
	each("cameras", a.cameras, [&](const fg::Camera& x) {
		d.s("name", x.name);
		if (auto* p = std::get_if<fg::Camera::Perspective>(&x.camera)) { d.line("kind", "perspective"); d.of("aspect", p->aspectRatio); d.f("yfov", p->yfov); d.of("zfar", p->zfar); d.f("znear", p->znear); }
		else { auto& q = std::get<fg::Camera::Orthographic>(x.camera); d.line("kind", "orthographic"); d.f("xmag", q.xmag); d.f("ymag", q.ymag); d.f("zfar", q.zfar); d.f("znear", q.znear); }
	});
	each("images", a.images, [&](const fg::Image& x) { d.s("name", x.name); d.source(x.data, ~std::size_t(0)); });
	each("lights", a.lights, [&](const fg::Light& x) { d.s("name", x.name); d.u("type", static_cast<unsigned>(x.type)); d.vec("color", x.color, 3); d.f("intensity", x.intensity); d.of("range", x.range); d.of("inner", x.innerConeAngle); d.of("outer", x.outerConeAngle); });
	each("materials", a.materials, [&](const fg::Material& x) {
		d.s("name", x.name);
		d.vec("baseColor", x.pbrData.baseColorFactor, 4); d.f("metallic", x.pbrData.metallicFactor); d.f("roughness", x.pbrData.roughnessFactor);
		d.otex("baseColorTexture", x.pbrData.baseColorTexture); d.otex("metallicRoughnessTexture", x.pbrData.metallicRoughnessTexture);
		d.otex("normalTexture", x.normalTexture); if (x.normalTexture.has_value()) d.f("normalScale", x.normalTexture->scale);
		d.otex("occlusionTexture", x.occlusionTexture); if (x.occlusionTexture.has_value()) d.f("occlusionStrength", x.occlusionTexture->strength);
		d.otex("emissiveTexture", x.emissiveTexture); d.vec("emissive", x.emissiveFactor, 3);
		d.u("alphaMode", static_cast<unsigned>(x.alphaMode)); d.u("doubleSided", x.doubleSided); d.u("unlit", x.unlit);
		if (!o.exporting || x.alphaMode == fg::AlphaMode::Mask) d.f("alphaCutoff", x.alphaCutoff); d.f("emissiveStrength", x.emissiveStrength); d.f("ior", x.ior); d.f("dispersion", x.dispersion);
		if (x.anisotropy) { D::Scope sc(d, "anisotropy."); d.f("strength", x.anisotropy->anisotropyStrength); d.f("rotation", x.anisotropy->anisotropyRotation); d.otex("tex", x.anisotropy->anisotropyTexture); }
		if (x.clearcoat) { D::Scope sc(d, "clearcoat."); auto& c = *x.clearcoat; d.f("factor", c.clearcoatFactor); d.otex("tex", c.clearcoatTexture); d.f("rough", c.clearcoatRoughnessFactor); d.otex("roughTex", c.clearcoatRoughnessTexture); d.otex("normal", c.clearcoatNormalTexture); if (c.clearcoatNormalTexture.has_value()) d.f("normalScale", c.clearcoatNormalTexture->scale); }
		if (x.diffuseTransmission) { D::Scope sc(d, "diffuseTransmission."); auto& c = *x.diffuseTransmission; d.f("factor", c.diffuseTransmissionFactor); d.otex("tex", c.diffuseTransmissionTexture); d.vec("color", c.diffuseTransmissionColorFactor, 3); d.otex("colorTex", c.diffuseTransmissionColorTexture); }
		if (x.iridescence) { D::Scope sc(d, "iridescence."); auto& c = *x.iridescence; d.f("factor", c.iridescenceFactor); d.otex("tex", c.iridescenceTexture); d.f("ior", c.iridescenceIor); d.f("min", c.iridescenceThicknessMinimum); d.f("max", c.iridescenceThicknessMaximum); d.otex("thickTex", c.iridescenceThicknessTexture); }
		if (x.sheen) { D::Scope sc(d, "sheen."); auto& c = *x.sheen; d.vec("color", c.sheenColorFactor, 3); d.otex("tex", c.sheenColorTexture); d.f("rough", c.sheenRoughnessFactor); d.otex("roughTex", c.sheenRoughnessTexture); }
		if (x.specular) { D::Scope sc(d, "specular."); auto& c = *x.specular; d.f("factor", c.specularFactor); d.otex("tex", c.specularTexture); d.vec("color", c.specularColorFactor, 3); d.otex("colorTex", c.specularColorTexture); }
		if (x.specularGlossiness) { D::Scope sc(d, "specGloss."); auto& c = *x.specularGlossiness; d.vec("diffuse", c.diffuseFactor, 4); d.otex("tex", c.diffuseTexture); d.vec("specular", c.specularFactor, 3); d.f("gloss", c.glossinessFactor); d.otex("sgTex", c.specularGlossinessTexture); }
		if (x.transmission) { D::Scope sc(d, "transmission."); d.f("factor", x.transmission->transmissionFactor); d.otex("tex", x.transmission->transmissionTexture); }
		if (x.volume) { D::Scope sc(d, "volume."); auto& c = *x.volume; d.f("thick", c.thicknessFactor); d.otex("tex", c.thicknessTexture); d.f("dist", c.attenuationDistance); d.vec("color", c.attenuationColor, 3); }
		d.otex("packedNMR", x.packedNormalMetallicRoughnessTexture);
		if (x.packedOcclusionRoughnessMetallicTextures) { D::Scope sc(d, "packedORM."); auto& c = *x.packedOcclusionRoughnessMetallicTextures; d.line("present", "1"); d.otex("orm", c.occlusionRoughnessMetallicTexture); d.otex("rmo", c.roughnessMetallicOcclusionTexture); d.otex("normal", c.normalTexture); }
	});
	each("meshes", a.meshes, [&](const fg::Mesh& x) {
		d.s("name", x.name);
		std::string w; for (auto v : x.weights) w += d.num(v) + " "; d.line("weights", w);
		each("primitives", x.primitives, [&](const fg::Primitive& p) {
			d.attrs("attributes", p.attributes); d.u("mode", static_cast<unsigned>(p.type)); d.ou("indices", p.indicesAccessor); d.ou("material", p.materialIndex);
			each("targets", p.targets, [&](auto& t) { d.attrs("attributes", t); });
			std::string m; for (auto& v : p.mappings) m += (v.has_value() ? std::to_string(v.value()) : std::string("-")) + " "; d.line("mappings", m);
			if (p.dracoCompression) { D::Scope sc(d, "draco."); d.u("view", p.dracoCompression->bufferView); d.attrs("attributes", p.dracoCompression->attributes); }
		});
	});
	each("nodes", a.nodes, [&](const fg::Node& x) {
		d.s("name", x.name); d.ou("mesh", x.meshIndex); d.ou("skin", x.skinIndex); d.ou("camera", x.cameraIndex); d.ou("light", x.lightIndex); d.ulist("children", x.children);
		std::string w; for (auto v : x.weights) w += d.num(v) + " "; d.line("weights", w);
		if (auto* t = std::get_if<fg::TRS>(&x.transform)) { d.vec("translation", t->translation, 3); d.vec("rotation", t->rotation, 4); d.vec("scale", t->scale, 3); }
		else { auto& m = std::get<fg::math::fmat4x4>(x.transform); for (std::size_t c = 0; c < 4; ++c) d.vec("matrix" + std::to_string(c), m.col(c), 4); }
		d.attrs("instancing", x.instancingAttributes); d.u("visible", x.visible); d.u("selectable", x.selectable); d.u("hoverable", x.hoverable);
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
		if (x.physicsRigidBody) {
			D::Scope sc(d, "body.");
			d.line("present", "1");
			auto& b = *x.physicsRigidBody;
			if (b.motion.has_value()) { D::Scope s2(d, "motion."); auto& m = b.motion.value(); d.u("kinematic", m.isKinematic); d.of("mass", m.mass); d.vec("com", m.centerOfMass, 3); if (m.inertialDiagonal.has_value()) d.vec("diag", m.inertialDiagonal.value(), 3); if (m.inertialOrientation.has_value()) d.vec("orient", m.inertialOrientation.value(), 4); d.vec("linear", m.linearVelocity, 3); d.vec("angular", m.angularVelocity, 3); d.f("gravity", m.gravityFactor); }
			if (b.collider.has_value()) { D::Scope s2(d, "collider."); auto& c = b.collider.value(); d.geometry(c.geometry); d.ou("material", c.physicsMaterial); d.ou("filter", c.collisionFilter); }
			if (b.trigger.has_value()) { D::Scope s2(d, "trigger."); auto& t = b.trigger.value(); if (auto* g = std::get_if<fg::GeometryTrigger>(&t)) { d.geometry(g->geometry); d.ou("filter", g->collisionFilter); } else d.ulist("nodes", std::get<fg::NodeTrigger>(t).nodes); }
			if (b.joint.has_value()) { D::Scope s2(d, "joint."); auto& j = b.joint.value(); d.u("node", j.connectedNode); d.u("joint", j.joint); d.u("enable", j.enableCollision); }
		}
#endif
	});
	each("samplers", a.samplers, [&](const fg::Sampler& x) { d.s("name", x.name); d.ou("mag", x.magFilter); d.ou("min", x.minFilter); d.u("s", static_cast<unsigned>(x.wrapS)); d.u("t", static_cast<unsigned>(x.wrapT)); });
	each("scenes", a.scenes, [&](const fg::Scene& x) { d.s("name", x.name); d.ulist("nodes", x.nodeIndices); });
	each("skins", a.skins, [&](const fg::Skin& x) { d.s("name", x.name); d.ou("ibm", x.inverseBindMatrices); d.ou("skeleton", x.skeleton); d.ulist("joints", x.joints); });
	each("textures", a.textures, [&](const fg::Texture& x) { d.s("name", x.name); d.ou("sampler", x.samplerIndex); d.ou("image", x.imageIndex); d.ou("basisu", x.basisuImageIndex); d.ou("dds", x.ddsImageIndex); d.ou("webp", x.webpImageIndex); });
	each("variants", a.materialVariants, [&](const std::string& x) { d.s("name", x); });
#if FASTGLTF_ENABLE_KHR_IMPLICIT_SHAPES
	each("shapes", a.shapes, [&](const fg::Shape& x) {
		std::visit(fg::visitor {
			[&](const fg::SphereShape& q) { d.line("kind", "sphere"); d.f("radius", q.radius); },
			[&](const fg::BoxShape& q) { d.line("kind", "box"); d.vec("size", q.size, 3); },
			[&](const fg::CapsuleShape& q) { d.line("kind", "capsule"); d.f("h", q.height); d.f("rb", q.radiusBottom); d.f("rt", q.radiusTop); },
			[&](const fg::CylinderShape& q) { d.line("kind", "cylinder"); d.f("h", q.height); d.f("rb", q.radiusBottom); d.f("rt", q.radiusTop); },
		}, x);
	});
#endif
#if FASTGLTF_ENABLE_KHR_PHYSICS_RIGID_BODIES
	each("physicsMaterials", a.physicsMaterials, [&](const fg::PhysicsMaterial& x) { d.f("static", x.staticFriction); d.f("dynamic", x.dynamicFriction); d.f("rest", x.restitution); d.u("fc", static_cast<unsigned>(x.frictionCombine)); d.u("rc", static_cast<unsigned>(x.restitutionCombine)); });
	each("physicsJoints", a.physicsJoints, [&](const fg::PhysicsJoint& x) {
		each("limits", x.limits, [&](const fg::JointLimit& l) { d.ulist("linear", l.linearAxes); d.ulist("angular", l.angularAxes); d.of("min", l.min); d.of("max", l.max); d.of("stiff", l.stiffness); d.f("damp", l.damping); });
		each("drives", x.drives, [&](const fg::JointDrive& l) { d.u("type", static_cast<unsigned>(l.type)); d.u("mode", static_cast<unsigned>(l.mode)); d.u("axis", l.axis); d.f("max", l.maxForce); d.f("pos", l.positionTarget); d.f("vel", l.velocityTarget); d.f("stiff", l.stiffness); d.f("damp", l.damping); });
	});
	each("collisionFilters", a.collisionFilters, [&](const fg::CollisionFilter& x) {
		for (auto& q : x.collisionSystems) d.s("system", q);
		for (auto& q : x.collideWithSystems) d.s("with", q);
		for (auto& q : x.notCollideWithSystems) d.s("without", q);
	});
#endif
	return std::move(d.out);
}

std::string firstDifference(const std::string& a, const std::string& b) {
	std::size_t i = 0, n = std::min(a.size(), b.size());
	while (i < n && a[i] == b[i]) ++i;
	if (i == a.size() && i == b.size()) return "none";
	auto ln = [&](const std::string& s) {
		if (i >= s.size()) return std::string("(end)");
		auto st = s.rfind('\n', i);
		if (st == i && i > 0) st = s.rfind('\n', i - 1);
		st = st == std::string::npos ? 0 : st + 1;
		auto e = s.find('\n', std::max(st, i));
		return s.substr(st, std::min<std::size_t>(300, (e == std::string::npos ? s.size() : e) - st));
	};
	return "[" + ln(a) + "] versus [" + ln(b) + "]";
}
} // namespace model
