#include "rules.hpp"
#include <algorithm>
#include <set>

namespace model {
using sim::Sim;
using sim::sfmt;
using namespace fastgltf;

void forEachReference(Asset& a, const std::function<void(const char*, std::size_t&, std::size_t)>& f) {
	auto opt = [&](const char* n, auto& o, std::size_t size) { if (o.has_value()) f(n, o.value(), size); };
	auto tex = [&](const char* n, auto& o) { if (o.has_value()) f(n, o->textureIndex, a.textures.size()); };
	auto attrs = [&](const char* n, auto& l) { for (auto& x : l) f(n, x.accessorIndex, a.accessors.size()); };
	opt("scene", a.defaultScene, a.scenes.size());
	for (auto& x : a.accessors) {
		opt("accessor view", x.bufferViewIndex, a.bufferViews.size());
		if (x.sparse) {
			f("sparse indices view", x.sparse->indicesBufferView, a.bufferViews.size());
			f("sparse values view", x.sparse->valuesBufferView, a.bufferViews.size());
		}
	}
	for (auto& x : a.bufferViews) {
		f("view buffer", x.bufferIndex, a.buffers.size());
		if (x.meshoptCompression) f("compressed view buffer", x.meshoptCompression->bufferIndex, a.buffers.size());
	}
	for (auto& x : a.images) if (auto* v = std::get_if<sources::BufferView>(&x.data)) f("image view", v->bufferViewIndex, a.bufferViews.size());
	for (auto& x : a.textures) {
		opt("texture sampler", x.samplerIndex, a.samplers.size());
		opt("texture image", x.imageIndex, a.images.size());
		opt("texture basisu image", x.basisuImageIndex, a.images.size());
		opt("texture dds image", x.ddsImageIndex, a.images.size());
		opt("texture webp image", x.webpImageIndex, a.images.size());
	}
	for (auto& m : a.materials) {
		tex("baseColorTexture", m.pbrData.baseColorTexture);
		tex("metallicRoughnessTexture", m.pbrData.metallicRoughnessTexture);
		tex("normalTexture", m.normalTexture);
		tex("occlusionTexture", m.occlusionTexture);
		tex("emissiveTexture", m.emissiveTexture);
		tex("packedNormalMetallicRoughnessTexture", m.packedNormalMetallicRoughnessTexture);
		if (m.anisotropy) tex("anisotropyTexture", m.anisotropy->anisotropyTexture);
		if (m.clearcoat) {
			tex("clearcoatTexture", m.clearcoat->clearcoatTexture);
			tex("clearcoatRoughnessTexture", m.clearcoat->clearcoatRoughnessTexture);
			tex("clearcoatNormalTexture", m.clearcoat->clearcoatNormalTexture);
		}
		if (m.diffuseTransmission) {
			tex("diffuseTransmissionTexture", m.diffuseTransmission->diffuseTransmissionTexture);
			tex("diffuseTransmissionColorTexture", m.diffuseTransmission->diffuseTransmissionColorTexture);
		}
		if (m.iridescence) {
			tex("iridescenceTexture", m.iridescence->iridescenceTexture);
			tex("iridescenceThicknessTexture", m.iridescence->iridescenceThicknessTexture);
		}
		if (m.sheen) { tex("sheenColorTexture", m.sheen->sheenColorTexture); tex("sheenRoughnessTexture", m.sheen->sheenRoughnessTexture); }
		if (m.specular) { tex("specularTexture", m.specular->specularTexture); tex("specularColorTexture", m.specular->specularColorTexture); }
		if (m.specularGlossiness) { tex("diffuseTexture", m.specularGlossiness->diffuseTexture); tex("specularGlossinessTexture", m.specularGlossiness->specularGlossinessTexture); }
		if (m.transmission) tex("transmissionTexture", m.transmission->transmissionTexture);
		if (m.volume) tex("thicknessTexture", m.volume->thicknessTexture);
		if (auto* p = m.packedOcclusionRoughnessMetallicTextures.get()) {
			tex("packed occlusionRoughnessMetallicTexture", p->occlusionRoughnessMetallicTexture);
			tex("packed roughnessMetallicOcclusionTexture", p->roughnessMetallicOcclusionTexture);
			tex("packed normalTexture", p->normalTexture);
		}
	}
	for (auto& m : a.meshes)
		for (auto& p : m.primitives) {
			opt("primitive material", p.materialIndex, a.materials.size());
			opt("primitive indices", p.indicesAccessor, a.accessors.size());
			for (auto& v : p.mappings) opt("variant material", v, a.materials.size());
			attrs("attribute", p.attributes);
			for (auto& t : p.targets) attrs("target attribute", t);
			if (p.dracoCompression) f("draco view", p.dracoCompression->bufferView, a.bufferViews.size());
		}
	for (auto& n : a.nodes) {
		opt("node mesh", n.meshIndex, a.meshes.size());
		opt("node skin", n.skinIndex, a.skins.size());
		opt("node camera", n.cameraIndex, a.cameras.size());
		opt("node light", n.lightIndex, a.lights.size());
		for (auto& c : n.children) f("node child", c, a.nodes.size());
		attrs("instancing attribute", n.instancingAttributes);
		if (auto* b = n.physicsRigidBody.get()) {
			auto geo = [&](const char* shape, const char* node, Geometry& g) { opt(shape, g.shape, a.shapes.size()); opt(node, g.node, a.nodes.size()); };
			if (b->collider.has_value()) {
				auto& c = b->collider.value();
				geo("collider shape", "collider node", c.geometry);
				opt("collider material", c.physicsMaterial, a.physicsMaterials.size());
				opt("collider filter", c.collisionFilter, a.collisionFilters.size());
			}
			if (b->trigger.has_value()) {
				if (auto* g = std::get_if<GeometryTrigger>(&b->trigger.value())) {
					geo("trigger shape", "trigger geometry node", g->geometry);
					opt("trigger filter", g->collisionFilter, a.collisionFilters.size());
				} else if (auto* t = std::get_if<NodeTrigger>(&b->trigger.value())) {
					for (auto& x : t->nodes) f("trigger node", x, a.nodes.size());
				}
			}
			if (b->joint.has_value()) {
				f("joint node", b->joint->connectedNode, a.nodes.size());
				f("joint description", b->joint->joint, a.physicsJoints.size());
			}
		}
	}
	for (auto& x : a.scenes) for (auto& n : x.nodeIndices) f("scene node", n, a.nodes.size());
	for (auto& x : a.skins) {
		for (auto& j : x.joints) f("skin joint", j, a.nodes.size());
		opt("skin skeleton", x.skeleton, a.nodes.size());
		opt("skin matrices", x.inverseBindMatrices, a.accessors.size());
	}
	for (auto& x : a.animations) {
		for (auto& c : x.channels) {
			f("channel sampler", c.samplerIndex, x.samplers.size());
			opt("channel node", c.nodeIndex, a.nodes.size());
		}
		for (auto& q : x.samplers) {
			f("sampler input", q.inputAccessor, a.accessors.size());
			f("sampler output", q.outputAccessor, a.accessors.size());
		}
	}
}

namespace {
using Big = unsigned __int128;
std::size_t compSize(ComponentType c) {
	switch (c) {
		case ComponentType::Byte: case ComponentType::UnsignedByte: return 1;
		case ComponentType::Short: case ComponentType::UnsignedShort: return 2;
		case ComponentType::Int: case ComponentType::UnsignedInt: case ComponentType::Float: return 4;
		case ComponentType::Double: return 8;
		default: return 0;
	}
}
std::size_t comps(AccessorType t) {
	switch (t) {
		case AccessorType::Scalar: return 1; case AccessorType::Vec2: return 2; case AccessorType::Vec3: return 3; case AccessorType::Vec4: case AccessorType::Mat2: return 4;
		case AccessorType::Mat3: return 9; case AccessorType::Mat4: return 16; default: return 0;
	}
}
// columns of a matrix start at multiples of four bytes
std::size_t elemSize(AccessorType t, ComponentType c) {
	std::size_t rows = t == AccessorType::Mat2 ? 2 : t == AccessorType::Mat3 ? 3 : t == AccessorType::Mat4 ? 4 : 0;
	if (!rows) return comps(t) * compSize(c);
	return rows * ((rows * compSize(c) + 3) / 4 * 4);
}
bool isFloat(ComponentType c) { return c == ComponentType::Float || c == ComponentType::Double; }
bool starts(std::string_view s, std::string_view p) { return s.substr(0, p.size()) == p; }

struct Judge {
	Asset& a;
	Verdict v;
	std::set<std::string> used;
	void bad(const char* fmt, std::size_t i = 0) { v.unsafe.push_back(sfmt(fmt, i)); }
	void rule(const char* fmt, std::size_t i = 0) { v.rules.push_back(sfmt(fmt, i)); }
	void grey(const char* fmt, std::size_t i = 0) { v.grey.push_back(sfmt(fmt, i)); }
	bool uses(const char* e) const { return used.count(e) != 0; }

	void fits(const char* what, std::size_t i, std::size_t view, std::size_t offset, std::size_t count, std::size_t stride, std::size_t elem) {
		if (view >= a.bufferViews.size()) return;
		if (Big(offset) + Big(stride) * (count ? count - 1 : 0) + elem > a.bufferViews[view].byteLength) { v.unsafe.push_back(sfmt("accessor %zu: %s exceed their view", i, what)); return; }
		if (count == 0) v.unsafe.push_back(sfmt("accessor %zu: no %s", i, what));
	}
	void accessors() {
		for (std::size_t i = 0; i < a.accessors.size(); ++i) {
			auto& x = a.accessors[i];
			auto cs = compSize(x.componentType), es = elemSize(x.type, x.componentType);
			if (!comps(x.type)) { rule("accessor %zu has no type", i); continue; }
			if (!cs) { rule("accessor %zu has no component type", i); continue; }
			if (!x.count) rule("accessor %zu is empty", i);
			if (x.bufferViewIndex.has_value() && x.bufferViewIndex.value() < a.bufferViews.size()) {
				auto& w = a.bufferViews[x.bufferViewIndex.value()];
				fits("the elements", i, x.bufferViewIndex.value(), x.byteOffset, x.count, w.byteStride.has_value() ? w.byteStride.value() : es, es);
				bool misfit = x.byteOffset % cs || (x.byteOffset + w.byteOffset) % cs || (w.byteStride.has_value() && w.byteStride.value() % cs);
				if (misfit) { if (x.byteOffset) rule("accessor %zu is not aligned", i); else grey("accessor %zu is not aligned", i); }
				if (w.byteStride.has_value() && w.byteStride.value() < es) grey("accessor %zu overlaps itself", i);
			} else if (x.byteOffset % cs) rule("accessor %zu is not aligned", i);
			for (auto* b : {&x.max, &x.min}) {
				if (!b->has_value()) continue;
				if (isFloat(x.componentType) && !(*b)->isType<double>()) rule("accessor %zu has integer bounds", i);
				if ((*b)->size() != comps(x.type)) rule("accessor %zu has bounds of another size", i);
			}
			if (x.sparse) {
				auto& p = *x.sparse;
				auto is = compSize(p.indexComponentType);
				for (auto w : {p.indicesBufferView, p.valuesBufferView})
					if (w < a.bufferViews.size() && (a.bufferViews[w].byteStride.has_value() || a.bufferViews[w].target.has_value())) rule("accessor %zu: sparse view with a stride or target", i);
				if (p.indexComponentType != ComponentType::UnsignedByte && p.indexComponentType != ComponentType::UnsignedShort && p.indexComponentType != ComponentType::UnsignedInt) { bad("accessor %zu: sparse indices of a wrong type", i); continue; }
				if (p.count > x.count) bad("accessor %zu: more sparse elements than elements", i);
				fits("the sparse indices", i, p.indicesBufferView, p.indicesByteOffset, p.count, is, is);
				fits("the sparse values", i, p.valuesBufferView, p.valuesByteOffset, p.count, es, es);
			}
		}
	}
	void views() {
		for (std::size_t i = 0; i < a.buffers.size(); ++i) {
			auto& b = a.buffers[i];
			if (!b.byteLength) rule("buffer %zu is empty", i);
			std::size_t n = ~std::size_t(0);
			if (auto* x = std::get_if<sources::Array>(&b.data)) n = x->bytes.size();
			if (auto* x = std::get_if<sources::Vector>(&b.data)) n = x->bytes.size();
			if (auto* x = std::get_if<sources::ByteView>(&b.data)) n = x->bytes.size();
			if (n < b.byteLength) bad("buffer %zu holds less than it says", i);
		}
		for (std::size_t i = 0; i < a.bufferViews.size(); ++i) {
			auto& w = a.bufferViews[i];
			if (!w.byteLength) rule("view %zu is empty", i);
			if (w.byteStride.has_value() && (w.byteStride.value() < 4 || w.byteStride.value() > 252 || w.byteStride.value() % 4)) rule("view %zu has a wrong stride", i);
			if (w.bufferIndex < a.buffers.size() && Big(w.byteOffset) + w.byteLength > a.buffers[w.bufferIndex].byteLength) bad("view %zu exceeds its buffer", i);
			if (auto* m = w.meshoptCompression.get()) {
				if (!uses("EXT_meshopt_compression")) rule("view %zu is compressed with an unused extension", i);
				if (m->bufferIndex < a.buffers.size() && Big(m->byteOffset) + m->byteLength > a.buffers[m->bufferIndex].byteLength) bad("compressed view %zu exceeds its buffer", i);
				if (m->mode == MeshoptCompressionMode::Attributes) { if (m->byteStride % 4 || m->byteStride > 256) rule("view %zu has a wrong compressed stride", i); }
				else {
					if (m->mode == MeshoptCompressionMode::Triangles && m->count % 3) rule("view %zu has a wrong compressed count", i);
					if (m->byteStride != 2 && m->byteStride != 4) rule("view %zu has a wrong compressed stride", i);
				}
				if (Big(m->count) * m->byteStride != w.byteLength) grey("compressed view %zu has another size", i);
			}
		}
	}
	void hierarchy() {
		std::vector<int> parent(a.nodes.size(), -1);
		for (std::size_t i = 0; i < a.nodes.size(); ++i)
			for (auto c : a.nodes[i].children) {
				if (c >= a.nodes.size()) continue;
				if (parent[c] >= 0) { bad("node %zu has two parents", c); return; }
				parent[c] = static_cast<int>(i);
			}
		for (std::size_t i = 0; i < a.nodes.size(); ++i) {
			std::size_t steps = 0;
			for (int p = parent[i]; p >= 0; p = parent[static_cast<std::size_t>(p)]) if (++steps > a.nodes.size()) { bad("node %zu is below a cycle", i); return; }
		}
	}
	const Accessor* acc(std::size_t i) const { return i < a.accessors.size() ? &a.accessors[i] : nullptr; }
	bool compressed(const Accessor* x) const { return x && x->bufferViewIndex.has_value() && x->bufferViewIndex.value() < a.bufferViews.size() && a.bufferViews[x->bufferViewIndex.value()].meshoptCompression; }
	void animations() {
		for (std::size_t i = 0; i < a.animations.size(); ++i) {
			auto& x = a.animations[i];
			if (x.channels.empty()) rule("animation %zu has no channel", i);
			if (x.samplers.empty()) rule("animation %zu has no sampler", i);
			std::set<std::pair<std::size_t, int>> seen;
			for (auto& c : x.channels) {
				if (c.nodeIndex.has_value() && !seen.insert({c.nodeIndex.value(), static_cast<int>(c.path)}).second) rule("animation %zu animates something twice", i);
				if (c.samplerIndex >= x.samplers.size()) continue;
				auto& q = x.samplers[c.samplerIndex];
				auto* in = acc(q.inputAccessor);
				auto* out = acc(q.outputAccessor);
				if (in && (in->type != AccessorType::Scalar || !isFloat(in->componentType))) rule("animation %zu has a wrong input", i);
				if (!in || !out || compressed(in) || compressed(out) || c.path == AnimationPath::Weights) continue;
				if (q.interpolation == AnimationInterpolation::CubicSpline) { if (in->count < 2 || Big(in->count) * 3 != out->count) rule("animation %zu has another number of outputs", i); }
				else if (in->count != out->count) rule("animation %zu has another number of outputs", i);
			}
		}
	}
	void materials() {
		for (std::size_t i = 0; i < a.materials.size(); ++i) {
			auto& m = a.materials[i];
			auto need = [&](bool has, const char* e) { if (has && !uses(e)) v.rules.push_back(sfmt("material %zu has data of the unused extension %s", i, e)); };
			need(m.anisotropy != nullptr, "KHR_materials_anisotropy");
			need(m.clearcoat != nullptr, "KHR_materials_clearcoat");
			need(m.iridescence != nullptr, "KHR_materials_iridescence");
			need(m.sheen != nullptr, "KHR_materials_sheen");
			need(m.specular != nullptr, "KHR_materials_specular");
			need(m.specularGlossiness != nullptr, "KHR_materials_pbrSpecularGlossiness");
			need(m.transmission != nullptr, "KHR_materials_transmission");
			need(m.volume != nullptr, "KHR_materials_volume");
			need(m.emissiveStrength != 1.0f, "KHR_materials_emissive_strength");
			need(m.ior != 1.5f, "KHR_materials_ior");
			need(m.packedNormalMetallicRoughnessTexture.has_value(), "MSFT_packing_normalRoughnessMetallic");
			need(m.packedOcclusionRoughnessMetallicTextures != nullptr, "MSFT_packing_occlusionRoughnessMetallic");
			need(m.diffuseTransmission != nullptr, "KHR_materials_diffuse_transmission");
			if ((m.unlit && !uses("KHR_materials_unlit")) || (m.dispersion != 0.f && !uses("KHR_materials_dispersion"))) grey("material %zu has data of an unused extension", i);
		}
	}
	void attribute(std::size_t mesh, std::string_view n, const Accessor& x) {
		bool quant = uses("KHR_mesh_quantization");
		auto c = x.componentType;
		auto in = [&](std::initializer_list<ComponentType> l) { return std::find(l.begin(), l.end(), c) != l.end(); };
		using C = ComponentType;
		bool ok = true;
		if (n == "POSITION") ok = x.max.has_value() && x.min.has_value() && x.type == AccessorType::Vec3 && (quant ? !in({C::Double, C::UnsignedInt}) : c == C::Float);
		else if (n == "NORMAL") ok = x.type == AccessorType::Vec3 && (c == C::Float || (quant && in({C::Short, C::Byte})));
		else if (n == "TANGENT") ok = x.type == AccessorType::Vec4 && (c == C::Float || (quant && in({C::Short, C::Byte})));
		else if (starts(n, "TEXCOORD_")) ok = x.type == AccessorType::Vec2 && (quant ? !in({C::Double, C::UnsignedInt}) : in({C::Float, C::UnsignedByte, C::UnsignedShort}));
		else if (starts(n, "COLOR_")) ok = (x.type == AccessorType::Vec3 || x.type == AccessorType::Vec4) && in({C::Float, C::UnsignedByte, C::UnsignedShort});
		else if (starts(n, "JOINTS_")) ok = x.type == AccessorType::Vec4 && in({C::UnsignedByte, C::UnsignedShort});
		else if (starts(n, "WEIGHTS_")) ok = x.type == AccessorType::Vec4 && in({C::Float, C::UnsignedByte, C::UnsignedShort});
		else if (starts(n, "_")) ok = c != C::UnsignedInt;
		else ok = false;
		if (!ok) v.rules.push_back(sfmt("mesh %zu: attribute %s is not what it has to be", mesh, std::string(n).c_str()));
	}
	void meshes() {
		for (std::size_t i = 0; i < a.meshes.size(); ++i)
			for (auto& p : a.meshes[i].primitives) {
				if (!p.mappings.empty() && (!uses("KHR_materials_variants") || p.mappings.size() != a.materialVariants.size())) rule("mesh %zu has wrong variants", i);
				if (p.indicesAccessor.has_value())
					if (auto* x = acc(p.indicesAccessor.value()); x && x->bufferViewIndex.has_value() && x->bufferViewIndex.value() < a.bufferViews.size() && a.bufferViews[x->bufferViewIndex.value()].byteStride.has_value()) rule("mesh %zu has indices with a stride", i);
				for (auto& at : p.attributes) if (auto* x = acc(at.accessorIndex)) attribute(i, at.name, *x);
			}
	}
	void nodes() {
		for (std::size_t i = 0; i < a.nodes.size(); ++i) {
			auto& n = a.nodes[i];
			if (auto* t = std::get_if<TRS>(&n.transform))
				for (std::size_t k = 0; k < 4; ++k) if (t->rotation[k] > 1.f || t->rotation[k] < -1.f) { rule("node %zu has a wrong rotation", i); break; }
			if ((n.skinIndex.has_value() || !n.weights.empty()) && !n.meshIndex.has_value()) rule("node %zu has weights or a skin but no mesh", i);
			if (n.skinIndex.has_value() && n.meshIndex.has_value() && n.meshIndex.value() < a.meshes.size())
				for (auto& p : a.meshes[n.meshIndex.value()].primitives) {
					bool j = false, w = false;
					for (auto& at : p.attributes) { j |= at.name == "JOINTS_0"; w |= at.name == "WEIGHTS_0"; }
					if (!j || !w) rule("node %zu has a skin but the mesh no joints", i);
				}
			if (!n.visible && !uses("KHR_node_visibility")) rule("node %zu has an unused extension", i);
			if (!n.selectable && !uses("KHR_node_selectability")) rule("node %zu has an unused extension", i);
			if (!n.hoverable && !uses("KHR_node_hoverability")) rule("node %zu has an unused extension", i);
		}
	}
	void others() {
		std::set<std::string> req;
		for (auto& e : a.extensionsRequired) {
			if (!used.count(std::string(e))) v.rules.push_back("a required extension is not used: " + std::string(e));
			if (!req.insert(std::string(e)).second) v.grey.push_back("an extension is required twice");
		}
		for (std::size_t i = 0; i < a.cameras.size(); ++i) {
			if (auto* o = std::get_if<Camera::Orthographic>(&a.cameras[i].camera)) { if (o->zfar == 0) rule("camera %zu has no depth", i); }
			else if (auto* p = std::get_if<Camera::Perspective>(&a.cameras[i].camera))
				if ((p->aspectRatio.has_value() && p->aspectRatio.value() == 0) || p->yfov == 0 || (p->zfar.has_value() && p->zfar.value() == 0) || p->znear == 0) rule("camera %zu has no extent", i);
		}
		for (std::size_t i = 0; i < a.lights.size(); ++i) {
			auto& l = a.lights[i];
			auto in = l.innerConeAngle, out = l.outerConeAngle;
			if (l.range.has_value() && (l.type == LightType::Directional || l.range.value() <= 0)) rule("light %zu has a wrong range", i);
			if (l.type != LightType::Spot) { if (in.has_value() || out.has_value()) rule("light %zu has a cone", i); }
			else if (!in.has_value() || !out.has_value()) rule("light %zu has no cone", i);
			else if (in.value() < 0 || in.value() > out.value() || static_cast<double>(out.value()) > 1.5707964) rule("light %zu has a wrong cone", i);
			else if (static_cast<double>(out.value()) > 1.570796) grey("light %zu has the widest cone", i);
		}
		for (std::size_t i = 0; i < a.samplers.size(); ++i) {
			auto f = a.samplers[i].magFilter;
			if (f.has_value() && f.value() != Filter::Nearest && f.value() != Filter::Linear) rule("sampler %zu magnifies with mip maps", i);
		}
		for (std::size_t i = 0; i < a.skins.size(); ++i) if (a.skins[i].joints.empty()) rule("skin %zu has no joints", i);
		for (std::size_t i = 0; i < a.textures.size(); ++i) {
			auto& t = a.textures[i];
			bool ext = uses("KHR_texture_basisu") || uses("MSFT_texture_dds") || uses("EXT_texture_webp");
			if (!t.imageIndex.has_value() && (!ext || (!t.basisuImageIndex.has_value() && !t.ddsImageIndex.has_value() && !t.webpImageIndex.has_value()))) rule("texture %zu has no image", i);
		}
		if (uses("GODOT_single_root")) {
			bool ok = a.scenes.size() == 1 && a.defaultScene.has_value() && a.defaultScene.value() == 0 && a.scenes[0].nodeIndices.size() == 1 && a.scenes[0].nodeIndices[0] == 0;
			if (!ok) rule("there is no single root");
			else if (!a.nodes.empty()) {
				if (auto* t = std::get_if<TRS>(&a.nodes[0].transform)) {
					for (std::size_t k = 0; k < 4; ++k) ok = ok && t->rotation[k] == (k == 3 ? 1.f : 0.f);
					for (std::size_t k = 0; k < 3; ++k) ok = ok && t->translation[k] == 0 && t->scale[k] == 1;
				} else {
					auto& m = std::get<math::fmat4x4>(a.nodes[0].transform);
					bool same = true;
					for (std::size_t c = 0; c < 4; ++c) for (std::size_t r = 0; r < 4; ++r) same = same && m.col(c)[r] == (c == r ? 1.f : 0.f);
					if (!same) { bool moved = m.col(3)[0] != 0 || m.col(3)[1] != 0 || m.col(3)[2] != 0; if (moved) ok = false; else grey("the root has a matrix"); }
				}
				if (!ok) rule("the single root is transformed");
			}
		}
	}
};
} // namespace

Verdict judge(Asset& a) {
	Judge j{a, {}, {}};
	for (auto& e : a.extensionsUsed) j.used.insert(std::string(e));
	forEachReference(a, [&](const char* n, std::size_t& i, std::size_t size) {
		if (i < size) return;
		std::string_view name(n);
		// what was loaded may leave out what these refer to
		if (size == 0 && (name == "scene" || name == "channel node")) { j.v.grey.push_back(sfmt("%s %zu of none", n, i)); return; }
		j.v.unsafe.push_back(sfmt("%s %zu of %zu", n, i, size));
	});
	j.accessors(); j.views(); j.hierarchy(); j.animations(); j.materials(); j.meshes(); j.nodes(); j.others();
	return std::move(j.v);
}

// ---- damage ----
namespace {
template <class V> auto& any(Sim& s, V& v) { return v[s.pick(static_cast<std::uint32_t>(v.size()))]; }
std::size_t wrong(Sim& s, std::size_t size) {
	switch (s.weighted({8, 2, 2, 1, 1, 1})) {
		case 0: return size;
		case 1: return size + 1;
		case 2: return size + s.pick(40);
		case 3: return 0xffffffffull;
		case 4: return 0x7fffffffffffffffull;
		default: return s.bits() >> 1;
	}
}
} // namespace
std::string breakReference(Sim& s, Asset& a) {
	struct R { std::size_t* p; std::size_t size; };
	std::map<std::string, std::vector<R>> kinds; // every kind alike, however many there are
	forEachReference(a, [&](const char* n, std::size_t& i, std::size_t size) { kinds[n].push_back({&i, size}); });
	if (kinds.empty()) return "";
	auto it = std::next(kinds.begin(), s.pick(static_cast<std::uint32_t>(kinds.size())));
	auto& r = any(s, it->second);
	auto old = *r.p;
	if (r.size && s.chance(1, 6)) *r.p = s.pick(static_cast<std::uint32_t>(r.size)); // another one
	else *r.p = wrong(s, r.size);
	return sfmt("%s %zu -> %zu of %zu", it->first.c_str(), old, *r.p, r.size);
}
std::string breakRange(Sim& s, Asset& a) {
	auto change = [&](const char* what, std::size_t i, std::size_t& x, std::size_t step, bool smaller = false) {
		auto old = x;
		switch (s.weighted({6, 3, 3, 1, 1, 1})) {
			case 0: if (smaller) x -= std::min(x, step); else x += step; break;
			case 1: x += step * s.range(1, 8); break;
			case 2: x -= std::min(x, step * s.range(1, 8)); break;
			case 3: x = s.bits() >> s.pick(33); break;
			case 4: x = ~std::size_t(0) - s.pick(64); break; // sums with it wrap around
			default: x = (std::size_t(1) << (32 + s.pick(32))) - s.pick(3); break;
		}
		if (x == old) x = old + step;
		return sfmt("%s of %zu: %zu -> %zu", what, i, old, x);
	};
	auto ix = [&](auto& v) { return s.pick(static_cast<std::uint32_t>(v.size())); };
	std::vector<std::size_t> sparse, comp;
	for (std::size_t i = 0; i < a.accessors.size(); ++i) if (a.accessors[i].sparse) sparse.push_back(i);
	for (std::size_t i = 0; i < a.bufferViews.size(); ++i) if (a.bufferViews[i].meshoptCompression) comp.push_back(i);
	for (int tries = 0; tries < 8; ++tries) {
		auto k = s.weighted({3, 4, 2, 3, 2, sparse.empty() ? 0u : 4u, comp.empty() ? 0u : 2u});
		if (k <= 1 && a.accessors.empty()) continue;
		if ((k >= 2 && k <= 3) && a.bufferViews.empty()) continue;
		if (k == 4 && a.buffers.empty()) continue;
		switch (k) {
			case 0: { auto i = ix(a.accessors); auto& x = a.accessors[i]; return change("accessor offset", i, x.byteOffset, std::max<std::size_t>(1, s.chance(1, 2) ? compSize(x.componentType) : elemSize(x.type, x.componentType))); }
			case 1: { auto i = ix(a.accessors); return change("accessor count", i, a.accessors[i].count, 1); }
			case 2: { auto i = ix(a.bufferViews); return change("view offset", i, a.bufferViews[i].byteOffset, s.chance(1, 2) ? 1 : 4); }
			case 3: {
				auto i = ix(a.bufferViews);
				auto& x = a.bufferViews[i];
				if (s.chance(1, 3)) {
					std::size_t old = x.byteStride.has_value() ? x.byteStride.value() : 0;
					x.byteStride = s.chance(1, 6) ? std::size_t(s.pick(300)) : std::min<std::size_t>(252, (old + 4 * s.range(1, 4)) / 4 * 4);
					return sfmt("stride of view %u: %zu -> %zu", i, old, x.byteStride.value());
				}
				return change("view length", i, x.byteLength, 1, s.chance(3, 4));
			}
			case 4: { auto i = ix(a.buffers); return change("buffer length", i, a.buffers[i].byteLength, s.chance(1, 2) ? 1 : 8, true); }
			case 5: {
				auto i = any(s, sparse);
				auto& p = *a.accessors[i].sparse;
				switch (s.pick(4)) {
					case 0: return change("sparse count", i, p.count, 1);
					case 1: return change("sparse indices offset", i, p.indicesByteOffset, compSize(p.indexComponentType));
					case 2: return change("sparse values offset", i, p.valuesByteOffset, s.chance(1, 2) ? 1 : std::max<std::size_t>(1, compSize(a.accessors[i].componentType)));
					default: {
						static const ComponentType ts[] = {ComponentType::UnsignedByte, ComponentType::UnsignedShort, ComponentType::UnsignedInt, ComponentType::Byte, ComponentType::Short, ComponentType::Float, ComponentType::Double, ComponentType::Int};
						p.indexComponentType = ts[s.weighted({2, 3, 4, 1, 1, 1, 1, 1})];
						return sfmt("sparse index type of %zu", i);
					}
				}
			}
			default: {
				auto i = any(s, comp);
				auto& m = *a.bufferViews[i].meshoptCompression;
				switch (s.pick(4)) {
					case 0: return change("compressed offset", i, m.byteOffset, s.chance(1, 2) ? 1 : 4);
					case 1: return change("compressed length", i, m.byteLength, 1);
					case 2: return change("compressed count", i, m.count, 1);
					default: return change("compressed stride", i, m.byteStride, s.chance(1, 2) ? 1 : 4);
				}
			}
		}
	}
	return "";
}
std::string breakHierarchy(Sim& s, Asset& a) {
	if (a.nodes.empty()) return "";
	auto n = static_cast<std::uint32_t>(a.nodes.size());
	std::size_t p = s.pick(n), c = s.pick(n);
	if (s.chance(1, 3)) { // up the tree: a cycle
		for (std::uint32_t k = s.pick(4) + 1; k-- > 0;)
			for (std::size_t i = 0; i < n; ++i)
				if (std::find(a.nodes[i].children.begin(), a.nodes[i].children.end(), c) != a.nodes[i].children.end()) { c = i; break; }
		if (s.chance(1, 2)) { // the only way to the child, so that nobody has two parents
			for (auto& x : a.nodes) {
				FASTGLTF_FG_PMR_NS::MaybeSmallVector<std::size_t> rest;
				for (auto k : x.children) if (k != c) rest.emplace_back(k);
				x.children = std::move(rest);
			}
		}
	} else if (s.chance(1, 4) && !a.nodes[p].children.empty()) c = a.nodes[p].children[s.pick(static_cast<std::uint32_t>(a.nodes[p].children.size()))];
	if (s.chance(1, 8) && !a.nodes[p].children.empty()) { // moved elsewhere: still a forest, maybe
		c = a.nodes[p].children[0];
		FASTGLTF_FG_PMR_NS::MaybeSmallVector<std::size_t> rest;
		for (std::size_t k = 1; k < a.nodes[p].children.size(); ++k) rest.emplace_back(a.nodes[p].children[k]);
		a.nodes[p].children = std::move(rest);
		p = s.pick(n);
	}
	a.nodes[p].children.emplace_back(c);
	return sfmt("node %zu became a child of node %zu", c, p);
}
std::string breakRule(Sim& s, Asset& a) {
	auto ix = [&](auto& v) { return s.pick(static_cast<std::uint32_t>(v.size())); };
	static const ComponentType cs[] = {ComponentType::Byte, ComponentType::UnsignedByte, ComponentType::Short, ComponentType::UnsignedShort, ComponentType::UnsignedInt, ComponentType::Float, ComponentType::Double, ComponentType::Int};
	static const AccessorType ts[] = {AccessorType::Scalar, AccessorType::Vec2, AccessorType::Vec3, AccessorType::Vec4, AccessorType::Mat2, AccessorType::Mat3, AccessorType::Mat4};
	for (int tries = 0; tries < 12; ++tries) {
		switch (s.pick(16)) {
			case 0: { // an extension is no longer declared
				if (a.extensionsUsed.empty()) break;
				auto i = ix(a.extensionsUsed);
				std::string e(a.extensionsUsed[i]);
				a.extensionsUsed.erase(a.extensionsUsed.begin() + i);
				if (s.chance(4, 5)) for (std::size_t k = a.extensionsRequired.size(); k-- > 0;) if (std::string(a.extensionsRequired[k]) == e) a.extensionsRequired.erase(a.extensionsRequired.begin() + static_cast<std::ptrdiff_t>(k));
				return "undeclared " + e;
			}
			case 1: {
				static const char* const es[] = {"KHR_materials_unlit", "KHR_mesh_quantization", "KHR_texture_basisu", "GODOT_single_root", "KHR_lights_punctual"};
				auto e = es[s.pick(5)];
				bool req = s.chance(1, 2);
				if (req) a.extensionsRequired.emplace_back(e);
				else a.extensionsUsed.emplace_back(e);
				return sfmt("%s %s", req ? "requires" : "uses", e);
			}
			case 2: { if (a.accessors.empty()) break; auto i = ix(a.accessors); a.accessors[i].type = ts[s.pick(7)]; return sfmt("type of accessor %u", i); }
			case 3: { if (a.accessors.empty()) break; auto i = ix(a.accessors); a.accessors[i].componentType = cs[s.pick(8)]; return sfmt("component type of accessor %u", i); }
			case 4: { if (a.accessors.empty()) break; auto i = ix(a.accessors); if (s.chance(1, 2)) a.accessors[i].max.reset(); else a.accessors[i].min.reset(); return sfmt("bounds of accessor %u", i); }
			case 5: {
				if (a.animations.empty()) break;
				auto i = ix(a.animations);
				auto& x = a.animations[i];
				switch (s.pick(4)) {
					case 0: x.channels.clear(); break;
					case 1: if (x.channels.empty()) break; x.channels.emplace_back(x.channels[ix(x.channels)]); break;
					case 2: if (x.samplers.empty()) break; x.samplers[ix(x.samplers)].interpolation = static_cast<AnimationInterpolation>(s.pick(3)); break;
					default: if (x.channels.empty()) break; x.channels[ix(x.channels)].path = static_cast<AnimationPath>(s.range(1, 4)); break;
				}
				return sfmt("animation %u", i);
			}
			case 6: {
				if (a.cameras.empty()) break;
				auto i = ix(a.cameras);
				if (auto* o = std::get_if<Camera::Orthographic>(&a.cameras[i].camera)) o->zfar = 0;
				else { auto& p = std::get<Camera::Perspective>(a.cameras[i].camera); switch (s.pick(4)) { case 0: p.aspectRatio = 0.f; break; case 1: p.yfov = 0; break; case 2: p.zfar = 0.f; break; default: p.znear = 0; break; } }
				return sfmt("camera %u", i);
			}
			case 7: {
				if (a.lights.empty()) break;
				auto i = ix(a.lights);
				auto& l = a.lights[i];
				switch (s.pick(6)) {
					case 0: l.range = s.chance(1, 2) ? 0.f : -1.f; break;
					case 1: l.type = static_cast<LightType>(s.pick(3)); break;
					case 2: l.innerConeAngle = s.chance(1, 2) ? -0.25f : 1.25f; break;
					case 3: l.outerConeAngle = s.chance(1, 2) ? 1.75f : 0.f; break;
					case 4: if (s.chance(1, 2)) l.innerConeAngle.reset(); else l.outerConeAngle.reset(); break;
					default: l.range = 2.f; break;
				}
				return sfmt("light %u", i);
			}
			case 8: {
				if (a.nodes.empty()) break;
				auto i = ix(a.nodes);
				auto& n = a.nodes[i];
				switch (s.pick(6)) {
					case 0: { TRS t{}; t.rotation[s.pick(4)] = s.chance(1, 2) ? 1.5f : -1.5f; n.transform = t; break; }
					case 1: n.meshIndex.reset(); break;
					case 2: n.weights.emplace_back(0.5f); break;
					case 3: switch (s.pick(3)) { case 0: n.visible = false; break; case 1: n.selectable = false; break; default: n.hoverable = false; break; } break;
					case 4: if (!a.skins.empty()) n.skinIndex = std::size_t(ix(a.skins)); break;
					default: { TRS t{}; if (s.chance(1, 2)) t.translation[s.pick(3)] = 1.f; else t.scale[s.pick(3)] = 2.f; n.transform = t; break; }
				}
				return sfmt("node %u", i);
			}
			case 9: { if (a.samplers.empty()) break; auto i = ix(a.samplers); a.samplers[i].magFilter = s.chance(1, 2) ? Filter::LinearMipMapLinear : Filter::NearestMipMapNearest; return sfmt("sampler %u", i); }
			case 10: { if (a.skins.empty()) break; auto i = ix(a.skins); a.skins[i].joints = {}; return sfmt("skin %u", i); }
			case 11: { if (a.textures.empty()) break; auto i = ix(a.textures); a.textures[i].imageIndex.reset(); if (s.chance(1, 2)) a.textures[i].basisuImageIndex.reset(); return sfmt("texture %u", i); }
			case 12: {
				if (a.meshes.empty()) break;
				auto i = ix(a.meshes);
				if (a.meshes[i].primitives.empty()) break;
				auto& p = a.meshes[i].primitives[ix(a.meshes[i].primitives)];
				switch (s.pick(4)) {
					case 0: if (p.attributes.empty()) break; { auto& at = p.attributes[ix(p.attributes)]; static const char* const ns[] = {"POSITION", "NORMAL", "TANGENT", "TEXCOORD_0", "COLOR_0", "JOINTS_0", "WEIGHTS_0", "_X", "X", "TEXCOORD", "normal"}; at.name = ns[s.pick(11)]; } break;
					case 1: if (p.attributes.empty()) break; p.attributes[ix(p.attributes)].accessorIndex = ix(a.accessors); break;
					case 2: p.indicesAccessor = std::size_t(ix(a.accessors)); break;
					default: if (!p.mappings.empty()) p.mappings.resize(p.mappings.size() + 1); else p.mappings.resize(1); if (!a.materials.empty()) p.mappings[0] = std::size_t(0); break;
				}
				return sfmt("mesh %u", i);
			}
			case 13: {
				if (a.bufferViews.empty()) break;
				auto i = ix(a.bufferViews);
				auto& w = a.bufferViews[i];
				if (s.chance(1, 3)) w.target = BufferTarget::ArrayBuffer;
				else if (s.chance(1, 2)) w.byteStride = std::size_t(s.pick(300));
				else if (w.meshoptCompression) w.meshoptCompression->mode = static_cast<MeshoptCompressionMode>(s.pick(3));
				else w.byteStride.reset();
				return sfmt("view %u", i);
			}
			case 14: {
				if (a.scenes.empty()) break;
				auto i = ix(a.scenes);
				if (s.chance(1, 2)) a.defaultScene = std::size_t(i);
				else if (!a.nodes.empty()) a.scenes[i].nodeIndices.emplace_back(std::size_t(ix(a.nodes)));
				return sfmt("scene %u", i);
			}
			default: { if (a.accessors.empty()) break; auto i = ix(a.accessors); if (s.chance(1, 2)) a.accessors[i].count = 0; else a.accessors[i].byteOffset += 1; return sfmt("accessor %u", i); }
		}
	}
	return "";
}
} // namespace model
