// Random well-formed assets. Every choice comes from the simulator.
#include "model.hpp"
#include <algorithm>
#include <fastgltf/math.hpp>
#include <set>

namespace model {
using sim::Sim;
using namespace fastgltf;

Bytes randomBytes(Sim& s, std::size_t n) {
	Bytes b(n);
	std::uint64_t x = s.bits();
	for (std::size_t i = 0; i < n; i += 8) {
		std::uint64_t v = sim::splitmix(x);
		for (std::size_t k = 0; k < 8 && i + k < n; ++k) b[i + k] = static_cast<unsigned char>(v >> (8 * k));
	}
	return b;
}

static const char* const plainNames[] = {"Cube", "Hull plates", "node_01", "Material.001", "a", "left-arm", "Scene", "wheel", "Light", "tex0"};
static const char* const oddPieces[] = {"\"", "\\", "\n", "\t", "\x01", "\x1f", "/", "..", "../", "%20", "#", "?", ":", "\xc3\xa9", "\xf0\x9f\x98\x80", " ", "{", "}", "[", "]", ",", "\\\"", "\"\"", "\\\\", "\b", "\f", "\r", "\x7f",
	"\\u0041", "//", "%", "%zz", "&", "'", ".", "nul", "\xe6\xbc\xa2", "*", "|", "<", "buffer0", "image0"};
std::string randomName(Sim& s, bool odd) {
	switch (s.weighted({3, 5, odd ? 4 : 0})) {
		case 0: return {};
		case 1: {
			std::string n = plainNames[s.pick(std::size(plainNames))];
			if (s.chance(1, 3)) n += std::to_string(s.pick(10));
			return n;
		}
		default: break;
	}
	if (!odd) return "plain";
	std::string n;
	auto k = s.range(1, 6);
	for (std::uint32_t i = 0; i < k; ++i) {
		if (s.chance(1, 2)) n += oddPieces[s.pick(std::size(oddPieces))];
		else n += static_cast<char>('a' + s.pick(26));
	}
	if (s.chance(1, 40)) n += std::string(s.range(20, 300), 'x');
	return n;
}

Extensions allExtensions() {
	auto e = Extensions::None;
	for (int i = 1; i <= 33; ++i) if (i != 7) e = e | static_cast<Extensions>(1ull << i);
	return e;
}

std::map<std::string, UriParts>& uris() { static std::map<std::string, UriParts> m; return m; }
static const bool registered = (sim::runStart().push_back([] { uris().clear(); }), true);
namespace {
struct G {
	Sim& s;
	const GenOpts& o;
	Asset a;
	std::set<std::string> used;
	std::vector<Bytes> buf;
	struct View { std::size_t freeLen; bool vertex, plain; std::size_t stride; };
	std::vector<View> views;
	bool quant = false;
	std::uint32_t n(std::uint32_t lo, std::uint32_t hi) {
		if (o.scale == 0) hi = std::min(hi, lo + 1);
		else if (o.scale >= 2) hi *= 2;
		return s.range(lo, hi);
	}
	G(Sim& s_, const GenOpts& o_) : s(s_), o(o_) {}
	template <class S> void name(S& x) { x = randomName(s, o.oddNames).c_str(); }
	void nameStr(std::pmr::string& x) { auto v = randomName(s, o.oddNames); x.assign(v.data(), v.size()); }

	float f() {
		static const float pool[] = {0.f, 1.f, 0.5f, -1.f, 2.f, 0.25f, 1.5f, 1.3f, 100.f, 400.f, 0.1f, 1e-7f, 1e10f, -0.f, 3.40282347e+38f, 1.17549435e-38f, 1e-45f, 0.33333334f, 16777216.f, -123.456f};
		if (s.chance(1, 2)) return pool[s.pick(std::size(pool))];
		switch (s.pick(3)) {
			case 0: return static_cast<float>(static_cast<int>(s.pick(2001)) - 1000) / 8.f;
			case 1: return static_cast<float>(s.bits32()) / 4294967296.f;
			default: {
				std::uint32_t u = s.bits32();
				float r; std::memcpy(&r, &u, 4);
				if (!(r == r) || r - r != 0) return 0.75f;
				return r;
			}
		}
	}
	float nz(float d = 1.f) { float x = f(); return x == 0 ? d : x; }
	float unit() { return s.chance(1, 3) ? static_cast<float>(s.pick(3)) / 2.f : static_cast<float>(s.bits32() >> 8) / 16777216.f; }
	double d() {
		if (s.chance(1, 2)) return static_cast<double>(f());
		if (s.chance(1, 2)) return static_cast<double>(static_cast<int>(s.pick(200001)) - 100000) / 1000.0;
		std::uint64_t u = s.bits();
		double r; std::memcpy(&r, &u, 8);
		if (!(r == r) || r - r != 0) return 3.141592653589793;
		return r;
	}
	math::nvec3 v3() { math::nvec3 r(0); for (std::size_t i = 0; i < 3; ++i) r[i] = f(); return r; }
	math::nvec4 v4() { math::nvec4 r(0); for (std::size_t i = 0; i < 4; ++i) r[i] = f(); return r; }
	bool maybe(std::uint32_t num = 1, std::uint32_t den = 2) { return s.chance(num, den); }
	std::size_t idx(std::size_t count) { return s.pick(static_cast<std::uint32_t>(count)); }

	// ---- binary data ----
	std::size_t addView(std::size_t len, std::size_t align, std::size_t stride, int target, bool vertex) {
		auto& b = buf[idx(buf.size())];
		auto bi = static_cast<std::size_t>(&b - buf.data());
		while (b.size() % align) b.push_back(0);
		BufferView v{};
		v.bufferIndex = bi;
		v.byteOffset = b.size();
		v.byteLength = std::max<std::size_t>(1, len);
		auto r = randomBytes(s, v.byteLength);
		b.insert(b.end(), r.begin(), r.end());
		if (stride) v.byteStride = stride;
		if (target == 1) v.target = BufferTarget::ArrayBuffer;
		if (target == 2) v.target = BufferTarget::ElementArrayBuffer;
		nameStr(v.name);
		a.bufferViews.emplace_back(std::move(v));
		views.push_back({len, vertex, stride == 0 && target == 0, stride});
		return a.bufferViews.size() - 1;
	}
	std::size_t addAccessor(AccessorType t, ComponentType c, std::size_t count, bool vertex, bool needBounds, bool index = false, bool plainOnly = false) {
		Accessor x{};
		x.type = t;
		x.componentType = c;
		x.count = count;
		auto comp = static_cast<std::size_t>(getComponentByteSize(c));
		auto elem = static_cast<std::size_t>(getElementByteSize(t, c));
		std::size_t stride = 0;
		if (vertex && !plainOnly && maybe(1, 3)) {
			auto step = std::max<std::size_t>(4, comp);
			stride = (elem + step - 1) / step * step;
			if (stride < 4) stride = 4;
			stride += step * s.pick(3);
			if (stride > 252) stride = 0;
		}
		std::size_t off = maybe(1, 4) ? comp * s.range(1, 4) : 0;
		if (stride && off) off = off / 4 * 4 ? std::max<std::size_t>(comp, off) : off;
		std::size_t need = off + (stride ? stride * (count - 1) + elem : elem * count);
		int target = 0;
		if (vertex && maybe(1, 2)) target = 1;
		if (index && maybe(1, 2)) target = 2;
		std::size_t align = std::max<std::size_t>(comp, vertex ? 4 : 1);
		bool noView = !index && maybe(1, 12) && !needBounds;
		if (!noView) {
			x.bufferViewIndex = addView(need + s.pick(4), align, stride, target, vertex);
			x.byteOffset = off;
		}
		if (c != ComponentType::Float && c != ComponentType::UnsignedInt && c != ComponentType::Int && c != ComponentType::Double && !index && vertex) x.normalized = maybe(1, 3);
		if ((noView && maybe(2, 3)) || maybe(1, 10)) {
			SparseAccessor sp{};
			sp.count = s.range(1, static_cast<std::uint32_t>(std::min<std::size_t>(count, 3)));
			static const ComponentType its[] = {ComponentType::UnsignedByte, ComponentType::UnsignedShort, ComponentType::UnsignedInt};
			sp.indexComponentType = its[s.pick(3)];
			auto isz = static_cast<std::size_t>(getComponentByteSize(sp.indexComponentType));
			sp.indicesByteOffset = isz * s.pick(3);
			sp.valuesByteOffset = comp * s.pick(3);
			sp.indicesBufferView = addView(sp.indicesByteOffset + isz * sp.count, isz, 0, 0, false);
			sp.valuesBufferView = addView(sp.valuesByteOffset + elem * sp.count, comp, 0, 0, false);
			x.sparse = sp;
		}
		auto comps = static_cast<std::size_t>(getNumComponents(t));
		bool fl = c == ComponentType::Float || c == ComponentType::Double;
		for (int k = 0; k < 2; ++k) {
			if (!needBounds && maybe(2, 3)) continue;
			auto b = AccessorBoundsArray(comps, fl ? AccessorBoundsArray::BoundsType::float64 : AccessorBoundsArray::BoundsType::int64);
			for (std::size_t i = 0; i < comps; ++i) {
				if (fl) b.set<double>(i, d());
				else b.set<std::int64_t>(i, static_cast<std::int64_t>(s.bits32()) - (maybe() ? 2147483648ll : 0));
			}
			(k ? x.min : x.max) = std::move(b);
		}
		nameStr(x.name);
		a.accessors.emplace_back(std::move(x));
		return a.accessors.size() - 1;
	}
	template <class L> void addAttr(L& l, std::string_view nm, std::size_t ix) {
		Attribute at{};
		at.name.assign(nm.data(), nm.size());
		at.accessorIndex = ix;
		l.emplace_back(std::move(at));
	}
	std::string odd(std::string base) {
		if (o.oddNames && maybe(1, 4)) base += oddPieces[s.pick(std::size(oddPieces))];
		return base;
	}

	// ---- textures ----
	void texInfo(TextureInfo& t) {
		t.textureIndex = idx(a.textures.size());
		t.texCoordIndex = maybe(1, 3) ? s.range(1, 3) : 0;
		if (maybe(1, 3)) {
			t.transform = std::make_unique<TextureTransform>();
			t.transform->rotation = maybe() ? 0.f : f();
			if (maybe()) { t.transform->uvOffset[0] = f(); t.transform->uvOffset[1] = f(); }
			if (maybe()) { t.transform->uvScale[0] = f(); t.transform->uvScale[1] = f(); }
			if (maybe(1, 3)) t.transform->texCoordIndex = s.pick(4);
			used.insert("KHR_texture_transform");
		}
	}
	template <class O> void tex(O& t, std::uint32_t num = 1, std::uint32_t den = 2) {
		if (a.textures.empty() || !maybe(num, den)) return;
		using T = std::decay_t<decltype(*t)>;
		T x{};
		texInfo(x);
		if constexpr (std::is_same_v<T, NormalTextureInfo>) { if (maybe()) x.scale = f(); }
		if constexpr (std::is_same_v<T, OcclusionTextureInfo>) { if (maybe()) x.strength = f(); }
		t = std::move(x);
	}
	Material material() {
		Material m{};
		nameStr(m.name);
		if (maybe()) {
			if (maybe()) m.pbrData.baseColorFactor = v4();
			if (maybe()) m.pbrData.metallicFactor = f();
			if (maybe()) m.pbrData.roughnessFactor = f();
			tex(m.pbrData.baseColorTexture);
			tex(m.pbrData.metallicRoughnessTexture);
		}
		tex(m.normalTexture, 1, 3); tex(m.occlusionTexture, 1, 3); tex(m.emissiveTexture, 1, 3);
		if (maybe(1, 3)) m.emissiveFactor = v3();
		m.alphaMode = static_cast<AlphaMode>(s.pick(3));
		m.doubleSided = maybe();
		if (maybe(1, 3)) m.alphaCutoff = f();
		if (!o.materials) return m;
		if (maybe(1, 6)) { m.unlit = true; used.insert("KHR_materials_unlit"); }
		if (maybe(1, 6)) { m.emissiveStrength = f(); used.insert("KHR_materials_emissive_strength"); }
		if (maybe(1, 6)) { m.ior = f(); used.insert("KHR_materials_ior"); }
		if (maybe(1, 6)) { m.dispersion = f(); used.insert("KHR_materials_dispersion"); }
		if (maybe(1, 6)) {
			m.anisotropy = std::make_unique<MaterialAnisotropy>();
			if (maybe()) m.anisotropy->anisotropyStrength = f();
			if (maybe()) m.anisotropy->anisotropyRotation = f();
			tex(m.anisotropy->anisotropyTexture);
			used.insert("KHR_materials_anisotropy");
		}
		if (maybe(1, 6)) {
			m.clearcoat = std::make_unique<MaterialClearcoat>();
			auto& c = *m.clearcoat;
			if (maybe()) c.clearcoatFactor = f();
			if (maybe()) c.clearcoatRoughnessFactor = f();
			tex(c.clearcoatTexture); tex(c.clearcoatRoughnessTexture); tex(c.clearcoatNormalTexture);
			used.insert("KHR_materials_clearcoat");
		}
		if (maybe(1, 6)) {
			m.diffuseTransmission = std::make_unique<MaterialDiffuseTransmission>();
			auto& c = *m.diffuseTransmission;
			if (maybe()) c.diffuseTransmissionFactor = f();
			if (maybe()) c.diffuseTransmissionColorFactor = v3();
			tex(c.diffuseTransmissionTexture); tex(c.diffuseTransmissionColorTexture);
			used.insert("KHR_materials_diffuse_transmission");
		}
		if (maybe(1, 6)) {
			m.iridescence = std::make_unique<MaterialIridescence>();
			auto& c = *m.iridescence;
			if (maybe()) c.iridescenceFactor = f();
			if (maybe()) c.iridescenceIor = f();
			if (maybe()) c.iridescenceThicknessMinimum = f();
			if (maybe()) c.iridescenceThicknessMaximum = f();
			tex(c.iridescenceTexture); tex(c.iridescenceThicknessTexture);
			used.insert("KHR_materials_iridescence");
		}
		if (maybe(1, 6)) {
			m.sheen = std::make_unique<MaterialSheen>();
			auto& c = *m.sheen;
			if (maybe()) c.sheenColorFactor = v3();
			if (maybe()) c.sheenRoughnessFactor = f();
			tex(c.sheenColorTexture); tex(c.sheenRoughnessTexture);
			used.insert("KHR_materials_sheen");
		}
		if (maybe(1, 6)) {
			m.specular = std::make_unique<MaterialSpecular>();
			auto& c = *m.specular;
			if (maybe()) c.specularFactor = f();
			if (maybe()) c.specularColorFactor = v3();
			tex(c.specularTexture); tex(c.specularColorTexture);
			used.insert("KHR_materials_specular");
		}
		if (maybe(1, 6)) {
			m.specularGlossiness = std::make_unique<MaterialSpecularGlossiness>();
			auto& c = *m.specularGlossiness;
			if (maybe()) c.diffuseFactor = v4();
			if (maybe()) c.specularFactor = v3();
			if (maybe()) c.glossinessFactor = f();
			tex(c.diffuseTexture); tex(c.specularGlossinessTexture);
			used.insert("KHR_materials_pbrSpecularGlossiness");
		}
		if (maybe(1, 6)) {
			m.transmission = std::make_unique<MaterialTransmission>();
			if (maybe()) m.transmission->transmissionFactor = f();
			tex(m.transmission->transmissionTexture);
			used.insert("KHR_materials_transmission");
		}
		if (maybe(1, 6)) {
			m.volume = std::make_unique<MaterialVolume>();
			auto& c = *m.volume;
			if (maybe()) c.thicknessFactor = f();
			if (maybe()) c.attenuationDistance = f();
			if (maybe()) c.attenuationColor = v3();
			tex(c.thicknessTexture);
			used.insert("KHR_materials_volume");
		}
		if (!a.textures.empty() && maybe(1, 8)) {
			tex(m.packedNormalMetallicRoughnessTexture, 1, 1);
			used.insert("MSFT_packing_normalRoughnessMetallic");
		}
		if (!a.textures.empty() && maybe(1, 8)) {
			m.packedOcclusionRoughnessMetallicTextures = std::make_unique<MaterialPackedTextures>();
			auto& c = *m.packedOcclusionRoughnessMetallicTextures;
			tex(c.occlusionRoughnessMetallicTexture); tex(c.roughnessMetallicOcclusionTexture); tex(c.normalTexture);
			used.insert("MSFT_packing_occlusionRoughnessMetallic");
		}
		return m;
	}

	Primitive primitive(std::size_t targets, bool skinned) {
		Primitive p{};
		std::size_t count = s.range(1, o.scale >= 2 ? 40 : 8);
		static const PrimitiveType modes[] = {PrimitiveType::Triangles, PrimitiveType::Points, PrimitiveType::Lines, PrimitiveType::LineLoop, PrimitiveType::LineStrip, PrimitiveType::TriangleStrip, PrimitiveType::TriangleFan};
		p.type = modes[s.pick(7)];
		if (p.type == PrimitiveType::Triangles) count *= 3;
		if (p.type == PrimitiveType::Lines) count *= 2;
		if (p.type != PrimitiveType::Points && count < 3) count = 3;
		ComponentType qpos[] = {ComponentType::Float, ComponentType::Byte, ComponentType::UnsignedByte, ComponentType::Short, ComponentType::UnsignedShort};
		ComponentType qnrm[] = {ComponentType::Float, ComponentType::Byte, ComponentType::Short};
		ComponentType uv[] = {ComponentType::Float, ComponentType::UnsignedByte, ComponentType::UnsignedShort, ComponentType::Byte, ComponentType::Short};
		ComponentType uns[] = {ComponentType::UnsignedByte, ComponentType::UnsignedShort, ComponentType::Float};
		auto pos = [&](bool bounds) { return addAccessor(AccessorType::Vec3, qpos[quant ? s.pick(5) : 0], count, true, bounds); };
		auto nrm = [&] { return addAccessor(AccessorType::Vec3, qnrm[quant ? s.pick(3) : 0], count, true, false); };
		addAttr(p.attributes, "POSITION", pos(true));
		if (maybe()) addAttr(p.attributes, "NORMAL", nrm());
		if (maybe(1, 3)) addAttr(p.attributes, "TANGENT", addAccessor(AccessorType::Vec4, qnrm[quant ? s.pick(3) : 0], count, true, false));
		auto ntex = s.pick(3);
		for (std::uint32_t i = 0; i < ntex; ++i) addAttr(p.attributes, "TEXCOORD_" + std::to_string(i), addAccessor(AccessorType::Vec2, uv[s.pick(quant ? 5 : 3)], count, true, false));
		if (maybe(1, 4)) addAttr(p.attributes, "COLOR_0", addAccessor(maybe() ? AccessorType::Vec3 : AccessorType::Vec4, uns[s.pick(3)], count, true, false));
		if (skinned) {
			addAttr(p.attributes, "JOINTS_0", addAccessor(AccessorType::Vec4, uns[s.pick(2)], count, true, false));
			addAttr(p.attributes, "WEIGHTS_0", addAccessor(AccessorType::Vec4, uns[s.pick(3)], count, true, false));
		}
		if (maybe(1, 5)) addAttr(p.attributes, odd((maybe() ? "_CUSTOM_ATTRIBUTE_OF_THIS_MESH_" : "_CUSTOM") + std::to_string(s.pick(3))), addAccessor(AccessorType::Scalar, ComponentType::Float, count, true, false));
		for (std::size_t t = 0; t < targets; ++t) {
			auto& l = p.targets.emplace_back();
			addAttr(l, "POSITION", pos(true));
			if (maybe()) addAttr(l, "NORMAL", nrm());
		}
		if (maybe()) {
			static const ComponentType its[] = {ComponentType::UnsignedByte, ComponentType::UnsignedShort, ComponentType::UnsignedInt};
			p.indicesAccessor = addAccessor(AccessorType::Scalar, its[s.pick(3)], 3u * s.range(1, 5), false, false, true);
		}
		if (!a.materials.empty() && maybe()) p.materialIndex = idx(a.materials.size());
		if (!a.materialVariants.empty() && !a.materials.empty() && maybe(2, 3)) {
			p.mappings.resize(a.materialVariants.size());
			bool any = false;
			for (auto& m : p.mappings) if (maybe(2, 3)) { m = idx(a.materials.size()); any = true; }
			if (!any) p.mappings[idx(p.mappings.size())] = idx(a.materials.size());
		}
		if (o.meshopt && maybe(1, 12)) {
			p.dracoCompression = std::make_unique<DracoCompressedPrimitive>();
			p.dracoCompression->bufferView = addView(s.range(1, 60), 1, 0, 0, false);
			std::size_t id = 0;
			for (auto& at : p.attributes) if (maybe(2, 3)) addAttr(p.dracoCompression->attributes, at.name, id++);
			if (p.dracoCompression->attributes.empty()) addAttr(p.dracoCompression->attributes, "POSITION", 0);
			used.insert("KHR_draco_mesh_compression");
		}
		return p;
	}

	// A URI with encoded and plain characters of all kinds in its components. Remote ones are not files.
	URI makeUri(const char* ext, bool remote) {
		static const char* const pieces[][2] = {{"a", "a"}, {"b%20c", "b c"}, {"%2520", "%20"}, {"x%23y", "x#y"}, {"q%3Fr", "q?r"}, {"%25", "%"}, {"%C3%a9", "\xc3\xa9"}, {"\xc3\xa9", "\xc3\xa9"},
			{"a%3Ab", "a:b"}, {"p%40q", "p@q"}, {"%41", "A"}, {"a+b", "a+b"}, {"(1)", "(1)"}, {"%22q%22", "\"q\""}, {"-._~", "-._~"}, {"%5B0%5D", "[0]"}};
		UriParts p;
		std::string* dec = nullptr;
		auto put = [&](std::string_view raw, std::string_view d) { p.raw += raw; p.string += d; if (dec) *dec += d; };
		auto piece = [&] { auto& x = pieces[s.pick(std::size(pieces))]; put(x[0], x[1]); };
		auto lit = [&](std::string_view t) { put(t, t); };
		bool authority = false;
		if (remote) {
			static const char* const schemes[] = {"https", "http", "ftp", "res", "x-asset+1.0"};
			dec = &p.scheme; lit(schemes[s.pick(5)]); dec = nullptr; lit(":");
			if ((authority = maybe(5, 6))) {
				lit("//");
				if (maybe(1, 3)) { dec = &p.userinfo; lit("user"); if (maybe()) piece(); if (maybe()) { lit(":"); lit("pw"); } dec = nullptr; lit("@"); }
				static const char* const hosts[] = {"example.org", "h", "127.0.0.1", "xn--bcher-kva.example"};
				if (maybe(1, 5)) { lit("["); dec = &p.host; lit("2001:db8::1"); dec = nullptr; lit("]"); }
				else { dec = &p.host; lit(hosts[s.pick(4)]); dec = nullptr; }
				if (maybe(1, 3)) { lit(":"); dec = &p.port; lit(std::to_string(s.pick(65536))); dec = nullptr; }
			}
		}
		dec = &p.path;
		if (authority) lit("/");
		if (maybe()) { lit("assets"); if (maybe(1, 4)) piece(); lit("/"); }
		lit("t" + std::to_string(s.pick(100)));
		if (maybe(1, 2)) piece();
		if (maybe(1, 4)) { piece(); piece(); }
		lit(ext);
		dec = nullptr;
		if (remote ? maybe(1, 3) : maybe(1, 12)) { lit("?"); dec = &p.query; lit("v="); if (maybe()) piece(); if (maybe(1, 3)) lit("/?:@"); dec = nullptr; }
		if (remote ? maybe(1, 3) : maybe(1, 12)) { lit("#"); dec = &p.fragment; lit("f"); if (maybe()) piece(); if (maybe(1, 3)) lit("/?"); dec = nullptr; }
		auto it = uris().find(p.string);
		if (it != uris().end() && it->second.raw != p.raw) return URI(std::string_view(it->second.raw)); // same decoded text, keep them apart
		URI r{std::string_view(p.raw)};
		uris()[p.string] = p;
		uris()[std::string(r.string())] = p;
		return r;
	}

	Asset run() {
		AssetInfo info{};
		info.gltfVersion = maybe(1, 8) ? "2.1" : "2.0";
		if (maybe()) nameStr(info.copyright);
		if (maybe()) nameStr(info.generator);
		a.assetInfo = std::move(info);
		quant = maybe(1, 4);
		if (quant) used.insert("KHR_mesh_quantization");
		bool doGodot = o.godot && maybe(1, 12);
		bool fallback = false;

		auto nb = n(1, 3);
		buf.resize(nb);
		// images and textures
		if (o.textures && maybe(2, 3)) {
			auto ni = n(1, 4);
			for (std::uint32_t i = 0; i < ni; ++i) {
				Image im{};
				if (o.fileNames) nameStr(im.name);
				else { auto v = randomName(s, false); im.name.assign(v.data(), v.size()); }
				static const MimeType mimes[] = {MimeType::PNG, MimeType::JPEG, MimeType::KTX2, MimeType::DDS, MimeType::WEBP};
				auto mime = mimes[s.weighted({3, 3, 1, 1, 1})];
				int kind = o.imagesInMemory ? s.weighted({3, 2, 2, 1}) : 3;
				std::size_t len = s.range(1, o.scale >= 2 ? 3000 : 90);
				if (kind == 0 || kind == 1) {
					auto b = randomBytes(s, len);
					if (kind == 0) {
						sources::Array x{StaticVector<std::byte>(len), mime};
						std::memcpy(x.bytes.data(), b.data(), len);
						im.data = std::move(x);
					} else {
						sources::Vector x{std::vector<std::byte>(len), mime};
						std::memcpy(x.bytes.data(), b.data(), len);
						im.data = std::move(x);
					}
				} else if (kind == 2) {
					im.data = sources::BufferView{addView(len, 1, 0, 0, false), mime};
				} else {
					static const char* const exts[] = {".png", ".jpg", ".ktx2", ".dds", ".webp"};
					sources::URI u;
					u.fileByteOffset = 0;
					u.uri = makeUri(exts[s.pick(5)], o.remote && maybe(1, 3));
					u.mimeType = maybe(1, 4) ? mime : MimeType::None;
					im.data = std::move(u);
				}
				a.images.emplace_back(std::move(im));
			}
			auto ns = n(0, 2);
			for (std::uint32_t i = 0; i < ns; ++i) {
				Sampler x{};
				if (maybe()) x.magFilter = maybe() ? Filter::Nearest : Filter::Linear;
				static const Filter fl[] = {Filter::Nearest, Filter::Linear, Filter::NearestMipMapNearest, Filter::LinearMipMapNearest, Filter::NearestMipMapLinear, Filter::LinearMipMapLinear};
				if (maybe()) x.minFilter = fl[s.pick(6)];
				static const Wrap wr[] = {Wrap::Repeat, Wrap::ClampToEdge, Wrap::MirroredRepeat};
				x.wrapS = wr[s.pick(3)];
				x.wrapT = wr[s.pick(3)];
				nameStr(x.name);
				a.samplers.emplace_back(std::move(x));
			}
			auto nt = n(1, 4);
			for (std::uint32_t i = 0; i < nt; ++i) {
				Texture x{};
				nameStr(x.name);
				if (!a.samplers.empty() && maybe()) x.samplerIndex = idx(a.samplers.size());
				bool ext = maybe(1, 3), base = !ext || maybe();
				if (o.loose && maybe(1, 3)) ext = base = false;
				if (base) x.imageIndex = idx(a.images.size());
				if (ext) {
					auto k = s.pick(7) + 1;
					if (k & 1) { x.basisuImageIndex = idx(a.images.size()); used.insert("KHR_texture_basisu"); }
					if (k & 2) { x.ddsImageIndex = idx(a.images.size()); used.insert("MSFT_texture_dds"); }
					if (k & 4) { x.webpImageIndex = idx(a.images.size()); used.insert("EXT_texture_webp"); }
				}
				a.textures.emplace_back(std::move(x));
			}
		}
		{
			auto nm = n(0, 3);
			for (std::uint32_t i = 0; i < nm; ++i) a.materials.emplace_back(material());
			if (!a.materials.empty() && maybe(1, 4)) {
				auto k = n(1, 3);
				for (std::uint32_t i = 0; i < k; ++i) a.materialVariants.push_back(randomName(s, o.oddNames));
				used.insert("KHR_materials_variants");
			}
		}
		struct MeshInfo { std::size_t targets; bool skinned; };
		std::vector<MeshInfo> mi;
		if (o.meshes && maybe(4, 5)) {
			auto nm = n(1, 3);
			for (std::uint32_t i = 0; i < nm; ++i) {
				Mesh m{};
				nameStr(m.name);
				std::size_t targets = maybe(1, 3) ? s.range(1, 3) : 0;
				bool sk = maybe(1, 3);
				auto np = n(1, 2);
				for (std::uint32_t k = 0; k < np; ++k) m.primitives.emplace_back(primitive(targets, sk));
				if (targets && maybe()) for (std::size_t k = 0; k < targets; ++k) m.weights.emplace_back(f());
				a.meshes.emplace_back(std::move(m));
				mi.push_back({targets, sk});
			}
		}
		if (maybe(1, 3)) {
			auto nc = n(1, 2);
			for (std::uint32_t i = 0; i < nc; ++i) {
				Camera c{};
				nameStr(c.name);
				if (maybe()) {
					Camera::Perspective p{};
					if (maybe()) p.aspectRatio = nz();
					p.yfov = nz();
					if (maybe()) p.zfar = nz();
					p.znear = nz();
					c.camera = p;
				} else {
					Camera::Orthographic q{};
					q.xmag = f(); q.ymag = f(); q.zfar = nz(); q.znear = f();
					c.camera = q;
				}
				a.cameras.emplace_back(std::move(c));
			}
		}
		if (maybe(1, 3)) {
			used.insert("KHR_lights_punctual");
			auto nl = n(1, 3);
			for (std::uint32_t i = 0; i < nl; ++i) {
				Light l{};
				nameStr(l.name);
				l.type = static_cast<LightType>(s.pick(3));
				l.color = maybe() ? v3() : math::nvec3(1);
				l.intensity = maybe() ? f() : 1.f;
				if (l.type != LightType::Directional && maybe()) { float r = f(); l.range = r > 0 ? r : 1.f; }
				if (l.type == LightType::Spot) {
					float hi = unit() * 1.5f, lo = unit() * hi;
					if (maybe(1, 4)) { lo = 0; hi = 0.785398163f; }
					l.innerConeAngle = lo;
					l.outerConeAngle = hi;
				}
				a.lights.emplace_back(std::move(l));
			}
		}
		if (o.physics && maybe(1, 4)) {
			used.insert("KHR_implicit_shapes");
			auto k = n(1, 4);
			for (std::uint32_t i = 0; i < k; ++i) switch (s.pick(4)) {
				case 0: { SphereShape x{}; if (maybe()) x.radius = f(); a.shapes.emplace_back(x); break; }
				case 1: { BoxShape x{}; if (maybe()) x.size = v3(); a.shapes.emplace_back(x); break; }
				case 2: { CapsuleShape x{}; if (maybe()) { x.height = f(); x.radiusBottom = f(); x.radiusTop = f(); } a.shapes.emplace_back(x); break; }
				default: { CylinderShape x{}; if (maybe()) { x.height = f(); x.radiusBottom = f(); x.radiusTop = f(); } a.shapes.emplace_back(x); break; }
			}
		}
		bool physics = o.physics && maybe(1, 4);
		if (physics) {
			used.insert("KHR_physics_rigid_bodies");
			auto k = n(0, 2);
			for (std::uint32_t i = 0; i < k; ++i) {
				PhysicsMaterial x{};
				if (maybe()) x.staticFriction = f();
				if (maybe()) x.dynamicFriction = f();
				if (maybe()) x.restitution = f();
				x.frictionCombine = static_cast<CombineMode>(s.pick(4));
				x.restitutionCombine = static_cast<CombineMode>(s.pick(4));
				a.physicsMaterials.emplace_back(std::move(x));
			}
			k = n(0, 2);
			for (std::uint32_t i = 0; i < k; ++i) {
				CollisionFilter x{};
				auto list = [&](auto& l, std::uint32_t lo) { auto c = s.range(lo, 2); for (std::uint32_t j = 0; j < c; ++j) { auto v = randomName(s, o.oddNames); l.emplace_back(v.c_str()); } };
				list(x.collisionSystems, 0);
				switch (s.pick(3)) { case 1: list(x.collideWithSystems, 1); break; case 2: list(x.notCollideWithSystems, 1); break; default: break; }
				a.collisionFilters.emplace_back(std::move(x));
			}
			k = n(0, 2);
			for (std::uint32_t i = 0; i < k; ++i) {
				PhysicsJoint x{};
				auto c = s.pick(3);
				for (std::uint32_t j = 0; j < c; ++j) {
					JointLimit l{};
					auto axes = [&](auto& v) { auto q = s.range(1, 3); for (std::uint32_t t = 0; t < q; ++t) v.emplace_back(static_cast<std::uint8_t>(s.pick(3))); };
					if (maybe()) axes(l.linearAxes); else axes(l.angularAxes);
					if (maybe()) l.min = f();
					if (maybe()) l.max = f();
					if (maybe()) l.stiffness = f();
					if (maybe()) l.damping = f();
					x.limits.emplace_back(std::move(l));
				}
				c = s.pick(3);
				for (std::uint32_t j = 0; j < c; ++j) {
					JointDrive v{};
					v.type = static_cast<DriveType>(s.pick(2));
					v.mode = static_cast<DriveMode>(s.pick(2));
					v.axis = static_cast<std::uint8_t>(s.pick(3));
					v.maxForce = f();
					if (maybe()) { v.positionTarget = f(); v.stiffness = f(); }
					if (maybe()) { v.velocityTarget = f(); v.damping = f(); }
					x.drives.emplace_back(std::move(v));
				}
				a.physicsJoints.emplace_back(std::move(x));
			}
		}
		// nodes: a forest; parents come before children
		auto nn = doGodot ? n(1, 5) : n(0, 6);
		std::vector<bool> isChild(nn, false);
		std::vector<std::vector<std::size_t>> kids(nn);
		for (std::uint32_t i = 1; i < nn; ++i)
			if (doGodot || maybe(2, 3)) { auto p = idx(i); kids[p].push_back(i); isChild[i] = true; }
		auto nskin = nn ? (maybe(1, 3) ? n(1, 2) : 0) : 0;
		for (std::uint32_t i = 0; i < nn; ++i) {
			Node x{};
			nameStr(x.name);
			for (auto c : kids[i]) x.children.emplace_back(c);
			if (!a.meshes.empty() && maybe()) {
				auto m = idx(a.meshes.size());
				x.meshIndex = m;
				if (mi[m].skinned && nskin && maybe(2, 3)) x.skinIndex = idx(nskin);
				if (mi[m].targets && maybe()) for (std::size_t k = 0; k < mi[m].targets; ++k) x.weights.emplace_back(f());
			}
			if (!a.cameras.empty() && maybe(1, 3)) x.cameraIndex = idx(a.cameras.size());
			if (!a.lights.empty() && maybe(1, 3)) x.lightIndex = idx(a.lights.size());
			if (i == 0 && doGodot) {
			} else if (maybe(1, 4)) {
				math::fmat4x4 m(1.f);
				for (std::size_t c = 0; c < 4; ++c) for (std::size_t r = 0; r < 4; ++r) if (maybe()) m.col(c)[r] = f();
				x.transform = m;
			} else {
				TRS t{};
				if (maybe()) t.translation = v3();
				if (maybe()) { for (std::size_t k = 0; k < 4; ++k) t.rotation[k] = unit() * (maybe() ? 1.f : -1.f); }
				if (maybe()) t.scale = v3();
				x.transform = t;
			}
			if (o.meshes && maybe(1, 8)) {
				used.insert("EXT_mesh_gpu_instancing");
				std::size_t c = s.range(1, 5);
				if (maybe(2, 3)) addAttr(x.instancingAttributes, "TRANSLATION", addAccessor(AccessorType::Vec3, ComponentType::Float, c, true, false));
				if (maybe()) addAttr(x.instancingAttributes, "ROTATION", addAccessor(AccessorType::Vec4, ComponentType::Float, c, true, false));
				if (maybe()) addAttr(x.instancingAttributes, odd("_ID"), addAccessor(AccessorType::Scalar, ComponentType::Float, c, true, false));
				if (x.instancingAttributes.empty()) addAttr(x.instancingAttributes, "SCALE", addAccessor(AccessorType::Vec3, ComponentType::Float, c, true, false));
			}
			if (maybe(1, 10)) { x.visible = false; used.insert("KHR_node_visibility"); }
			if (maybe(1, 10)) { x.selectable = false; used.insert("KHR_node_selectability"); }
			if (maybe(1, 10)) { x.hoverable = false; used.insert("KHR_node_hoverability"); }
			if (physics && maybe()) {
				x.physicsRigidBody = std::make_unique<PhysicsRigidBody>();
				auto& b = *x.physicsRigidBody;
				auto geo = [&](Geometry& g) {
					g.convexHull = maybe(1, 3);
					if (!a.shapes.empty() && maybe()) g.shape = idx(a.shapes.size());
					else g.node = idx(nn);
				};
				if (maybe()) {
					Motion m{};
					m.isKinematic = maybe();
					if (maybe()) m.mass = f();
					auto fv3 = [&](math::fvec3& v) { if (maybe()) for (std::size_t k = 0; k < 3; ++k) v[k] = f(); };
					fv3(m.centerOfMass);
					if (maybe()) { math::fvec3 v(0.f); for (std::size_t k = 0; k < 3; ++k) v[k] = f(); m.inertialDiagonal = v; }
					if (maybe()) { math::fvec4 v(0.f); for (std::size_t k = 0; k < 4; ++k) v[k] = f(); m.inertialOrientation = v; }
					fv3(m.linearVelocity);
					fv3(m.angularVelocity);
					if (maybe()) m.gravityFactor = f();
					b.motion = m;
				}
				if (maybe()) {
					Collider c{};
					geo(c.geometry);
					if (!a.physicsMaterials.empty() && maybe()) c.physicsMaterial = idx(a.physicsMaterials.size());
					if (!a.collisionFilters.empty() && maybe()) c.collisionFilter = idx(a.collisionFilters.size());
					b.collider = c;
				}
				if (maybe(1, 3)) {
					if (maybe()) {
						GeometryTrigger g{};
						geo(g.geometry);
						if (!a.collisionFilters.empty() && maybe()) g.collisionFilter = idx(a.collisionFilters.size());
						b.trigger = std::variant<GeometryTrigger, NodeTrigger>(std::move(g));
					} else {
						NodeTrigger t{};
						auto c = s.range(1, 3);
						for (std::uint32_t k = 0; k < c; ++k) t.nodes.emplace_back(idx(nn));
						b.trigger = std::variant<GeometryTrigger, NodeTrigger>(std::move(t));
					}
				}
				if (!a.physicsJoints.empty() && maybe(1, 3)) {
					Joint j{};
					j.connectedNode = idx(nn);
					j.joint = idx(a.physicsJoints.size());
					j.enableCollision = maybe();
					b.joint = j;
				}
			}
			a.nodes.emplace_back(std::move(x));
		}
		for (std::uint32_t i = 0; i < nskin; ++i) {
			Skin x{};
			nameStr(x.name);
			auto k = s.range(1, 4);
			for (std::uint32_t j = 0; j < k; ++j) x.joints.emplace_back(idx(nn));
			if (maybe()) x.skeleton = idx(nn);
			if (maybe()) x.inverseBindMatrices = addAccessor(AccessorType::Mat4, ComponentType::Float, k, false, false);
			a.skins.emplace_back(std::move(x));
		}
		if (doGodot) {
			used.insert("GODOT_single_root");
			Scene x{};
			nameStr(x.name);
			x.nodeIndices.emplace_back(std::size_t(0));
			a.scenes.emplace_back(std::move(x));
			a.defaultScene = std::size_t(0);
		} else {
			auto k = n(0, 2);
			for (std::uint32_t i = 0; i < k; ++i) {
				Scene x{};
				nameStr(x.name);
				for (std::uint32_t j = 0; j < nn; ++j) if (!isChild[j] && maybe(2, 3)) x.nodeIndices.emplace_back(std::size_t(j));
				a.scenes.emplace_back(std::move(x));
			}
			if (k && maybe(2, 3)) a.defaultScene = idx(k);
		}
		if (o.animations && nn && maybe(1, 3)) {
			auto k = n(1, 2);
			for (std::uint32_t i = 0; i < k; ++i) {
				Animation x{};
				nameStr(x.name);
				std::set<std::pair<std::size_t, int>> seen;
				auto nc = s.range(1, 4);
				for (std::uint32_t j = 0; j < nc; ++j) {
					auto node = idx(nn);
					auto path = static_cast<int>(s.range(1, 4));
					if (path == 4) {
						auto m = a.nodes[node].meshIndex;
						if (!m.has_value() || mi[*m].targets == 0) path = 1;
					}
					if (!seen.insert({node, path}).second) continue;
					AnimationSampler sm{};
					sm.interpolation = static_cast<AnimationInterpolation>(s.pick(3));
					std::size_t keys = s.range(sm.interpolation == AnimationInterpolation::CubicSpline ? 2 : 1, 5);
					sm.inputAccessor = addAccessor(AccessorType::Scalar, ComponentType::Float, keys, false, true);
					std::size_t outs = keys * (sm.interpolation == AnimationInterpolation::CubicSpline ? 3 : 1);
					auto t = path == 2 ? AccessorType::Vec4 : path == 4 ? AccessorType::Scalar : AccessorType::Vec3;
					if (path == 4) outs *= mi[*a.nodes[node].meshIndex].targets;
					sm.outputAccessor = addAccessor(t, ComponentType::Float, outs, false, false);
					x.samplers.emplace_back(sm);
					AnimationChannel c{};
					c.samplerIndex = x.samplers.size() - 1;
					c.nodeIndex = node;
					c.path = static_cast<AnimationPath>(path);
					x.channels.emplace_back(c);
				}
				a.animations.emplace_back(std::move(x));
			}
		}
		// stray accessors: unusual types, doubles
		if (maybe(1, 5)) {
			static const AccessorType ts[] = {AccessorType::Scalar, AccessorType::Vec2, AccessorType::Vec3, AccessorType::Vec4, AccessorType::Mat2, AccessorType::Mat3, AccessorType::Mat4};
			static const ComponentType cs[] = {ComponentType::Byte, ComponentType::UnsignedByte, ComponentType::Short, ComponentType::UnsignedShort, ComponentType::UnsignedInt, ComponentType::Float, ComponentType::Double, ComponentType::Int};
			auto t = ts[s.pick(7)];
			auto c = cs[s.pick(8)];
			if (c == ComponentType::Double) used.insert("KHR_accessor_float64");
			addAccessor(t, c, s.range(1, 9), false, maybe());
		}
		// meshopt
		if (o.meshopt && maybe(1, 6)) {
			used.insert("EXT_meshopt_compression");
			fallback = maybe();
			auto k = s.range(1, 2);
			for (std::uint32_t i = 0; i < k; ++i) {
				auto mode = static_cast<MeshoptCompressionMode>(s.pick(3));
				std::size_t stride = mode == MeshoptCompressionMode::Attributes ? 4u * s.range(1, 8) : (maybe() ? 2 : 4);
				std::size_t count = mode == MeshoptCompressionMode::Triangles ? 3u * s.range(1, 6) : s.range(1, 12);
				auto v = addView(stride * count, 4, mode == MeshoptCompressionMode::Attributes ? stride : 0, 0, false);
				auto cv = addView(s.range(1, 50), 4, 0, 0, false);
				auto m = std::make_unique<CompressedBufferView>();
				m->bufferIndex = a.bufferViews[cv].bufferIndex;
				m->byteOffset = a.bufferViews[cv].byteOffset;
				m->byteLength = a.bufferViews[cv].byteLength;
				m->byteStride = stride;
				m->count = count;
				m->mode = mode;
				m->filter = mode == MeshoptCompressionMode::Attributes ? static_cast<MeshoptCompressionFilter>(s.pick(4)) : MeshoptCompressionFilter::None;
				a.bufferViews[v].meshoptCompression = std::move(m);
			}
			if (fallback) {
				// one view per fallback buffer, all of it compressed
				std::size_t len = 4u * s.range(3, 20), stride = 4, count = len / 4;
				auto cv = addView(s.range(1, 40), 4, 0, 0, false);
				BufferView v{};
				v.bufferIndex = buf.size();
				v.byteLength = len;
				v.byteStride = stride;
				v.meshoptCompression = std::make_unique<CompressedBufferView>();
				auto& m = *v.meshoptCompression;
				m.bufferIndex = a.bufferViews[cv].bufferIndex;
				m.byteOffset = a.bufferViews[cv].byteOffset;
				m.byteLength = a.bufferViews[cv].byteLength;
				m.byteStride = stride; m.count = count; m.mode = MeshoptCompressionMode::Attributes; m.filter = MeshoptCompressionFilter::None;
				a.bufferViews.emplace_back(std::move(v));
				Buffer fb{};
				fb.byteLength = len;
				fb.data = sources::Fallback{};
				a.buffers.emplace_back(std::move(fb)); // moved to the end below
			}
		}
		// buffers
		std::vector<Buffer> fb;
		for (auto& b : a.buffers) fb.push_back(std::move(b));
		a.buffers.clear();
		for (auto& b : buf) {
			if (o.bigBuffers && maybe(1, 2)) { auto extra = randomBytes(s, s.range(4000, 20000)); b.insert(b.end(), extra.begin(), extra.end()); }
			if (maybe(1, 2) || b.empty()) { auto extra = randomBytes(s, s.range(1, 7)); b.insert(b.end(), extra.begin(), extra.end()); }
			Buffer x{};
			x.byteLength = b.size();
			if (o.fileNames) nameStr(x.name);
			else { auto v = randomName(s, false); x.name.assign(v.data(), v.size()); }
			if (maybe()) {
				sources::Array y{StaticVector<std::byte>(b.size()), MimeType::GltfBuffer};
				std::memcpy(y.bytes.data(), b.data(), b.size());
				x.data = std::move(y);
			} else {
				sources::Vector y{std::vector<std::byte>(b.size()), MimeType::GltfBuffer};
				std::memcpy(y.bytes.data(), b.data(), b.size());
				x.data = std::move(y);
			}
			a.buffers.emplace_back(std::move(x));
		}
		for (auto& b : fb) { a.buffers.emplace_back(std::move(b)); }
		if (o.remote && maybe(1, 10)) { // a buffer that is somewhere else
			Buffer x{};
			x.byteLength = s.range(1, 1000);
			nameStr(x.name);
			sources::URI u;
			u.fileByteOffset = 0;
			u.uri = makeUri(".bin", true);
			u.mimeType = MimeType::None;
			x.data = std::move(u);
			a.buffers.emplace_back(std::move(x));
		}
		// extensions
		std::vector<std::string> us(used.begin(), used.end());
		for (std::size_t i = us.size(); i > 1; --i) std::swap(us[i - 1], us[s.pick(static_cast<std::uint32_t>(i))]);
		if (maybe(1, 6)) us.push_back(odd("VENDOR_unknown"));
		for (auto& e : us) a.extensionsUsed.emplace_back(e.c_str());
		for (auto& e : us)
			if (e.compare(0, 7, "VENDOR_") != 0 && (e == "EXT_meshopt_compression" ? fallback : maybe(1, 3))) a.extensionsRequired.emplace_back(e.c_str());
		a.availableCategories = Category::All;
		return std::move(a);
	}
};
} // namespace

Asset generate(Sim& s, const GenOpts& o) {
	sim::HostScope hs;
	G g(s, o);
	return g.run();
}

std::vector<std::pair<std::uint32_t, std::size_t>> categoryCounts(const Asset& a) {
	return {
		{static_cast<std::uint32_t>(Category::Accessors), a.accessors.size()}, {static_cast<std::uint32_t>(Category::Animations), a.animations.size()},
		{static_cast<std::uint32_t>(Category::Buffers), a.buffers.size()}, {static_cast<std::uint32_t>(Category::BufferViews), a.bufferViews.size()},
		{static_cast<std::uint32_t>(Category::Cameras), a.cameras.size()}, {static_cast<std::uint32_t>(Category::Images), a.images.size()},
		{static_cast<std::uint32_t>(Category::Materials), a.materials.size()}, {static_cast<std::uint32_t>(Category::Meshes), a.meshes.size()},
		{static_cast<std::uint32_t>(Category::Nodes), a.nodes.size()}, {static_cast<std::uint32_t>(Category::Samplers), a.samplers.size()},
		{static_cast<std::uint32_t>(Category::Scenes), a.scenes.size()}, {static_cast<std::uint32_t>(Category::Skins), a.skins.size()},
		{static_cast<std::uint32_t>(Category::Textures), a.textures.size()}, {static_cast<std::uint32_t>(Category::Shapes), a.shapes.size()},
		{static_cast<std::uint32_t>(Category::PhysicsMaterials), a.physicsMaterials.size()}, {static_cast<std::uint32_t>(Category::CollisionFilters), a.collisionFilters.size()},
		{static_cast<std::uint32_t>(Category::PhysicsJoints), a.physicsJoints.size()},
	};
}

ExtrasMap randomExtras(Sim& s, const Asset& a) {
	ExtrasMap m;
	for (auto& [cat, cnt] : categoryCounts(a))
		for (std::size_t i = 0; i < cnt; ++i) {
			if (!s.chance(1, 3)) continue;
			std::string t = "{\"tag\":" + std::to_string(cat) + ",\"i\":" + std::to_string(i);
			switch (s.pick(4)) {
				case 0: break;
				case 1: t += ",\"text\":\"a \\\"quoted\\\" \\\\ { [ \\u00e9\""; break;
				case 2: t += ",\"nest\":{\"extras\":{\"x\":[1,2,{}]},\"name\":\"n\"}"; break;
				default: t += ",\"v\":" + std::to_string(s.pick(100000)); break;
			}
			t += "}";
			m[{cat, i}] = t;
		}
	return m;
}
} // namespace model
