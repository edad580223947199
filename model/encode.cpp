// Reference encoder: asset -> glTF JSON / GLB / external files, written from the specification and independent of the
// library's exporter.
#include <cmath>
#include "model.hpp"
#include <algorithm>
#include <cstdio>
#include <memory>

namespace model {
using sim::Sim;
using namespace fastgltf;
namespace {
struct J {
	enum K { Scalar, Str, Arr, Obj } k = Scalar;
	std::string s;
	std::vector<std::pair<std::string, J>> o;
	std::vector<J> a;
	static J obj() { J j; j.k = Obj; return j; }
	static J arr() { J j; j.k = Arr; return j; }
	static J str(std::string_view v) { J j; j.k = Str; j.s = v; return j; }
	static J raw(std::string v) { J j; j.s = std::move(v); return j; }
	static J u(std::uint64_t v) { return raw(std::to_string(v)); }
	static J b(bool v) { return raw(v ? "true" : "false"); }
	J& set(std::string_view key, J v) { o.emplace_back(std::string(key), std::move(v)); return *this; }
	bool empty() const { return k == Obj ? o.empty() : k == Arr ? a.empty() : s.empty(); }
};

struct E {
	Sim& s;
	const Asset& a;
	const EncodeOpts& o;
	Encoded r;
	bool dflt() { return o.explicitDefaults && s.chance(1, 2); }

	J num(double v, bool isFloat) {
		if (v == 0 && std::signbit(v)) return J::raw("-0.0");
		char b[64];
		bool integral = v == static_cast<double>(static_cast<long long>(std::max(-1e15, std::min(1e15, v))));
		switch (s.pick(4)) {
			case 0: snprintf(b, sizeof b, isFloat ? "%.9g" : "%.17g", v); break;
			case 1: snprintf(b, sizeof b, "%.17g", v); break;
			case 2: snprintf(b, sizeof b, "%.17E", v); break;
			default:
				if (integral) snprintf(b, sizeof b, "%lld%s", static_cast<long long>(v), s.chance(1, 2) ? ".0" : "");
				else if (std::fabs(v) >= 1e15 && std::floor(v) == v && v > -9.2e18 && v < 1.8e19) snprintf(b, sizeof b, "%.0f", v);
				else snprintf(b, sizeof b, isFloat ? "%.9e" : "%.17e", v);
		}
		return J::raw(b);
	}
	J f(float v) { return num(static_cast<double>(v), true); }
	template <class V> J vec(const V& v, std::size_t n) { J j = J::arr(); for (std::size_t i = 0; i < n; ++i) j.a.push_back(f(v[i])); return j; }
	template <class L> J ulist(const L& l) { J j = J::arr(); for (auto x : l) j.a.push_back(J::u(x)); return j; }
	template <class L> J flist(const L& l) { J j = J::arr(); for (auto x : l) j.a.push_back(f(x)); return j; }
	template <class L> J slist(const L& l) { J j = J::arr(); for (auto& x : l) j.a.push_back(J::str(x)); return j; }
	template <class L> J attrs(const L& l) { J j = J::obj(); for (auto& x : l) j.set(x.name, J::u(x.accessorIndex)); return j; }
	void name(J& j, std::string_view n) { if (!n.empty() || dflt()) j.set("name", J::str(n)); }
	void fd(J& j, const char* k, float v, float d) { if (v != d || std::signbit(v) != std::signbit(d) || dflt()) j.set(k, f(v)); }
	void ud(J& j, const char* k, std::size_t v, std::size_t d) { if (v != d || dflt()) j.set(k, J::u(v)); }
	void bd(J& j, const char* k, bool v, bool d) { if (v != d || dflt()) j.set(k, J::b(v)); }
	template <class V> void vd(J& j, const char* k, const V& v, std::size_t n, float d) {
		bool def = true;
		for (std::size_t i = 0; i < n; ++i) if (v[i] != d || std::signbit(v[i]) != std::signbit(d)) def = false;
		if (!def || dflt()) j.set(k, vec(v, n));
	}
	template <class O> void of(J& j, const char* k, const O& v) { if (v.has_value()) j.set(k, f(static_cast<float>(v.value()))); }
	template <class O> void ou(J& j, const char* k, const O& v) { if (v.has_value()) j.set(k, J::u(static_cast<std::uint64_t>(v.value()))); }
	void unknown(J& j, bool hasExt) {
		if (!o.unknownKeys || !s.chance(1, 6)) return;
		J x = J::obj();
		x.set("name", J::str("not the name")).set("list", J::arr()).set("n", J::u(7)).set("extras", J::obj());
		if (hasExt || s.chance(1, 2)) j.set("x_unknown", std::move(x));
		else { J e = J::obj(); e.set("VENDOR_other", std::move(x)); j.set("extensions", std::move(e)); }
	}
	void finish(J& j, Category c, std::size_t i, J ext = J::obj()) {
		bool has = !ext.empty();
		if (has) j.set("extensions", std::move(ext));
		auto it = o.extras.find({static_cast<std::uint32_t>(c), i});
		if (it != o.extras.end()) j.set("extras", J::raw(it->second));
		unknown(j, has);
	}

	// ---- serialiser ----
	std::string out;
	void ws() {
		if (!o.pretty) return;
		static const char* const w[] = {"", "", " ", "\n", "\t", "\r\n", "  ", "\n\t\t"};
		out += w[s.pick(8)];
	}
	void str(std::string_view v) {
		out += '"';
		for (std::size_t i = 0; i < v.size(); ++i) {
			auto c = static_cast<unsigned char>(v[i]);
			char b[16];
			if (c == '"') out += "\\\"";
			else if (c == '\\') out += "\\\\";
			else if (c < 0x20) {
				if (c == '\n') out += "\\n"; else if (c == '\t') out += "\\t"; else if (c == '\b') out += "\\b"; else if (c == '\f') out += "\\f"; else if (c == '\r') out += "\\r";
				else { snprintf(b, sizeof b, "\\u%04x", c); out += b; }
			} else if (c == '/' && o.pretty && s.chance(1, 4)) out += "\\/";
			else if (c < 0x7f && o.pretty && v.size() < 60 && s.chance(1, 30)) { snprintf(b, sizeof b, "\\u%04X", c); out += b; }
			else if (c == 0xc3 && i + 1 < v.size() && o.pretty && s.chance(1, 2)) { snprintf(b, sizeof b, "\\u%04x", ((c & 0x1f) << 6) | (static_cast<unsigned char>(v[i + 1]) & 0x3f)); out += b; ++i; }
			else if (c == 0xf0 && i + 3 < v.size() && o.pretty && s.chance(1, 2)) {
				std::uint32_t cp = ((c & 7u) << 18) | ((static_cast<unsigned char>(v[i + 1]) & 0x3fu) << 12) | ((static_cast<unsigned char>(v[i + 2]) & 0x3fu) << 6) | (static_cast<unsigned char>(v[i + 3]) & 0x3fu);
				cp -= 0x10000;
				snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xd800 + (cp >> 10), 0xdc00 + (cp & 0x3ff)); out += b; i += 3;
			} else out += static_cast<char>(c);
		}
		out += '"';
	}
	void ser(const J& j) {
		switch (j.k) {
			case J::Scalar: out += j.s; break;
			case J::Str: str(j.s); break;
			case J::Arr: {
				out += '[';
				bool first = true;
				for (auto& x : j.a) { if (!first) out += ','; first = false; ws(); ser(x); ws(); }
				if (first) ws();
				out += ']';
				break;
			}
			case J::Obj: {
				std::vector<std::size_t> ord(j.o.size());
				for (std::size_t i = 0; i < ord.size(); ++i) ord[i] = i;
				if (o.shuffle) for (std::size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[s.pick(static_cast<std::uint32_t>(i))]);
				out += '{';
				bool first = true;
				for (auto i : ord) { if (!first) out += ','; first = false; ws(); str(j.o[i].first); ws(); out += ':'; ws(); ser(j.o[i].second); ws(); }
				if (first) ws();
				out += '}';
				break;
			}
		}
	}

	// ---- content placement ----
	std::string rawUri(const URI& u) {
		auto it = uris().find(std::string(u.string()));
		return it == uris().end() ? std::string(u.string()) : it->second.raw;
	}
	std::string fileFor(const char* base, std::size_t i, const char* ext, const Bytes& content, std::string& uri) {
		static const char* const plain[] = {"data", "mesh", "part-", "A.b"};
		std::string p = s.chance(1, 3) ? std::string(plain[s.pick(4)]) + std::to_string(i) : base + std::to_string(i);
		uri = p;
		if (s.chance(1, 4)) { p += " x"; uri += "%20x"; }
		if (s.chance(1, 8)) { p += "#1"; uri += "%231"; }
		if (s.chance(1, 8)) { p += "\xc3\xa9"; uri += s.chance(1, 2) ? "%C3%A9" : "\xc3\xa9"; }
		if (s.chance(1, 8)) { p += "%"; uri += "%25"; }
		p += "_"; uri += "_"; // keeps names of the same index apart
		p += base; uri += base;
		p += ext; uri += ext;
		if (o.subdirs && s.chance(1, 3)) { p = "sub/" + p; uri = "sub/" + uri; }
		r.files[p] = content;
		return p;
	}
	static const char* mimeText(MimeType m) {
		switch (m) {
			case MimeType::JPEG: return "image/jpeg";
			case MimeType::PNG: return "image/png";
			case MimeType::KTX2: return "image/ktx2";
			case MimeType::DDS: return "image/vnd-ms.dds";
			case MimeType::WEBP: return "image/webp";
			case MimeType::GltfBuffer: return "application/gltf-buffer";
			default: return "application/octet-stream";
		}
	}
	static bool held(const DataSource& d, Bytes& b, MimeType& m) {
		if (auto* x = std::get_if<sources::Array>(&d)) { auto* p = reinterpret_cast<const unsigned char*>(x->bytes.data()); b.assign(p, p + x->bytes.size()); m = x->mimeType; return true; }
		if (auto* x = std::get_if<sources::Vector>(&d)) { auto* p = reinterpret_cast<const unsigned char*>(x->bytes.data()); b.assign(p, p + x->bytes.size()); m = x->mimeType; return true; }
		if (auto* x = std::get_if<sources::ByteView>(&d)) { auto* p = reinterpret_cast<const unsigned char*>(x->bytes.data()); b.assign(p, p + x->bytes.size()); m = x->mimeType; return true; }
		return false;
	}
	Bytes bin;

	J texInfo(const TextureInfo& t) {
		J j = J::obj();
		j.set("index", J::u(t.textureIndex));
		ud(j, "texCoord", t.texCoordIndex, 0);
		J ext = J::obj();
		if (t.transform) {
			J x = J::obj();
			fd(x, "rotation", t.transform->rotation, 0);
			vd(x, "offset", t.transform->uvOffset, 2, 0);
			vd(x, "scale", t.transform->uvScale, 2, 1);
			ou(x, "texCoord", t.transform->texCoordIndex);
			ext.set("KHR_texture_transform", std::move(x));
		}
		bool has = !ext.empty();
		if (has) j.set("extensions", std::move(ext));
		unknown(j, has);
		return j;
	}
	template <class O> void tex(J& j, const char* k, const O& t) { if (t.has_value()) j.set(k, texInfo(t.value())); }
	void texN(J& j, const char* k, const Optional<NormalTextureInfo>& t) { if (t.has_value()) { J x = texInfo(t.value()); fd(x, "scale", t->scale, 1); j.set(k, std::move(x)); } }
	void texO(J& j, const char* k, const Optional<OcclusionTextureInfo>& t) { if (t.has_value()) { J x = texInfo(t.value()); fd(x, "strength", t->strength, 1); j.set(k, std::move(x)); } }

	J geometry(const Geometry& g) {
		J j = J::obj();
		ou(j, "shape", g.shape);
		ou(j, "node", g.node);
		bd(j, "convexHull", g.convexHull, false);
		return j;
	}

	template <class L, class F> void list(J& root, const char* key, const L& l, F fn) {
		if (l.empty()) return; // glTF: arrays are non-empty
		J arr = J::arr();
		std::size_t i = 0;
		for (auto& x : l) { J j = J::obj(); fn(j, x, i++); arr.a.push_back(std::move(j)); }
		root.set(key, std::move(arr));
	}

	void run() {
		J root = J::obj();
		if (a.assetInfo.has_value()) {
			J x = J::obj();
			x.set("version", J::str(a.assetInfo->gltfVersion));
			if (!a.assetInfo->copyright.empty()) x.set("copyright", J::str(a.assetInfo->copyright));
			if (!a.assetInfo->generator.empty()) x.set("generator", J::str(a.assetInfo->generator));
			root.set("asset", std::move(x));
		}
		if (!a.extensionsUsed.empty()) root.set("extensionsUsed", slist(a.extensionsUsed));
		if (!a.extensionsRequired.empty()) root.set("extensionsRequired", slist(a.extensionsRequired));
		ou(root, "scene", a.defaultScene);

		list(root, "accessors", a.accessors, [&](J& j, const Accessor& x, std::size_t i) {
			j.set("componentType", J::u(getGLComponentType(x.componentType)));
			j.set("count", J::u(x.count));
			j.set("type", J::str(getAccessorTypeName(x.type)));
			ou(j, "bufferView", x.bufferViewIndex);
			if (x.bufferViewIndex.has_value() || x.byteOffset) ud(j, "byteOffset", x.byteOffset, 0);
			bd(j, "normalized", x.normalized, false);
			auto bounds = [&](const char* k, const std::optional<AccessorBoundsArray>& b) {
				if (!b) return;
				J v = J::arr();
				for (std::size_t q = 0; q < b->size(); ++q) v.a.push_back(b->isType<double>() ? num(b->get<double>(q), false) : J::raw(std::to_string(b->get<std::int64_t>(q))));
				j.set(k, std::move(v));
			};
			bounds("max", x.max);
			bounds("min", x.min);
			if (x.sparse.has_value()) {
				auto& sp = x.sparse.value();
				J ind = J::obj(), val = J::obj(), q = J::obj();
				ind.set("bufferView", J::u(sp.indicesBufferView));
				ud(ind, "byteOffset", sp.indicesByteOffset, 0);
				ind.set("componentType", J::u(getGLComponentType(sp.indexComponentType)));
				val.set("bufferView", J::u(sp.valuesBufferView));
				ud(val, "byteOffset", sp.valuesByteOffset, 0);
				q.set("count", J::u(sp.count)).set("indices", std::move(ind)).set("values", std::move(val));
				j.set("sparse", std::move(q));
			}
			name(j, x.name);
			finish(j, Category::Accessors, i);
		});
		list(root, "animations", a.animations, [&](J& j, const Animation& x, std::size_t i) {
			J ch = J::arr(), sm = J::arr();
			static const char* const paths[] = {"", "translation", "rotation", "scale", "weights"};
			static const char* const ip[] = {"LINEAR", "STEP", "CUBICSPLINE"};
			for (auto& c : x.channels) {
				J q = J::obj(), t = J::obj();
				ou(t, "node", c.nodeIndex);
				t.set("path", J::str(paths[static_cast<int>(c.path)]));
				q.set("sampler", J::u(c.samplerIndex)).set("target", std::move(t));
				unknown(q, false);
				ch.a.push_back(std::move(q));
			}
			for (auto& c : x.samplers) {
				J q = J::obj();
				q.set("input", J::u(c.inputAccessor)).set("output", J::u(c.outputAccessor));
				if (c.interpolation != AnimationInterpolation::Linear || dflt()) q.set("interpolation", J::str(ip[static_cast<int>(c.interpolation)]));
				unknown(q, false);
				sm.a.push_back(std::move(q));
			}
			j.set("channels", std::move(ch)).set("samplers", std::move(sm));
			name(j, x.name);
			finish(j, Category::Animations, i);
		});
		r.bufferPlace.resize(a.buffers.size(), Place::DataUri);
		r.bufferFile.resize(a.buffers.size());
		list(root, "buffers", a.buffers, [&](J& j, const Buffer& x, std::size_t i) {
			J ext = J::obj();
			j.set("byteLength", J::u(x.byteLength));
			Bytes b; MimeType m{};
			if (held(x.data, b, m)) {
				Place p = o.place == 1 ? Place::DataUri : o.place == 2 ? Place::File : (s.chance(1, 2) ? Place::File : Place::DataUri);
				if (o.glb && i == 0 && s.chance(9, 10)) p = Place::Glb;
				r.bufferPlace[i] = p;
				if (p == Place::Glb) bin = b;
				else if (p == Place::DataUri) j.set("uri", J::str(std::string(s.chance(1, 2) ? "data:application/octet-stream;base64," : "data:application/gltf-buffer;base64,") + base64(b)));
				else { std::string uri; r.bufferFile[i] = fileFor("buf", i, ".bin", b, uri); j.set("uri", J::str(uri)); }
			} else if (auto* u = std::get_if<sources::URI>(&x.data)) { j.set("uri", J::str(rawUri(u->uri))); r.bufferPlace[i] = Place::Remote; }
			else if (std::holds_alternative<sources::Fallback>(x.data)) { J q = J::obj(); q.set("fallback", J::b(true)); ext.set("EXT_meshopt_compression", std::move(q)); }
			name(j, x.name);
			finish(j, Category::Buffers, i, std::move(ext));
		});
		list(root, "bufferViews", a.bufferViews, [&](J& j, const BufferView& x, std::size_t i) {
			J ext = J::obj();
			j.set("buffer", J::u(x.bufferIndex));
			ud(j, "byteOffset", x.byteOffset, 0);
			j.set("byteLength", J::u(x.byteLength));
			ou(j, "byteStride", x.byteStride);
			ou(j, "target", x.target);
			if (x.meshoptCompression) {
				auto& m = *x.meshoptCompression;
				J q = J::obj();
				static const char* const modes[] = {"ATTRIBUTES", "TRIANGLES", "INDICES"};
				static const char* const fl[] = {"NONE", "OCTAHEDRAL", "QUATERNION", "EXPONENTIAL"};
				q.set("buffer", J::u(m.bufferIndex));
				ud(q, "byteOffset", m.byteOffset, 0);
				q.set("byteLength", J::u(m.byteLength)).set("byteStride", J::u(m.byteStride)).set("count", J::u(m.count)).set("mode", J::str(modes[static_cast<int>(m.mode)]));
				if (m.filter != MeshoptCompressionFilter::None || dflt()) q.set("filter", J::str(fl[static_cast<int>(m.filter)]));
				ext.set("EXT_meshopt_compression", std::move(q));
			}
			name(j, x.name);
			finish(j, Category::BufferViews, i, std::move(ext));
		});
		list(root, "cameras", a.cameras, [&](J& j, const Camera& x, std::size_t i) {
			J q = J::obj();
			if (auto* p = std::get_if<Camera::Perspective>(&x.camera)) {
				of(q, "aspectRatio", p->aspectRatio); q.set("yfov", f(p->yfov)); of(q, "zfar", p->zfar); q.set("znear", f(p->znear));
				j.set("type", J::str("perspective")).set("perspective", std::move(q));
			} else {
				auto& c = std::get<Camera::Orthographic>(x.camera);
				q.set("xmag", f(c.xmag)).set("ymag", f(c.ymag)).set("zfar", f(c.zfar)).set("znear", f(c.znear));
				j.set("type", J::str("orthographic")).set("orthographic", std::move(q));
			}
			name(j, x.name);
			finish(j, Category::Cameras, i);
		});
		r.imagePlace.resize(a.images.size(), Place::DataUri);
		r.imageFile.resize(a.images.size());
		list(root, "images", a.images, [&](J& j, const Image& x, std::size_t i) {
			Bytes b; MimeType m{};
			if (auto* v = std::get_if<sources::BufferView>(&x.data)) j.set("bufferView", J::u(v->bufferViewIndex)).set("mimeType", J::str(mimeText(v->mimeType)));
			else if (auto* u = std::get_if<sources::URI>(&x.data)) { j.set("uri", J::str(rawUri(u->uri))); if (u->mimeType != MimeType::None) j.set("mimeType", J::str(mimeText(u->mimeType))); }
			else if (held(x.data, b, m)) {
				Place p = o.place == 1 ? Place::DataUri : o.place == 2 ? Place::File : (s.chance(1, 2) ? Place::File : Place::DataUri);
				r.imagePlace[i] = p;
				if (p == Place::DataUri) {
					j.set("uri", J::str(std::string("data:") + mimeText(m) + ";base64," + base64(b)));
					if (dflt()) j.set("mimeType", J::str(mimeText(m)));
				} else { std::string uri; r.imageFile[i] = fileFor("img", i, ".img", b, uri); j.set("uri", J::str(uri)); j.set("mimeType", J::str(mimeText(m))); }
			}
			name(j, x.name);
			finish(j, Category::Images, i);
		});
		list(root, "materials", a.materials, [&](J& j, const Material& x, std::size_t i) {
			J p = J::obj(), ext = J::obj();
			vd(p, "baseColorFactor", x.pbrData.baseColorFactor, 4, 1);
			fd(p, "metallicFactor", x.pbrData.metallicFactor, 1);
			fd(p, "roughnessFactor", x.pbrData.roughnessFactor, 1);
			tex(p, "baseColorTexture", x.pbrData.baseColorTexture);
			tex(p, "metallicRoughnessTexture", x.pbrData.metallicRoughnessTexture);
			if (!p.empty() || dflt()) j.set("pbrMetallicRoughness", std::move(p));
			texN(j, "normalTexture", x.normalTexture);
			texO(j, "occlusionTexture", x.occlusionTexture);
			tex(j, "emissiveTexture", x.emissiveTexture);
			vd(j, "emissiveFactor", x.emissiveFactor, 3, 0);
			static const char* const modes[] = {"OPAQUE", "MASK", "BLEND"};
			if (x.alphaMode != AlphaMode::Opaque || dflt()) j.set("alphaMode", J::str(modes[static_cast<int>(x.alphaMode)]));
			fd(j, "alphaCutoff", x.alphaCutoff, 0.5f);
			bd(j, "doubleSided", x.doubleSided, false);
			auto has = [&](const char* e) { for (auto& q : a.extensionsUsed) if (q == e) return true; return false; };
			if (x.unlit) ext.set("KHR_materials_unlit", J::obj());
			auto single = [&](const char* e, const char* k, float v, float d) {
				if (v == d && std::signbit(v) == std::signbit(d) && !(has(e) && dflt())) return;
				J q = J::obj(); q.set(k, f(v)); ext.set(e, std::move(q));
			};
			single("KHR_materials_emissive_strength", "emissiveStrength", x.emissiveStrength, 1.f);
			single("KHR_materials_ior", "ior", x.ior, 1.5f);
			single("KHR_materials_dispersion", "dispersion", x.dispersion, 0.f);
			if (x.anisotropy) { J q = J::obj(); auto& c = *x.anisotropy; fd(q, "anisotropyStrength", c.anisotropyStrength, 0); fd(q, "anisotropyRotation", c.anisotropyRotation, 0); tex(q, "anisotropyTexture", c.anisotropyTexture); ext.set("KHR_materials_anisotropy", std::move(q)); }
			if (x.clearcoat) { J q = J::obj(); auto& c = *x.clearcoat; fd(q, "clearcoatFactor", c.clearcoatFactor, 0); tex(q, "clearcoatTexture", c.clearcoatTexture); fd(q, "clearcoatRoughnessFactor", c.clearcoatRoughnessFactor, 0); tex(q, "clearcoatRoughnessTexture", c.clearcoatRoughnessTexture); texN(q, "clearcoatNormalTexture", c.clearcoatNormalTexture); ext.set("KHR_materials_clearcoat", std::move(q)); }
			if (x.diffuseTransmission) { J q = J::obj(); auto& c = *x.diffuseTransmission; fd(q, "diffuseTransmissionFactor", c.diffuseTransmissionFactor, 0); tex(q, "diffuseTransmissionTexture", c.diffuseTransmissionTexture); vd(q, "diffuseTransmissionColorFactor", c.diffuseTransmissionColorFactor, 3, 1); tex(q, "diffuseTransmissionColorTexture", c.diffuseTransmissionColorTexture); ext.set("KHR_materials_diffuse_transmission", std::move(q)); }
			if (x.iridescence) { J q = J::obj(); auto& c = *x.iridescence; fd(q, "iridescenceFactor", c.iridescenceFactor, 0); tex(q, "iridescenceTexture", c.iridescenceTexture); fd(q, "iridescenceIor", c.iridescenceIor, 1.3f); fd(q, "iridescenceThicknessMinimum", c.iridescenceThicknessMinimum, 100); fd(q, "iridescenceThicknessMaximum", c.iridescenceThicknessMaximum, 400); tex(q, "iridescenceThicknessTexture", c.iridescenceThicknessTexture); ext.set("KHR_materials_iridescence", std::move(q)); }
			if (x.sheen) { J q = J::obj(); auto& c = *x.sheen; vd(q, "sheenColorFactor", c.sheenColorFactor, 3, 0); tex(q, "sheenColorTexture", c.sheenColorTexture); fd(q, "sheenRoughnessFactor", c.sheenRoughnessFactor, 0); tex(q, "sheenRoughnessTexture", c.sheenRoughnessTexture); ext.set("KHR_materials_sheen", std::move(q)); }
			if (x.specular) { J q = J::obj(); auto& c = *x.specular; fd(q, "specularFactor", c.specularFactor, 1); tex(q, "specularTexture", c.specularTexture); vd(q, "specularColorFactor", c.specularColorFactor, 3, 1); tex(q, "specularColorTexture", c.specularColorTexture); ext.set("KHR_materials_specular", std::move(q)); }
			if (x.specularGlossiness) { J q = J::obj(); auto& c = *x.specularGlossiness; vd(q, "diffuseFactor", c.diffuseFactor, 4, 1); tex(q, "diffuseTexture", c.diffuseTexture); vd(q, "specularFactor", c.specularFactor, 3, 1); fd(q, "glossinessFactor", c.glossinessFactor, 1); tex(q, "specularGlossinessTexture", c.specularGlossinessTexture); ext.set("KHR_materials_pbrSpecularGlossiness", std::move(q)); }
			if (x.transmission) { J q = J::obj(); fd(q, "transmissionFactor", x.transmission->transmissionFactor, 0); tex(q, "transmissionTexture", x.transmission->transmissionTexture); ext.set("KHR_materials_transmission", std::move(q)); }
			if (x.volume) { J q = J::obj(); auto& c = *x.volume; fd(q, "thicknessFactor", c.thicknessFactor, 0); tex(q, "thicknessTexture", c.thicknessTexture); if (c.attenuationDistance - c.attenuationDistance == 0) q.set("attenuationDistance", f(c.attenuationDistance)); vd(q, "attenuationColor", c.attenuationColor, 3, 1); ext.set("KHR_materials_volume", std::move(q)); }
			if (x.packedNormalMetallicRoughnessTexture.has_value()) { J q = J::obj(); tex(q, "normalRoughnessMetallicTexture", x.packedNormalMetallicRoughnessTexture); ext.set("MSFT_packing_normalRoughnessMetallic", std::move(q)); }
			if (x.packedOcclusionRoughnessMetallicTextures) { J q = J::obj(); auto& c = *x.packedOcclusionRoughnessMetallicTextures; tex(q, "occlusionRoughnessMetallicTexture", c.occlusionRoughnessMetallicTexture); tex(q, "roughnessMetallicOcclusionTexture", c.roughnessMetallicOcclusionTexture); tex(q, "normalTexture", c.normalTexture); ext.set("MSFT_packing_occlusionRoughnessMetallic", std::move(q)); }
			name(j, x.name);
			finish(j, Category::Materials, i, std::move(ext));
		});
		list(root, "meshes", a.meshes, [&](J& j, const Mesh& x, std::size_t i) {
			J ps = J::arr();
			for (auto& p : x.primitives) {
				J q = J::obj(), ext = J::obj();
				q.set("attributes", attrs(p.attributes));
				if (p.type != PrimitiveType::Triangles || dflt()) q.set("mode", J::u(static_cast<unsigned>(p.type)));
				ou(q, "indices", p.indicesAccessor);
				ou(q, "material", p.materialIndex);
				if (!p.targets.empty()) { J t = J::arr(); for (auto& l : p.targets) t.a.push_back(attrs(l)); q.set("targets", std::move(t)); }
				if (!p.mappings.empty()) {
					// group the variants by material, in one or several entries
					J ms = J::arr();
					std::vector<bool> done(p.mappings.size(), false);
					for (std::size_t v = 0; v < p.mappings.size(); ++v) {
						if (done[v] || !p.mappings[v].has_value()) continue;
						J m = J::obj(), vs = J::arr();
						bool merge = s.chance(1, 2);
						for (std::size_t w = v; w < p.mappings.size(); ++w)
							if (!done[w] && p.mappings[w].has_value() && p.mappings[w].value() == p.mappings[v].value() && (w == v || merge)) { vs.a.push_back(J::u(w)); done[w] = true; }
						m.set("material", J::u(p.mappings[v].value())).set("variants", std::move(vs));
						ms.a.push_back(std::move(m));
					}
					if (s.chance(1, 2)) std::reverse(ms.a.begin(), ms.a.end());
					J e = J::obj(); e.set("mappings", std::move(ms)); ext.set("KHR_materials_variants", std::move(e));
				}
				if (p.dracoCompression) { J e = J::obj(); e.set("bufferView", J::u(p.dracoCompression->bufferView)).set("attributes", attrs(p.dracoCompression->attributes)); ext.set("KHR_draco_mesh_compression", std::move(e)); }
				bool has = !ext.empty();
				if (has) q.set("extensions", std::move(ext));
				unknown(q, has);
				ps.a.push_back(std::move(q));
			}
			j.set("primitives", std::move(ps));
			if (!x.weights.empty()) j.set("weights", flist(x.weights));
			name(j, x.name);
			finish(j, Category::Meshes, i);
		});
		list(root, "nodes", a.nodes, [&](J& j, const Node& x, std::size_t i) {
			J ext = J::obj();
			ou(j, "mesh", x.meshIndex); ou(j, "skin", x.skinIndex); ou(j, "camera", x.cameraIndex);
			if (!x.children.empty()) j.set("children", ulist(x.children));
			if (!x.weights.empty()) j.set("weights", flist(x.weights));
			if (auto* t = std::get_if<TRS>(&x.transform)) {
				vd(j, "translation", t->translation, 3, 0);
				float rot[4] = {t->rotation.x(), t->rotation.y(), t->rotation.z(), t->rotation.w()};
				if (rot[0] != 0 || rot[1] != 0 || rot[2] != 0 || rot[3] != 1 || std::signbit(rot[0]) || std::signbit(rot[1]) || std::signbit(rot[2]) || dflt()) j.set("rotation", vec(rot, 4));
				vd(j, "scale", t->scale, 3, 1);
			} else {
				auto& m = std::get<math::fmat4x4>(x.transform);
				J v = J::arr();
				for (std::size_t c = 0; c < 4; ++c) for (std::size_t q = 0; q < 4; ++q) v.a.push_back(f(m.col(c)[q]));
				j.set("matrix", std::move(v));
			}
			if (x.lightIndex.has_value()) { J q = J::obj(); q.set("light", J::u(x.lightIndex.value())); ext.set("KHR_lights_punctual", std::move(q)); }
			if (!x.instancingAttributes.empty()) { J q = J::obj(); q.set("attributes", attrs(x.instancingAttributes)); ext.set("EXT_mesh_gpu_instancing", std::move(q)); }
			auto flag = [&](const char* e, const char* k, bool v) { if (!v) { J q = J::obj(); q.set(k, J::b(v)); ext.set(e, std::move(q)); } };
			flag("KHR_node_visibility", "visible", x.visible);
			flag("KHR_node_selectability", "selectable", x.selectable);
			flag("KHR_node_hoverability", "hoverable", x.hoverable);
			if (x.physicsRigidBody) {
				auto& b = *x.physicsRigidBody;
				J e = J::obj();
				if (b.motion.has_value()) {
					auto& m = b.motion.value();
					J q = J::obj();
					bd(q, "isKinematic", m.isKinematic, false); of(q, "mass", m.mass); vd(q, "centerOfMass", m.centerOfMass, 3, 0);
					if (m.inertialDiagonal.has_value()) q.set("inertiaDiagonal", vec(m.inertialDiagonal.value(), 3));
					if (m.inertialOrientation.has_value()) q.set("inertiaOrientation", vec(m.inertialOrientation.value(), 4));
					vd(q, "linearVelocity", m.linearVelocity, 3, 0); vd(q, "angularVelocity", m.angularVelocity, 3, 0); fd(q, "gravityFactor", m.gravityFactor, 1);
					e.set("motion", std::move(q));
				}
				if (b.collider.has_value()) {
					auto& c = b.collider.value();
					J q = J::obj();
					q.set("geometry", geometry(c.geometry)); ou(q, "physicsMaterial", c.physicsMaterial); ou(q, "collisionFilter", c.collisionFilter);
					e.set("collider", std::move(q));
				}
				if (b.trigger.has_value()) {
					J q = J::obj();
					if (auto* g = std::get_if<GeometryTrigger>(&b.trigger.value())) { q.set("geometry", geometry(g->geometry)); ou(q, "collisionFilter", g->collisionFilter); }
					else q.set("nodes", ulist(std::get<NodeTrigger>(b.trigger.value()).nodes));
					e.set("trigger", std::move(q));
				}
				if (b.joint.has_value()) {
					J q = J::obj();
					q.set("connectedNode", J::u(b.joint->connectedNode)).set("joint", J::u(b.joint->joint)); bd(q, "enableCollision", b.joint->enableCollision, false);
					e.set("joint", std::move(q));
				}
				ext.set("KHR_physics_rigid_bodies", std::move(e));
			}
			name(j, x.name);
			finish(j, Category::Nodes, i, std::move(ext));
		});
		list(root, "samplers", a.samplers, [&](J& j, const Sampler& x, std::size_t i) {
			ou(j, "magFilter", x.magFilter); ou(j, "minFilter", x.minFilter);
			ud(j, "wrapS", static_cast<std::size_t>(x.wrapS), 10497); ud(j, "wrapT", static_cast<std::size_t>(x.wrapT), 10497);
			name(j, x.name);
			finish(j, Category::Samplers, i);
		});
		list(root, "scenes", a.scenes, [&](J& j, const Scene& x, std::size_t i) {
			if (!x.nodeIndices.empty()) j.set("nodes", ulist(x.nodeIndices));
			name(j, x.name);
			finish(j, Category::Scenes, i);
		});
		list(root, "skins", a.skins, [&](J& j, const Skin& x, std::size_t i) {
			ou(j, "inverseBindMatrices", x.inverseBindMatrices); ou(j, "skeleton", x.skeleton);
			j.set("joints", ulist(x.joints));
			name(j, x.name);
			finish(j, Category::Skins, i);
		});
		list(root, "textures", a.textures, [&](J& j, const Texture& x, std::size_t i) {
			J ext = J::obj();
			ou(j, "sampler", x.samplerIndex); ou(j, "source", x.imageIndex);
			auto src = [&](const char* e, const Optional<std::size_t>& v) { if (v.has_value()) { J q = J::obj(); q.set("source", J::u(v.value())); ext.set(e, std::move(q)); } };
			src("KHR_texture_basisu", x.basisuImageIndex); src("MSFT_texture_dds", x.ddsImageIndex); src("EXT_texture_webp", x.webpImageIndex);
			name(j, x.name);
			finish(j, Category::Textures, i, std::move(ext));
		});
		J rext = J::obj();
		if (!a.lights.empty()) {
			J e = J::obj();
			list(e, "lights", a.lights, [&](J& j, const Light& x, std::size_t) {
				static const char* const types[] = {"directional", "spot", "point"};
				j.set("type", J::str(types[static_cast<int>(x.type)]));
				vd(j, "color", x.color, 3, 1); fd(j, "intensity", x.intensity, 1); of(j, "range", x.range);
				if (x.type == LightType::Spot) { J q = J::obj(); fd(q, "innerConeAngle", x.innerConeAngle.value(), 0); fd(q, "outerConeAngle", x.outerConeAngle.value(), 0.785398163397448f); j.set("spot", std::move(q)); }
				name(j, x.name);
			});
			rext.set("KHR_lights_punctual", std::move(e));
		}
		if (!a.materialVariants.empty()) {
			J e = J::obj();
			list(e, "variants", a.materialVariants, [&](J& j, const std::string& x, std::size_t) { j.set("name", J::str(x)); });
			rext.set("KHR_materials_variants", std::move(e));
		}
		if (!a.shapes.empty()) {
			J e = J::obj();
			list(e, "shapes", a.shapes, [&](J& j, const Shape& x, std::size_t i) {
				J q = J::obj();
				const char* t = "sphere";
				if (auto* v = std::get_if<SphereShape>(&x)) fd(q, "radius", v->radius, 0.5f);
				else if (auto* v2 = std::get_if<BoxShape>(&x)) { t = "box"; vd(q, "size", v2->size, 3, 1); }
				else if (auto* v3 = std::get_if<CapsuleShape>(&x)) { t = "capsule"; fd(q, "height", v3->height, 0.5f); fd(q, "radiusBottom", v3->radiusBottom, 0.25f); fd(q, "radiusTop", v3->radiusTop, 0.25f); }
				else { auto& c = std::get<CylinderShape>(x); t = "cylinder"; fd(q, "height", c.height, 0.5f); fd(q, "radiusBottom", c.radiusBottom, 0.25f); fd(q, "radiusTop", c.radiusTop, 0.25f); }
				j.set("type", J::str(t)).set(t, std::move(q));
				finish(j, Category::Shapes, i);
			});
			rext.set("KHR_implicit_shapes", std::move(e));
		}
		if (!a.physicsMaterials.empty() || !a.collisionFilters.empty() || !a.physicsJoints.empty()) {
			J e = J::obj();
			static const char* const comb[] = {"average", "minimum", "maximum", "multiply"};
			list(e, "physicsMaterials", a.physicsMaterials, [&](J& j, const PhysicsMaterial& x, std::size_t i) {
				fd(j, "staticFriction", x.staticFriction, 0.6f); fd(j, "dynamicFriction", x.dynamicFriction, 0.6f); fd(j, "restitution", x.restitution, 0);
				if (x.frictionCombine != CombineMode::Average || dflt()) j.set("frictionCombine", J::str(comb[static_cast<int>(x.frictionCombine)]));
				if (x.restitutionCombine != CombineMode::Average || dflt()) j.set("restitutionCombine", J::str(comb[static_cast<int>(x.restitutionCombine)]));
				finish(j, Category::PhysicsMaterials, i);
			});
			list(e, "collisionFilters", a.collisionFilters, [&](J& j, const CollisionFilter& x, std::size_t i) {
				if (!x.collisionSystems.empty()) j.set("collisionSystems", slist(x.collisionSystems));
				if (!x.collideWithSystems.empty()) j.set("collideWithSystems", slist(x.collideWithSystems));
				if (!x.notCollideWithSystems.empty()) j.set("notCollideWithSystems", slist(x.notCollideWithSystems));
				finish(j, Category::CollisionFilters, i);
			});
			list(e, "physicsJoints", a.physicsJoints, [&](J& j, const PhysicsJoint& x, std::size_t i) {
				if (!x.limits.empty()) {
					J l = J::arr();
					for (auto& v : x.limits) {
						J q = J::obj();
						if (!v.linearAxes.empty()) q.set("linearAxes", ulist(v.linearAxes));
						if (!v.angularAxes.empty()) q.set("angularAxes", ulist(v.angularAxes));
						of(q, "min", v.min); of(q, "max", v.max); of(q, "stiffness", v.stiffness); fd(q, "damping", v.damping, 0);
						l.a.push_back(std::move(q));
					}
					j.set("limits", std::move(l));
				}
				if (!x.drives.empty()) {
					J l = J::arr();
					for (auto& v : x.drives) {
						J q = J::obj();
						q.set("type", J::str(v.type == DriveType::Linear ? "linear" : "angular")).set("mode", J::str(v.mode == DriveMode::Force ? "force" : "acceleration")).set("axis", J::u(v.axis)).set("maxForce", f(v.maxForce));
						if (v.positionTarget != 0 || v.stiffness != 0 || std::signbit(v.positionTarget) || std::signbit(v.stiffness) || dflt()) q.set("positionTarget", f(v.positionTarget)).set("stiffness", f(v.stiffness));
						if (v.velocityTarget != 0 || v.damping != 0 || std::signbit(v.velocityTarget) || std::signbit(v.damping) || dflt()) q.set("velocityTarget", f(v.velocityTarget)).set("damping", f(v.damping));
						l.a.push_back(std::move(q));
					}
					j.set("drives", std::move(l));
				}
				finish(j, Category::PhysicsJoints, i);
			});
			rext.set("KHR_physics_rigid_bodies", std::move(e));
		}
		if (!rext.empty()) root.set("extensions", std::move(rext));
		if (o.unknownKeys && s.chance(1, 2)) {
			J x = J::arr();
			x.a.push_back(J::obj());
			J e = J::obj();
			e.set("nodes", J::arr());
			static const char* const keys[] = {"x_list", "extras", "x_thing", "Nodes", "buffers_"};
			switch (s.pick(4)) {
				case 0: root.set(keys[s.pick(5)], std::move(x)); break;
				case 1: root.set(keys[s.pick(5)], std::move(e)); break;
				case 2: root.set(keys[s.pick(5)], J::u(7)); break;
				default: root.set("x_name", J::str("unknown")); root.set("extras", std::move(e)); break;
			}
		}

		ser(root);
		r.json = out;
		r.glb = o.glb;
		if (!o.glb) {
			if (o.pretty && s.chance(1, 3)) r.json += "\n";
			r.main = toBytes(r.json);
			r.jsonLength = r.main.size();
			return;
		}
		auto put32 = [&](Bytes& b, std::uint32_t v) { for (int k = 0; k < 4; ++k) b.push_back(static_cast<unsigned char>(v >> (8 * k))); };
		Bytes json = toBytes(r.json);
		while (json.size() % 4) json.push_back(' ');
		bool hasBin = !r.bufferPlace.empty() && r.bufferPlace[0] == Place::Glb;
		Bytes padded = bin;
		while (padded.size() % 4) padded.push_back(0);
		Bytes extra;
		if (o.glbTrailing && hasBin && s.chance(1, 2)) { extra = randomBytes(s, 4u * s.range(1, 5)); }
		std::size_t total = 12 + 8 + json.size() + (hasBin ? 8 + padded.size() : 0) + (extra.empty() ? 0 : 8 + extra.size());
		auto& m = r.main;
		put32(m, 0x46546C67); put32(m, 2); put32(m, static_cast<std::uint32_t>(total));
		put32(m, static_cast<std::uint32_t>(json.size())); put32(m, 0x4E4F534A);
		r.jsonOffset = m.size(); r.jsonLength = json.size();
		m.insert(m.end(), json.begin(), json.end());
		if (hasBin) {
			put32(m, static_cast<std::uint32_t>(padded.size())); put32(m, 0x004E4942);
			r.binOffset = m.size(); r.binLength = padded.size();
			m.insert(m.end(), padded.begin(), padded.end());
		}
		if (!extra.empty()) { put32(m, static_cast<std::uint32_t>(extra.size())); put32(m, 0x12345678); m.insert(m.end(), extra.begin(), extra.end()); }
	}
};
} // namespace

std::string base64(const Bytes& b) {
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	std::size_t i = 0;
	for (; i + 2 < b.size(); i += 3) {
		std::uint32_t v = (b[i] << 16) | (b[i + 1] << 8) | b[i + 2];
		o += t[v >> 18]; o += t[(v >> 12) & 63]; o += t[(v >> 6) & 63]; o += t[v & 63];
	}
	if (i + 1 == b.size()) { std::uint32_t v = b[i] << 16; o += t[v >> 18]; o += t[(v >> 12) & 63]; o += "=="; }
	else if (i + 2 == b.size()) { std::uint32_t v = (b[i] << 16) | (b[i + 1] << 8); o += t[v >> 18]; o += t[(v >> 12) & 63]; o += t[(v >> 6) & 63]; o += '='; }
	return o;
}

Encoded encode(Sim& s, const Asset& a, const EncodeOpts& o) {
	sim::HostScope hs;
	E e{s, a, o, {}, {}, {}};
	e.run();
	return std::move(e.r);
}
} // namespace model
