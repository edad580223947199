// Compiled like the library (with access instrumentation): header-only parts of it run here.
#include "thr_lib_ops.hpp"
#include "../sim/core.hpp"
#include <fastgltf/tools.hpp>
namespace thr {
std::uint64_t readEverything(const fastgltf::Asset& a) {
	std::uint64_t h = 1;
	auto add = [&](float f) { std::uint32_t u; std::memcpy(&u, &f, 4); h = sim::mix(h, u); };
	for (auto& acc : a.accessors) {
		if (acc.count > 4096) continue;
		bool readable = true;
		auto held = [&](std::size_t view) {
			if (view >= a.bufferViews.size()) { readable = false; return; }
			auto& v = a.bufferViews[view];
			if (v.meshoptCompression || v.bufferIndex >= a.buffers.size()) { readable = false; return; }
			auto& d = a.buffers[v.bufferIndex].data;
			std::size_t n = 0;
			if (auto* x = std::get_if<fastgltf::sources::Array>(&d)) n = x->bytes.size();
			else if (auto* x = std::get_if<fastgltf::sources::Vector>(&d)) n = x->bytes.size();
			if (v.byteOffset > n || v.byteLength > n - v.byteOffset) readable = false;
		};
		auto fits = [&](std::size_t view, std::size_t off, std::size_t n, std::size_t size) {
			if (!readable) return;
			auto& v = a.bufferViews[view];
			std::size_t stride = v.byteStride ? *v.byteStride : size;
			if (n && (off > v.byteLength || (n - 1) * stride + size > v.byteLength - off)) readable = false;
		};
		auto size = fastgltf::getElementByteSize(acc.type, acc.componentType);
		if (acc.bufferViewIndex) { held(*acc.bufferViewIndex); fits(*acc.bufferViewIndex, acc.byteOffset, acc.count, size); }
		if (acc.sparse) {
			held(acc.sparse->indicesBufferView);
			fits(acc.sparse->indicesBufferView, acc.sparse->indicesByteOffset, acc.sparse->count, fastgltf::getElementByteSize(fastgltf::AccessorType::Scalar, acc.sparse->indexComponentType));
			held(acc.sparse->valuesBufferView);
			fits(acc.sparse->valuesBufferView, acc.sparse->valuesByteOffset, acc.sparse->count, size);
		}
		if (!readable) continue;
		if (acc.type == fastgltf::AccessorType::Scalar) fastgltf::iterateAccessor<float>(a, acc, [&](float f) { add(f); });
		else if (acc.type == fastgltf::AccessorType::Vec3) fastgltf::iterateAccessor<fastgltf::math::fvec3>(a, acc, [&](fastgltf::math::fvec3 v) { for (int i = 0; i < 3; ++i) add(v[i]); });
		else if (acc.type == fastgltf::AccessorType::Vec4) fastgltf::iterateAccessor<fastgltf::math::fvec4>(a, acc, [&](fastgltf::math::fvec4 v) { for (int i = 0; i < 4; ++i) add(v[i]); });
		else if (acc.type == fastgltf::AccessorType::Mat4) fastgltf::iterateAccessor<fastgltf::math::fmat4x4>(a, acc, [&](fastgltf::math::fmat4x4 m) { for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) add(m[i][k]); });
	}
	for (auto& n : a.nodes) {
		auto m = fastgltf::getTransformMatrix(n);
		for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) add(m[i][k]);
	}
	return h;
}
}
