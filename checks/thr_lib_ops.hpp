#pragma once
#include <fastgltf/core.hpp>
#include <cstdint>
namespace thr {
// Reads every accessor through the accessor tools and every node through the transform helpers.
std::uint64_t readEverything(const fastgltf::Asset& a);
}
