// Reference model: random well-formed assets, an independent encoder for them, and a canonical dump of any asset.
#pragma once
#include "../sim/core.hpp"
#include "../sim/vfs.hpp"
#include <fastgltf/core.hpp>
#include <fastgltf/types.hpp>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace model {
namespace fg = fastgltf;
using Bytes = vfs::Bytes;

struct GenOpts {
	int scale = 1;              // 0 tiny, 1 normal, 2 rich
	bool oddNames = true;       // quotes, control characters, unicode, ...
	bool fileNames = true;      // odd names also on buffers and images
	bool physics = true, materials = true, textures = true, meshes = true, animations = true, meshopt = true;
	bool bigBuffers = false;
	bool imagesInMemory = true; // images hold their bytes (Array) or refer to a buffer view
	bool godot = true;
	bool remote = true;         // images and unused buffers elsewhere, which are never loaded
	bool loose = false;         // also what the format allows and fastgltf::validate does not: textures without an image
};
// A random asset that passes fastgltf::validate and uses only what the format can represent.
fg::Asset generate(sim::Sim& s, const GenOpts& o);
fg::Extensions allExtensions();
Bytes randomBytes(sim::Sim& s, std::size_t n);
std::string randomName(sim::Sim& s, bool odd);

// URIs as the generator wrote them and what their decoded components are, by the decoded text.
struct UriParts { std::string raw, string, scheme, userinfo, host, port, path, query, fragment; };
std::map<std::string, UriParts>& uris();

// ---- canonical dump ----
struct DumpOpts {
	bool content = false;   // buffers and images by their bytes only, not by how they are held
	bool categories = true; // include availableCategories
	bool mime = true;
	bool decomposed = false;
	bool negZero = true;    // -0 and 0 differ
	bool exporting = false; // leave out what the format cannot say about an exported asset
	bool reference = false; // what the generator meant by an URI, not how the library takes it apart
	// bytes of a custom buffer id
	std::function<bool(std::uint64_t, const std::byte*&, std::size_t&)> custom;
	// bytes of an external file (of an image or a buffer), content mode only
	std::function<bool(const fg::sources::URI&, bool image, Bytes&)> external;
};
std::string dump(const fg::Asset& a, const DumpOpts& o = {});
std::string firstDifference(const std::string& a, const std::string& b);

// ---- encoder ----
using ExtrasMap = std::map<std::pair<std::uint32_t, std::size_t>, std::string>; // (category, index) -> JSON text
enum class Place { DataUri, File, Glb, Remote };
struct EncodeOpts {
	bool glb = false;
	bool pretty = false;         // random whitespace
	bool shuffle = false;        // random key order
	bool explicitDefaults = false;
	int place = 0;               // 0 random, 1 all data URIs, 2 all files
	ExtrasMap extras;
	bool randomExtras = false;   // makeWork draws some
	bool unknownKeys = false;    // members no reader knows
	bool glbTrailing = false;    // an unknown chunk after BIN
	bool subdirs = true;
};
struct Encoded {
	std::string json;
	Bytes main;                          // the JSON text or the GLB container
	bool glb = false;
	std::map<std::string, Bytes> files;  // decoded relative path -> content
	std::vector<Place> bufferPlace, imagePlace;
	std::vector<std::string> bufferFile, imageFile; // relative path for Place::File
	std::size_t binOffset = 0, binLength = 0, jsonOffset = 0, jsonLength = 0; // GLB layout
};
Encoded encode(sim::Sim& s, const fg::Asset& a, const EncodeOpts& o);
std::string base64(const Bytes& b);
ExtrasMap randomExtras(sim::Sim& s, const fg::Asset& a);
// makes the object count per category available
std::vector<std::pair<std::uint32_t, std::size_t>> categoryCounts(const fg::Asset& a);

inline Bytes toBytes(std::string_view s) { return Bytes(s.begin(), s.end()); }
} // namespace model
