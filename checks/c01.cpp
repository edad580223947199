// C01: every byte source gives the same load result.
#include "common.hpp"
namespace {
using namespace chk;
sim::Assumption a1("C01", "the storage delivers the stored bytes, possibly in several parts or after an interruption");

void equivalence(Sim& s) {
	std::string dir = "/sim/in", path = dir + "/main.gltf";
	Bytes bytes;
	std::string what;
	bool glb = false;
	auto kind = s.weighted({6, 3, 2, 2});
	std::string expected;
	if (kind == 2) { // tiny and arbitrary files
		static const char* const tiny[] = {"", "{", "{}", " {}", "\n{}", "glTF", "glTF\x02", "{\"asset\":{\"version\":\"2.0\"}}", "\xef\xbb\xbf{\"asset\":{\"version\":\"2.0\"}}", "[]", "null", "   ", "\t\r\n {\"asset\":{\"version\":\"2.0\"}}\n", "{\"asset\":{\"version\":\"2.0\"}", "{\"asset\":{\"version\":\"\"}}"};
		bytes = model::toBytes(tiny[s.pick(std::size(tiny))]);
		if (s.chance(1, 3)) bytes = model::randomBytes(s, s.pick(40));
		else if (s.chance(1, 3)) bytes.resize(s.pick(static_cast<std::uint32_t>(bytes.size() + 1)));
		vfs::mkdirs(dir);
		what = "tiny";
		s.probe("tiny file");
	} else {
		auto g = randomGen(s);
		auto e = randomEnc(s);
		auto w = makeWork(s, g, e, dir);
		bytes = w->enc.main;
		glb = w->enc.glb;
		expected = w->expected;
		what = glb ? "glb" : "json";
		if (kind == 1) { what += " damaged: " + damage(s, bytes, glb); expected.clear(); s.probe("damaged file"); }
		if (kind == 3 && !glb) { // sizes around page boundaries, leading and trailing whitespace
			static const char ws[] = " \n\t\r";
			if (s.chance(1, 2)) { std::string lead; for (auto n = s.range(1, 20); n-- > 0;) lead += ws[s.pick(4)]; bytes.insert(bytes.begin(), lead.begin(), lead.end()); s.probe("leading whitespace"); }
			std::size_t page = 4096, want = (bytes.size() + page) / page * page + s.pick(5) - 2;
			if (s.chance(1, 3)) want -= s.pick(64);
			while (bytes.size() < want) bytes.push_back(static_cast<unsigned char>(ws[s.pick(2)]));
			s.probe("size near a page multiple");
		}
	}
	vfs::put(path, bytes);
	s.event("file of %zu bytes hash %016llx (%s)", bytes.size(), (unsigned long long) sim::fnv(bytes.data(), bytes.size()), what.c_str());
	LoadSpec l;
	l.dir = dir;
	l.opts = kExternal;
	l.cats = randomCategories(s);
	if (s.chance(1, 4)) l.opts = l.opts + fg::Options::DecomposeNodeMatrices;
	if (s.chance(1, 4)) l.opts = l.opts + fg::Options::GenerateMeshIndices;
	auto outcome = [&](int src, int entry) {
		vfs::Plan p;
		benignStorage(s, p);
		vfs::setPlan(p);
		l.entry = entry;
		auto parser = newParser();
		auto o = loadFrom(*parser, src, path, bytes, l);
		destroy(parser);
		vfs::clearPlan();
		std::string t = o.thrown.empty() && !o.opened ? std::string("error ") + errName(o.err) + "\n" : o.text();
		s.event("%s %s -> %s", srcNames[src], entryNames[entry], o.status().c_str());
		return t;
	};
	std::string ref = outcome(BYTES, AUTO);
	s.observe(ref);
	for (int src = PATH; src < SRC_COUNT; ++src) {
		auto t = outcome(src, AUTO);
		requireEqual(s, "sources-differ", sfmt("loadGltf from %s versus from bytes", srcNames[src]), ref, t);
	}
	int src = static_cast<int>(s.pick(SRC_COUNT));
	auto j = outcome(src, JSON), b = outcome(src, BINARY);
	fg::GltfType type;
	{
		auto so = openSource(static_cast<int>(s.pick(SRC_COUNT)), path, bytes);
		SIM_REQUIRE(so.ok(), "open-failed", "a readable file could not be opened: %s %s", errName(so.err), so.thrown.c_str());
		LibScope ls;
		type = fg::determineGltfFileType(*so.g);
	}
	s.event("detected %d", static_cast<int>(type));
	bool jok = j.compare(0, 5, "asset") == 0, bok = b.compare(0, 5, "asset") == 0, rok = ref.compare(0, 5, "asset") == 0;
	if (rok) s.probe("asset loaded"); else s.probe("error agreed");
	if (type == fg::GltfType::glTF) requireEqual(s, "detection", "detected as JSON, but loadGltf and loadGltfJson differ", ref, j);
	else if (type == fg::GltfType::GLB) requireEqual(s, "detection", "detected as GLB, but loadGltf and loadGltfBinary differ", ref, b);
	else {
		SIM_REQUIRE(!jok && !bok, "detection", "the container type was not detected although %s loads it", jok ? "loadGltfJson" : "loadGltfBinary");
		SIM_REQUIRE(!rok, "detection", "loadGltf gave an asset although the type was not detected");
	}
}
sim::Register r1("C01", "equivalence", 1, equivalence, true);
} // namespace
