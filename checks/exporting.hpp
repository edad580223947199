// Workloads for the exporter scenarios.
#pragma once
#include "common.hpp"
namespace chk {
struct ExWork {
	fg::Asset asset;
	std::vector<Bytes> mem;                 // memory byte views refer to
	std::map<std::string, Bytes> refFiles;  // files the asset refers to, relative to the target's directory
	Host host;                              // keeps callback state of loaded assets alive
	bool loaded = false;
	std::string expected;                   // content dump, numbers with -0 as 0
	~ExWork() { LibScope l; asset = fg::Asset{}; }
};
struct ExOpts { model::GenOpts gen; bool byteViews = true, uris = true, mayLoad = true, collide = false, longNames = false; };
// An asset that validates, ready to be exported to a file in dir. The files it refers to are stored there.
std::unique_ptr<ExWork> makeExportWork(Sim& s, const ExOpts& o, const std::string& dir);
model::DumpOpts exportDump(const std::string& dir);
// Random export settings.
struct ExSettings {
	bool glb = false, pretty = false, validate = false;
	std::string bufferFolder, imageFolder;
	fg::ExportOptions options() const;
	std::string text() const;
	void apply(fg::Exporter& e) const;
};
ExSettings randomSettings(Sim& s);
// Does what a user does with an in-memory export: stores the output and the buffers and images it names.
// Returns a problem or "".
std::string storeExport(const ExportOut& r, const fg::Asset& a, const std::string& target);
std::vector<std::pair<std::string, Bytes>> exportedFiles(const ExportOut& r, const fg::Asset& a);
// Application side of the extras callback of an export.
struct ExHost {
	std::uint64_t magic = 0x6578686f7374;
	model::ExtrasMap give;
	std::map<std::pair<std::uint32_t, std::size_t>, int> asked;
	int calls = 0, throwAt = -1;
	std::vector<std::string> problems;
	static ExHost* current; // the one the callback has to be called with
	void install(fg::Exporter& e);
	static void remove(fg::Exporter& e);
};
std::string percent(const std::string& path);
}
