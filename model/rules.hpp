// What makes an asset safe to use, and the rules of the format that fastgltf::validate enforces: an independent statement of both.
#pragma once
#include "model.hpp"

namespace model {
// Every index stored in an asset. The name says what it is, the size is that of the list it refers to.
void forEachReference(fg::Asset& a, const std::function<void(const char* name, std::size_t& index, std::size_t size)>& f);
struct Verdict {
	std::vector<std::string> unsafe; // references to nothing, ranges outside of what they are part of, no forest
	std::vector<std::string> rules;  // other rules that validate() enforces
	std::vector<std::string> grey;   // against the format, but nothing is said about validate()
};
Verdict judge(fg::Asset& a); // does not change the asset
// Changes one thing. Returns what, or "" when the asset has nothing of the kind drawn.
std::string breakReference(sim::Sim& s, fg::Asset& a);
std::string breakRange(sim::Sim& s, fg::Asset& a);
std::string breakHierarchy(sim::Sim& s, fg::Asset& a);
std::string breakRule(sim::Sim& s, fg::Asset& a);
} // namespace model
