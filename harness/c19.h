#pragma once
#include <cstdint>
#include <string>
#include <vector>
// one flavour of the library, seen through transcripts of enumerated uses
struct C19Space { std::string name, what; uint64_t n; std::string (*run)(uint64_t); std::string (*describe)(uint64_t); uint64_t chunk; };
struct C19Api { std::vector<C19Space> (*spaces)(bool thorough); };
extern const C19Api c19_src, c19_single;
// second translation unit that includes the single header
std::string c19_second_tu(int op, const std::string &arg);
