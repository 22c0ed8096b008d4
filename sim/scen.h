// Scenario registry.
#pragma once
#include "rt.h"
#include <map>
namespace sim {
struct Scenario { const char* name; void (*fn)(); bool race; };
inline std::map<std::string, Scenario>& scenarios() { static std::map<std::string, Scenario> m; return m; }
struct RegScenario { RegScenario(const char* n, void (*f)(), bool race = false) { scenarios()[n] = { n, f, race }; } };
#define SCENARIO(id, race) static void scen_##id(); static sim::RegScenario reg_##id(#id, scen_##id, race); static void scen_##id()
#define CHECK(cond, cls, ...) do { sim::checked(); if (!(cond)) sim::violate(cls, sim::fmtv(__VA_ARGS__)); } while (0)
std::string scratch_file(const std::string& name);
}
