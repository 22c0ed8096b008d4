// Test plug-in b: two components, the second one with an alias.
#include <lm/core.h>
extern "C" int sim_plugin_live(int);
namespace {
struct C1 : lm::Component { C1() { sim_plugin_live(1); } ~C1() { sim_plugin_live(-1); } lm::Component* underlying(const std::string&) const override { return nullptr; } lm::Json underlying_value(const std::string&) const override { return "b1"; } };
struct C2 : lm::Component { C2() { sim_plugin_live(1); } ~C2() { sim_plugin_live(-1); } lm::Component* underlying(const std::string&) const override { return nullptr; } lm::Json underlying_value(const std::string&) const override { return "b2"; } };
LM_COMP_REG_IMPL(C1, "simplug::b1");
LM_COMP_REG_IMPL_ALIAS(C2, "simplug::b2", "simalias_b");
}
