#ifndef VP_HARNESS_HPP
#define VP_HARNESS_HPP
#include "vp.hpp"
#ifdef VP_NATIVE
#include <map>
#include <string>
std::map<std::string, void (*)()> &vp_registry();
struct VpReg { VpReg(const char *n, void (*f)()) { vp_registry()[n] = f; } };
#define VP_HARNESS(name) extern "C" void name(); static VpReg vp_reg_##name(#name, name); extern "C" void name()
#else
#define VP_HARNESS(name) extern "C" void name()
#endif
// contract used in place of a callee (symbolic only)
#define VP_CONTRACT(name) extern "C"
#endif
