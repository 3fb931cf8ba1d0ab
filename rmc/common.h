// shared by the concurrent harnesses: only the public interface of the library
#pragma once
#include "rmc/rmc.h"
#include <rtti/metadefine.h>
#include <sstream>

using namespace rtti;
using rmc::Scenario;

inline MetaNamespace const *root() { return MetaNamespace::global(); }
inline int iv(variant const &v) { return v.cref<int>(); }
template<typename F> std::string thrown(F &&f)
{
    try { f(); return "ok"; }
    catch (duplicate_metaclass const &) { return "duplicate"; }
    catch (unregistered_metaclass const &) { return "unregistered"; }
    catch (definition_error const &) { return "definition"; }
    catch (bad_cast const &) { return "bad_cast"; }
    catch (invoke_error const &) { return "invoke"; }
    catch (rtti::runtime_error const &) { return "runtime"; }
}
// outcome of the whole execution: one part per thread
inline std::string g_out[4];
inline void out(std::string s) { g_out[rmc::thread()] += s; }
inline void publish() { std::string r; for (auto &s: g_out) r += s + "|"; rmc::outcome(r); }
