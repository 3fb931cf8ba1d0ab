// I01: registers the functions, methods and constructors of one parameter type
#pragma once
#include "seq/i01.h"

namespace i01 {
// ---- functions called
template<typename P> int freeFn(P p) { called<P>(p); return 1000 + rec.number; }
template<typename P> std::string middleFn(int before, P p, std::string const &after) { rec.before = before; rec.after = num(after); called<P>(p); return std::to_string(1000 + rec.number); }
struct Host
{
    int self = 0; mutable int seen = 0;
    template<typename P> int *method(P p) { called<P>(p); self = rec.number; return &self; }
    template<typename P> int const &named(P p) const { called<P>(p); seen = rec.number; return seen; }
};
template<typename P> struct Made { int number; explicit Made(P p) { called<P>(p); number = rec.number; } Made(Made const &) = default; };

inline std::vector<std::shared_ptr<variant>> instances;
inline int count;
template<typename P> void param(char const *name)
{
    // names that are unique, functions that are the same but for the parameter
    std::string n = "p" + std::to_string(count++);
    struct HostOf: Host {}; // its only method is m
    { auto g = global_define(); g._method(n + "f", &freeFn<P>)._method(n + "m", &middleFn<P>); }
    { auto g = global_define(); g._class<Host>("Host")._method(n + "h", &Host::method<P>); }
    { auto g = global_define(); g._class<Made<P>>(n + "c").template _constructor<P>("make"); }
    { auto g = global_define(); g._class<HostOf>(n + "o").template _base<Host>()._method("m", &Host::named<P>); }
    auto root = MetaNamespace::global();
    Param p; p.name = name; using T = std::decay_t<P>;
    p.form = std::is_rvalue_reference_v<P> ? RREF : !std::is_lvalue_reference_v<P> ? VALUE : std::is_const_v<std::remove_reference_t<P>> ? CREF : LREF;
    p.thing = tyOf<T>(); p.copyable = std::is_copy_constructible_v<T>; p.constTarget = std::is_pointer_v<T> && std::is_const_v<std::remove_pointer_t<T>>;
    auto k = root->getClass(n + "c");
    MetaConstructor const *make = nullptr; for (size_t i = 0; i < k->constructorCount(); ++i) if (k->getConstructor(i)->name().substr(0, 4) == "make") make = k->getConstructor(i);
    instances.push_back(std::make_shared<variant>(HostOf{}));
    p.callee = {root->getMethod(n + "f"), root->getMethod(n + "m"), root->getClass("Host")->getMethod(n + "h"), make, instances.back().get()};
    if (!p.callee.free || !p.callee.middle || !p.callee.method || !make) seq::fail("not registered: " + p.name);
    params().push_back(p);
}
#define PARAM(...) param<__VA_ARGS__>(#__VA_ARGS__)
} // namespace i01
