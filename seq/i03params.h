// I03: registers the properties of one type
#pragma once
#include "seq/i01.h"
namespace i01 {
inline std::vector<std::shared_ptr<variant>> instances;
inline std::vector<std::shared_ptr<void>> kept;
inline int count;
template<typename T> T first() { if constexpr(std::is_pointer_v<T> || std::is_same_v<T, Other>) return T{}; else return make<T>(1); }
template<typename P> struct Box
{
    using T = std::decay_t<P>;
    static inline T var = first<T>(), varStored = first<T>();
    T field = first<T>(), stored = first<T>();
    static void keep(T &to, P p) { if constexpr(std::is_copy_assignable_v<T>) to = p; else to.number = p.number; called<P>(p); }
    void set(P p) { keep(stored, std::forward<P>(p)); } T const &get() const { return stored; }
    static void setVar(P p) { keep(varStored, std::forward<P>(p)); } static T const &getVar() { return varStored; }
};
template<typename P> void param(char const *name)
{
    std::string n = "p" + std::to_string(count++); using B = Box<P>; using T = std::decay_t<P>;
    { auto g = global_define(); g._class<B>(n)._property("v", &B::var)._property("q", &B::getVar, &B::setVar)._property("f", &B::field)._property("p", &B::get, &B::set); }
    auto k = MetaNamespace::global()->getClass(n);
    Param p; p.name = name;
    p.form = std::is_rvalue_reference_v<P> ? RREF : !std::is_lvalue_reference_v<P> ? VALUE : std::is_const_v<std::remove_reference_t<P>> ? CREF : LREF;
    p.thing = tyOf<T>(); p.copyable = std::is_copy_constructible_v<T>; p.constTarget = std::is_pointer_v<T> && std::is_const_v<std::remove_pointer_t<T>>; p.field = std::is_same_v<P, T>;
    static B *value, *object; auto o = std::make_shared<B>(); object = o.get(); kept.push_back(o);
    instances.push_back(std::make_shared<variant>(B{})); value = const_cast<B *>(std::as_const(*instances.back()).template data<B>()); auto iv = instances.back().get();
    instances.push_back(std::make_shared<variant>(object));
    p.callee = {k->getProperty("v"), k->getProperty("q"), k->getProperty("f"), k->getProperty("p"), iv, instances.back().get()};
    p.reset = [] { B::var = first<T>(); B::varStored = first<T>(); value->field = first<T>(); value->stored = first<T>(); object->field = first<T>(); object->stored = first<T>(); };
    static auto where = [](int shape) -> T * { switch (shape) { case STATIC: return &B::var; case STATIC_PAIR: return &B::varStored; case FIELD: case FIELD_NAMED: return &value->field; case PAIR: case PAIR_NAMED: return &value->stored; case FIELD_PTR: return &object->field; default: return &object->stored; } };
    p.number = [](int shape) { return num(std::as_const(*where(shape))); }; p.address = [](int shape) -> void const * { return where(shape); };
    p.read = [](variant const &v) { return num(v.cref<T>()); }; p.writable = [](variant const &v) { return v.is<T &>(); }; p.at = [](variant const &v) -> void const * { return &v.cref<T>(); };
    if (!p.callee.var || !p.callee.varPair || !p.callee.field || !p.callee.pair) seq::fail("not registered: " + p.name);
    params().push_back(p);
}
#define PARAM(...) param<__VA_ARGS__>(#__VA_ARGS__)
} // namespace i01
