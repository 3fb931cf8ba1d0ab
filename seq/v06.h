// V06: variants see the dynamic class of what they hold
#pragma once
#include "seq/seq.h"
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metanamespace.h>
#include <rtti/metaerror.h>
#include <rtti/variant.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <vector>

namespace v06 {
using namespace rtti;
template<typename... T> struct L {};

struct Graph { char const *text; void (*run)(); };
std::vector<Graph> &graphs();
struct Registrar { Registrar(char const *text, void (*run)()) { graphs().push_back({text, run}); } };

extern std::set<std::string> registered; // names of the classes that are
extern int serial;                       // every sub-object made has a number of its own
inline bool reg(char const *n) { return registered.count(n); }

// ---- C++: sub-objects reached through registered classes
template<typename S, typename F, typename... B> void visit(S *s, F &f, L<B...>);
template<typename S, typename F> void each(S *s, F &f) { if (!reg(S::name)) return; f(s); visit(s, f, typename S::Bases{}); }
template<typename S, typename F, typename... B> void visit(S *s, F &f, L<B...>) { (each(static_cast<B *>(s), f), ...); }
template<typename T, typename D> T *baseOf(D *d, bool *relative = nullptr)
{
    std::set<T *> at; auto f = [&](auto *s) { if constexpr(std::is_same_v<T, std::remove_pointer_t<decltype(s)>>) at.insert(s); };
    each(d, f); if (relative) *relative = !at.empty();
    return at.size() == 1 ? *at.begin() : nullptr;
}
// registered and among the registered bases
template<typename T, typename S, typename... B> bool relatedTo(L<B...>);
template<typename T, typename S> bool related() { return reg(S::name) && (std::is_same_v<T, S> || relatedTo<T, S>(typename S::Bases{})); }
template<typename T, typename S, typename... B> bool relatedTo(L<B...>) { return (related<T, B>() || ...); }

// what is held
struct Held
{
    variant v; bool pointer, constant;   // a pointer; what is seen is const
    char const *what; char const *cls;   // its static class
    void *self;                          // the sub-object of the static class, null for null pointers
    void const *place;                   // of the thing held, null: inside of the variant
    MetaClass const *dynamic;
    bool temporary;                      // a value held by the variant itself
};
[[noreturn]] void bad(Held const &h, char const *form, char const *target, std::string const &what);
extern long accesses;

// expected: the target sub-object (null: refused); same: the static class is the target
template<typename T> struct Target
{
    T *sub; bool same, rel; // rel: for null pointers, is a base

    template<typename F> static void const *attempt(F f) { ++accesses; try { return f(); } catch (bad_cast const &) { return nullptr; } catch (bad_variant_cast const &) { return nullptr; } catch (bad_variant_convert const &) { return nullptr; } }
    static void want(Held const &h, char const *form, void const *got, void const *expect) { if (got != expect) bad(h, form, T::name, !got ? "refused" : !expect ? "given" : "given with another address"); }
    static void want(Held const &h, char const *form, bool got, bool expect) { ++accesses; if (got != expect) bad(h, form, T::name, got ? "answers yes" : "answers no"); }

    // ---- objects
    void object(Held &h)
    {
        auto &v = h.v; auto const &cv = h.v;
        void const *any = sub, *mut = h.constant ? nullptr : sub;
        // a value is in the variant: seen through a constant variant it is const
        want(h, "is<T>", v.is<T>(), any); want(h, "is<T const>", v.is<T const>(), any); want(h, "const is<T>", cv.is<T>(), any);
        want(h, "canConvert<T>", v.canConvert<T>(), any); want(h, "const canConvert<T>", cv.canConvert<T>(), any);
        want(h, "is<T&>", v.is<T &>(), mut); want(h, "is<T const&>", v.is<T const &>(), any); want(h, "const is<T&>", cv.is<T &>(), false); want(h, "const is<T const&>", cv.is<T const &>(), any);
        want(h, "ref<T>", attempt([&] { return &v.ref<T>(); }), mut);
        want(h, "ref<T const>", attempt([&] { return &v.ref<T const>(); }), any);
        want(h, "cref<T>", attempt([&] { return &v.cref<T>(); }), any);
        want(h, "const cref<T>", attempt([&] { return &cv.cref<T>(); }), any);
        want(h, "const ref<T>", attempt([&] { return &cv.ref<T>(); }), any);
        want(h, "expiring ref<T>", attempt([&] { return &std::move(v).ref<T>(); }), any);
        want(h, "data<T>", v.data<T>(), mut); want(h, "data<T const>", v.data<T const>(), any); want(h, "const data<T>", cv.data<T>(), any);
        if (h.temporary) want(h, "rref<T>", attempt([&]() -> void const * { auto &&r = std::move(v).rref<T>(); return &r; }), any);
        int number = 0; auto copied = [&](auto &x) { number = x.template to<T>().number; return static_cast<void const *>(sub); };
        auto same = [&](char const *form, void const *got) { want(h, form, got, any); if (got && number != sub->number) bad(h, form, T::name, "gives a copy of something else"); };
        same("to<T>", attempt([&] { return copied(v); })); same("const to<T>", attempt([&] { return copied(cv); }));
        // pointers aren't objects
        want(h, "is<T*>", v.is<T *>() || v.is<T const *>() || cv.is<T const *>(), false);
        want(h, "to<T const*>", attempt([&] { return v.to<T const *>(); }), nullptr); want(h, "data<T*>", v.data<T *>() || v.data<T const *>() || cv.data<T const *>(), false);
    }
    // ---- pointers
    void pointer(Held &h)
    {
        auto &v = h.v; auto const &cv = h.v;
        bool ok = h.self ? sub != nullptr : rel, okMut = ok && !h.constant;
        want(h, "is<T*>", v.is<T *>(), okMut); want(h, "const is<T*>", cv.is<T *>(), okMut); want(h, "is<T const*>", v.is<T const *>(), ok); want(h, "const is<T const*>", cv.is<T const *>(), ok);
        want(h, "is<T*const>", v.is<T *const>(), okMut); want(h, "canConvert<T*>", v.canConvert<T *>(), okMut); want(h, "canConvert<T const*>", cv.canConvert<T const *>(), ok);
        auto to = [&](char const *form, bool expect, auto f) {
            bool given = false; void const *got = attempt([&] { void const *p = f(); given = true; return p; });
            if (given != expect) bad(h, form, T::name, given ? "given" : "refused");
            want(h, form, got, expect ? sub : nullptr);
        };
        to("to<T*>", okMut, [&] { return v.to<T *>(); }); to("const to<T*>", okMut, [&] { return cv.to<T *>(); });
        to("to<T const*>", ok, [&] { return v.to<T const *>(); }); to("const to<T const*>", ok, [&] { return cv.to<T const *>(); });
        to("to<T*const>", okMut, [&] { return v.to<T *const>(); });
        // references to pointers: those of other classes are other pointers in C++
        auto ref = [&](char const *form, bool possible, bool must, auto f) {
            ++accesses; bool given = false; void const *value = nullptr;
            try { auto &r = f(); given = true; value = r; } catch (bad_variant_cast const &) {}
            if (given && !possible) bad(h, form, T::name, "given");
            if (!given && must) bad(h, form, T::name, "refused");
            if (given && value != sub) bad(h, form, T::name, "refers to another pointer");
        };
        bool exactMut = same && !h.constant, exactConst = same && h.constant;
        bool writable = h.place == nullptr || writablePlace;
        if (!same) {
            ref("ref<T*>", false, false, [&]() -> T *& { return v.ref<T *>(); }); ref("ref<T const*>", false, false, [&]() -> T const *& { return v.ref<T const *>(); });
            if (v.data<T *>() || v.data<T const *>()) bad(h, "data<T*>", T::name, "given");
        } else {
            ref("ref<T*>", exactMut && writable, exactMut && writable, [&]() -> T *& { return v.ref<T *>(); });
            ref("ref<T const*>", exactConst && writable, exactConst && writable, [&]() -> T const *& { return v.ref<T const *>(); });
        }
        ref("ref<T*const>", okMut, exactMut, [&]() -> T *const & { return v.ref<T *const>(); });
        ref("cref<T*>", okMut, exactMut, [&]() -> T *const & { return v.cref<T *>(); }); ref("const cref<T*>", okMut, exactMut, [&]() -> T *const & { return cv.cref<T *>(); });
        ref("cref<T const*>", ok, same, [&]() -> T const *const & { return v.cref<T const *>(); }); ref("const cref<T const*>", ok, same, [&]() -> T const *const & { return cv.cref<T const *>(); });
        ref("const ref<T const*>", ok, same, [&]() -> T const *const & { return cv.ref<T const *>(); });
        // objects aren't pointers
        want(h, "is<T>", v.is<T>() || cv.is<T>() || v.is<T const &>(), false); want(h, "cref<T>", attempt([&] { return &v.cref<T>(); }), nullptr); want(h, "ref<T>", attempt([&] { return &v.ref<T>(); }), nullptr);
        want(h, "data<T>", v.data<T>(), nullptr); want(h, "to<T>", attempt([&] { return v.to<T>(), &v; }), nullptr);
    }
    bool writablePlace = false;
};

// all classes as targets of one held thing
template<typename S, typename D, typename... K> void access(Held &h, D *d, bool writablePlace, L<K...>)
{
    seq::note("%s", h.what);
    if (h.v.metaClass() != h.dynamic) bad(h, "metaClass", "", "another class");
    auto one = [&](auto *k) {
        using T = std::remove_pointer_t<decltype(k)>;
        Target<T> t; t.same = std::is_same_v<S, T>; t.rel = t.same || (related<T, S>() && reg(T::name)); t.writablePlace = writablePlace;
        t.sub = nullptr;
        if constexpr(std::is_same_v<S, T>) t.sub = static_cast<T *>(h.self);
        else if (d && D::hasClassInfo) t.sub = baseOf<T>(d);
        else if (h.self) t.sub = baseOf<T>(static_cast<S *>(h.self));
        if (h.pointer) t.pointer(h); else t.object(h);
        if (h.v.metaClass() != h.dynamic) bad(h, "metaClass", "", "changed");
    };
    (one(static_cast<K *>(nullptr)), ...);
    seq::step();
}

template<typename K> MetaClass const *meta() { return MetaClass::find(metaTypeId<K>()); }

// S: static class, a sub-object of the object of class D at d
template<typename S, typename D, typename All> void held(S *s, D *d, All all)
{
    auto dyn = S::hasClassInfo ? meta<D>() : meta<S>(); D *o = S::hasClassInfo ? d : nullptr;
    auto go = [&](Held h, bool wp = false) { h.cls = S::name; access<S, D>(h, o, wp, all); };
    S const *cs = s; S *const sc = s; S *p = s; S const *cp = s;
    if constexpr(std::is_same_v<S, D>) {
        Held h{variant{*d}, false, false, "value", S::name, nullptr, nullptr, meta<D>(), true};
        auto at = h.v.data<D>(); if (!at || static_cast<void *>(at) == d) bad(h, "data", D::name, "not the value");
        if (at->number != d->number) bad(h, "data", D::name, "not a copy");
        h.self = at; access<S, D>(h, at, false, all);
        if (h.v.data<D>() != at) bad(h, "data", D::name, "moved");
    }
    go({variant{std::ref(*s)}, false, false, "reference", nullptr, s, s, dyn, false});
    go({variant{std::cref(*s)}, false, true, "constant reference", nullptr, s, s, dyn, false});
    go({variant{s}, true, false, "pointer", nullptr, s, nullptr, dyn, false});
    go({variant{cs}, true, true, "pointer to const", nullptr, s, nullptr, dyn, false});
    go({variant{sc}, true, false, "constant pointer", nullptr, s, nullptr, dyn, false}, false);
    go({variant{std::ref(p)}, true, false, "reference to pointer", nullptr, s, &p, dyn, false}, true);
    go({variant{std::cref(p)}, true, false, "constant reference to pointer", nullptr, s, &p, dyn, false}, false);
    go({variant{std::ref(cp)}, true, true, "reference to pointer to const", nullptr, s, &cp, dyn, false}, true);
    if (p != s || cp != s) seq::fail("pointers changed");
}
template<typename S, typename All> void nulls(All all)
{
    S *p = nullptr; S const *cp = nullptr; S *none = nullptr;
    auto go = [&](Held h, bool wp = false) { h.cls = S::name; access<S, S>(h, none, wp, all); };
    go({variant{p}, true, false, "null pointer", nullptr, nullptr, nullptr, meta<S>(), false});
    go({variant{cp}, true, true, "null pointer to const", nullptr, nullptr, nullptr, meta<S>(), false});
    go({variant{std::ref(p)}, true, false, "reference to null pointer", nullptr, nullptr, &p, meta<S>(), false}, true);
    go({variant{std::cref(cp)}, true, true, "constant reference to null pointer", nullptr, nullptr, &cp, meta<S>(), false});
}
template<typename S, typename F, typename... B> void visitAll(S *s, F &f, L<B...>);
template<typename S, typename F> void eachAll(S *s, F &f) { f(s); visitAll(s, f, typename S::Bases{}); }
template<typename S, typename F, typename... B> void visitAll(S *s, F &f, L<B...>) { (eachAll(static_cast<B *>(s), f), ...); }
template<typename D, typename... K> void object(L<K...> all)
{
    nulls<D>(all);
    D d; std::vector<std::pair<void *, int>> before;
    auto count = [&](auto *s) { before.push_back({s, s->number}); }; eachAll(&d, count);
    auto f = [&](auto *s) { held(s, &d, all); }; eachAll(&d, f);
    size_t i = 0; auto again = [&](auto *s) { if (before[i].first != s || before[i].second != s->number) seq::fail(std::string("the object of ") + D::name + " was changed"); ++i; }; eachAll(&d, again);
}

template<typename K, typename G, typename... B> void bases(G k, L<B...>) { ((reg(B::name) ? void(k.template _base<B>()) : void()), ...); }
template<typename K> void define(int mode)
{
    if (!reg(K::name)) return;
    auto g = global_define();
    if (mode != 1) bases<K>(g.template _class<K>(K::name), typename K::Bases{});
    else g.template _class<K>(K::name)._lazy([](meta_define<K> k) { bases<K>(k, typename K::Bases{}); });
}
template<typename... All> void runGraph()
{
    enum { N = sizeof...(All) };
    using F = void (*)(int); using Q = void (*)();
    static F const defs[] = {define<All>...}; static char const *const names[] = {All::name...};
    static Q const objects[] = {+[] { object<All>(L<All...>{}); }...};
    int out = seq::choose(N + 1), mode = seq::choose(3), first = seq::choose(N);
    registered.clear(); seq::note("without %d, mode %d", out - 1, mode);
    if (mode == 2) objects[first](); // nothing is registered yet
    for (int i = 0; i < N; ++i) if (i + 1 != out) registered.insert(names[i]);
    for (int i = 0; i < N; ++i) defs[i](mode);
    objects[first]();
    if (mode == 2 && out) { // the last class and its place in the hierarchy come later
        registered.insert(names[out - 1]); for (int i = 0; i < N; ++i) defs[i](mode);
        objects[first]();
    }
    seq::state(std::to_string(out * 64 + mode * 16 + first) + names[0]);
}
} // namespace v06
