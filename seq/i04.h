// I04: exceptions of user's functions, of copies and of allocations pass through calls, and nothing is lost or broken
#pragma once
#include "seq/seq.h"
#include "seq/vkinds.h"
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metanamespace.h>
#include <rtti/metaconstructor.h>
#include <rtti/metaerror.h>
#include <functional>

namespace i04 {
using namespace rtti;

// ---- what user's functions throw
struct User { std::string text; };
inline int effects, kind; // how often the function did its work; what was thrown
inline char const *const kindNames[] = {"", "own object", "int", "own class", "std::runtime_error", "rtti::bad_argument_cast", "rtti::invoke_error", "rtti::bad_variant_cast"};
inline void body()
{
    try { seq::fault_point("body"); }
    catch (seq::Injected const &) {
        kind = 1 + seq::choose(7); seq::note("%s", kindNames[kind]);
        switch (kind) { case 2: throw 42; case 3: throw User{"text of the user, which is longer than the small buffer"}; case 4: throw std::runtime_error{"by user"}; case 5: throw bad_argument_cast{"by user"}; case 6: throw invoke_error{"by user"}; case 7: throw bad_variant_cast{"by user"}; default: throw; }
    }
}
// ---- the functions
template<typename T> T again(T &t) { if constexpr(std::is_copy_constructible_v<T>) return t; else { T r{std::move(t)}; return r; } }
template<typename T> T made(int v) { return T{v}; }
template<typename T> T byValue(T t) { body(); ++effects; body(); return again(t); }
template<typename T> T byCref(T const &t) { body(); ++effects; body(); return made<T>(t.get() + 1); }
template<typename T> T &byRef(T &t) { body(); t.set(t.get() + 1); ++effects; body(); return t; }
template<typename T> T const &pass(T const &t) { body(); ++effects; body(); return t; }
template<typename T> int byRvalue(T &&t) { body(); T own{std::move(t)}; ++effects; body(); return own.get(); }
template<typename T> T byPtr(T *p) { body(); p->set(p->get() + 1); ++effects; body(); return made<T>(p->get()); }
template<typename T> void nothing(T const &) { body(); ++effects; body(); }
template<typename T> T both(T a, Big const &b) { body(); ++effects; body(); return made<T>(a.get() + b.get()); }
template<typename T> T values(T a, Thrower b, Small c) { body(); ++effects; body(); return made<T>(a.get() + b.get() + c.get()); }
template<typename T> T none() { body(); ++effects; body(); return made<T>(3); }

template<typename T> struct K
{
    T member{5};
    K() { body(); ++effects; }
    explicit K(T const &t): member{t.get()} { body(); ++effects; body(); }
    K(T const &t, Thrower u): member{t.get() + u.get()} { body(); ++effects; body(); }
    K(Thrower u, Small s, Big const &b): member{u.get() + s.get() + b.get()} { body(); ++effects; body(); }
    K(K const &o): member{o.member.get()} { seq::fault_point("copy"); }
    K(K &&o): member{o.member.get()} { seq::fault_point("move"); }
    K(int, int) {} // without faults
    int get() const { return member.get(); }
    T take(T t) { body(); member.set(t.get()); ++effects; body(); return made<T>(t.get()); }
    T &mut(T const &t) { body(); member.set(t.get()); ++effects; body(); return member; }
    T con(T const &t) const { body(); ++effects; body(); return made<T>(t.get() + member.get()); }
    static T stat(K const &k, Small s) { body(); ++effects; body(); return made<T>(k.get() + s.get()); }
    static T byInstance(K k) { body(); ++effects; body(); return made<T>(k.get()); }
    T read() const { body(); ++effects; body(); return made<T>(member.get()); }
    void write(T const &t) { body(); member.set(t.get()); ++effects; body(); }
    Thrower readOther() const { body(); ++effects; body(); return Thrower{member.get()}; }
    void writeOther(Thrower t) { body(); member.set(t.get()); ++effects; body(); }
};

// ---- arguments
enum Form { LVALUE, CLVALUE, RVALUE, VAR, CVAR, EVAR, VREF, VCREF, POINTER, VPTR, REFWRAP, FORMS };
inline char const *const formNames[] = {"object", "constant object", "expiring object", "variant", "constant variant", "expiring variant", "variant of reference", "variant of constant reference", "pointer", "variant of pointer", "reference wrapper"};
template<typename T> T create(int v) { if constexpr(std::is_constructible_v<T, int>) return T(v); else { T t(0, 0); t.member.set(v); return t; } }
template<typename T> struct Arg
{
    T obj; variant v; int form, start;
    Arg(int f, int value): obj(create<T>(value)), form(f), start(value)
    {
        switch (f) { case VAR: case CVAR: case EVAR: v = variant{create<T>(value)}; break; case VREF: v = variant{std::ref(obj)}; break; case VCREF: v = variant{std::cref(obj)}; break; case VPTR: v = variant{&obj}; break; default: break; }
    }
    template<int... Forms, typename F> variant with(F f)
    {
        variant r; bool done = false; auto is = [&](int k) { return form == k && !done && ((Forms == k) || ...); }; (void)is;
        auto one = [&](auto k) { constexpr int n = decltype(k)::value; if (form != n) return;
            if constexpr(n == LVALUE) r = f(obj); else if constexpr(n == CLVALUE) r = f(std::as_const(obj)); else if constexpr(n == RVALUE) r = f(std::move(obj));
            else if constexpr(n == VAR || n == VREF || n == VCREF || n == VPTR) r = f(v); else if constexpr(n == CVAR) r = f(std::as_const(v)); else if constexpr(n == EVAR) r = f(std::move(v));
            else if constexpr(n == POINTER) r = f(&obj); else r = f(std::ref(obj)); };
        (one(std::integral_constant<int, Forms>{}), ...); return r;
    }
    bool expiring() const { return form == RVALUE || form == EVAR; }
    bool whole() const { return form == LVALUE || form == CLVALUE || !expiring(); }
    int now() const { if (form == VAR || form == CVAR || form == EVAR) return v.empty() ? -1 : v.cref<T>().get(); return obj.get(); }
};
// what relocation between variants leaves behind (see V02) doesn't count
inline tracked::Table snapshot() { auto &t = tracked::table; for (int i = 0; i < t.n; ++i) if (t.rows[i].e.relocatable && t.rows[i].e.moved) t.erase(t.rows + i--); return t; }
template<typename T> std::string text(variant const &v)
{
    if (v.empty()) return "nothing"; if (v.is<int>()) return "int " + std::to_string(v.cref<int>()); if (v.is<T>()) return "T " + std::to_string(v.cref<T>().get()); if (v.is<Thrower>()) return "Thrower " + std::to_string(v.cref<Thrower>().get());
    if (v.is<K<T>>()) return "K " + std::to_string(v.cref<K<T>>().get()); return "?";
}
struct Outcome { bool thrown = false, refused = false, injected = false; std::string result, what; int effects = 0; };
// `prepare` gives the call; the call gives a variant
template<typename T, typename C> Outcome attempt(bool armed, C call)
{
    Outcome o; effects = 0; kind = 0; if (armed) seq::arm(1); auto fail = [](std::string const &s) { seq::disarm(); seq::fail(s); };
    auto other = [&](int k, bool own, std::string const &w) { seq::disarm(); o.thrown = true; if (kind == k && w == "by user") return; if (!own || (armed && seq::injected())) fail("another exception arrived: " + w); o.refused = true; o.what = w; };
    try {
        variant r = call(); seq::disarm();
        o.injected = armed && seq::injected(); if (o.injected) fail("the exception didn't reach the caller");
        o.result = text<T>(r);
    } catch (seq::Injected const &) { seq::disarm(); o.thrown = true; if (kind > 1) fail("another exception arrived"); }
    catch (std::bad_alloc const &) { seq::disarm(); o.thrown = true; if (kind) fail("another exception arrived: bad_alloc"); }
    catch (int n) { seq::disarm(); o.thrown = true; if (kind != 2 || n != 42) fail("another exception arrived: int"); }
    catch (User const &u) { seq::disarm(); o.thrown = true; if (kind != 3 || u.text != "text of the user, which is longer than the small buffer") fail("another exception arrived: User"); }
    catch (bad_argument_cast const &e) { other(5, true, e.what()); } catch (invoke_error const &e) { other(6, true, e.what()); } catch (bad_variant_cast const &e) { other(7, true, e.what()); }
    catch (rtti::runtime_error const &e) { other(-1, true, e.what()); } catch (std::runtime_error const &e) { other(4, false, e.what()); } catch (std::exception const &e) { other(-1, false, e.what()); }
    if (o.thrown && !o.refused && !(armed && seq::injected())) fail("there is an exception without reason");
    o.effects = effects; return o;
}
// a way to call; `run(armed)` makes arguments, calls, judges the arguments
template<typename R> void judge(std::string const &name, R run)
{
    tracked::reset(); auto before = snapshot(); Outcome dry = run(false);
    if (dry.refused) { if (dry.effects) seq::fail(name + ": refused though it was called"); return; } // how it may be called: I01 - I03
    if (dry.effects != 1) seq::fail(name + ": called " + std::to_string(dry.effects) + " times");
    tracked::settle(before);
    { Outcome o = run(true); seq::step(); if (o.effects > 1 || (!o.thrown && o.effects != 1)) seq::fail(name + ": called " + std::to_string(o.effects) + " times");
      if (o.refused) seq::fail(name + ": refused: " + o.what);
      if (!o.thrown && o.result != dry.result) seq::fail(name + ": the result is " + o.result + " instead of " + dry.result);
      seq::state(name + (o.thrown ? "!" : "") + std::to_string(o.effects) + std::to_string(kind)); }
    tracked::settle(before);
    Outcome o = run(false); if (o.thrown || o.result != dry.result || o.effects != 1) seq::fail(name + ": after an exception there is " + (o.thrown ? o.what : o.result) + " instead of " + dry.result);
    tracked::settle(before);
}
template<typename A> void argument(std::string const &name, A const &a, Outcome const &o, int change)
{
    int n = a.now(), expect = a.start + change * o.effects;
    if (a.expiring()) { if (n != expect && n != -1) seq::fail(name + ": expiring argument has changed to " + std::to_string(n)); }
    else if (n != expect) seq::fail(name + ": argument is " + std::to_string(n) + " instead of " + std::to_string(expect));
}
template<typename T, int... Forms> void free1(char const *fn, int change = 0)
{
    static int const forms[] = {Forms...}; int form = forms[seq::choose(int(sizeof...(Forms)))]; auto m = MetaNamespace::global()->getNamespace("I04")->getMethod(fn); CHECK(m);
    std::string name = std::string(fn) + " of " + formNames[form]; seq::note("%s, ", name.c_str());
    judge(name, [&](bool armed) { Arg<T> a{form, 10}; auto t = snapshot(); auto o = attempt<T>(armed, [&] { return a.template with<Forms...>([&](auto &&x) { return m->invoke(std::forward<decltype(x)>(x)); }); }); if (o.thrown && form != EVAR) tracked::settle(t); argument(name, a, o, change); return o; });
}
template<typename T> void freeNone(char const *fn)
{
    auto m = MetaNamespace::global()->getNamespace("I04")->getMethod(fn); CHECK(m); seq::note("%s, ", fn);
    judge(fn, [&](bool armed) { auto t = snapshot(); auto o = attempt<T>(armed, [&] { return m->invoke(); }); tracked::settle(t); return o; });
}
// the second argument is a Big
template<typename T, int... Forms> void free2(char const *fn)
{
    static int const forms[] = {Forms...}; int form = forms[seq::choose(int(sizeof...(Forms)))]; int const second[] = {CLVALUE, RVALUE, EVAR, VREF}; int f2 = second[seq::choose(4)]; auto m = MetaNamespace::global()->getNamespace("I04")->getMethod(fn); CHECK(m);
    std::string name = std::string(fn) + " of " + formNames[form] + " and " + formNames[f2]; seq::note("%s, ", name.c_str());
    judge(name, [&](bool armed) { Arg<T> a{form, 10}; Arg<Big> b{f2, 20};
        auto o = attempt<T>(armed, [&] { return a.template with<Forms...>([&](auto &&x) { return b.with<CLVALUE, RVALUE, EVAR, VREF>([&](auto &&y) { return m->invoke(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); }); }); argument(name, a, o, 0); argument(name, b, o, 0); return o; });
}
template<typename T, int... Forms> void free3(char const *fn)
{
    static int const forms[] = {Forms...}; int form = forms[seq::choose(int(sizeof...(Forms)))]; int const second[] = {LVALUE, RVALUE, EVAR, CVAR}; int f2 = second[seq::choose(4)], f3 = second[seq::choose(4)]; auto m = MetaNamespace::global()->getNamespace("I04")->getMethod(fn); CHECK(m);
    std::string name = std::string(fn) + " of " + formNames[form] + ", " + formNames[f2] + " and " + formNames[f3]; seq::note("%s, ", name.c_str());
    judge(name, [&](bool armed) { Arg<T> a{form, 10}; Arg<Thrower> b{f2, 20}; Arg<Small> c{f3, 30};
        auto o = attempt<T>(armed, [&] { return a.template with<Forms...>([&](auto &&x) { return b.with<LVALUE, RVALUE, EVAR, CVAR>([&](auto &&y) { return c.with<LVALUE, RVALUE, EVAR, CVAR>([&](auto &&z) { return m->invoke(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), std::forward<decltype(z)>(z)); }); }); }); }); argument(name, a, o, 0); argument(name, b, o, 0); argument(name, c, o, 0); return o; });
}
// methods: the instance and one argument of type A; sets: the member is assigned
template<typename T, typename A, int... Forms> void member(char const *fn, bool sets)
{
    static int const forms[] = {Forms...}; int form = forms[seq::choose(int(sizeof...(Forms)))]; int const inst[] = {VAR, CVAR, VREF, VCREF, VPTR, POINTER, REFWRAP}; int fi = inst[seq::choose(7)]; bool named = seq::choose(2); if (named && (fi == POINTER || fi == REFWRAP)) return;
    auto m = MetaClass::find(metaTypeId<K<T>>())->getMethod(fn); CHECK(m);
    std::string name = std::string(named ? "by name, " : "") + fn + " on " + formNames[fi] + " of " + formNames[form]; seq::note("%s, ", name.c_str());
    judge(name, [&](bool armed) { Arg<K<T>> i{fi, 40}; Arg<A> a{form, 10}; auto t = snapshot();
        auto o = attempt<T>(armed, [&]() -> variant {
            if (named) return a.template with<Forms...>([&](auto &&x) { return fi == CVAR ? std::as_const(i.v).invoke(fn, std::forward<decltype(x)>(x)) : i.v.invoke(fn, std::forward<decltype(x)>(x)); });
            return i.template with<VAR, CVAR, VREF, VCREF, VPTR, POINTER, REFWRAP>([&](auto &&k) { return a.template with<Forms...>([&](auto &&x) { return m->invoke(std::forward<decltype(k)>(k), std::forward<decltype(x)>(x)); }); }); });
        if (o.thrown && form != EVAR) tracked::settle(t); argument(name, i, o, sets ? -30 : 0); argument(name, a, o, 0); return o; });
}
template<typename T> void byInstance()
{
    int const inst[] = {VAR, CVAR, EVAR, VREF, VCREF, LVALUE, RVALUE}; int fi = inst[seq::choose(7)]; auto m = MetaClass::find(metaTypeId<K<T>>())->getMethod("byInstance"); CHECK(m); std::string name = std::string("static method by value of ") + formNames[fi]; seq::note("%s, ", name.c_str());
    judge(name, [&](bool armed) { Arg<K<T>> i{fi, 40}; auto o = attempt<T>(armed, [&] { return i.template with<VAR, CVAR, EVAR, VREF, VCREF, LVALUE, RVALUE>([&](auto &&k) { return m->invoke(std::forward<decltype(k)>(k)); }); }); argument(name, i, o, 0); return o; });
}
template<typename T, typename A, int... Forms> void property(char const *fn, bool field)
{
    static int const forms[] = {Forms...}; int form = forms[seq::choose(int(sizeof...(Forms)))]; int const inst[] = {VAR, VREF, VPTR}; int fi = inst[seq::choose(3)]; bool named = seq::choose(2), reads = seq::choose(2); if (reads && form != forms[0]) return;
    auto p = MetaClass::find(metaTypeId<K<T>>())->getProperty(fn); CHECK(p); std::string name = std::string(named ? "by name, " : "") + fn + (reads ? " read on " : " written on ") + formNames[fi] + " as " + formNames[form]; seq::note("%s, ", name.c_str());
    judge(name, [&](bool armed) { Arg<K<T>> i{fi, 40}; Arg<A> a{form, 10}; auto t = snapshot();
        auto o = attempt<T>(armed, [&]() -> variant {
            if (reads) { auto r = named ? i.v.get_property(fn) : p->get(i.v); if (field) ++effects; return r; }
            a.template with<Forms...>([&](auto &&x) { if (named) i.v.set_property(fn, std::forward<decltype(x)>(x)); else p->set(i.v, std::forward<decltype(x)>(x)); return variant{}; }); if (field) ++effects; return variant{}; });
        if (o.thrown && form != EVAR) tracked::settle(t); argument(name, i, o, reads ? 0 : -30); argument(name, a, o, 0); return o; });
}
template<typename T, int... Forms> void constructor(int n)
{
    static int const forms[] = {Forms...}; int form = forms[seq::choose(int(sizeof...(Forms)))]; auto c = MetaClass::find(metaTypeId<K<T>>()); MetaConstructor const *k = n == 0 ? c->defaultConstructor() : n == 1 ? c->copyConstructor() : n == 2 ? c->moveConstructor() : c->getConstructor(n == 3 ? "one" : n == 4 ? "two" : "three"); CHECK(k);
    int const second[] = {LVALUE, RVALUE, EVAR, VREF}; int f2 = n >= 4 ? second[seq::choose(4)] : LVALUE, f3 = n == 5 ? second[seq::choose(4)] : LVALUE; if (n == 0 && form != forms[0]) return; if (n == 5 && form != forms[0]) return;
    std::string name = "constructor " + std::to_string(n) + " of " + formNames[form] + ", " + formNames[f2] + ", " + formNames[f3]; seq::note("%s, ", name.c_str());
    judge(name, [&](bool armed) { Arg<T> a{form, 10}; Arg<Thrower> b{f2, 20}; Arg<Small> s{f3, 30}; Big big{7}; Arg<K<T>> source{n == 2 ? EVAR : VAR, 40};
        auto o = attempt<T>(armed, [&]() -> variant {
            switch (n) {
            case 0: return k->invoke();
            case 1: { auto r = k->invoke(std::as_const(source.v)); ++effects; return r; } case 2: { auto r = k->invoke(std::move(source.v)); ++effects; return r; }
            case 3: return a.template with<Forms...>([&](auto &&x) { return k->invoke(std::forward<decltype(x)>(x)); });
            case 4: return a.template with<Forms...>([&](auto &&x) { return b.with<LVALUE, RVALUE, EVAR, VREF>([&](auto &&y) { return k->invoke(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); });
            default: return b.with<LVALUE, RVALUE, EVAR, VREF>([&](auto &&y) { return s.with<LVALUE, RVALUE, EVAR, VREF>([&](auto &&z) { return k->invoke(std::forward<decltype(y)>(y), std::forward<decltype(z)>(z), big); }); });
            } });
        argument(name, a, o, 0); argument(name, b, o, 0); argument(name, s, o, 0); argument(name, source, o, 0); return o; });
}

template<typename T> void define(std::string const &s)
{
    auto n = [&](char const *x) { return s + x; };
    auto g = global_define(); auto b = g._namespace("I04");
    if constexpr(std::is_copy_constructible_v<T>) b._method(n("both"), &both<T>)._method(n("values"), &values<T>);
    b._method(n("byValue"), &byValue<T>)._method(n("byCref"), &byCref<T>)._method(n("byRef"), &byRef<T>)._method(n("pass"), &pass<T>)._method(n("byRvalue"), &byRvalue<T>)._method(n("byPtr"), &byPtr<T>)._method(n("nothing"), &nothing<T>)._method(n("none"), &none<T>);
    b.template _class<K<T>>(n("K")).template _constructor<T const &>("one").template _constructor<T const &, Thrower>("two").template _constructor<Thrower, Small, Big const &>("three")
        ._method("take", &K<T>::take)._method("mut", &K<T>::mut)._method("con", &K<T>::con)._method("stat", &K<T>::stat)._method("byInstance", &K<T>::byInstance)
        ._property("pair", &K<T>::read, &K<T>::write)._property("other", &K<T>::readOther, &K<T>::writeOther);
    if constexpr(std::is_copy_assignable_v<T>) { auto g2 = global_define(); g2._namespace("I04").template _class<K<T>>(n("K"))._property("member", &K<T>::member); }
}
#define I04_ALL LVALUE, CLVALUE, RVALUE, VAR, CVAR, EVAR, VREF, VCREF, REFWRAP
#define I04_SOME LVALUE, RVALUE, CVAR, EVAR, VREF
template<typename T> void exceptions(std::string const &s)
{
    static std::vector<std::string> names; static bool ready = false; if (!ready) { for (auto x: {"byValue", "byCref", "byRef", "pass", "byRvalue", "byPtr", "nothing", "none", "both", "values"}) names.push_back(s + x); ready = true; }
    auto n = [&](int i) { return names[i].c_str(); };
    constexpr bool copies = std::is_copy_constructible_v<T>;
    switch (seq::choose(20)) {
    case 0: free1<T, I04_ALL>(n(0)); break; case 1: free1<T, I04_ALL>(n(1)); break; case 2: free1<T, LVALUE, VAR, VREF, REFWRAP>(n(2), 1); break; case 3: free1<T, I04_ALL>(n(3)); break; case 4: free1<T, I04_ALL>(n(4)); break;
    case 5: free1<T, POINTER, VPTR>(n(5), 1); break; case 6: free1<T, I04_ALL>(n(6)); break; case 7: freeNone<T>(n(7)); break;
    case 8: if constexpr(copies) free2<T, I04_SOME>(n(8)); break; case 9: if constexpr(copies) free3<T, LVALUE, RVALUE, EVAR>(n(9)); break;
    case 10: if constexpr(copies) member<T, T, I04_SOME>("take", true); else member<T, T, RVALUE, EVAR>("take", true); break; case 11: member<T, T, I04_SOME>("mut", true); break; case 12: member<T, T, I04_SOME>("con", false); break; case 13: member<T, Small, I04_SOME>("stat", false); break;
    case 14: byInstance<T>(); break;
    case 15: property<T, T, I04_SOME>("pair", false); break; case 16: property<T, Thrower, I04_SOME>("other", false); break; case 17: if constexpr(copies) property<T, T, I04_SOME>("member", true); break;
    case 18: constructor<T, I04_SOME>(seq::choose(3)); break; case 19: constructor<T, I04_SOME>(3 + seq::choose(3)); break;
    }
}
void smallSetup(); void small(); void bigSetup(); void big(); void throwerSetup(); void thrower(); void moveSetup(); void move();
} // namespace i04
