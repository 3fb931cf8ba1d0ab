// H01: casts and inheritance queries agree with C++ on generated inheritance graphs
#pragma once
#include "seq/seq.h"
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metanamespace.h>
#include <rtti/metaerror.h>
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <vector>

namespace h01 {
template<typename... T> struct L {};

struct Graph { char const *text; void (*run)(); void (*grow)(); };
std::vector<Graph> &graphs();
struct Registrar { Registrar(char const *text, void (*run)(), void (*grow)()) { graphs().push_back({text, run, grow}); } };

// ---- C++: every sub-object of an object, the casts the language makes
template<typename S, typename F, typename... B> void visit(S *s, F &f, L<B...>);
template<typename S, typename F> void each(S *s, F &f) { f(s); visit(s, f, typename S::Bases{}); }
template<typename S, typename F, typename... B> void visit(S *s, F &f, L<B...>) { (each(static_cast<B *>(s), f), ...); }

template<typename T, typename S> T *language(S *s)
{
    if constexpr(std::is_base_of_v<T, S> && !std::is_convertible_v<S *, T *>) return nullptr; // ambiguous, refused by the compiler
    else return dynamic_cast<T *>(s);
}
inline long casts;

template<typename T, typename S> void cast(S *s, bool repeated)
{
    using namespace rtti;
    auto expect = language<T>(s);
    auto real = meta_cast<T>(s);
    // both classes repeat in the object: C++ finds the sub-object derived from this very one
    if (repeated && expect && !real && std::is_base_of_v<S, T> && seq::known("downcast-among-repeated-bases")) return;
    auto where = [&] { return std::string("cast of the ") + S::name + " in the object to " + T::name + ": "; };
    if (real != expect) seq::fail(where() + (!expect ? "C++ gives null" : real ? "another address than in C++" : "null"));
    if (meta_cast<T>(const_cast<S const *>(s)) != expect) seq::fail(where() + "pointer to const gives something else");
    static_assert(std::is_same_v<decltype(meta_cast<T>(s)), T *> && std::is_same_v<decltype(meta_cast<T>(const_cast<S const *>(s))), T const *>);
    static_assert(std::is_same_v<decltype(meta_cast<T>(*s)), T &> && std::is_same_v<decltype(meta_cast<T>(*const_cast<S const *>(s))), T const &>);
    for (int c = 0; c < 2; ++c) {
        T const *got = nullptr;
        try { if (c) got = &meta_cast<T>(*const_cast<S const *>(s)); else got = &meta_cast<T>(*s); } catch (bad_meta_cast const &) {}
        if (got != expect) seq::fail(where() + "reference gives something else");
    }
    if (meta_cast<T>(static_cast<S *>(nullptr)) || meta_cast<T>(static_cast<S const *>(nullptr))) seq::fail(where() + "null pointer isn't null");
    casts += 6;
}

// ---- one object of class D
template<typename D, typename... K> void object(L<K...>)
{
    D *d = D::make();
    std::map<char const *, std::set<void *>> at;
    auto count = [&](auto *s) { at[std::remove_pointer_t<decltype(s)>::name].insert(s); };
    each(d, count);
    auto f = [&](auto *s) { bool many = at[std::remove_pointer_t<decltype(s)>::name].size() > 1; (cast<K>(s, many && at[K::name].size() > 1), ...); };
    each(d, f);
    seq::step();
    delete d;
}

// ---- registration
template<typename K, typename G, typename... B> void bases(G k, int way, L<B...>)
{
    if constexpr(sizeof...(B) != 0) { if (way == 0) k.template _base<B...>(); else (k.template _base<B>(), ...); }
}
template<typename K> void define(int mode, int way)
{
    auto g = rtti::global_define();
    if (mode == 0) { auto k = g.template _class<K>(K::name); bases<K>(k, way, typename K::Bases{}); }
    else g.template _class<K>(K::name)._lazy([way](rtti::meta_define<K> k) { bases<K>(k, way, typename K::Bases{}); });
}
template<typename K> void reopen(int way) { auto g = rtti::global_define(); auto k = g.template _class<K>(K::name); bases<K>(k, way, typename K::Bases{}); }
template<typename K> void declare() { auto g = rtti::global_define(); g.template _class<K>(K::name); }

// ---- queries
template<typename K> rtti::MetaClass const *meta() { return rtti::MetaClass::find(rtti::metaTypeId<K>()); }
template<typename K, typename... B> void baseList(L<B...>)
{
    auto k = meta<K>(); rtti::MetaClass const *expect[sizeof...(B) + 1] = {meta<B>()...};
    if (k->baseClassCount() != sizeof...(B)) seq::fail(std::string(K::name) + " has " + std::to_string(k->baseClassCount()) + " bases");
    for (size_t i = 0; i < sizeof...(B); ++i) if (k->baseClass(i) != expect[i]) seq::fail(std::string(K::name) + ": base " + std::to_string(i) + " is another");
    if (k->baseClass(sizeof...(B)) || k->baseClass(~size_t{})) seq::fail(std::string(K::name) + " has a base too many");
}
template<typename T, typename... B> constexpr bool among(L<B...>) { return (std::is_same_v<T, B> || ...); }
template<typename K, typename... All> void derivedList(L<All...> all, bool ordered)
{
    auto k = meta<K>(); std::vector<rtti::MetaClass const *> expect, real;
    ((among<K>(typename All::Bases{}) ? expect.push_back(meta<All>()) : void()), ...);
    for (size_t i = 0; i < k->derivedClassCount(); ++i) real.push_back(k->derivedClass(i));
    if (!ordered) { std::sort(expect.begin(), expect.end()); std::sort(real.begin(), real.end()); }
    if (real != expect) seq::fail(std::string(K::name) + ": list of derived classes differs");
    if (k->derivedClass(expect.size())) seq::fail(std::string(K::name) + " has a derived class too many");
}
template<typename K, typename T> void inherits()
{
    if (meta<K>()->inheritedFrom(meta<T>()) != std::is_base_of_v<T, K>) seq::fail(std::string(K::name) + (std::is_base_of_v<T, K> ? " isn't inherited from " : " is inherited from ") + T::name);
}
template<typename K, typename... All> void queries(L<All...>) { (inherits<K, All>(), ...); if (meta<K>()->inheritedFrom(nullptr)) seq::fail("inherited from null"); }

// All: classes of the graph, from the root; Reg: in order of registration
template<typename... All> void runGraph()
{
    enum { N = sizeof...(All) };
    using F = void (*)(int, int); using Q = void (*)(); using R = void (*)(int);
    static F const defs[] = {define<All>...}; static R const again[] = {reopen<All>...}; static Q const decl[] = {declare<All>...};
    static Q const objects[] = {+[] { object<All>(L<All...>{}); }...};
    static Q const lists[] = {+[] { baseList<All>(typename All::Bases{}); queries<All>(L<All...>{}); }...};
    // the object that is first cast forces deferred definitions
    int mode = seq::choose(4), way = mode == 0 || mode == 3 ? seq::choose(2) : 0, first = mode == 0 ? N - 1 : seq::choose(N), before = mode == 3 ? seq::choose(2) : 0;
    // before registration nothing can be cast; classes are known but not registered
    switch (mode) {
    case 0: for (int i = 0; i < N; ++i) defs[i](0, way); break;
    case 1: for (int i = 0; i < N; ++i) decl[i](); for (int i = N; i-- > 0;) again[i](way); break;
    case 2: for (int i = 0; i < N; ++i) defs[i](1, way); break;
    case 3: for (int i = 0; i < N; ++i) defs[i](i & 1 ? before : !before, way); break;
    }
    objects[first](); for (int i = 0; i < N; ++i) if (i != first) objects[i]();
    for (int i = 0; i < N; ++i) lists[i]();
    (derivedList<All>(L<All...>{}, mode == 0), ...);
    for (int i = 0; i < N; ++i) objects[i]();
    seq::state(std::to_string(mode * 64 + way * 16 + first * 2 + before));
}

// ---- the hierarchy is made known base by base: what is not known yet is no base
struct Edge { char const *derived, *base; void (*add)(); };
inline std::set<std::pair<std::string, std::string>> known;     // edges
inline std::set<std::string> declared;
template<typename S, typename F, typename... B> void visitKnown(S *s, F &f, L<B...>);
template<typename S, typename F> void eachKnown(S *s, F &f) { f(s); visitKnown(s, f, typename S::Bases{}); }
template<typename S, typename F, typename... B> void visitKnown(S *s, F &f, L<B...>) { ((known.count({S::name, B::name}) ? eachKnown(static_cast<B *>(s), f) : void()), ...); }
template<typename T, typename S, typename D> void castKnown(S *s, D *d)
{
    using namespace rtti;
    std::set<T *> at; auto f = [&](auto *x) { if constexpr(std::is_same_v<T, std::remove_pointer_t<decltype(x)>>) at.insert(x); };
    if (declared.count(D::name)) eachKnown(d, f);
    T *expect = nullptr;
    if constexpr(std::is_convertible_v<S *, T *>) { if (!at.empty()) expect = s; } else { if (at.size() > 1) return; if (!at.empty()) expect = *at.begin(); }
    T const *real = meta_cast<T>(s); ++casts;
    if (real != expect) seq::fail(std::string("cast of the ") + S::name + " in a " + D::name + " to " + T::name + ": " + (!expect ? "given" : real ? "another address" : "refused") + " while the hierarchy grows");
    if (meta_cast<T>(const_cast<S const *>(s)) != expect) seq::fail("cast of a pointer to const differs");
}
template<typename D, typename... K> void objectKnown(L<K...>)
{
    D *d = D::make(); auto f = [&](auto *s) { (castKnown<K>(s, d), ...); };
    each(d, f); seq::step(); delete d;
    if (!declared.count(D::name)) { if (meta<D>()) seq::fail("a class is found before it is registered"); return; }
    auto one = [](auto *k) {
        using T = std::remove_pointer_t<decltype(k)>; if (!declared.count(T::name)) return;
        std::set<std::string> all; std::function<void(std::string)> up = [&](std::string n) { if (!all.insert(n).second) return; for (auto &e: known) if (e.first == n) up(e.second); }; up(D::name);
        if (meta<D>()->inheritedFrom(meta<T>()) != bool(all.count(T::name))) seq::fail(std::string(D::name) + (all.count(T::name) ? " isn't inherited from " : " is inherited from ") + T::name + " while the hierarchy grows");
    };
    (one(static_cast<K *>(nullptr)), ...);
}
template<typename K, typename... B> void edgesOf(std::vector<Edge> &e, L<B...>) { (e.push_back({K::name, B::name, [] { auto g = rtti::global_define(); g.template _class<K>(K::name).template _base<B>(); }}), ...); }
template<typename... All> void growGraph()
{
    enum { N = sizeof...(All) };
    using Q = void (*)(); static Q const decl[] = {declare<All>...}; static Q const objects[] = {+[] { objectKnown<All>(L<All...>{}); }...}; static char const *const names[] = {All::name...};
    known.clear(); declared.clear();
    auto check = [] { for (auto o: objects) o(); };
    std::vector<Edge> edges; (edgesOf<All>(edges, typename All::Bases{}), ...);
    int n = int(edges.size()), turn = n ? seq::choose(n) : 0, back = seq::choose(2), early = seq::choose(2);
    seq::note("from base %d, %s, %s", turn, back ? "reverse" : "forward", early ? "asked at once" : "asked when all classes are there");
    if (early) check();
    for (int i = 0; i < N; ++i) { int k = back ? N - 1 - i : i; decl[k](); declared.insert(names[k]); if (early) check(); }
    check();
    for (int i = 0; i < n; ++i) { auto &e = edges[size_t(back ? (turn + n - i) % n : (turn + i) % n)]; e.add(); known.insert({e.derived, e.base}); check(); }
    seq::state(std::to_string(turn * 4 + back * 2 + early));
}
} // namespace h01
