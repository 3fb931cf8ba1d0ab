// R06: failing allocations and exceptions leave the registry consistent, and the operation can be repeated
#include "seq/regmodel.h"
#include <rtti/signature.h>
#include <stdexcept>
using namespace reg;

namespace {
// ---- what there is, as text; every item has to be found by its index and its name
std::string text(MetaItem const *it);
bool whole = true; // base classes know the derived ones
template<typename Count, typename At, typename By> std::string list(MetaContainer const *c, Count count, At at, By by)
{
    std::string s; size_t n = (c->*count)();
    for (size_t i = 0; i < n; ++i) {
        auto k = (c->*at)(i); if (!k) seq::fail("there is a null item in " + c->qualifiedName());
        if ((c->*by)(k->name()) != k) seq::fail(k->qualifiedName() + " is found by its index, but not by its name");
        if (static_cast<MetaItem const *>(k->owner()) != c) seq::fail(k->qualifiedName() + " has another owner");
        s += text(k) + ";";
    }
    if ((c->*at)(n)) seq::fail("there are more items than counted in " + c->qualifiedName());
    return s;
}
std::string text(MetaItem const *it)
{
    static char const *const cats[] = {"ns", "class", "prop", "method", "enum", "ctor"}; using C = MetaContainer;
    std::string s = std::string(cats[it->category()]) + " " + it->name();
    size_t attrs = it->attributeCount(); // forces
    for (size_t i = 0; i < attrs; ++i) { auto n = it->attributeName(i); if (&it->attribute(n) != &it->attribute(i) || n.empty()) seq::fail("attribute " + n + " is found by its index, but not by its name"); s += "@" + n + "=" + std::to_string(valueOf(it->attribute(i))); }
    if (!it->attribute(attrs).empty()) seq::fail("there are more attributes than counted");
    if (it->category() == mcatEnum) { auto e = static_cast<MetaEnum const *>(it); for (size_t i = 0; i < e->elementCount(); ++i) { auto n = e->elementName(i); if (&e->element(n) != &e->element(i) || n.empty()) seq::fail("element " + n + " is found by its index, but not by its name"); s += "." + n + "=" + std::to_string(valueOf(e->element(i))); } }
    if (it->category() != mcatNamespace && it->category() != mcatClass) return s + "{}";
    auto c = static_cast<C const *>(it);
    if (it->category() == mcatClass) {
        auto k = static_cast<MetaClass const *>(it);
        if (MetaClass::find(k->metaTypeId()) != k || MetaType{k->metaTypeId()}.metaClass() != k) seq::fail(k->qualifiedName() + " is not the class of its type");
        for (size_t i = 0; i < k->baseClassCount(); ++i) { auto b = k->baseClass(i); if (!b || !k->inheritedFrom(b)) seq::fail("there is a null base class"); bool known = false; for (size_t j = 0; j < b->derivedClassCount(); ++j) known |= b->derivedClass(j) == k; if (whole && !known) seq::fail(b->qualifiedName() + " doesn't know its derived class " + k->qualifiedName()); s += ":" + b->name(); }
    }
    s += "{";
    s += list(c, &C::namespaceCount, static_cast<MetaNamespace const *(C::*)(size_t) const>(&C::getNamespace), static_cast<MetaNamespace const *(C::*)(std::string_view) const>(&C::getNamespace));
    s += list(c, &C::classCount, static_cast<MetaClass const *(C::*)(size_t) const>(&C::getClass), static_cast<MetaClass const *(C::*)(std::string_view) const>(&C::getClass));
    s += list(c, &C::propertyCount, static_cast<MetaProperty const *(C::*)(size_t) const>(&C::getProperty), static_cast<MetaProperty const *(C::*)(std::string_view) const>(&C::getProperty));
    s += list(c, &C::methodCount, static_cast<MetaMethod const *(C::*)(size_t) const>(&C::getMethod), static_cast<MetaMethod const *(C::*)(std::string_view) const>(&C::getMethod));
    s += list(c, &C::enumCount, static_cast<MetaEnum const *(C::*)(size_t) const>(&C::getEnum), static_cast<MetaEnum const *(C::*)(std::string_view) const>(&C::getEnum));
    s += list(c, &C::constructorCount, static_cast<MetaConstructor const *(C::*)(size_t) const>(&C::getConstructor), static_cast<MetaConstructor const *(C::*)(std::string_view) const>(&C::getConstructor));
    return s + "}";
}
std::string print(Node const &n)
{
    static char const *const cats[] = {"ns", "class", "prop", "method", "enum", "ctor"};
    std::string s = std::string(cats[n.cat]) + " " + n.name;
    for (auto &a: n.attrs) s += "@" + a.first + "=" + std::to_string(a.second);
    for (auto &a: n.elems) s += "." + a.first + "=" + std::to_string(a.second);
    for (auto b: n.bases) s += ":" + b->name;
    s += "{"; for (auto c: {mcatNamespace, mcatClass, mcatProperty, mcatMethod, mcatEnum, mcatConstructor}) for (auto &k: n.kids[c]) s += print(*k) + ";"; return s + "}";
}

// ---- types and functions, N: which twin
struct G {}; struct H {}; Node nodeG, nodeH;
template<int N> struct K0 { int a = 0; int field = 0; int m() { return 1; } explicit K0(int x): a(x) {} K0() = default; };
template<int N> struct K1: G, H { int n(int) const { return 2; } };
template<int N> struct K2 { int m() const { return 3; } int a = 0; };
template<int N> struct EOf { enum class E { x, y }; };
int free0() { return 0; } int free1(int x) { return x; } std::string free2(std::string const &s, char) { return s; }
int variable = 1; int get() { return variable; } void set(int) {}
int const evenAttr = 4, oddAttr = 7; // text that needs memory, and a number

using Steps = std::vector<std::function<void(Node *)>>;
struct Op { char const *name; Steps steps; std::function<void(Fresh &)> run[3]; int bases; bool forcing = false; };
template<template<int> class K, int N> void ctors(Steps &s, std::function<Node *(Node *)> k)
{
    s.push_back([k](Node *n) { k(n)->define(mcatConstructor, "d_constructor"); }); s.push_back([k](Node *n) { k(n)->define(mcatConstructor, "c_constructor"); }); s.push_back([k](Node *n) { k(n)->define(mcatConstructor, "m_constructor"); });
}
std::vector<Op> &ops() { static std::vector<Op> o; return o; }
template<typename... T> std::string sig(char const *name) { return signature<T...>::get(name); } // of the twin with the fault
// runs f with the builder of the namespace, faults in f only
bool armed; int budget = 1;
template<typename F> void within(Fresh &f, F g) { f.open([&](auto b) { if (armed) seq::arm(budget); g(b); seq::disarm(); }); }
template<typename F> std::function<void(Fresh &)> op(F f) { return [f](Fresh &r) { within(r, [&](auto &b) { f(b); }); }; }
#define RUN(...) {op([](auto &b) { constexpr int N = 0; (void)N; __VA_ARGS__; }), op([](auto &b) { constexpr int N = 1; (void)N; __VA_ARGS__; }), op([](auto &b) { constexpr int N = 2; (void)N; __VA_ARGS__; })}
template<int N> void lazyNamespace(meta_define<void> b) { b._method("in", &free0); seq::fault_point("definition"); b._attribute("l", makeValue(evenAttr)); b._namespace("deep")._property("v", &variable)._end()._method("in", &free1); seq::fault_point("definition"); }
template<int N> void lazyClass(meta_define<K2<N>> b) { b._method("m", &K2<N>::m); b._property("a", &K2<N>::a); b._attribute("l", makeValue(oddAttr)); seq::fault_point("definition"); }

void setup()
{
    if (!ops().empty()) return;
    for (int v: {evenAttr, oddAttr}) { auto k = makeValue(v), l = k; (void)valueOf(k); (void)valueOf(static_cast<variant const &>(l)); } // the types are known now
    { auto g = global_define(); g._class<G>("G"); } { auto g = global_define(); g._class<H>("H"); }
    nodeG.name = "G"; nodeH.name = "H";
    auto ns = [](char const *n) { return [n](Node *r) { return r->define(mcatNamespace, n); }; };
    auto cls = [](char const *n) { return [n](Node *r) { return r->define(mcatClass, n); }; };
    auto &o = ops();
    o.push_back({"namespace", {ns("a")}, RUN(b._namespace("a"))});
    o.push_back({"namespaces", {ns("a"), [=](Node *n) { ns("a")(n)->define(mcatNamespace, "a name that is longer than the small buffer"); }}, RUN(b._namespace("a")._namespace("a name that is longer than the small buffer"))});
    o.push_back({"method", {[](Node *n) { n->define(mcatMethod, sig<>("f")); }}, RUN(b._method("f", &free0))});
    o.push_back({"overloads", {[](Node *n) { n->define(mcatMethod, sig<>("f")); }, [](Node *n) { n->define(mcatMethod, sig<int>("f")); }}, RUN(b._method("f", &free0)._method("f", &free1))});
    o.push_back({"property", {[](Node *n) { n->define(mcatProperty, "p"); }, [](Node *n) { n->define(mcatProperty, "a property with a long name that needs memory"); }}, RUN(b._property("p", &variable)._property("a property with a long name that needs memory", &get, &set))});
    o.push_back({"enum", {[](Node *n) { n->define(mcatEnum, "e"); }, [](Node *n) { Node::assign(n->define(mcatEnum, "e")->elems, "x", 1); }, [](Node *n) { Node::assign(n->define(mcatEnum, "e")->elems, "y", 2); }, [](Node *n) { Node::assign(n->define(mcatEnum, "e")->elems, "x", 3); }}, RUN(b.template _enum<typename EOf<N>::E>("e")._element("x", 1)._element("y", makeValue(2))._element("x", 3))});
    o.push_back({"attributes", {[](Node *n) { Node::assign(n->attrs, "first", evenAttr); }, [](Node *n) { Node::assign(n->attrs, "second attribute whose name is long", oddAttr); }, [](Node *n) { Node::assign(n->attrs, "first", oddAttr); }}, RUN(b._attribute("first", makeValue(evenAttr))._attribute("second attribute whose name is long", makeValue(oddAttr))._attribute("first", makeValue(oddAttr)))});
    o.push_back({"attributes and elements given as lvalues", {[](Node *n) { Node::assign(n->attrs, "first", oddAttr); }, [](Node *n) { Node::assign(n->attrs, "first", evenAttr); }, [](Node *n) { n->define(mcatEnum, "e"); }, [](Node *n) { Node::assign(n->define(mcatEnum, "e")->elems, "x", oddAttr); }, [](Node *n) { Node::assign(n->define(mcatEnum, "e")->elems, "x", evenAttr); }},
        RUN(auto odd = makeValue(oddAttr), even = makeValue(evenAttr); b._attribute("first", odd)._attribute("first", std::as_const(even)); b.template _enum<typename EOf<N>::E>("e")._element("x", odd)._element("x", even))});
    { Steps s{cls("k")}; ctors<K0, 0>(s, cls("k")); o.push_back({"class", s, RUN(b.template _class<K0<N>>("k"))});
      s.push_back([=](Node *n) { cls("k")(n)->define(mcatMethod, sig<K0<2> &>("m")); }); s.push_back([=](Node *n) { cls("k")(n)->define(mcatConstructor, sig<int>("make")); }); s.push_back([=](Node *n) { cls("k")(n)->define(mcatProperty, "field"); }); s.push_back([=](Node *n) { Node::assign(cls("k")(n)->attrs, "at", evenAttr); });
      o.push_back({"class with members", s, RUN(b.template _class<K0<N>>("k")._method("m", &K0<N>::m).template _constructor<int>("make")._property("field", &K0<N>::field)._attribute("at", makeValue(evenAttr)))}); }
    { Steps s{cls("derived")}; ctors<K1, 0>(s, cls("derived")); auto t = s; t.push_back([=](Node *n) { cls("derived")(n)->base(&nodeH); });
      o.push_back({"class with base", t, RUN(b.template _class<K1<N>>("derived").template _base<H>())}); 
      s.push_back([=](Node *n) { cls("derived")(n)->base(&nodeG); }); s.push_back([=](Node *n) { cls("derived")(n)->base(&nodeH); }); s.push_back([=](Node *n) { cls("derived")(n)->define(mcatMethod, sig<K1<2> const &, int>("n")); });
      o.push_back({"class with bases", s, RUN(b.template _class<K1<N>>("derived").template _base<G, H>()._method("n", &K1<N>::n))}); }
    auto z = ns("z"); auto l = cls("l");
    Steps lazyNs{[=](Node *n) { z(n)->define(mcatMethod, sig<>("in")); }, [=](Node *n) { Node::assign(z(n)->attrs, "l", evenAttr); }, [=](Node *n) { z(n)->define(mcatNamespace, "deep"); }, [=](Node *n) { z(n)->define(mcatNamespace, "deep")->define(mcatProperty, "v"); }, [=](Node *n) { z(n)->define(mcatMethod, sig<int>("in")); }};
    Steps lazyCls{[=](Node *n) { l(n)->define(mcatMethod, sig<K2<2> const &>("m")); }, [=](Node *n) { l(n)->define(mcatProperty, "a"); }, [=](Node *n) { Node::assign(l(n)->attrs, "l", oddAttr); }};
    auto whole = [](Steps s) { return [s](Node *n) { for (auto &x: s) x(n); }; };
    Steps sn{z, whole(lazyNs)}; Steps sc{l}; ctors<K2, 0>(sc, l); sc.push_back(whole(lazyCls));
    o.push_back({"deferred namespace", sn, RUN(b._namespace("z")._lazy(&lazyNamespace<N>))});
    o.push_back({"deferred class", sc, RUN(b.template _class<K2<N>>("l")._lazy(&lazyClass<N>))});
    // the faults are in the first query
    auto forced = [](auto open, auto query) { return [=](Fresh &f) { bool a = armed; armed = false; f.open([&](auto b) { try { open(b); } catch (definition_error const &) {} }); if (a) seq::arm(budget); query(static_cast<MetaNamespace const *>(f.root->addr)); seq::disarm(); armed = a; }; };
#define FORCED(OPEN, QUERY) {forced([](auto &b) { constexpr int N = 0; OPEN; }, [](MetaNamespace const *r) { QUERY; }), forced([](auto &b) { constexpr int N = 1; OPEN; }, [](MetaNamespace const *r) { QUERY; }), forced([](auto &b) { constexpr int N = 2; OPEN; }, [](MetaNamespace const *r) { QUERY; })}
    Steps fn{z}; for (auto &s: lazyNs) fn.push_back(s); Steps fc{l}; ctors<K2, 0>(fc, l); for (auto &s: lazyCls) fc.push_back(s);
    o.push_back({"query of deferred namespace", fn, FORCED(b._namespace("z")._lazy(&lazyNamespace<N>), r->getNamespace("z")->getMethod("in")), 0, true});
    o.push_back({"query of deferred class", fc, FORCED(b.template _class<K2<N>>("l")._lazy(&lazyClass<N>), r->getClass("l")->propertyCount()), 0, true});
    o.push_back({"walk to deferred class", fc, FORCED(b.template _class<K2<N>>("l")._lazy(&lazyClass<N>), r->getClass("l")->for_each_method([](MetaMethod const *) { return true; })), 0, true});
}
std::string derived() { std::string s; for (auto k: {MetaClass::find(metaTypeId<G>()), MetaClass::find(metaTypeId<H>())}) { s += std::to_string(k->derivedClassCount()) + ","; for (size_t i = 0; i < k->derivedClassCount(); ++i) if (!k->derivedClass(i)) seq::fail("there is a null derived class"); } return s; }

void registry()
{
    auto &o = ops(); int n = int(o.size()); budget = seq::thorough() ? 2 : 1;
    int before = seq::choose(n + 1), before2 = seq::thorough() ? seq::choose(n + 1) : 0, what = seq::choose(n);
    seq::note("%s%s%s, then with a fault %s", before ? o[before - 1].name : "nothing", before2 ? " and " : "", before2 ? o[before2 - 1].name : "", o[what].name);
    Fresh f[3]; armed = false; long blocks[3]; std::string d0, d1;
    auto measure = [&](auto run) { long b = seq::live_blocks(); run(); return seq::live_blocks() - b; };
    for (int i = 0; i < 3; ++i) for (int p: {before, before2}) if (p) { o[p - 1].run[i](f[i]); (void)text(f[i].root->addr); for (auto &s: o[p - 1].steps) s(f[i].root); }
    for (int i = 0; i < 2; ++i) blocks[i] = measure([&] { o[what].run[i](f[i]); { std::string t = text(f[i].root->addr); } }); // the first one is a warming up
    auto &r = f[2]; auto where = [&] { return std::string(o[what].name) + ": "; };
    auto is = [&] { auto t = text(r.root->addr); return t.substr(t.find_first_of("@{")); }; auto should = [&] { auto t = print(*r.root); return t.substr(t.find_first_of("@{")); };
    if (is() != should()) seq::fail(where() + "there is " + is() + " instead of " + should());
    (void)derived(); long live = seq::live_blocks(), model = 0; bool thrown = false; armed = true;
    try { o[what].run[2](r); } catch (std::bad_alloc const &) { seq::disarm(); thrown = true; } catch (seq::Injected const &) { seq::disarm(); thrown = true; } catch (std::exception const &e) { seq::disarm(); seq::fail(where() + "fails with " + e.what()); }
    seq::disarm(); armed = false; bool injected = seq::injected(); if (thrown && !injected) seq::fail(where() + "bad_alloc without reason");
    seq::step();
    whole = !thrown;
    { std::string now = is(); std::vector<std::string> states{should()}; for (auto &s: o[what].steps) { model += measure([&] { s(r.root); }); states.push_back(should()); }
      if (!thrown && now != states.back()) seq::fail(where() + "there is " + now + " instead of " + states.back());
      bool found = false; for (auto &s: states) found |= now == s;
      if (!found) seq::fail(where() + "after the failure there is " + now + " which is neither " + states.front() + " nor " + states.back() + " nor between"); }
    whole = true;
    if (thrown) {
        try { o[what].run[2](r); } catch (definition_error const &e) { seq::fail(where() + "can't be repeated: " + e.what()); }
        if (is() != should()) seq::fail(where() + "repeated after a failure, there is " + is() + " instead of " + should());
    }
    long now = seq::live_blocks() - live - model;
    if (now > blocks[1]) seq::fail(where() + std::to_string(now - blocks[1]) + " blocks of memory leaked");
    seq::state(std::to_string(before * 100 + what) + (thrown ? "!" : "") + (injected ? "F" : ""));
}

// ---- converters: registered or not, never in between
template<int N> struct From { int v = 7; long m() const { return v + 1; } long ok(bool &r) const { r = true; return v + 2; } operator long() const { return v + 3; } };
template<int N> struct Into { long v; Into(long x = 0): v(x) {} };
struct Cap { std::string text = "text that is longer than the small buffer of strings"; template<typename T> long operator()(T const &f) const { return f.v + long(text.size()); } };
struct CapOk { std::string text = "text that is longer than the small buffer of strings"; template<typename T> long operator()(T const &f, bool &ok) const { ok = true; return f.v + long(text.size()) + 1; } };
template<int N> bool registered(int how)
{
    using F = From<N>;
    switch (how) {
    case 0: return MetaType::registerConverter<F, long>();
    case 1: return MetaType::registerConverter(&F::m);
    case 2: return MetaType::registerConverter(&F::ok);
    case 3: { Cap c; return MetaType::registerConverter<F, long>([c](F const &f) { return c(f); }); }
    case 4: { CapOk c; return MetaType::registerConverter<F, long>([c](F const &f, bool &ok) { return c(f, ok); }); }
    default: return MetaType::registerConverter<long, Into<N>>();
    }
}
template<int N> bool convertible(int how) { return how < 5 ? MetaType::hasConverter<From<N>, long>() : MetaType::hasConverter<long, Into<N>>(); }
template<int N> void forget(int how) { if (how < 5) MetaType::unregisterConverter<From<N>, long>(); else MetaType::unregisterConverter<long, Into<N>>(); }
template<int N> long converted(int how) { try { if (how < 5) { variant v = From<N>{}; v.convert<long>(); return v.cref<long>(); } variant v = 5L; v.convert<Into<N>>(); return v.cref<Into<N>>().v; } catch (bad_cast const &) { return -1; } catch (bad_variant_convert const &) { return -1; } }
template<int N> void cycle(int how) { if (!registered<N>(how)) seq::fail("converter isn't registered"); static long const expect[] = {10, 8, 9, 7 + 52, 7 + 53, 5}; long e = expect[how]; if (how == 3 || how == 4) e = 7 + long(Cap{}.text.size()) + (how == 4); if (!convertible<N>(how) || converted<N>(how) != e) seq::fail("converter gives " + std::to_string(converted<N>(how))); if (registered<N>(how)) seq::fail("second converter is registered"); if (converted<N>(how) != e) seq::fail("refused converter is used"); }
void converters()
{
    static char const *const names[] = {"static cast", "method", "method with ok", "lambda", "lambda with ok", "constructor"};
    int how = seq::choose(6); seq::note("%s, ", names[how]);
    auto measure = [&](auto run) { long b = seq::live_blocks(); run(); return seq::live_blocks() - b; };
    cycle<0>(how); forget<0>(how); // the first one is a warming up
    long used = measure([&] { cycle<1>(how); }), freed = measure([&] { forget<1>(how); }); bool thrown = false;
    if (convertible<1>(how) || converted<1>(how) != -1) seq::fail("converter is used after it was removed");
    long live = seq::live_blocks(); bool result = false; seq::arm(seq::thorough() ? 2 : 1);
    try { result = registered<2>(how); seq::disarm(); } catch (std::bad_alloc const &) { seq::disarm(); thrown = true; } 
    bool injected = seq::injected(); if (thrown && !injected) seq::fail("bad_alloc without reason"); if (!thrown && !result) seq::fail("converter isn't registered"); seq::step();
    if (convertible<2>(how) == thrown || (converted<2>(how) == -1) != thrown) seq::fail(thrown ? "converter is there though the registration failed" : "converter isn't there");
    if (!thrown) forget<2>(how);
    cycle<2>(how); if (seq::live_blocks() - live > used) seq::fail("memory leaked: " + std::to_string(seq::live_blocks() - live) + " instead of " + std::to_string(used) + " blocks");
    forget<2>(how); if (seq::live_blocks() - live > used + freed) seq::fail("memory leaked after the converter was removed");
    seq::state(std::string(names[how]) + (thrown ? "!" : ""));
}

// ---- questions: the right answer or an exception
struct Mother {}; struct Late: Mother {}; struct Q: Mother, G { int a = 0; int m(int, std::string) { return 1; } explicit Q(int x, long): a(x) {} Q() = default; };
enum class QE { one };
Node *queried;
using Query = std::pair<char const *, std::function<bool()>>;
std::vector<Query> &queries() { static std::vector<Query> q; return q; }
void ask()
{
    setup(); auto &q = queries(); if (!q.empty()) return;
    { auto g = global_define(); g._class<Mother>("Mother of the queried"); }
    { auto g = global_define(); g._namespace("a namespace with a long name for queries")._namespace("inner")._attribute("first", 1)._attribute("second", 2); }
    { auto g = global_define(); g._namespace("a namespace with a long name for queries")._namespace("inner")._class<Q>("a class with a long name for queries")._base<Mother, G>()._method("a method with a long name", &Q::m)._constructor<int, long>()._constructor<int, long>("named")._property("a", &Q::a)._enum<QE>("an enumeration with a long name")._element("one", QE::one); }
    { auto g = global_define(); g._namespace("a namespace with a long name for queries")._namespace("inner")._method("free function with a long name", &free1)._method("free function with a long name", &free2); }
    static auto ns = MetaNamespace::global()->getNamespace("a namespace with a long name for queries"); static auto in = ns->getNamespace("inner"); static auto k = MetaClass::find(metaTypeId<Q>());
    auto add = [&](char const *n, std::function<bool()> f) { if (!f()) seq::fail(std::string(n) + " is wrong without faults"); q.push_back({n, f}); };
    static std::string f1 = signature<int>::get("free function with a long name"), f2 = signature<std::string const &, char>::get("free function with a long name"), mm = signature<Q &, int, std::string>::get("a method with a long name");
    static std::string qk = k->qualifiedName();
    add("namespace by name", [] { return MetaNamespace::global()->getNamespace("a namespace with a long name for queries") == ns && ns->getNamespace("inner") == in; });
    add("class by name", [] { return in->getClass("a class with a long name for queries") == k && in->getClass("a class with a long name for querie") == nullptr; });
    add("class by type name", [] { return MetaClass::find(type_name<Q>()) == k; });
    add("qualified name", [] { return k->qualifiedName() == qk && in->qualifiedName().size() < qk.size(); });
    add("method by short name", [] { return in->getMethod("free function with a long name") && in->getMethod("free function with a long name")->name() == f1; });
    add("method by signature", [] { auto m = in->getMethod(f2); return m && m->name() == f2; });
    add("method by types", [] { auto m = in->getMethod<std::string const &, char>("free function with a long name"); return m && m->name() == f2; });
    add("other method by types", [] { auto m = in->getMethod<int>("free function with a long name"); return m && m->name() == f1; });
    add("no method by types", [] { return !in->getMethod<int, int, int>("free function with a long name"); });
    add("method of class by types", [] { auto m = k->getMethod<Q &, int, std::string>("a method with a long name"); return m && m->name() == mm; });
    add("constructor by types", [] { auto c = k->getConstructor<int, long>(); return c && c->name() == signature<int, long>::get("constructor"); });
    add("constructor by name", [] { auto c = k->getConstructor("named"); return c && c->name() == signature<int, long>::get("named"); });
    add("default constructor", [] { return k->defaultConstructor() && k->copyConstructor() && k->moveConstructor(); });
    add("property", [] { return k->getProperty("a") && !k->getProperty("b"); });
    add("enumeration", [] { auto e = k->getEnum("an enumeration with a long name"); return e && e->element("one").is<QE>() && e->element("two").empty(); });
    add("base class", [] { return k->baseClassCount() == 2 && k->inheritedFrom(MetaClass::find(metaTypeId<G>())) && !k->inheritedFrom(MetaClass::find(metaTypeId<H>())); });
    add("signature", [] { return signature<int, Q const &, std::string>::get("x") == signature<int, Q const &, std::string>::get("x") && signature<std::string const &, char>::get("free function with a long name") == f2; });
    add("walk over methods", [] { int n = 0; in->for_each_method([&](MetaMethod const *m) { ++n; return m->name() == f1 || m->name() == f2; }); return n == 2; });
    // visitors that throw
#define WALK(WHAT, ON, N) add("walk over " #WHAT, [] { int n = 0; ON->for_each_##WHAT([&](auto *) { seq::fault_point("visitor"); ++n; return true; }); return n == N; });
    WALK(class, in, 1) WALK(method, in, 2)
    add("walk over attributes", [] { int n = 0; in->for_each_attribute([&](std::string_view, variant const &) { seq::fault_point("visitor"); ++n; return true; }); return n == 2; });
    add("walk over elements", [] { int n = 0; k->getEnum("an enumeration with a long name")->for_each_element([&](std::string_view, variant const &) { seq::fault_point("visitor"); ++n; return true; }); return n == 1; });
    add("construction", [] { variant v = k->getConstructor("named")->invoke(3, 4L); return v.is<Q>() && v.cref<Q>().a == 3; });
    add("call", [] { variant r = in->getMethod(f2)->invoke(std::string("a text that is longer than the small buffer"), 'c'); return r.cref<std::string>() == "a text that is longer than the small buffer"; });
    add("call of method", [] { Q o; variant v = std::ref(o); return k->getMethod(mm)->invoke(v, 1, std::string("a text that is longer than the small buffer")).cref<int>() == 1; });
    add("property of variant", [] { Q o; o.a = 8; variant v = std::ref(o); return v.get_property("a").to<int>() == 8; });
}
void asking()
{
    auto &q = queries(); auto &f = q[seq::choose(int(q.size()))]; seq::note("%s, ", f.first);
    if (!f.second()) seq::fail(std::string(f.first) + ": wrong answer without faults"); // and a warming up
    long live = seq::live_blocks(); bool thrown = false, right = false; seq::arm(seq::thorough() ? 2 : 1);
    try { right = f.second(); } catch (std::bad_alloc const &) { thrown = true; } catch (seq::Injected const &) { thrown = true; } seq::disarm();
    if (thrown && !seq::injected()) seq::fail("bad_alloc without reason"); seq::step();
    if (!thrown && !right) seq::fail(std::string(f.first) + ": wrong answer because of a failed allocation");
    if (seq::live_blocks() != live) seq::fail(std::string(f.first) + ": " + std::to_string(seq::live_blocks() - live) + " blocks of memory leaked");
    if (!f.second()) seq::fail(std::string(f.first) + ": wrong answer after a failed allocation");
    if (thrown) { // no lock is held
        auto g = global_define(); auto b = g._namespace("a namespace with a long name for queries")._namespace("inner"); b._attribute("first", 1); b._namespace("deeper"); b._method("another", &free0); b._property("another", &variable); b._enum<QE>("another");
        { auto g2 = global_define(); auto c = g2._namespace("a namespace with a long name for queries")._namespace("inner")._class<Q>("a class with a long name for queries"); c._property("another", &variable); c._method("another", &free0); c._enum<QE>("another"); }
        { auto g3 = global_define(); g3._class<Late>("Late of the queried")._base<Mother>(); }
    }
    seq::state(std::string(f.first) + (thrown ? "!" : ""));
}
} // namespace

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    g.push_back({"registry", registry, setup, true, false, false, 3});
    g.push_back({"converters", converters, nullptr, true, false, false, 1});
    g.push_back({"questions", asking, ask, true, false, false, 1});
    seq::main_(argc, argv, g);
}
