// C05: queries and calls are safe concurrently with each other and with registration
#include "rmc/common.h"

namespace {

int f0() { return 1; }
int f1(int x) { return x + 1; }
int f2(int a, int b) { return a + b; }
int g_a = 5, g_b = 6;
enum class Color { red, green, blue };
struct X { int v = 3; X() = default; explicit X(int i) : v(i) {} int get() const { return v; } void put(int i) { v = i; } int sum(int a, int b) const { return v + a + b; } DECLARE_CLASSINFO };
struct Y { int w = 4; int get() const { return w; } DECLARE_CLASSINFO };
struct Base { virtual ~Base() = default; int b = 1; int bm() const { return 10 + b; } int same() const { return 100; } DECLARE_CLASSINFO };
struct Left { virtual ~Left() = default; int l = 2; int lm() const { return 20 + l; } DECLARE_CLASSINFO };
struct Mid: Base, Left { int m = 3; int mm() const { return 30 + m; } int same() const { return 200; } DECLARE_CLASSINFO };
struct Leaf: Mid { int z = 4; DECLARE_CLASSINFO };
struct Extra { virtual ~Extra() = default; int e = 6; int em() const { return 60 + e; } DECLARE_CLASSINFO };
struct Tail: Base, Left, Extra { int t = 5; int tm() const { return 45 + t; } DECLARE_CLASSINFO };
struct Side: Base, Left { DECLARE_CLASSINFO };
struct Big { long a[6] = {1, 2, 3, 4, 5, 6}; bool operator==(Big const &o) const { return a[5] == o.a[5]; } };

MetaNamespace const *N() { return root()->getNamespace("N"); }
MetaClass const *K() { return root()->getClass("X"); }

template<typename T> void ids() { metaTypeId<T>(); metaTypeId<T&>(); metaTypeId<T const&>(); metaTypeId<T&&>(); metaTypeId<T*>(); metaTypeId<T const*>(); }
void warm() { ids<int>(); ids<X>(); ids<Y>(); ids<Base>(); ids<Left>(); ids<Mid>(); ids<Leaf>(); ids<Big>(); ids<Color>(); ids<std::string>(); root(); variant v{1}; variant c{Color::red}; variant b{Big{}}; variant s{std::string{"s"}}; }

void fill()
{
    warm();
    global_define()._namespace("N")
        ._attribute("n1", 1)._attribute("n2", 2)
        ._method("a", &f0)._method("b", &f1)._method("b", &f2)
        ._property("p", &g_a)
        ._enum<Color>("E")._element("red", Color::red)._element("green", Color::green)._attribute("e1", 7)
        ._end();
    global_define()._class<X>("X")._constructor<int>()._method("get", &X::get)._method("put", &X::put)._method("sum", &X::sum)._property("v", &X::v)._end();
}
void hierarchy()
{
    warm();
    global_define()
        ._class<Base>("Base")._method("bm", &Base::bm)._method("same", &Base::same)._property("b", &Base::b)._end()
        ._class<Left>("Left")._method("lm", &Left::lm)._property("l", &Left::l)._end()
        ._class<Mid>("Mid")._base<Base, Left>()._method("mm", &Mid::mm)._property("m", &Mid::m)._end();
}

// query groups that may run at any time on what fill() defines
struct Query { char const *name; void (*run)(); };
Query const queries[] = {
    {"names", [] { auto m = N()->getMethod("a"); RMC_CHECK(m->qualifiedName() == root()->qualifiedName() + "::N::" + m->name()); RMC_CHECK(m->owner() == N()); RMC_CHECK(m->category() == mcatMethod); RMC_CHECK(N()->name() == "N"); }},
    {"attributes", [] { RMC_CHECK(iv(N()->attribute("n1")) == 1); RMC_CHECK(iv(N()->attribute(1)) == 2); RMC_CHECK(N()->attributeName(0) == "n1"); RMC_CHECK(N()->attributeCount() >= 2); }},
    {"each_attribute", [] { std::string s; N()->for_each_attribute([&](std::string_view n, variant const &v) { RMC_CHECK(!v.empty()); s += n; return true; }); RMC_CHECK(s.substr(0, 4) == "n1n2"); }},
    {"methods", [] { auto a = N()->getMethod("a"); RMC_CHECK(a && a == N()->getMethod(std::size_t(0))); auto b = N()->getMethod<int, int>("b"); RMC_CHECK(b && b == N()->getMethod(2)); RMC_CHECK(N()->methodCount() >= 3); RMC_CHECK(!N()->getMethod("zz")); }},
    {"each_method", [] { std::vector<MetaMethod const *> seen; N()->for_each_method([&](MetaMethod const *m) { for (auto s: seen) RMC_CHECK(s != m); seen.push_back(m); return true; });
        RMC_CHECK(seen.size() >= 3); for (std::size_t i = 0; i < seen.size(); ++i) RMC_CHECK(seen[i] == N()->getMethod(i)); }},
    {"each_method_stop", [] { int n = 0; N()->for_each_method([&](MetaMethod const *) { return ++n < 2; }); RMC_CHECK(n == 2); }},
    {"each_class", [] { int n = 0; root()->for_each_class([&](MetaClass const *c) { if (n == 0) RMC_CHECK(c->name() == "X"); ++n; return true; }); RMC_CHECK(n >= 1); }},
    {"enum", [] { auto e = N()->getEnum("E"); RMC_CHECK(e && e == N()->getEnum(std::size_t(0))); RMC_CHECK(e->element("red") == Color::red); RMC_CHECK(e->elementName(1) == "green"); RMC_CHECK(e->elementCount() >= 2);
        std::string s; e->for_each_element([&](std::string const &n, variant const &) { s += n; return true; }); RMC_CHECK(s.substr(0, 8) == "redgreen"); }},
    {"static_invoke", [] { RMC_CHECK(N()->getMethod("a")->invoke() == 1); auto m = N()->getMethod<int, int>("b"); RMC_CHECK(m->invoke(2, 3) == 5); }},
    {"property_get", [] { auto p = N()->getProperty("p"); RMC_CHECK(p && !p->readOnly()); RMC_CHECK(p->get() == 5); RMC_CHECK(N()->propertyCount() >= 1); }},
    {"member", [] { variant x = X{}; RMC_CHECK(x.invoke("get") == 3); x.invoke("put", 9); RMC_CHECK(iv(x.get_property("v")) == 9); x.set_property("v", 4); RMC_CHECK(x.invoke("sum", 1, 1) == 6); }},
    {"pointer_member", [] { X o; variant x = &o; RMC_CHECK(x.invoke("get") == 3); x.invoke("put", 9); RMC_CHECK(o.v == 9); RMC_CHECK(x.is<X *>()); RMC_CHECK(x.to<X const *>() == &o); }},
    {"construct", [] { auto c = K(); auto x = c->defaultConstructor()->invoke(); RMC_CHECK(x.ref<X>().v == 3); auto y = c->getConstructor<int>()->invoke(8); RMC_CHECK(y.ref<X>().v == 8); auto z = c->copyConstructor()->invoke(y); RMC_CHECK(z.ref<X>().v == 8); }},
    {"class", [] { auto c = K(); RMC_CHECK(c && MetaClass::find(metaTypeId<X>()) == c); RMC_CHECK(c->metaTypeId() == metaTypeId<X>()); RMC_CHECK(c->inheritedFrom(c)); RMC_CHECK(root()->classCount() >= 1); X x; RMC_CHECK(meta_cast<X>(&x) == &x); }},
    {"find", [] { auto n = std::string{MetaType{metaTypeId<X>()}.typeName()}; RMC_CHECK(MetaClass::find(n) == K()); RMC_CHECK(!MetaClass::find(type_name<Big>())); RMC_CHECK(!MetaClass::find("nothing")); RMC_CHECK(MetaType{n}.typeId() == metaTypeId<X>()); RMC_CHECK(MetaClass::find(n) == K()); }},
    {"by_index", [] { RMC_CHECK(root()->getNamespace(std::size_t(0)) == N() && root()->namespaceCount() >= 1); RMC_CHECK(root()->getClass(std::size_t(0)) == K()); RMC_CHECK(K()->constructorCount() == 4); RMC_CHECK(K()->getConstructor(std::size_t(0)) == K()->defaultConstructor());
        RMC_CHECK(K()->getConstructor(1) == K()->copyConstructor() && K()->getConstructor(2) == K()->moveConstructor()); RMC_CHECK(N()->getProperty(std::size_t(0)) == N()->getProperty("p")); RMC_CHECK(N()->enumCount() == 1 && !N()->getEnum(1)); RMC_CHECK(!N()->isGlobal() && root()->isGlobal()); }},
    {"force", [] { N()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); root()->forceDeferredDefine(); RMC_CHECK(N()->methodCount() >= 3); }},
    {"values", [] { variant a = 3, b = Big{}, c = std::string("s"); variant d = b; RMC_CHECK(d == b && a != b); swap(a, c); RMC_CHECK(c == 3 && a == std::string("s")); RMC_CHECK(std::hash<variant>{}(c) == std::hash<variant>{}(variant{3})); RMC_CHECK(c.eq(3) && !c.eq(4)); RMC_CHECK(variant::empty_variant.empty()); }},
    {"types", [] { auto t = metaType<X const *>(); RMC_CHECK(t.isClassPtr() && t.pointerArity() == 1 && t.decayId() == metaTypeId<X *>()); RMC_CHECK(MetaType::compatible(metaType<X *>(), t)); auto p = metaType<X>().construct(); RMC_CHECK(static_cast<X *>(p)->v == 3); metaType<X>().destruct(p); bool h = MetaType::hasConverter<X, Y>(); RMC_CHECK(!h); }},
    {"convert", [] { variant v = 3; RMC_CHECK(v.canConvert<int>()); RMC_CHECK(v.to<int>() == 3); RMC_CHECK(!v.tryConvert<Big>()); variant c = v; c.convert<int>(); RMC_CHECK(c == v); }},
};
constexpr int nq = sizeof queries / sizeof *queries;

// registrations that leave everything defined by fill() as it is
Query const registrations[] = {
    {"add_methods", [] { global_define()._namespace("N")._method("m", &f0)._method("zy", &f1)._end(); }},
    {"add_overload", [] { global_define()._namespace("N")._method("a", &f1)._end(); }},
    {"add_attributes", [] { global_define()._namespace("N")._attribute("n3", 3)._attribute("n4", std::string("four"))._end(); }},
    {"add_elements", [] { global_define()._namespace("N")._enum<Color>("E")._element("blue", Color::blue)._attribute("e2", 8)._end(); }},
    {"add_property", [] { global_define()._namespace("N")._property("q", &g_b)._end(); }},
    {"add_class", [] { global_define()._class<Y>("Y")._method("get", &Y::get)._end(); }},
    {"add_to_class", [] { global_define()._class<X>("X")._method("v", &X::get)._attribute("x", 1)._end(); }},
    {"add_namespace", [] { global_define()._namespace("N")._namespace("I")._method("a", &f0)._end()._end()._namespace("M")._end(); }},
    {"add_base", [] { global_define()._class<Base>("Base")._end()._class<Left>("Left")._end()._class<Mid>("Mid")._base<Base, Left>()._end(); }},
    {"redefine", [] { global_define()._namespace("N")._method("a", &f0)._property("p", &g_b)._end()._class<X>("X")._property("v", &X::v)._end(); }},
    {"add_lazy", [] { global_define()._namespace("L")._lazy([](auto d) { d._method("x", &f0); })._end(); RMC_CHECK(root()->getNamespace("L")->methodCount() == 1); }},
    {"converter", [] { MetaType::registerConverter<int, std::string>([](int i) { return std::to_string(i); }); variant v = 12; RMC_CHECK(v.to<std::string>() == "12"); MetaType::unregisterConverter<int, std::string>(); }},
};
constexpr int nr = sizeof registrations / sizeof *registrations;

std::vector<Scenario> all()
{
    std::vector<Scenario> v;
    // queries of many steps: one preemption less
    auto heavy = [](int q) { std::string n = queries[q].name; return n == "member" || n == "construct" || n == "pointer_member" || n == "static_invoke" || n == "by_index"; };
    auto fin = [] { for (auto &q: queries) q.run(); };

    // every query against itself and its neighbours (first calls race on caches and lazy statics)
    for (int i = 0; i < nq; ++i) {
        int j = (i * 7 + 3) % nq;
        v.push_back({std::string("read_") + queries[i].name + "_" + queries[j].name, fill, {queries[i].run, queries[j].run}, fin, heavy(i) || heavy(j) ? 1 : 2, heavy(i) || heavy(j) ? 2 : 3});
        v.push_back({std::string("read_twice_") + queries[i].name, fill, {queries[i].run, queries[i].run}, fin, heavy(i) ? 1 : 2, heavy(i) ? 2 : 3});
    }
    // every query against every registration
    for (int r = 0; r < nr; ++r)
        for (int q = 0; q < nq; ++q) {
            Scenario s{std::string(registrations[r].name) + "_" + queries[q].name, fill, {registrations[r].run, queries[q].run}, fin, heavy(q) ? 1 : 2, heavy(q) ? 2 : 3};
            v.push_back(s);
        }
    // two registrations and a query; two queries and a registration
    for (int r = 0; r < nr; ++r) {
        int q = (r * 5 + 4) % nq, r2 = (r + 1) % nr;
        v.push_back({std::string("three_") + registrations[r].name + "_" + registrations[r2].name + "_" + queries[q].name, fill, {registrations[r].run, registrations[r2].run, queries[q].run}, fin, 1, 2});
        v.push_back({std::string("three_") + registrations[r].name + "_" + queries[q].name + "_" + queries[(q + 3) % nq].name, fill, {registrations[r].run, queries[q].run, queries[(q + 3) % nq].run}, fin, 1, 2});
    }

    // ---- visitors that query or register themselves
    v.push_back({"visitor_registers", fill, {
        [] { std::string s; int n = 0; N()->for_each_method([&](MetaMethod const *m) { s += m->name().substr(0, 1); if (n++ == 0) global_define()._namespace("N")._method("new", &f0)._end(); return true; }); RMC_CHECK(s.substr(0, 3) == "abb"); RMC_CHECK(s.size() <= 5); RMC_CHECK(s.find('n') == std::string::npos || s.find('n') == s.rfind('n')); },
        [] { global_define()._namespace("N")._method("other", &f0)._end(); RMC_CHECK(N()->getMethod("other")); }
    }, [] { RMC_CHECK(N()->methodCount() == 5); }});
    v.push_back({"visitors_register_in_each_other", fill, {
        [] { root()->for_each_class([&](MetaClass const *c) { if (c->name() == "X") global_define()._namespace("N")._method("new", &f0)._end(); return true; }); },
        [] { N()->for_each_method([&](MetaMethod const *m) { if (m->name() == "a()") global_define()._class<Y>("Y")._end(); return true; }); }
    }, [] { RMC_CHECK(N()->methodCount() == 4); RMC_CHECK(root()->classCount() == 2); }});
    v.push_back({"visitor_queries_other_list", fill, {
        [] { N()->for_each_method([&](MetaMethod const *m) { RMC_CHECK(root()->getClass("X")); RMC_CHECK(N()->getMethod(m->name()) == m); return true; }); },
        [] { root()->for_each_class([&](MetaClass const *c) { RMC_CHECK(N()->getMethod("a")); RMC_CHECK(root()->getClass(c->name()) == c); return true; }); },
        [] { global_define()._namespace("N")._method("new", &f0)._end()._class<Y>("Y")._end(); }
    }, fin, 2});
    v.push_back({"attribute_visitor_registers", fill, {
        [] { int n = 0; N()->for_each_attribute([&](std::string_view a, variant const &) { if (a == "n1") global_define()._namespace("N")._attribute("new", 1)._end(); ++n; return true; }); RMC_CHECK(n == 3 || n == 4); },
        [] { global_define()._namespace("N")._attribute("other", 2)._end(); RMC_CHECK(iv(N()->attribute("other")) == 2); }
    }, [] { RMC_CHECK(N()->attributeCount() == 4); }});
    v.push_back({"element_visitor_registers", fill, {
        [] { int n = 0; auto e = N()->getEnum("E"); e->for_each_element([&](std::string const &s, variant const &) { if (s == "red") global_define()._namespace("N")._enum<Color>("E")._element("blue", Color::blue)._end(); ++n; return true; }); RMC_CHECK(n == 3); },
        [] { auto e = N()->getEnum("E"); auto n = e->elementCount(); RMC_CHECK(n == 2 || n == 3); auto &b = e->element("blue"); RMC_CHECK(b.empty() || b == Color::blue); if (n == 3) RMC_CHECK(e->elementName(2) == "blue"); }
    }, fin});
    v.push_back({"called_method_registers", fill, {
        [] { N()->getMethod("a")->invoke(); auto m = N()->getMethod("reg"); RMC_CHECK(!m); },
        [] { global_define()._namespace("N")._method("r", &f0)._end(); RMC_CHECK(N()->getMethod("r")->invoke() == 1); }
    }, fin});

    // ---- items returned stay valid and identical
    v.push_back({"items_stay", fill, {
        [] { auto m = N()->getMethod("a"); auto &n = m->name(); auto &q = m->qualifiedName(); auto &at = N()->attribute("n1"); auto &an = N()->attributeName(0);
             rmc::point(); RMC_CHECK(n == "a()"); RMC_CHECK(q == "::N::a()" || q == root()->qualifiedName() + "::N::a()"); RMC_CHECK(iv(at) == 1 && an == "n1"); RMC_CHECK(N()->getMethod("a") == m); RMC_CHECK(&N()->attribute("n1") == &at); },
        [] { auto d = global_define()._namespace("N")._method("c", &f0)._method("d", &f0)._method("e", &f0); d._end(); global_define()._namespace("N")._attribute("x", 1)._attribute("y", 2)._attribute("z", 3)._end(); }
    }, fin});

    // ---- class hierarchies
    auto leaf = [] { global_define()._class<Leaf>("Leaf")._base<Mid>()._end(); };
    v.push_back({"cast_while_derived_registers", hierarchy, {
        leaf,
        [] { Mid m; auto b = meta_cast<Base>(&m); RMC_CHECK(b == &m); auto l = meta_cast<Left>(b); RMC_CHECK(l == static_cast<Left *>(&m)); RMC_CHECK(!meta_cast<X>(&m)); }
    }, [] { Leaf l; RMC_CHECK(meta_cast<Left>(&l) == &l); }});
    v.push_back({"cast_of_new_class", hierarchy, {
        leaf,
        [] { Leaf l; Base *b = &l; auto p = meta_cast<Left>(b); RMC_CHECK(!p || p == static_cast<Left *>(&l)); auto c = MetaClass::find(metaTypeId<Leaf>()); if (p) RMC_CHECK(c && c->inheritedFrom(MetaClass::find(metaTypeId<Left>()))); out(p ? "cast" : c ? "class" : "none"); }
    }, [] { publish(); }});
    v.push_back({"casts_concurrently", hierarchy, {
        [] { Mid m; Left *l = &m; RMC_CHECK(meta_cast<Base>(l) == static_cast<Base *>(&m)); RMC_CHECK(meta_cast<Mid>(l) == &m); },
        [] { Mid m; variant v = &m; RMC_CHECK(v.is<Left *>()); RMC_CHECK(v.to<Left *>() == static_cast<Left *>(&m)); RMC_CHECK(v.invoke("lm") == 22); RMC_CHECK(v.invoke("bm") == 11); }
    }, [] {}});
    v.push_back({"lists_while_derived_registers", hierarchy, {
        leaf,
        [] { auto m = root()->getClass("Mid"); RMC_CHECK(m->baseClassCount() == 2); RMC_CHECK(m->baseClass(0) == root()->getClass("Base") && m->baseClass(1) == root()->getClass("Left")); auto n = m->derivedClassCount(); RMC_CHECK(n <= 1); auto d = m->derivedClass(0); if (n) RMC_CHECK(d && d->name() == "Leaf"); RMC_CHECK(!m->derivedClass(1)); }
    }, [] { RMC_CHECK(root()->getClass("Mid")->derivedClassCount() == 1); }});
    v.push_back({"two_derived_register", hierarchy, {
        leaf,
        [] { global_define()._class<Y>("Y")._end(); RMC_CHECK(root()->getClass("Base")->derivedClassCount() == 1); },
        [] { auto c = MetaClass::find(metaTypeId<Leaf>()); if (c) { auto n = c->baseClassCount(); if (n) RMC_CHECK(c->baseClass(0) == root()->getClass("Mid")); auto m = c->getMethod("bm"); if (m) RMC_CHECK(n <= 1); } }
    }, [] {}, 2});
    v.push_back({"inherited_lookup", hierarchy, {
        [] { auto c = root()->getClass("Mid"); RMC_CHECK(c->getMethod("bm")); RMC_CHECK(c->getProperty("l")); auto s = c->getMethod("same"); RMC_CHECK(s); Mid m; auto r = iv(s->invoke(variant(m))); RMC_CHECK(r == 100 || r == 200); out(r == 100 ? "base" : "own"); },
        [] { global_define()._class<Mid>("Mid")._method("same", &Mid::same)._end(); }
    }, [] { publish(); auto s = root()->getClass("Mid")->getMethod("same"); Mid m; RMC_CHECK(iv(s->invoke(variant(m))) == 200); }});
    v.push_back({"inherited_lookup_base_grows", hierarchy, {
        [] { auto c = root()->getClass("Mid"); auto p = c->getProperty("new"); if (p) RMC_CHECK(p->owner() == root()->getClass("Left")); auto m = c->getMethod("new"); if (p) RMC_CHECK(m); RMC_CHECK(c->getMethod("lm")); },
        [] { global_define()._class<Left>("Left")._method("new", &Left::lm)._end(); global_define()._class<Left>("Left")._property("new", &Left::l)._end(); }
    }, [] { RMC_CHECK(root()->getClass("Mid")->getProperty("new")); }});

    // every question about a hierarchy against its growth
    static auto const &sub = [](auto *c) -> MetaClass const * { return MetaClass::find(metaTypeId<std::remove_pointer_t<decltype(c)>>()); };
    auto grown = [] { warm(); ids<Tail>(); ids<Side>(); ids<Extra>();
        global_define()._class<Base>("Base")._method("bm", &Base::bm)._method("same", &Base::same)._property("b", &Base::b)._end()
            ._class<Left>("Left")._method("lm", &Left::lm)._property("l", &Left::l)._end()._class<Extra>("Extra")._method("em", &Extra::em)._property("e", &Extra::e)._end()
            ._class<Tail>("Tail")._base<Base>()._method("tm", &Tail::tm)._end()._class<Side>("Side")._base<Base>()._end(); };
    static Query const growth[] = {
        {"derived", [] { global_define()._class<Mid>("Mid")._base<Base, Left>()._end(); }},
        {"bases", [] { global_define()._class<Tail>("Tail")._base<Left, Extra>()._end(); }},
        {"both", [] { global_define()._class<Side>("Side")._base<Left>()._end(); global_define()._class<Mid>("Mid")._base<Base, Left>()._end(); }},
        {"again", [] { global_define()._class<Tail>("Tail")._base<Base, Left>()._end(); }},
        {"members", [] { global_define()._class<Tail>("Tail")._method("bm", &Tail::tm)._property("t", &Tail::t)._end()._class<Base>("Base")._method("new", &Base::bm)._end(); }},
    };
    static Query const questions[] = {
        {"derived_classes", [] { auto c = sub((Base *)nullptr); auto n = c->derivedClassCount(); RMC_CHECK(n >= 2); RMC_CHECK(c->derivedClass(0) == sub((Tail *)nullptr) && c->derivedClass(1) == sub((Side *)nullptr)); auto d = c->derivedClass(2); RMC_CHECK(n < 3 || (d && d->name() == "Mid")); RMC_CHECK(!c->derivedClass(3)); }},
        {"base_classes", [] { auto c = sub((Tail *)nullptr); auto n = c->baseClassCount(); RMC_CHECK(c->baseClass(0) == sub((Base *)nullptr)); auto b = c->baseClass(1); RMC_CHECK(n < 2 || b); RMC_CHECK(!b || b == sub((Left *)nullptr)); RMC_CHECK(!c->baseClass(3)); }},
        {"inherited", [] { auto c = sub((Tail *)nullptr); RMC_CHECK(c->inheritedFrom(sub((Base *)nullptr))); auto e = c->inheritedFrom(sub((Extra *)nullptr)); auto l = c->inheritedFrom(sub((Left *)nullptr)); RMC_CHECK(!e || l); RMC_CHECK(!c->inheritedFrom(sub((Side *)nullptr))); }},
        {"cast", [] { Tail t; Base *b = &t; RMC_CHECK(meta_cast<Tail>(b) == &t); auto l = meta_cast<Left>(b); RMC_CHECK(!l || l == static_cast<Left *>(&t)); auto e = meta_cast<Extra>(b); RMC_CHECK(!e || e == static_cast<Extra *>(&t)); RMC_CHECK(!meta_cast<Side>(b)); }},
        {"variant", [] { Tail t; variant v = static_cast<Base *>(&t); RMC_CHECK(v.metaClass() == sub((Tail *)nullptr)); RMC_CHECK(v.is<Tail *>() && v.to<Tail *>() == &t); bool l = v.is<Left *>(); RMC_CHECK(!l || v.to<Left *>() == static_cast<Left *>(&t)); }},
        {"members", [] { auto c = sub((Tail *)nullptr); auto m = c->getMethod("bm"); RMC_CHECK(m && m->owner() == (m->owner()->name() == "Tail" ? c : sub((Base *)nullptr))); auto p = c->getProperty("e"); auto e = c->getMethod("em"); RMC_CHECK(!p || e); RMC_CHECK(c->getMethod("tm")->owner() == c); Tail t; RMC_CHECK(iv(m->invoke(variant(t))) == (m->owner() == c ? 50 : 11)); }},
        {"find", [] { for (auto n: {type_name<Tail>(), type_name<Base>(), type_name<Mid>()}) { auto c = MetaClass::find(n); RMC_CHECK(c ? c->metaTypeId() == MetaType{n}.typeId() : n == type_name<Mid>()); } }},
    };
    for (auto &g: growth)
        for (auto &q: questions) {
            auto end = [] { for (auto &q: questions) q.run(); };
            v.push_back({std::string("grows_") + g.name + "_" + q.name, grown, {g.run, q.run}, end, 2, 4});
        }
    for (auto &q: questions)
        for (auto &r: questions)
            if (&q <= &r)
                v.push_back({std::string("ask_") + q.name + "_" + r.name, grown, {q.run, r.run}, [] {}, 2, 4});

    // ---- shared objects, constant access only
    static variant const *shared, *sharedBig, *sharedClass; static X *object;
    auto share = [] { fill(); shared = new variant(41); sharedBig = new variant(Big{}); object = new X; sharedClass = new variant(std::ref(*object)); };
    v.push_back({"shared_variant_copies", share, {
        [] { variant a = *shared; variant b = *sharedBig; RMC_CHECK(a == *shared); RMC_CHECK(b == *sharedBig); RMC_CHECK(std::hash<variant>{}(a) == std::hash<variant>{}(*shared)); },
        [] { variant a = *sharedBig; variant b = *shared; RMC_CHECK(b.to<int>() == 41); RMC_CHECK(a.cref<Big>().a[5] == 6); a.clear(); RMC_CHECK(!sharedBig->empty()); },
        [] { RMC_CHECK(shared->is<int>() && shared->cref<int>() == 41); RMC_CHECK(sharedBig->data<Big>()); variant a = *sharedBig; variant b = std::move(a); RMC_CHECK(a.empty() && b == *sharedBig); }
    }, fin, 2});
    v.push_back({"shared_instance_const_calls", share, {
        [] { RMC_CHECK(sharedClass->invoke("get") == 3); RMC_CHECK(iv(sharedClass->get_property("v")) == 3); },
        [] { RMC_CHECK(K()->getMethod("sum")->invoke(*sharedClass, 1, 1) == 5); RMC_CHECK(sharedClass->metaClass() == K()); }
    }, fin});
    v.push_back({"static_property_of_different_objects", fill, {
        [] { N()->getProperty("p")->set(50); RMC_CHECK(N()->getProperty("p")->get() == 50); N()->getProperty("p")->set(5); },
        [] { global_define()._namespace("N")._property("q", &g_b)._end(); N()->getProperty("q")->set(60); RMC_CHECK(N()->getProperty("q")->get() == 60); }
    }, fin, 3});
    v.push_back({"attribute_set_by_two", fill, {
        [] { global_define()._namespace("N")._method("a", &f0)._attribute("t", 1)._end(); },
        [] { global_define()._namespace("N")._attribute("t", 1)._end(); auto n = N()->attributeCount(); RMC_CHECK(n == 3); }
    }, fin});
    v.push_back({"print", fill, {
        [] { std::ostringstream s; s << metaType<X>(); RMC_CHECK(s.str().find("X") != std::string::npos); },
        [] { std::ostringstream s; s << metaType<X const &>() << metaType<Y *>(); RMC_CHECK(s.str().size()); },
        [] { global_define()._class<Y>("Y")._end(); }
    }, fin, 2});
    return v;
}

} // namespace

int main(int argc, char **argv) { return rmc::main_(argc, argv, all()); }
