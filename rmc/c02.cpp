// C02: concurrent registrations keep the registry consistent
#include "rmc/common.h"

namespace {

int f0() { return 1; }
int f1(int x) { return x + 1; }
int f2(int a, int b) { return a + b; }
int g_a = 5, g_b = 6;
enum class Color { red, green, blue };
struct X { int v = 3; X() = default; explicit X(int i) : v(i) {} int get() const { return v; } DECLARE_CLASSINFO };
struct Y { int w = 4; int get() const { return w; } DECLARE_CLASSINFO };
struct Base { virtual ~Base() = default; int b = 1; DECLARE_CLASSINFO };
struct Mid: Base { int m = 2; DECLARE_CLASSINFO };
struct Other: Base { int o = 3; DECLARE_CLASSINFO };

MetaNamespace const *N() { return root()->getNamespace("N"); }

template<typename Get, typename ByName>
void uniform(MetaContainer const *c, std::size_t n, Get get, ByName byName)
{
    for (std::size_t i = 0; i < n; ++i) {
        auto *it = get(i); RMC_CHECK(it);
        RMC_CHECK(it->owner() == c);
        RMC_CHECK(it->qualifiedName() == c->qualifiedName() + "::" + it->name());
        RMC_CHECK(byName(it->name()) == it);
        for (std::size_t k = 0; k < i; ++k) RMC_CHECK(get(k) != it && get(k)->name() != it->name());
    }
    RMC_CHECK(!get(n));
}
// every item is found by its name and at its index, once
void consistent(MetaContainer const *c)
{
    uniform(c, c->namespaceCount(), [c](std::size_t i) { return c->getNamespace(i); }, [c](std::string const &n) { return c->getNamespace(n); });
    uniform(c, c->classCount(), [c](std::size_t i) { return c->getClass(i); }, [c](std::string const &n) { return c->getClass(n); });
    uniform(c, c->methodCount(), [c](std::size_t i) { return c->getMethod(i); }, [c](std::string const &n) { return c->getMethod(n); });
    uniform(c, c->propertyCount(), [c](std::size_t i) { return c->getProperty(i); }, [c](std::string const &n) { return c->getProperty(n); });
    uniform(c, c->enumCount(), [c](std::size_t i) { return c->getEnum(i); }, [c](std::string const &n) { return c->getEnum(n); });
    uniform(c, c->constructorCount(), [c](std::size_t i) { return c->getConstructor(i); }, [c](std::string const &n) { return c->getConstructor(n); });
    for (std::size_t i = 0; i < c->namespaceCount(); ++i) consistent(c->getNamespace(i));
    for (std::size_t i = 0; i < c->classCount(); ++i) {
        auto k = c->getClass(i);
        RMC_CHECK(MetaClass::find(k->metaTypeId()) == k);
        RMC_CHECK(MetaClass::find(MetaType{k->metaTypeId()}.typeName()) == k);
        for (std::size_t b = 0; b < k->baseClassCount(); ++b) {
            auto base = k->baseClass(b); RMC_CHECK(base); int n = 0;
            for (std::size_t d = 0; d < base->derivedClassCount(); ++d) n += base->derivedClass(d) == k;
            RMC_CHECK(n == 1); RMC_CHECK(k->inheritedFrom(base));
        }
        consistent(k);
    }
}

void defN() { global_define()._namespace("N")._end(); }
// types used before: first use of types is the subject of C03
void warm() { metaTypeId<X>(); metaTypeId<Y>(); metaTypeId<Base>(); metaTypeId<Mid>(); metaTypeId<Other>(); metaTypeId<int>(); metaTypeId<Color>(); metaTypeId<X const&>(); metaTypeId<X&&>(); metaTypeId<Y const&>(); metaTypeId<Y&&>();
    metaTypeId<Base const&>(); metaTypeId<Base&&>(); metaTypeId<Mid const&>(); metaTypeId<Mid&&>(); metaTypeId<Other const&>(); metaTypeId<Other&&>(); metaTypeId<int&>(); root(); variant v{1}; variant c{Color::red}; }

// what the second registrar saw
template<typename F> std::function<void()> reg(F f) { return [f] { out(thrown(f)); }; }
int oks() { int n = 0; for (auto &o: g_out) n += o == "ok"; return n; }
int dups() { int n = 0; for (auto &o: g_out) n += o == "duplicate"; return n; }

std::vector<Scenario> all()
{
    std::vector<Scenario> v;
    auto fin = [](auto f) { return [f] { f(); consistent(root()); publish(); }; };

    auto ns = [](char const *n, char const *m) { return [=] { global_define()._namespace(n)._method(m, &f0)._end(); }; };
    v.push_back({"namespace_same", warm, {ns("N", "a"), ns("N", "b")}, fin([] { RMC_CHECK(root()->namespaceCount() == 1); RMC_CHECK(N()->methodCount() == 2); })});
    v.push_back({"namespace_three", warm, {ns("N", "a"), ns("N", "b"), ns("M", "a")}, fin([] { RMC_CHECK(root()->namespaceCount() == 2); RMC_CHECK(N()->methodCount() == 2); RMC_CHECK(root()->getNamespace("M")->methodCount() == 1); }), 2});
    v.push_back({"namespace_same_by_three", warm, {ns("N", "a"), ns("N", "a"), ns("N", "a")}, fin([] { RMC_CHECK(root()->namespaceCount() == 1); RMC_CHECK(N()->methodCount() == 1); }), 2});
    v.push_back({"namespace_crossed", warm, {
        [] { global_define()._namespace("N")._end()._namespace("M")._end(); RMC_CHECK(root()->namespaceCount() == 2); },
        [] { global_define()._namespace("M")._end()._namespace("N")._end(); RMC_CHECK(root()->namespaceCount() == 2); }
    }, fin([] { RMC_CHECK(root()->namespaceCount() == 2); })});
    v.push_back({"namespace_nested", warm, {
        [] { global_define()._namespace("N")._namespace("I")._method("a", &f0)._end()._end(); },
        [] { global_define()._namespace("N")._namespace("I")._property("p", &g_a)._end()._end(); }
    }, fin([] { RMC_CHECK(N()->namespaceCount() == 1); auto i = N()->getNamespace("I"); RMC_CHECK(i->methodCount() == 1 && i->propertyCount() == 1); })});

    auto setN = [] { warm(); defN(); };
    auto meth = [](char const *n, auto f) { return [=] { global_define()._namespace("N")._method(n, f)._end(); RMC_CHECK(N()->getMethod(n)); }; };
    v.push_back({"method_same", setN, {meth("m", &f0), meth("m", &f0)}, fin([] { RMC_CHECK(N()->methodCount() == 1); })});
    v.push_back({"method_overloads", setN, {meth("m", &f0), meth("m", &f1), meth("m", &f2)}, fin([] {
        RMC_CHECK(N()->methodCount() == 3); RMC_CHECK(N()->getMethod<>("m")->invoke() == 1); RMC_CHECK(N()->getMethod<int>("m")->invoke(1) == 2); auto mm = N()->getMethod<int,int>("m"); RMC_CHECK(mm->invoke(1, 2) == 3); }), 2});
    v.push_back({"method_different", setN, {meth("a", &f0), meth("b", &f1)}, fin([] { RMC_CHECK(N()->methodCount() == 2); })});
    v.push_back({"property_same_name", setN, {
        [] { global_define()._namespace("N")._property("p", &g_a)._end(); RMC_CHECK(N()->getProperty("p")); },
        [] { global_define()._namespace("N")._property("p", &g_b)._end(); auto x = N()->getProperty("p")->get(); RMC_CHECK(x == 5 || x == 6); out(x == 5 ? "a" : "b"); }
    }, fin([] { RMC_CHECK(N()->propertyCount() == 1); auto x = iv(N()->getProperty("p")->get()); RMC_CHECK((x == 5) == (g_out[1] == "a")); })});
    v.push_back({"enum_same", setN, {
        [] { global_define()._namespace("N")._enum<Color>("E")._element("red", Color::red)._element("green", Color::green)._end(); RMC_CHECK(N()->getEnum("E")->elementCount() >= 2); },
        [] { global_define()._namespace("N")._enum<Color>("E")._element("blue", Color::blue)._element("red", Color::red)._end(); RMC_CHECK(N()->getEnum("E")->elementCount() >= 2); }
    }, fin([] { auto e = N()->getEnum("E"); RMC_CHECK(N()->enumCount() == 1); RMC_CHECK(e->elementCount() == 3);
        for (int i = 0; i < 3; ++i) RMC_CHECK(e->element(std::size_t(i)) == e->element(e->elementName(i))); RMC_CHECK(e->element("blue") == Color::blue); RMC_CHECK(e->element("red") == Color::red); })});
    v.push_back({"attributes_same_item", setN, {
        [] { global_define()._namespace("N")._attribute("a", 1)._attribute("b", 2)._end(); },
        [] { global_define()._namespace("N")._attribute("b", 2)._attribute("c", 3)._end(); }
    }, fin([] { RMC_CHECK(N()->attributeCount() == 3); RMC_CHECK(iv(N()->attribute("a")) == 1 && iv(N()->attribute("b")) == 2 && iv(N()->attribute("c")) == 3); })});
    v.push_back({"mixed_categories", setN, {
        [] { global_define()._namespace("N")._method("x", &f0)._end(); },
        [] { global_define()._namespace("N")._property("x", &g_a)._end(); },
        [] { global_define()._namespace("N")._enum<Color>("x")._end(); }
    }, fin([] { RMC_CHECK(N()->methodCount() == 1 && N()->propertyCount() == 1 && N()->enumCount() == 1); }), 2});
    v.push_back({"constructors", [] { warm(); global_define()._class<X>("X")._end(); }, {
        [] { global_define()._class<X>("X")._constructor<int>()._end(); },
        [] { global_define()._class<X>("X")._constructor<int>("other")._end(); }
    }, fin([] { RMC_CHECK(root()->getClass("X")->constructorCount() >= 4); }), 2});

    // classes
    v.push_back({"class_same", warm, {
        reg([] { global_define()._class<X>("X")._method("get", &X::get)._end(); auto c = root()->getClass("X"); RMC_CHECK(c && MetaClass::find(metaTypeId<X>()) == c); }),
        reg([] { global_define()._class<X>("X")._property("v", &X::v)._end(); auto c = root()->getClass("X"); RMC_CHECK(c && MetaClass::find(metaTypeId<X>()) == c); })
    }, fin([] { RMC_CHECK(oks() == 2); RMC_CHECK(root()->classCount() == 1); auto c = root()->getClass("X"); RMC_CHECK(c->methodCount() == 1 && c->propertyCount() == 1);
                RMC_CHECK(c->defaultConstructor() && c->copyConstructor() && c->moveConstructor()); }), 2});
    v.push_back({"class_two_names", warm, {
        reg([] { global_define()._class<X>("X1")._end(); }), reg([] { global_define()._class<X>("X2")._end(); })
    }, fin([] { RMC_CHECK(oks() == 1 && dups() == 1); RMC_CHECK(root()->classCount() == 1); auto c = MetaClass::find(metaTypeId<X>()); RMC_CHECK(c && c == root()->getClass(std::size_t(0))); RMC_CHECK(c->name() == (g_out[0] == "ok" ? "X1" : "X2")); })});
    v.push_back({"class_two_places", [] { warm(); defN(); }, {
        reg([] { global_define()._class<X>("X")._end(); }), reg([] { global_define()._namespace("N")._class<X>("X")._end()._end(); })
    }, fin([] { RMC_CHECK(oks() == 1 && dups() == 1); RMC_CHECK(root()->classCount() + N()->classCount() == 1); auto c = MetaClass::find(metaTypeId<X>()); RMC_CHECK(c); RMC_CHECK(c->owner() == (g_out[0] == "ok" ? static_cast<MetaContainer const*>(root()) : N())); })});
    v.push_back({"class_three_names", warm, {
        reg([] { global_define()._class<X>("X1")._end(); }), reg([] { global_define()._class<X>("X2")._end(); }), reg([] { global_define()._class<X>("X3")._end(); })
    }, fin([] { RMC_CHECK(oks() == 1 && dups() == 2); RMC_CHECK(root()->classCount() == 1); }), 2});
    v.push_back({"class_two_types_one_name", warm, {
        reg([] { global_define()._class<X>("C")._end(); }), reg([] { global_define()._class<Y>("C")._end(); })
    }, fin([] { RMC_CHECK(oks() == 1 && dups() == 1); auto c = root()->getClass("C"); RMC_CHECK(c); bool x = g_out[0] == "ok"; RMC_CHECK(c->metaTypeId() == (x ? metaTypeId<X>() : metaTypeId<Y>()));
                RMC_CHECK(!MetaClass::find(x ? metaTypeId<Y>() : metaTypeId<X>())); })});
    v.push_back({"class_different", warm, {
        reg([] { global_define()._class<X>("X")._end(); }), reg([] { global_define()._class<Y>("Y")._end(); })
    }, fin([] { RMC_CHECK(oks() == 2); RMC_CHECK(root()->classCount() == 2); })});
    v.push_back({"class_and_reader", warm, {
        reg([] { global_define()._class<X>("X")._method("get", &X::get)._end(); }),
        [] {
            auto byName = root()->getClass("X");
            auto byType = MetaClass::find(metaTypeId<X>());
            auto byTypeName = MetaClass::find(MetaType{metaTypeId<X>()}.typeName());
            if (byName) { RMC_CHECK(byName->metaTypeId() == metaTypeId<X>()); RMC_CHECK(byType == byName); RMC_CHECK(byName->owner() == root()); }
            if (byType) { RMC_CHECK(byTypeName == byType); RMC_CHECK(byType->name() == "X"); RMC_CHECK(byType->methodCount() <= 1); RMC_CHECK(byType->qualifiedName() == root()->qualifiedName() + "::X"); }
            out(byName ? "named" : byType ? "typed" : "none");
        }
    }, fin([] { RMC_CHECK(root()->classCount() == 1); })});
    v.push_back({"class_and_variant", warm, {
        reg([] { global_define()._class<X>("X")._method("get", &X::get)._end(); }),
        [] { variant x = X{}; auto c = x.metaClass(); if (c) { RMC_CHECK(c->name() == "X"); auto m = c->getMethod("get"); if (m) RMC_CHECK(iv(m->invoke(x)) == 3); out(m ? "method" : "class"); } else out("none"); }
    }, fin([] {})});
    // bases
    auto bases = [] { warm(); global_define()._class<Base>("Base")._end()._class<Mid>("Mid")._end()._class<Other>("Other")._end(); };
    v.push_back({"base_two_derived", bases, {
        reg([] { global_define()._class<Mid>("Mid")._base<Base>()._end(); }), reg([] { global_define()._class<Other>("Other")._base<Base>()._end(); })
    }, fin([] { RMC_CHECK(oks() == 2); RMC_CHECK(root()->getClass("Base")->derivedClassCount() == 2); })});
    v.push_back({"base_twice", bases, {
        reg([] { global_define()._class<Mid>("Mid")._base<Base>()._end(); }), reg([] { global_define()._class<Mid>("Mid")._base<Base>()._end(); })
    }, fin([] { RMC_CHECK(oks() == 2); RMC_CHECK(root()->getClass("Base")->derivedClassCount() == 1); RMC_CHECK(root()->getClass("Mid")->baseClassCount() == 1); })});
    v.push_back({"base_and_cast", bases, {
        reg([] { global_define()._class<Mid>("Mid")._base<Base>()._end(); }),
        [] { Mid m; auto p = meta_cast<Base>(&m); RMC_CHECK(!p || p == &m); auto q = root()->getClass("Mid")->inheritedFrom(root()->getClass("Base")); RMC_CHECK(q || !p); out(p ? "cast" : "null"); }
    }, fin([] {})});
    v.push_back({"base_not_yet_registered", warm, {
        reg([] { global_define()._class<Base>("Base")._end(); }),
        reg([] { global_define()._class<Mid>("Mid")._base<Base>()._end(); })
    }, fin([] { RMC_CHECK(g_out[0] == "ok"); RMC_CHECK(g_out[1] == "ok" || g_out[1] == "unregistered"); RMC_CHECK(root()->getClass("Mid")->baseClassCount() == (g_out[1] == "ok" ? 1u : 0u)); })});
    // registration by two threads each inside the class of the other's registration
    v.push_back({"nested_class", warm, {
        reg([] { global_define()._class<X>("X")._class<Y>("Y")._method("get", &Y::get)._end()._end(); }),
        reg([] { global_define()._class<X>("X")._class<Y>("Y")._property("w", &Y::w)._end()._end(); })
    }, fin([] { RMC_CHECK(oks() == 2); auto y = root()->getClass("X")->getClass("Y"); RMC_CHECK(y && y->methodCount() == 1 && y->propertyCount() == 1); }), 2});
    // registration while the same container is being iterated or looked into
    v.push_back({"register_and_lookup", setN, {
        [] { global_define()._namespace("N")._method("a", &f0)._method("b", &f0)._method("c", &f0)._end(); },
        [] { auto c = N()->getMethod("c"), b = N()->getMethod("b"), a = N()->getMethod("a"); RMC_CHECK(!c || b); RMC_CHECK(!b || a); out(c ? "c" : b ? "b" : a ? "a" : "-"); }
    }, fin([] { RMC_CHECK(N()->methodCount() == 3); })});
    return v;
}

} // namespace

int main(int argc, char **argv) { return rmc::main_(argc, argv, all()); }
