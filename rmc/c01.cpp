// C01: deferred definitions run once, to completion, before anyone can look inside
#include "rmc/common.h"

namespace {

int f0() { return 1; }
int f1(int x) { return x + 1; }
int g_var = 5;
enum class Color { red, green };
struct Inner { int v = 3; };
struct Base { virtual ~Base() = default; int b = 1; int bm() const { return 10 + b; } DECLARE_CLASSINFO };
struct Derived: Base { int d = 2; int dm() const { return 20 + d; } DECLARE_CLASSINFO };
struct Left { virtual ~Left() = default; int l = 4; int lm() { return l; } DECLARE_CLASSINFO };
struct Both: Base, Left { DECLARE_CLASSINFO };
struct Lonely { int x = 0; int m() { return 7; } };

int runsA, runsB, runsC, runsD;
MetaNamespace const *A, *B;

// the whole contents, in one go
template<typename D> void contents(D define)
{
    define
        ._attribute("first", 1)
        ._method("f", &f0)
        ._method("f", &f1)
        ._property("var", &g_var)
        .template _enum<Color>("Color")
            ._element("red", Color::red)
            ._element("green", Color::green)
        ._attribute("last", 2);
}

void complete(MetaContainer const *c, int which)
{
    switch (which) {
    case 0: RMC_CHECK(c->methodCount() == 2); RMC_CHECK(c->getEnum("Color")); break;
    case 1: RMC_CHECK(c->getMethod("f")); RMC_CHECK(c->getMethod(1)); break;
    case 2: RMC_CHECK(c->getProperty("var")); RMC_CHECK(c->propertyCount() == 1); break;
    case 3: { auto e = c->getEnum("Color"); RMC_CHECK(e); RMC_CHECK(e->elementCount() == 2); RMC_CHECK(e->attributeCount() == 1); break; }
    case 4: RMC_CHECK(c->attributeCount() == 1); RMC_CHECK(iv(c->attribute("first")) == 1); break;
    case 5: { int n = 0; c->for_each_method([&](MetaMethod const *m) { n += m != nullptr; return true; }); RMC_CHECK(n == 2); break; }
    case 6: { int n = 0; c->for_each_attribute([&](std::string_view, variant const &) { ++n; return true; }); RMC_CHECK(n == 1); break; }
    case 7: c->forceDeferredDefine(); RMC_CHECK(c->getMethod(std::size_t(0)) && c->getMethod(1) && !c->getMethod(2)); break;
    case 8: c->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); RMC_CHECK(c->enumCount() == 1); break;
    case 9: RMC_CHECK(c->attributeName(0) == "first"); break;
    case 10: { auto m = c->getMethod<>("f"); RMC_CHECK(m); RMC_CHECK(m->invoke() == 1); break; }
    }
    RMC_CHECK(runsA == 1);
}

Scenario access(int a, int b, int cc = -1)
{
    static char const *n[] = {"count", "method", "property", "enum", "attribute", "each_method", "each_attribute", "force", "force_recursive", "attribute_name", "invoke"};
    Scenario s;
    s.name = std::string("access_") + n[a] + "_" + n[b] + (cc >= 0 ? std::string("_") + n[cc] : "");
    s.setup = [] { global_define()._namespace("A")._lazy([](auto d) { ++runsA; contents(d); })._end(); A = root()->getNamespace("A"); };
    s.threads = {[a] { complete(A, a); }, [b] { complete(A, b); }};
    if (cc >= 0) { s.threads.push_back([cc] { complete(A, cc); }); if (b == 10) s.quickBound = 2; }
    s.final = [] { RMC_CHECK(runsA == 1); for (int i = 0; i < 11; ++i) complete(A, i); };
    return s;
}

std::vector<Scenario> all()
{
    std::vector<Scenario> v;
    for (int i = 0; i < 11; ++i) v.push_back(access(i, (i + 3) % 11));
    v.push_back(access(0, 5)); v.push_back(access(10, 4)); v.push_back(access(8, 1));
    v.push_back(access(0, 1, 4)); v.push_back(access(7, 10, 5));

    // definitions that look into each other
    v.push_back({"mutual", [] {
        global_define()
            ._namespace("A")._lazy([](auto d) { ++runsA; d._method("f", &f0); RMC_CHECK(B->methodCount() <= 2); d._method("f", &f1); })._end()
            ._namespace("B")._lazy([](auto d) { ++runsB; d._method("f", &f0); RMC_CHECK(A->methodCount() <= 2); d._method("f", &f1); })._end();
        A = root()->getNamespace("A"); B = root()->getNamespace("B");
    }, {
        [] { RMC_CHECK(A->methodCount() == 2); RMC_CHECK(B->methodCount() == 2); },
        [] { RMC_CHECK(B->methodCount() == 2); RMC_CHECK(A->methodCount() == 2); }
    }, [] { RMC_CHECK(runsA == 1 && runsB == 1); }});

    // one definition completes another; a third thread only looks at the second
    v.push_back({"chain_of_three", [] {
        global_define()
            ._namespace("A")._lazy([](auto d) { ++runsA; RMC_CHECK(B->methodCount() == 2); d._method("f", &f0)._method("f", &f1); })._end()
            ._namespace("B")._lazy([](auto d) { ++runsB; d._method("f", &f0)._method("f", &f1); })._end();
        A = root()->getNamespace("A"); B = root()->getNamespace("B");
    }, {
        [] { RMC_CHECK(A->methodCount() == 2); },
        [] { RMC_CHECK(B->methodCount() == 2); },
        [] { RMC_CHECK(A->getMethod("f")); RMC_CHECK(B->getMethod(1)); }
    }, [] { RMC_CHECK(runsA == 1 && runsB == 1); }});

    // definition looks into itself
    v.push_back({"self_inspection", [] {
        global_define()._namespace("A")._lazy([](auto d) {
            ++runsA; RMC_CHECK(A->methodCount() == 0); d._method("f", &f0);
            RMC_CHECK(A->getMethod("f")); int n = 0; A->for_each_method([&](MetaMethod const *) { ++n; return true; }); RMC_CHECK(n == 1);
            A->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
            d._method("f", &f1);
        })._end();
        A = root()->getNamespace("A");
    }, {
        [] { RMC_CHECK(A->methodCount() == 2); },
        [] { RMC_CHECK(A->getMethod<int>("f")); }
    }, [] { RMC_CHECK(runsA == 1); }});

    // nested: a lazy container defined by a lazy container
    v.push_back({"nested", [] {
        global_define()._namespace("A")._lazy([](auto d) {
            ++runsA;
            d._namespace("N")._lazy([](auto e) { ++runsB; contents(e); })._end()
                .template _class<Inner>("Inner")._lazy([](auto e) { ++runsC; e._property("v", &Inner::v)._attribute("a", 1); })._end();
        })._end();
        A = root()->getNamespace("A");
    }, {
        [] { auto n = A->getNamespace("N"); RMC_CHECK(n); RMC_CHECK(n->methodCount() == 2); RMC_CHECK(n->enumCount() == 1); },
        [] { A->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
             RMC_CHECK(runsA == 1 && runsB == 1 && runsC == 1);
             auto c = A->getClass("Inner"); RMC_CHECK(c); RMC_CHECK(c->propertyCount() == 1); RMC_CHECK(c->attributeCount() == 1); }
    }, [] { RMC_CHECK(runsA == 1 && runsB == 1 && runsC == 1); }});

    v.push_back({"nested_class_by_type", [] {
        global_define()._namespace("A")._lazy([](auto d) {
            ++runsA;
            d.template _class<Inner>("Inner")._lazy([](auto e) { ++runsC; e._property("v", &Inner::v)._attribute("a", 1); })._end();
        })._end();
        A = root()->getNamespace("A");
    }, {
        [] { auto c = A->getClass("Inner"); RMC_CHECK(c); RMC_CHECK(c->getConstructor(std::size_t(0))); RMC_CHECK(c->getProperty("v")); },
        [] { auto c = MetaClass::find(metaTypeId<Inner>()); // not registered yet, or findable
             if (c) { RMC_CHECK(c->name() == "Inner"); RMC_CHECK(c->owner() == A); out("found"); } else out("none"); publish(); }
    }, [] { RMC_CHECK(runsA == 1 && runsC == 1); }});

    // classes: inheritance queries, casts, member lookup through lazily defined bases
    auto classes = [] {
        global_define()
            .template _class<Base>("Base")._lazy([](auto d) { ++runsB; d._method("bm", &Base::bm)._property("b", &Base::b); })._end()
            .template _class<Derived>("Derived")._lazy([](auto d) { ++runsD; d.template _base<Base>()._method("dm", &Derived::dm); })._end();
    };
    auto cls = [](char const *n) { return root()->getClass(n); };
    v.push_back({"class_inherited_lookup", classes, {
        [=] { auto m = cls("Derived")->getMethod("bm"); RMC_CHECK(m); RMC_CHECK(m->invoke(Derived{}) == 11); },
        [=] { auto c = cls("Derived"); RMC_CHECK(c->baseClassCount() == 1); RMC_CHECK(c->baseClass(0) == cls("Base")); RMC_CHECK(c->getProperty("b")); }
    }, [] { RMC_CHECK(runsB == 1 && runsD == 1); }});
    v.push_back({"class_cast", classes, {
        [=] { Derived d; Base *b = &d; auto p = meta_cast<Derived>(b); RMC_CHECK(p == &d); },
        [=] { Derived d; RMC_CHECK(static_cast<Base*>(&d) == meta_cast<Base>(&d)); RMC_CHECK(cls("Derived")->inheritedFrom(cls("Base"))); }
    }, [] { RMC_CHECK(runsD == 1); }});
    v.push_back({"class_variant", [=] { classes(); (void)variant{Derived{}}.is<int>(); (void)metaTypeId<Base*>(); (void)metaTypeId<Derived*>(); (void)metaTypeId<Base&>(); variant i{1}; }, {
        [=] { variant x = Derived{}; RMC_CHECK(x.is<Base>()); RMC_CHECK(x.ref<Base>().b == 1); },
        [=] { Derived d; variant x = &d; auto y = x.to<Base*>(); RMC_CHECK(y == &d); RMC_CHECK(iv(x.invoke("dm")) == 22); }
    }, [] { RMC_CHECK(runsD == 1); }});
    v.push_back({"class_derived_list", classes, {
        [=] { RMC_CHECK(cls("Base")->methodCount() == 1); auto n = cls("Base")->derivedClassCount(); RMC_CHECK(n <= 1); out(std::to_string(n)); publish(); },
        [=] { RMC_CHECK(cls("Derived")->baseClassCount() == 1); RMC_CHECK(cls("Base")->derivedClassCount() == 1); RMC_CHECK(cls("Base")->derivedClass(0) == cls("Derived")); }
    }, [] { RMC_CHECK(runsB == 1 && runsD == 1); }});
    v.push_back({"class_two_lazy_bases", [] {
        global_define()
            .template _class<Base>("Base")._lazy([](auto d) { ++runsB; d._method("bm", &Base::bm); })._end()
            .template _class<Left>("Left")._lazy([](auto d) { ++runsA; d._method("lm", &Left::lm); })._end()
            .template _class<Both>("Both")._lazy([](auto d) { ++runsD; d.template _base<Base, Left>(); RMC_CHECK(root()->getClass("Left")->methodCount() == 1); })._end();
    }, {
        [=] { Both b; variant x = std::ref(b); RMC_CHECK(iv(x.invoke("lm")) == 4); },
        [=] { RMC_CHECK(cls("Both")->baseClassCount() == 2); RMC_CHECK(cls("Both")->getMethod("bm")); Both b; Base *p = &b; RMC_CHECK(meta_cast<Left>(p) == &b); }
    }, [] { RMC_CHECK(runsA == 1 && runsB == 1 && runsD == 1); }});

    // a definition that fails: its caller gets the exception, nobody is blocked, it does not run again
    v.push_back({"throwing", [] {
        global_define()._namespace("A")._lazy([](auto d) { ++runsA; d._method("f", &f0); rmc::point(); throw std::logic_error("definition failed"); })._end();
        A = root()->getNamespace("A");
    }, {
        [] { int n = -1; try { n = int(A->methodCount()); } catch (std::logic_error const &) { n = -2; } out(std::to_string(n)); },
        [] { int n = -1; try { n = int(A->methodCount()); } catch (std::logic_error const &) { n = -2; } out(std::to_string(n)); }
    }, [] { RMC_CHECK((g_out[0] == "-2") + (g_out[1] == "-2") == 1); RMC_CHECK(runsA == 1);
            RMC_CHECK((g_out[0] == "1") + (g_out[1] == "1") == 1); RMC_CHECK(A->methodCount() == 1); publish(); }});

    // attaching definitions: exactly one wins when two threads attach, an access before or after gets nothing or everything
    v.push_back({"attach_two", [] { global_define()._namespace("A")._end(); A = root()->getNamespace("A"); }, {
        [] { out(thrown([] { global_define()._namespace("A")._lazy([](auto d) { ++runsA; contents(d); })._end(); })); },
        [] { out(thrown([] { global_define()._namespace("A")._lazy([](auto d) { ++runsA; contents(d); })._end(); })); }
    }, [] { RMC_CHECK((g_out[0] == "ok") + (g_out[1] == "ok") == 1); RMC_CHECK((g_out[0] == "definition") + (g_out[1] == "definition") == 1); complete(A, 0); publish(); }});
    v.push_back({"attach_and_access", [] { global_define()._namespace("A")._end(); A = root()->getNamespace("A"); }, {
        [] { global_define()._namespace("A")._lazy([](auto d) { ++runsA; d._method("f", &f0)._method("f", &f1); })._end(); },
        [] { auto n = A->methodCount(); RMC_CHECK(n == 0 || n == 2); out(std::to_string(n)); auto k = A->methodCount(); RMC_CHECK(k >= n && k != 1); publish(); }
    }, [] { RMC_CHECK(A->methodCount() == 2); RMC_CHECK(runsA == 1); }});

    // another thread registers into the same container while its deferred definition runs
    v.push_back({"register_meanwhile", [] {
        global_define()._namespace("A")._lazy([](auto d) { ++runsA; d._method("f", &f0)._method("f", &f1); })._end();
        A = root()->getNamespace("A");
    }, {
        [] { auto n = A->methodCount(); RMC_CHECK(n == 2 || n == 3); RMC_CHECK(A->getMethod<int>("f")); RMC_CHECK(A->getMethod<>("f")); out(std::to_string(n)); publish(); },
        [] { global_define()._namespace("A")._method("h", &f0)._end(); RMC_CHECK(A->getMethod("h")); }
    }, [] { RMC_CHECK(A->methodCount() == 3); RMC_CHECK(runsA == 1); }});

    // a definition that defines into another lazily defined container
    v.push_back({"defines_elsewhere", [] {
        global_define()
            ._namespace("A")._lazy([](auto d) { ++runsA; d._method("f", &f0); global_define()._namespace("B")._method("h", &f0)._end(); d._method("f", &f1); })._end()
            ._namespace("B")._lazy([](auto d) { ++runsB; d._method("f", &f0); RMC_CHECK(A->getMethod("f")); d._method("f", &f1); })._end();
        A = root()->getNamespace("A"); B = root()->getNamespace("B");
    }, {
        [] { RMC_CHECK(A->methodCount() == 2); RMC_CHECK(B->getMethod("h")); },
        [] { RMC_CHECK(B->getMethod<int>("f")); RMC_CHECK(A->getMethod<int>("f")); }
    }, [] { RMC_CHECK(runsA == 1 && runsB == 1); RMC_CHECK(B->methodCount() == 3); }});
    return v;
}

} // namespace

int main(int argc, char **argv) { return rmc::main_(argc, argv, all()); }
