// S01: use from constructors and destructors of static objects.
// The exploration runs in a constructor that precedes the dynamic initialisation of the library (as that of a user's
// objects may when everything is linked statically). Every execution is a process that performs a sequence of first uses,
// the first part before the library is initialised, the second one in main(), and ends; static objects created between the
// uses look at everything in their destructors.
#include "seq/seq.h"
#include <rtti/metadefine.h>
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <rtti/metaerror.h>
#include <csetjmp>
#include <unistd.h>
#include <cstdlib>
#include <memory>
#include <optional>
#include <sstream>

using namespace rtti;

namespace {

// ---- objects
struct T1 { int a = 41; long b = 43; bool operator==(T1 const &o) const { return a == o.a && b == o.b; } };
struct T2 { std::string s = "a string that is not short at all"; };
struct Base { virtual ~Base() = default; int b = 3; int get() const { return b; } void nothing() const {} int field = 5; };
struct Side { long side = 77; };
struct Derived: Side, Base { int d = 4; };
struct Other { int o = 1; };
struct From { int v = 9; }; struct To { int v = 0; };
struct Late { std::string s = "another string that is not short"; int n = 1; bool operator==(Late const &o) const { return s == o.s; } };
int freeFunction(int x) { return x + 1; }
void nothing() {}
int liveAttr = 0;
struct Attr { std::string s = "value of an attribute, quite long"; Attr() { ++liveAttr; } Attr(Attr const &o): s(o.s) { ++liveAttr; } ~Attr(); bool operator==(Attr const &o) const { return s == o.s; } };

// ---- facilities: what has to be there from the time of its first use on
enum Facility { Types, Converters, Names, Classes, nFacilities };
bool used[nFacilities];          // first used, and not yet...
struct Seen { bool types, conv, names, cls, base, derived, ns, attr, lazy; };
Seen now;                        // what is registered
bool after = false;              // main() has returned

std::string &whereText() { static auto &s = *new std::string; return s; }
#define where whereText()
#define MUST(COND) do { if (!(COND)) seq::fail(where + ": " #COND " [" SEQ_STR(__LINE__) "]"); } while (false)
// COND must hold when the facility is there; otherwise the alternative (unknown, refused) will do
#define EITHER(SURE, COND, UNKNOWN) do { if (!(COND) && ((SURE) || !(UNKNOWN))) seq::fail(where + ((SURE) ? ": " #COND : ": neither " #COND " nor " #UNKNOWN) + " [" SEQ_STR(__LINE__) "]"); } while (false)

template<typename T> bool typeIs(size_t size, char const *name) { auto t = MetaType{metaTypeId<T>()}; return t.valid() && t.typeId() == metaTypeId<T>() && t.typeSize() == size && t.typeName().find(name) != std::string_view::npos && MetaType{t.typeName()}.typeId() == t.typeId() && t.isClass() && MetaType{metaTypeId<T const &>()}.decayId() == t.typeId(); }
template<typename T> bool typeUnknown() { auto t = MetaType{metaTypeId<T>()}; return !t.valid() && !t.typeSize() && !MetaType{metaTypeId<T const &>()}.valid() && !t.metaClass(); }

// a result of an access: 1 right, 0 refused, -1 wrong
template<typename F> int access(F f) { try { return f() ? 1 : -1; } catch (std::exception const &) { return 0; } }

struct Sure { bool types, conv, cls, names; };

// everything that can be asked; sure: what has to be answered rightly
void look(Sure s, Seen const &r)
{
    seq::step(); seq::state(where + (after ? "#" : "") + char('0' + s.types + 2 * s.conv + 4 * s.cls + 8 * s.names) + char('A' + r.conv + 2 * r.base + 4 * r.derived + 8 * r.ns + 16 * r.attr));
    // types
    EITHER(s.types, typeIs<T1>(sizeof(T1), "T1"), typeUnknown<T1>());
    EITHER(s.types, typeIs<T2>(sizeof(T2), "T2"), typeUnknown<T2>());
    if (after) EITHER(s.types, typeIs<Late>(sizeof(Late), "Late"), typeUnknown<Late>()); // first used during shutdown
    EITHER(s.types, MetaType{"no such type"}.valid() == false, false);
    { std::ostringstream o; auto f = MetaType{metaTypeId<T1>()}.typeFlags(); o << f; auto t = "|" + o.str() + "|"; auto has = [&](char const *n) { return t.find("|" + std::string(n) + "|") != std::string::npos; }; EITHER(s.types, has("Class") && has("CopyConstructible") && !has("Void"), has("Void")); }
    { auto t = MetaType{metaTypeId<T1 const *>()}; EITHER(s.types, t.valid() && t.isPointer() && t.pointerArity() == 1 && MetaType::compatible(MetaType{metaTypeId<T1 *>()}, t) && !MetaType::compatible(t, MetaType{metaTypeId<T1 *>()}), !t.valid()); if (t.valid()) { auto u = MetaType{metaTypeId<T1>()}; MUST(u.valid()); T1 source{7, 8}; auto *made = static_cast<T1 *>(u.construct(&source)); MUST(made && made->a == 7); u.destruct(made); } }
    // values
    variant v = T1{}, w = T2{}, e; variant c = v;
    MUST(!v.empty() && e.empty() && !w.empty() && !c.empty());
    auto eq = c == v;
    EITHER(s.types, eq, !eq);
    MUST(!(v == w) && !(w == v) && !(v == e) && e == variant{});
    variant t1b = T1{1, 2}; MUST(!(t1b == v) && t1b != v);
    variant small = 'x', other = Late{}; MUST(!(small == other) && !(other == small) && !(small == v));
    int x = access([&] { return v.ref<T1>().a == 41; }); EITHER(s.types, x == 1, x == 0);
    x = access([&] { return w.to<T2>().s == T2{}.s; }); EITHER(s.types, x == 1, x == 0);
    x = access([&] { return w.ref<T1>().a == 41; }); MUST(x == 0);
    x = access([&] { return w.is<T1>() == false; }); MUST(x == 1);
    x = access([&] { return v.is<T1>(); }); EITHER(s.types, x == 1, x == -1);
    auto *p = v.data<T1>(); EITHER(s.types, p && p->b == 43, !p);
    MUST(!w.data<T1>() && !e.data<T1>());
    c = w; w = v; v = std::move(c); MUST(!c); c = variant{}; v.clear(); MUST(v.empty());
    { int i = 5; variant r = std::ref(i); x = access([&] { return &r.ref<int>() == &i; }); EITHER(s.types, x == 1, x == 0); }
    // conversions
    variant f = From{}; bool can = f.canConvert<To>();
    EITHER(r.conv && s.types && s.conv, can == r.conv, !can);
    x = access([&] { return f.to<To>().v == 9; }); if (r.conv) EITHER(s.types && s.conv, x == 1, x == 0); else MUST(x == 0);
    bool has = MetaType::hasConverter<From, To>(); EITHER(s.types && s.conv, has == r.conv, !has);
    MUST((!MetaType::hasConverter<To, From>()));
    { auto h1 = std::hash<variant>{}(variant{T2{}.s}), h2 = std::hash<variant>{}(variant{T2{}.s}); MUST(h1 == h2); }
    { variant n = 5; bool ok = n.tryConvert<From>(); MUST(!ok && !n.empty()); variant g = From{}; ok = g.tryConvert<To>(); EITHER(r.conv && s.types && s.conv, ok == r.conv, !ok); }
    // the class of a type
    auto *k = MetaClass::find(metaTypeId<Base>()); bool sure = s.types && s.cls;
    if (r.base) EITHER(sure, k != nullptr, !k); else MUST(!k);
    MUST(k == MetaType{metaTypeId<Base>()}.metaClass());
    if (k) {
        MUST(k->name() == "Base" && k->metaTypeId() == metaTypeId<Base>() && k->methodCount() == 2 && k->propertyCount() == 1 && k->getMethod("get") && k->getProperty("field"));
        MUST(k->attribute("a") == Attr{} && k->attribute("none").empty() && k->attribute(7).empty() && k->attributeName(7).empty() && k->attributeName(0) == "a");
    }
    auto *dk = MetaClass::find(metaTypeId<Derived>());
    if (r.derived) { EITHER(sure, dk != nullptr, !dk); if (dk && k) MUST(dk->inheritedFrom(k) && dk->baseClassCount() == 1 && dk->baseClass(0) == k && k->derivedClass(0) == dk); } else MUST(!dk);
    MUST(!MetaClass::find(metaTypeId<Other>()));
    // through the class
    Derived d; variant dv = std::ref(d), bv = std::ref(static_cast<Base &>(d));
    x = access([&] { return &dv.ref<Base>() == static_cast<Base *>(&d); });
    if (r.derived) EITHER(sure, x == 1, x == 0); else MUST(x == 0);
    x = access([&] { return dv.is<Base>(); }); if (r.derived) EITHER(sure, x == 1, x == -1); else MUST(x == -1);
    x = access([&] { return bv.invoke("get").to<int>() == 3; }); if (r.base) EITHER(sure, x == 1, x == 0); else MUST(x == 0);
    x = access([&] { return bv.invoke("nothing").empty(); }); if (r.base) EITHER(sure, x == 1, x == 0); else MUST(x == 0);
    x = access([&] { bv.set_property("field", 6); return d.field == 6 && bv.get_property("field").to<int>() == 6; }); if (r.base) EITHER(sure, x == 1, x == 0); else MUST(x == 0);
    // names: once used, available to whatever is created later
    if (s.names) {
        auto *g = MetaNamespace::global();
        MUST(g->isGlobal() && g->category() == mcatNamespace && (g->getClass("Base") == k || !s.types));
        MUST(g->attribute("none").empty() && g->attributeName(99).c_str() && !*g->attributeName(99).c_str() && !g->getNamespace("none"));
        if (r.ns) { auto *n = g->getNamespace("Space"); MUST(n && n->qualifiedName() == "::Space" && n->getMethod("free") && n->getEnum("En")); if (s.types) { MUST(n->getMethod("free")->invoke(4).to<int>() == 5 && n->getEnum("En")->element("one").to<int>() == 1); } x = access([&] { return n->getMethod("nothing")->invoke().empty(); }); EITHER(s.types, x == 1, x == 0); }
        // classes by name, from the namespace that is still there
        if (auto *bk = g->getClass("Base")) {
            MUST(r.base && bk->name() == "Base" && bk->methodCount() == 2 && bk->getMethod("get") && bk->inheritedFrom(bk) && !bk->inheritedFrom(nullptr));
            Base o; variant ov = std::ref(o); x = access([&] { return bk->getMethod("get")->invoke(ov).to<int>() == 3; }); EITHER(s.types, x == 1, x == 0);
            x = access([&] { bk->getProperty("field")->set(ov, 8); return o.field == 8; }); EITHER(s.types, x == 1, x == 0);
            x = access([&] { variant v = bk->getConstructor(std::size_t(0))->invoke(); return v.ref<Base>().field == 5; }); EITHER(s.types, x == 1, x == 0);
            if (auto *kk = g->getClass("Derived")) {
                bool in = kk->inheritedFrom(bk); EITHER(s.types, in, !in);
                auto *m = kk->getMethod("get"); EITHER(s.types, m == bk->getMethod("get"), !m);
                auto *q = kk->getProperty("field"); EITHER(s.types, q == bk->getProperty("field"), !q);
                MUST(!kk->getMethod("none") && kk->baseClassCount() == 1 && bk->derivedClassCount() == 1);
                auto *b0 = kk->baseClass(0), *d0 = bk->derivedClass(0); EITHER(s.types, b0 == bk, !b0); EITHER(s.types, d0 == kk, !d0);
                if (m) { x = access([&] { return m->invoke(dv).to<int>() == 3; }); EITHER(s.types, x == 1, x == 0); }
            } else MUST(!r.derived);
        } else MUST(!r.base);
        if (r.attr) MUST(g->attribute("attr") == Attr{} || !s.types);
        if (r.lazy) { auto *n = g->getNamespace("Lazy"); MUST(n); MUST(n->getMethod("free") && n->methodCount() == 1); x = access([&] { return n->attribute("x").to<int>() == 8; }); EITHER(s.types, x == 1, x == 0); }
    }
}
Attr::~Attr() { --liveAttr; if (!after) return; where = "destructor of an attribute"; auto t = MetaType{metaTypeId<T1>()}; MUST(!t.valid() || t.typeSize() == sizeof(T1)); auto h = MetaType::hasConverter<From, To>(); MUST(!h || now.conv); variant a = T1{}, b = T2{}; MUST(!(a == b)); int x = access([&] { return a.ref<T1>().a == 41; }); MUST(x >= 0); Derived d; variant dv = std::ref(d); bool is = dv.is<Base>(); MUST(!is || now.derived); x = access([&] { return &dv.ref<Base>() == static_cast<Base *>(&d); }); MUST(x >= 0); x = access([&] { return dv.invoke("get").to<int>() == 3; }); MUST(x >= 0); if (auto *k = MetaClass::find(metaTypeId<Derived>())) { MUST(now.derived); MUST(k->name() == "Derived"); if (auto *b = k->baseClass(0)) MUST(b->name() == "Base" && k->inheritedFrom(b)); } }

struct Probe
{
    Sure born; int n;
    explicit Probe(int n): born{used[Types], now.conv, used[Names] && used[Types], used[Names]}, n{n} {}
    ~Probe() { where = "destructor of static object " + std::to_string(n) + ", created when " + (born.types ? "types " : "") + (born.conv ? "converters " : "") + (born.names ? "names " : "") + "had been used"; look(born, now); }
};
template<int N> Probe &probe() { static Probe p{N}; return p; }
template<int N> void held() { static variant v = Late{}; static variant w = v; static auto t = std::make_unique<variant>(T2{}); MUST(!v.empty() && !w.empty() && !t->empty()); }

// a converter with something to be destroyed that asks for converters
struct Payload { ~Payload() { if (!after) return; where = "destructor of a converter"; variant f = From{}; bool b = f.canConvert<To>(); MUST(!b || now.conv); MUST((!MetaType::hasConverter<To, From>())); auto t = MetaType{metaTypeId<T1>()}; MUST(!t.valid() || t.typeSize() == sizeof(T1)); MetaType::registerConverter<T1, To>([](T1 const &) { return To{}; }); } };

// ---- operations
enum Op { Type, Convert, Global, Class, DerivedClass, Space, Held, ProbeOp, nOps };
char const *const opNames[] = {"type", "converter", "global", "class", "derived", "namespace", "variants", "object"};
int nProbes = 0;
void op(Op o)
{
    where = std::string(opNames[o]);
    switch (o) {
    case Type: MUST(typeIs<T1>(sizeof(T1), "T1")); used[Types] = true; break;
    case Convert: {
        auto payload = std::make_shared<Payload>();
        MUST((MetaType::registerConverter<From, To>([payload](From const &f) { To t; t.v = f.v; return t; }))); now.conv = true; used[Types] = used[Converters] = true; break; }
    case Global: { MUST(MetaNamespace::global()->isGlobal()); MUST(MetaNamespace::global()->attribute("none").empty()); { auto const &n = MetaNamespace::global()->attributeName(3); std::string copy = n; MUST(copy.empty() && n.c_str() && copy == std::string(n.c_str())); } used[Names] = true;
        auto g = global_define(); g._attribute("attr", Attr{}); now.attr = true;
        g._namespace("Lazy")._lazy([payload = std::make_shared<Payload>()](rtti::meta_define<void> n) { n._attribute("x", 8)._method("free", &freeFunction); }); now.lazy = true;
        break; }
    case Class: { auto g = global_define(); g._class<Base>("Base")._attribute("a", Attr{})._method("get", &Base::get)._method("nothing", &Base::nothing)._property("field", &Base::field); used[Types] = used[Names] = true; now.base = true; break; }
    case DerivedClass: { if (!now.base) op(Class); auto g = global_define(); g._class<Derived>("Derived")._base<Base>(); now.derived = true; break; }
    case Space: { auto g = global_define(); g._namespace("Space")._method("free", &freeFunction)._method("nothing", &nothing)._enum<int>("En")._element("one", 1)._end(); used[Types] = used[Names] = true; now.ns = true; break; }
    case Held: nProbes % 2 ? held<1>() : held<2>(); break;
    case ProbeOp: switch (nProbes++) { case 0: probe<0>(); break; case 1: probe<1>(); break; case 2: probe<2>(); break; case 3: probe<3>(); break; case 4: probe<4>(); break; case 5: probe<5>(); break; } break;
    default: break;
    }
}

int ops[16], count, early; bool child = false;
std::jmp_buf back;

// lookAround: everything is asked while the program runs; otherwise only the operations are performed
bool lookAround;
void run()
{
    int depth = seq::thorough() ? 5 : 4; bool done[nOps] = {};
    count = 0;
    for (; count < depth; ++count) {
        int allowed[nOps], n = 0; for (int o = 0; o < nOps; ++o) if (!done[o] || o == ProbeOp) allowed[n++] = o;
        if (count && allowed[n - 1] == ProbeOp && ops[count - 1] == ProbeOp) --n; // two in a row are the same
        int c = seq::choose(n + 1); if (c == n) break;
        ops[count] = allowed[c]; done[allowed[c]] = true; seq::note("%s", opNames[allowed[c]]);
    }
    early = seq::choose(count + 1); seq::note("| the first %d before the library is initialised", early);
    lookAround = seq::choose(2); if (lookAround) seq::note("asked while running");
    child = true;
    std::longjmp(back, 1);
}

__attribute__((constructor(101))) void start(int argc, char **argv, char **)
{
    if (setjmp(back)) { // in the process of one execution
        alarm(30);
        for (int i = 0; i < early; ++i) op(Op(ops[i]));
        if (lookAround) { where = "before the library is initialised"; look({true, true, true, used[Names]}, now); used[Types] = used[Converters] = true; }
        return;
    }
    std::vector<seq::Group> g;
    g.push_back({"first uses and static objects", run, nullptr, true, false, false, 2});
    seq::main_(argc, argv, g);
}
}

int registrations[3]; // how many times the registration blocks of s01r1.cpp, s01r2.cpp and this file have run

RTTI_REGISTER { ++registrations[0]; }

int main()
{
    where = "registration blocks"; for (int n: registrations) MUST(n == 1);
    for (int i = early; i < count; ++i) op(Op(ops[i]));
    if (lookAround) { where = "in main"; look({true, true, true, used[Names]}, now); used[Types] = used[Converters] = true; }
    after = true;
    return 0;
}
