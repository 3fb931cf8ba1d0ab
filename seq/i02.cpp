// I02: methods and properties work on exactly the object the instance is, and respect its constness
#include "seq/seq.h"
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metanamespace.h>
#include <rtti/metaerror.h>
#include <rtti/variant.h>
#include <memory>

namespace i02 {
using namespace rtti;
struct Record { int calls = 0; std::string fn; void const *self = nullptr; } rec;
void called(char const *fn, void const *self) { ++rec.calls; rec.fn = fn; rec.self = self; }

// ---- classes
struct Other { virtual ~Other() = default; int other = 3; int omethod(int n) { called("Other::omethod", this); return other = n; } int oconst(int) const { called("Other::oconst", this); return other; } };
struct X
{
    DECLARE_CLASSINFO
public:
    int number = 5; int const fixed = 6; mutable int loose = 7;
    X() = default; X(X const &) = default; explicit X(int n): number(n) {} virtual ~X() = default; X &operator=(X const &) { return *this; }
    X *mut(int n) { called("X::mut", this); number = n; return this; }
    X const *con(int) const { called("X::con", this); return this; }
    void quiet(int n) { called("X::quiet", this); number = n; }
    void quietCon(int) const { called("X::quietCon", this); }
    virtual X *virt(int n) { called("X::virt", this); number = n; return this; }
    virtual X const *virtCon(int) const { called("X::virtCon", this); return this; }
    X &self(int n) { called("X::self", this); number = n; return *this; }
    X const &selfCon(int) const noexcept { called("X::selfCon", this); return *this; }
    X &selfLvalue(int n) & { called("X::selfLvalue", this); number = n; return *this; }
    X *volat(int n) volatile { auto t = const_cast<X *>(this); called("X::volat", t); number = n; return t; }
    X const *volatCon(int) const volatile noexcept { auto t = const_cast<X const *>(this); called("X::volatCon", t); return t; }
    X const *conRef(int) const & noexcept { called("X::conRef", this); return this; }
    X *mutNoexcept(int n) & noexcept { called("X::mutNoexcept", this); number = n; return this; }
    X *shadow(int n) { called("X::shadow", this); number = n; return this; }
    int getNumber() const { called("X::getNumber", this); return number; } void setNumber(int n) { called("X::setNumber", this); number = n; }
    int &getMut() { called("X::getMut", this); return number; } void setCon(int) const { called("X::setCon", this); }
    static X *statRef(X &x) { called("X::statRef", &x); x.number = 41; return &x; } static X const *statCref(X const &x) { called("X::statCref", &x); return &x; }
    static X *statPtr(X *x) { called("X::statPtr", x); if (x) x->number = 41; return x; } static X const *statCptr(X const *x) { called("X::statCptr", x); return x; }
    static int statValue(X x) { called("X::statValue", nullptr); x.number += 1; return x.number; } static int statNone() { called("X::statNone", nullptr); return 0; }
};
struct D: Other, X
{
    DECLARE_CLASSINFO
public:
    int own = 8; D() = default; D(D const &) = default; 
    X *virt(int n) override { called("D::virt", static_cast<X *>(this)); number = n; return this; }
    X const *virtCon(int) const override { called("D::virtCon", static_cast<X const *>(this)); return this; }
    D *dmethod(int n) { called("D::dmethod", this); own = n; return this; } D const *dconst(int) const { called("D::dconst", this); return this; }
    X *shadow(int n) { called("D::shadow", this); number = n; return this; }
};
struct Middle: virtual X { DECLARE_CLASSINFO };
struct V: Other, Middle { DECLARE_CLASSINFO
public:
    X *virt(int n) override { called("V::virt", static_cast<X *>(this)); number = n; return this; } };
struct Z { int number = 5; X *mut(int) { called("Z::mut", this); return nullptr; } };          // another class with a method of the same name
struct N { int number = 5; };                                                                 // not registered

// ---- instances
enum Kind { KX, KD, KV, KZ, KN, KDX, KVX, KINT, KSTRING, KUNIQUE, KEMPTY, KINDS };
char const *const kindNames[] = {"X", "D", "V", "Z", "unregistered class", "D seen as X", "V seen as X", "int", "string", "unique_ptr", "nothing"};
enum Form { VALUE, REF, CREF, PTR, CPTR, PTRREF, PTRCREF, CPTRREF, NULLPTR, NULLCPTR, PPTR, ARRAY, ARRAYREF, FORMS };
char const *const formNames[] = {"value", "reference", "constant reference", "pointer", "pointer to const", "reference to pointer", "constant reference to pointer", "reference to pointer to const", "null pointer", "null pointer to const", "pointer to pointer", "array", "reference to array"};
enum Mode { MUTABLE, CONST, EXPIRING, CONST_EXPIRING, BARE, MODES };
char const *const modeNames[] = {"variant", "constant variant", "expiring variant", "constant expiring variant", "bare"};
struct Inst
{
    std::shared_ptr<void> owner; variant v; X *x = nullptr; D *d = nullptr; Other *o = nullptr; bool isClass = false, exists = false, constTarget = false, array = false, null = false, pointer = false; std::string dynamic;
    std::function<variant(MetaMethod const *)> bare; std::shared_ptr<void> keep;
};
template<typename C> void parts(Inst &i, C *c)
{
    if constexpr(std::is_base_of_v<X, C>) { i.x = c; i.d = dynamic_cast<D *>(c); i.o = dynamic_cast<Other *>(static_cast<X *>(c)); i.exists = true; i.dynamic = i.d ? "D" : dynamic_cast<V *>(static_cast<X *>(c)) ? "V" : "X"; }
}
// S: the class it is seen as, C: the class it is
template<typename S, typename C> bool hold(Inst &i, Form f)
{
    auto c = std::make_shared<C>(); i.owner = c; S *s = c.get(); i.isClass = true;
    auto p = std::make_shared<std::pair<S *, S const *>>(s, s); i.keep = p; i.bare = nullptr;
    switch (f) {
    case VALUE: if (!std::is_same_v<S, C>) return false; i.v = variant{C{}}; parts(i, const_cast<C *>(std::as_const(i.v).template data<C>())); return true;
    case REF: i.v = variant{std::ref(*s)}; i.bare = [s](MetaMethod const *m) { return m->invoke(std::ref(*s), 41); }; break;
    case CREF: i.v = variant{std::cref(*s)}; i.constTarget = true; i.bare = [s](MetaMethod const *m) { return m->invoke(std::cref(*s), 41); }; break;
    case PTR: i.v = variant{s}; i.bare = [s](MetaMethod const *m) { return m->invoke(s, 41); }; break;
    case CPTR: i.v = variant{static_cast<S const *>(s)}; i.constTarget = true; i.bare = [s](MetaMethod const *m) { return m->invoke(static_cast<S const *>(s), 41); }; break;
    case PTRREF: i.v = variant{std::ref(p->first)}; break; case PTRCREF: i.v = variant{std::cref(p->first)}; break; case CPTRREF: i.v = variant{std::ref(p->second)}; i.constTarget = true; break;
    case NULLPTR: i.v = variant{static_cast<S *>(nullptr)}; i.null = true; return true; case NULLCPTR: i.v = variant{static_cast<S const *>(nullptr)}; i.null = true; return true;
    case PPTR: i.v = variant{&p->first}; return true;
    case ARRAY: case ARRAYREF: {
        if (!std::is_same_v<S, C>) return false;
        auto a = std::shared_ptr<C>(new C[2], [](C *q) { delete[] q; }); i.keep = a; auto &arr = *reinterpret_cast<C (*)[2]>(a.get());
        if (f == ARRAYREF) { i.v = variant{std::ref(arr)}; parts(i, a.get()); } else { i.v = variant{arr}; parts(i, const_cast<C *>(std::as_const(i.v).template cref<C[2]>())); }
        i.array = true; return true; }
    default: return false;
    }
    i.pointer = f >= PTR; parts(i, c.get()); return true;
}
template<typename T> bool plain(Inst &i, T value, Form f)
{
    auto k = std::make_shared<T>(std::move(value)); i.keep = k;
    switch (f) { case VALUE: if constexpr(std::is_copy_constructible_v<T>) { i.v = variant{*k}; return true; } else { i.v = variant{std::move(*k)}; return true; } case REF: i.v = variant{std::ref(*k)}; return true; case PTR: i.v = variant{k.get()}; return true; default: return false; }
}
bool make(Inst &i, Kind k, Form f)
{
    switch (k) {
    case KX: return hold<X, X>(i, f); case KD: return hold<D, D>(i, f); case KV: return hold<V, V>(i, f); case KZ: return hold<Z, Z>(i, f); case KN: return hold<N, N>(i, f);
    case KDX: return hold<X, D>(i, f); case KVX: return hold<X, V>(i, f);
    case KINT: return plain(i, 5, f); case KSTRING: return plain(i, std::string("five"), f); case KUNIQUE: return plain(i, std::make_unique<X>(), f);
    case KEMPTY: return f == VALUE; default: return false;
    }
}

// ---- what is called
enum What { METHOD, GET, SET, STATIC };
enum Cls { CX, CD, CO };
struct Callee { What what; char const *name; Cls cls; bool mut; char const *overriders; };
Callee const callees[] = {
    {METHOD, "mut", CX, true, ""}, {METHOD, "con", CX, false, ""}, {METHOD, "quiet", CX, true, ""}, {METHOD, "quietCon", CX, false, ""}, {METHOD, "virt", CX, true, "DV"}, {METHOD, "virtCon", CX, false, "D"},
    {METHOD, "self", CX, true, ""}, {METHOD, "selfCon", CX, false, ""}, {METHOD, "selfLvalue", CX, true, ""}, {METHOD, "shadow", CX, true, ""},
    {METHOD, "volat", CX, true, ""}, {METHOD, "volatCon", CX, false, ""}, {METHOD, "conRef", CX, false, ""}, {METHOD, "mutNoexcept", CX, true, ""},
    {METHOD, "dmethod", CD, true, ""}, {METHOD, "dconst", CD, false, ""}, {METHOD, "shadow", CD, true, ""}, {METHOD, "omethod", CO, true, ""}, {METHOD, "oconst", CO, false, ""},
    {GET, "number", CX, false, ""}, {GET, "fixed", CX, false, ""}, {GET, "loose", CX, false, ""}, {GET, "pair", CX, false, ""}, {GET, "mutPair", CX, true, ""}, {GET, "own", CD, false, ""}, {GET, "other", CO, false, ""},
    {SET, "number", CX, true, ""}, {SET, "fixed", CX, true, ""}, {SET, "loose", CX, true, ""}, {SET, "pair", CX, true, ""}, {SET, "mutPair", CX, false, ""}, {SET, "own", CD, true, ""}, {SET, "other", CO, true, ""},
    {STATIC, "statRef", CX, true, ""}, {STATIC, "statCref", CX, false, ""}, {STATIC, "statPtr", CX, true, ""}, {STATIC, "statCptr", CX, false, ""}, {STATIC, "statValue", CX, false, ""}, {STATIC, "statNone", CX, false, ""},
};
constexpr int CALLEES = sizeof callees / sizeof *callees;
char const *const classNames[] = {"X", "D", "Other"};

void setup()
{
    if (MetaNamespace::global()->getClass("X")) return;
    { auto g = global_define(); g._class<Other>("Other")._method("omethod", &Other::omethod)._method("oconst", &Other::oconst)._property("other", &Other::other); }
    { auto g = global_define(); g._class<X>("X")._method("mut", &X::mut)._method("con", &X::con)._method("quiet", &X::quiet)._method("quietCon", &X::quietCon)._method("virt", &X::virt)._method("virtCon", &X::virtCon)
        ._method("self", &X::self)._method("selfCon", &X::selfCon)._method("selfLvalue", &X::selfLvalue)._method("shadow", &X::shadow)._method("volat", &X::volat)._method("volatCon", &X::volatCon)._method("conRef", &X::conRef)._method("mutNoexcept", &X::mutNoexcept)
        ._property("number", &X::number)._property("fixed", &X::fixed)._property("loose", &X::loose)._property("pair", &X::getNumber, &X::setNumber)._property("mutPair", &X::getMut, &X::setCon)
        ._method("statRef", &X::statRef)._method("statCref", &X::statCref)._method("statPtr", &X::statPtr)._method("statCptr", &X::statCptr)._method("statValue", &X::statValue)._method("statNone", &X::statNone); }
    { auto g = global_define(); g._class<D>("D")._base<Other, X>()._method("dmethod", &D::dmethod)._method("dconst", &D::dconst)._method("shadow", &D::shadow)._property("own", &D::own); }
    { auto g = global_define(); g._class<Middle>("Middle")._base<X>(); }
    { auto g = global_define(); g._class<V>("V")._base<Other, Middle>(); }
    { auto g = global_define(); g._class<Z>("Z")._method("mut", &Z::mut); }
}

struct Numbers { int number = 0, fixed = 0, loose = 0, own = 0, other = 0; bool operator==(Numbers const &o) const { return number == o.number && fixed == o.fixed && loose == o.loose && own == o.own && other == o.other; } };
Numbers numbers(Inst const &i) { Numbers n; if (i.x) { n.number = i.x->number; n.fixed = i.x->fixed; n.loose = i.x->loose; } if (i.d) n.own = i.d->own; if (i.o) n.other = i.o->other; return n; }

void instances()
{
    int c = seq::choose(CALLEES); int kind = seq::choose(KINDS), form = seq::choose(FORMS), mode = seq::choose(MODES), named = seq::choose(2);
    auto &callee = callees[c]; Inst i; std::string name = callee.name, cls = classNames[callee.cls];
    if (!make(i, Kind(kind), Form(form)) && kind != KEMPTY) return;
    if (kind == KEMPTY && form) return;
    if (mode == BARE && (!i.bare || callee.what != METHOD || named)) return;
    if (named && kind == KZ && callee.what == METHOD && std::string(callee.name) == "mut") return; // that is its own
    if (named && (mode == EXPIRING || mode == CONST_EXPIRING)) return;
    auto where = [&] { return std::string(named ? "by name, " : "") + cls + "::" + name + (callee.what == GET ? " read" : callee.what == SET ? " written" : "") + " on " + modeNames[mode] + " of " + formNames[form] + " of " + kindNames[kind] + ": "; };

    // ---- what should come of it
    bool constVariant = mode == CONST || mode == CONST_EXPIRING; bool constant = i.constTarget || (constVariant && !i.pointer);
    void const *target = callee.cls == CX ? static_cast<void const *>(i.x) : callee.cls == CD ? static_cast<void const *>(i.d) : static_cast<void const *>(i.o);
    std::string fn = cls + "::" + name;
    for (char const *p = callee.overriders; *p; ++p) if (i.dynamic == std::string(1, *p)) fn = i.dynamic + "::" + name;
    bool mayRefuse = false, mustRefuse = !i.exists || !target || (callee.mut && constant) || i.null || (callee.what == SET && name == "fixed");
    if (i.array) mayRefuse = true;                                                            // or the first element
    if (callee.what != STATIC && callee.mut && (mode == EXPIRING || mode == BARE) && !i.pointer) mayRefuse = true; // expiring values, temporary variants
    if (named && name == "shadow" && callee.cls == CX && i.dynamic == "D") { fn = "D::shadow"; target = i.d; }
    if (callee.what == GET && callee.mut && !i.pointer) mayRefuse = true; // reading takes a constant variant
    if (named && name == "shadow" && callee.cls == CD && i.dynamic != "D") return; // the one of X is found
    // static methods get the instance as their argument
    bool statics = callee.what == STATIC;
    if (statics) {
        bool wantsPtr = name == "statPtr" || name == "statCptr", wantsNone = name == "statNone";
        mustRefuse = wantsNone || !i.isClass || (!i.x && !i.null) || wantsPtr != (i.pointer || i.null) || (callee.mut && (i.constTarget || (constant && !wantsPtr)));
        if (i.array || form == PPTR) { if (!wantsPtr || form == PPTR) mustRefuse = true; else { mustRefuse = false; mayRefuse = true; } }
        if (i.null && named) { if (!wantsPtr) mustRefuse = true; mayRefuse = !mustRefuse; }
        if (i.null && !named) { mustRefuse = !wantsPtr || kind == KZ || kind == KN || (callee.mut && form == NULLCPTR); }
        if (i.exists && name == "statRef" && !i.pointer && !i.array && mode == EXPIRING) mustRefuse = false, mayRefuse = true;
        if (i.exists && name == "statRef" && mode == EXPIRING && form == VALUE) mustRefuse = true, mayRefuse = false;
    }

    // ---- the call
    rec = Record{}; auto before = numbers(i); variant result; bool thrown = false; std::string what; variant const &cv = i.v;
    auto root = MetaNamespace::global(); auto k = root->getClass(cls); auto m = callee.what == METHOD || statics ? k->getMethod(name) : nullptr; auto p = m ? nullptr : k->getProperty(name);
    CHECK(m || p);
    try {
        switch (callee.what) {
        case METHOD: result = named ? constVariant ? cv.invoke(name, 41) : i.v.invoke(name, 41) : mode == BARE ? i.bare(m) : mode == MUTABLE ? m->invoke(i.v, 41) : mode == CONST ? m->invoke(cv, 41) : mode == EXPIRING ? m->invoke(std::move(i.v), 41) : m->invoke(std::move(cv), 41); break;
        case STATIC: result = named ? constVariant ? cv.invoke(name) : i.v.invoke(name) : mode == MUTABLE ? m->invoke(i.v) : mode == CONST ? m->invoke(cv) : mode == EXPIRING ? m->invoke(std::move(i.v)) : m->invoke(std::move(cv)); break;
        case GET: result = named ? cv.get_property(name) : mode == MUTABLE ? p->get(i.v) : mode == CONST ? p->get(cv) : mode == EXPIRING ? p->get(std::move(i.v)) : p->get(std::move(cv)); break;
        case SET: if (named) { if (constVariant) return; i.v.set_property(name, 41); } else if (mode == MUTABLE) p->set(i.v, 41); else if (mode == CONST) p->set(cv, 41); else if (mode == EXPIRING) p->set(std::move(i.v), 41); else p->set(std::move(cv), 41); break;
        }
    } catch (rtti::runtime_error const &e) { thrown = true; what = e.what(); } catch (std::exception const &e) { seq::fail(where() + "fails with " + e.what()); }
    seq::step();
    auto after = numbers(i);
    if (thrown) {
        if (!mustRefuse && !mayRefuse) seq::fail(where() + "refused: " + what);
        if (rec.calls) seq::fail(where() + "reports an error though it was called");
        if (!(after == before)) seq::fail(where() + "refused, but the object was changed");
    } else {
        if (mustRefuse) seq::fail(where() + "not refused" + (rec.calls ? ", " + rec.fn + " was called" : ""));
        bool field = callee.what >= GET && callee.what <= SET && name != "pair" && name != "mutPair";
        if (i.null) target = nullptr;
        if (!field) {
            if (rec.calls != 1) seq::fail(where() + "called " + std::to_string(rec.calls) + " times");
            std::string want = name == "pair" ? callee.what == GET ? "X::getNumber" : "X::setNumber" : name == "mutPair" ? callee.what == GET ? "X::getMut" : "X::setCon" : fn;
            if (rec.fn != want) seq::fail(where() + rec.fn + " was called");
            if (name != "statValue" && rec.self != target) seq::fail(where() + "called on another object");
        } else if (rec.calls) seq::fail(where() + "a function was called");
        // effects
        auto want = before;
        bool writes = (callee.what == METHOD || statics) && callee.mut;
        if (writes && !i.null) { if (callee.cls == CX || name == "shadow") want.number = 41; else if (callee.cls == CD) want.own = 41; else want.other = 41; }
        if (callee.what == SET) { if (name == "number" || name == "pair") want.number = 41; if (name == "loose") want.loose = 41; if (name == "own") want.own = 41; if (name == "other") want.other = 41; }
        if (!(after == want)) seq::fail(where() + "the effects are wrong");
        // results
        if (callee.what == GET) {
            int n = name == "own" ? before.own : name == "other" ? before.other : name == "fixed" ? before.fixed : name == "loose" ? before.loose : before.number;
            if (!result.is<int>() || result.cref<int>() != n) seq::fail(where() + "the value is wrong");
            void const *at = name == "own" ? static_cast<void const *>(&i.d->own) : name == "other" ? &i.o->other : name == "fixed" ? &i.x->fixed : name == "loose" ? &i.x->loose : &i.x->number;
            bool same = &result.cref<int>() == at; if (field != same && name != "mutPair") seq::fail(where() + (same ? "a reference is returned" : "a copy is returned"));
            if (name == "mutPair" && !same) seq::fail(where() + "a copy is returned"); 
            if (name != "mutPair" && same && name != "loose" && result.is<int &>()) seq::fail(where() + "the reference isn't constant");
            if (name == "mutPair" && !result.is<int &>()) seq::fail(where() + "the reference is constant");
        } else if (callee.what == METHOD || statics) {
            bool ok = true; void const *x = static_cast<void const *>(i.null ? nullptr : i.x);
            if (name.substr(0, 5) == "quiet") ok = result.empty();
            else if (name[0] == 'o') ok = result.is<int>() && result.cref<int>() == after.other;
            else if (name == "statValue") ok = result.is<int>() && result.cref<int>() == before.number + 1;
            else if (name == "self" || name == "selfLvalue") ok = result.is<X &>() && &result.ref<X>() == x;
            else if (name == "selfCon") ok = result.is<X const &>() && !result.is<X &>() && &result.cref<X>() == x;
            else if (name == "dmethod") ok = result.is<D *>() && result.to<D *>() == i.d;
            else if (name == "dconst") ok = !result.is<D *>() && result.to<D const *>() == i.d;
            else if (callee.mut) ok = (result.is<X *>() || i.null) && result.to<X *>() == x;
            else ok = !result.is<X *>() && result.to<X const *>() == x;
            if (!ok) seq::fail(where() + "the result is wrong");
        }
        if (kind != KEMPTY && cv.empty() && !(statics && name == "statValue" && mode == EXPIRING)) seq::fail(where() + "the instance is gone");
    }
    seq::state(std::to_string(c * 8 + mode) + (thrown ? "r" : "") + i.dynamic + (i.pointer ? "p" : ""));
}
// ---- registration between calls: a call that was refused works as soon as what it needs is registered, and not before
struct Front { int front = 2; };
struct A { DECLARE_CLASSINFO
public:
    int p = 5; virtual ~A() = default; A() = default; A(A const &) = default;
    A *m(int n) { called("A::m", this); p = n; return this; } int c() const { called("A::c", this); return p; } static int st(A &a) { called("A::st", &a); return a.p; } };
struct B: Front, A { DECLARE_CLASSINFO
public:
    B *m(int n) { called("B::m", this); p = n; return this; } };
struct P: Front { int p = 5; P *m(int n) { called("P::m", this); p = n; return this; } }; // a class without dynamic information, and one derived from it
struct Q: Other, P {};
template<typename T, typename U> void late(bool dynamic)
{
    bool aReg = false, aM = false, aP = false, bReg = false, bBase = false, bM = false; char const *an = dynamic ? "A" : "P", *bn = dynamic ? "B" : "Q"; std::string am = std::string(an) + "::m", bm = std::string(bn) + "::m"; int round = 0;
    auto probe = [&] {
        U b; T a; ++round; int value = 40;
        std::string where = "round " + std::to_string(round) + ", ";
        // f: what is called, want: the function that has to be called, "" none and the call is refused, or: another possibility
        auto call = [&](char const *what, auto f, std::string want, void const *self, std::string other = "?") {
            rec = Record{}; ++value; bool thrown = false; std::string text; seq::step();
            try { f(value); } catch (rtti::runtime_error const &e) { thrown = true; text = e.what(); }
            if (thrown && (want.empty() || other.empty())) { if (rec.calls) seq::fail(where + what + " was called and refused"); return; }
            if (thrown) seq::fail(where + what + " was refused: " + text);
            if (rec.calls != 1 || (rec.fn != want && rec.fn != other) || want.empty()) seq::fail(where + what + " called " + (rec.fn.empty() ? "nothing" : rec.fn) + " instead of " + (want.empty() ? "being refused" : want));
            if (rec.self != self) seq::fail(where + what + " worked on another object");
        };
        auto va = variant{std::ref(a)}, vb = variant{std::ref(b)}, pb = variant{&b}, own = variant{U{}}, up = variant{std::ref(static_cast<T &>(b))};
        auto in = static_cast<T *>(&b); auto ownB = const_cast<U *>(std::as_const(own).template data<U>());
        std::string named = bM ? bm : bBase && aM ? am : ""; auto at = [&](U *u) { return bM && bReg ? static_cast<void *>(u) : static_cast<void *>(static_cast<T *>(u)); };
        call("m by name of the base object", [&](int n) { va.invoke("m", n); }, aM ? am : "", &a);
        call("m by name", [&](int n) { vb.invoke("m", n); }, named, at(&b)); call("m by name through a pointer", [&](int n) { pb.invoke("m", n); }, named, at(&b)); call("m by name of a value", [&](int n) { own.invoke("m", n); }, named, at(ownB));
        if (dynamic) { if (bBase) call("m by name, seen as base", [&](int n) { up.invoke("m", n); }, named, at(&b)); else if (!bReg) call("m by name, seen as base", [&](int n) { up.invoke("m", n); }, aM ? am : "", in, ""); }
        else call("m by name, seen as base", [&](int n) { up.invoke("m", n); }, aM ? am : "", in);
        auto ka = MetaNamespace::global()->getClass(an), kb = MetaNamespace::global()->getClass(bn); CHECK(!!ka == aReg); CHECK(!!kb == bReg);
        if (aM) {
            auto m = ka->getMethod("m"); CHECK(m);
            call("base method on the base object", [&](int n) { m->invoke(va, n); }, am, &a); call("base method", [&](int n) { m->invoke(vb, n); }, bBase ? am : "", in); call("base method through a pointer", [&](int n) { m->invoke(pb, n); }, bBase ? am : "", in);
            call("base method on a value", [&](int n) { m->invoke(own, n); }, bBase ? am : "", static_cast<T *>(ownB)); call("base method, bare pointer", [&](int n) { m->invoke(&b, n); }, bBase ? am : "", in);
        }
        if (bM) { auto m = kb->getMethod("m"); CHECK(m); call("derived method", [&](int n) { m->invoke(vb, n); }, bm, &b); call("derived method on the base object", [&](int n) { m->invoke(va, n); }, "", nullptr); if (dynamic && bBase) call("derived method, seen as base", [&](int n) { m->invoke(up, n); }, bm, &b, ""); }
        else if (kb) CHECK(!!kb->getMethod("m") == (bBase && aM));
        auto access = [&](char const *what, variant &v, MetaProperty const *p, bool ok, int &var) {
            bool got = true, set = true; int before = var; ++value; seq::step();
            try { auto r = p ? p->get(v) : std::as_const(v).get_property("p"); if (r.template cref<int>() != before || &r.template cref<int>() != &var) seq::fail(where + what + " gives another value"); } catch (rtti::runtime_error const &) { got = false; }
            try { if (p) p->set(v, value); else v.set_property("p", value); } catch (rtti::runtime_error const &) { set = false; }
            if (got != ok || set != ok) seq::fail(where + what + (ok ? " was refused" : " was not refused")); CHECK(var == (ok ? value : before));
        };
        access("p by name of the base object", va, nullptr, aP, a.p); access("p by name", vb, nullptr, aP && bBase, b.p); access("p by name through a pointer", pb, nullptr, aP && bBase, b.p); access("p by name of a value", own, nullptr, aP && bBase, ownB->p);
        if (aP) { auto p = ka->getProperty("p"); access("p of the base object", va, p, true, a.p); access("p", vb, p, bBase, b.p); access("p through a pointer", pb, p, bBase, b.p); access("p of a value", own, p, bBase, ownB->p); }
        { bool ok = true; try { CHECK(&vb.template ref<T>() == in); } catch (std::exception const &) { ok = false; } CHECK(ok == bBase); ok = true; try { CHECK(pb.template to<T *>() == in); } catch (std::exception const &) { ok = false; } CHECK(ok == bBase); }
    };
    bool done[6] = {}; int mask = seq::thorough() ? 0 : seq::choose(8), quickMask[] = {0, 1, 2, 4, 8, 16, 32, 63}; if (!seq::thorough()) mask = quickMask[mask];
    for (int step = 0; step < 6; ++step) {
        if (seq::thorough() ? seq::choose(2) : mask >> step & 1) { seq::note("calls;"); probe(); }
        int c = seq::choose(6 - step), i = 0; for (;; ++i) if (!done[i] && c-- == 0) break;
        done[i] = true; seq::note("%s;", std::initializer_list<char const *>{"base class", "its method", "its property", "derived class", "base of the derived class", "method of the derived class"}.begin()[i]); seq::step();
        switch (i) {
        case 0: global_define()._class<T>(an); aReg = true; break;
        case 1: global_define()._class<T>(an)._method("m", &T::m); aReg = aM = true; break;
        case 2: global_define()._class<T>(an)._property("p", &T::p); aReg = aP = true; break;
        case 3: global_define()._class<U>(bn); bReg = true; break;
        case 4: { bool refused = false; try { global_define()._class<U>(bn).template _base<T>(); } catch (rtti::runtime_error const &) { refused = true; } catch (std::exception const &) { refused = true; } if (refused != !aReg) seq::fail(refused ? "the base was refused" : "a base that isn't registered was not refused"); bReg = true; if (refused) done[4] = true; else bBase = true; break; }
        case 5: if constexpr(std::is_same_v<U, B>) { global_define()._class<U>(bn)._method("m", &B::m); bReg = bM = true; } break;
        }
    }
    probe();
    if (!bBase) { global_define()._class<U>(bn).template _base<T>(); bBase = true; probe(); }
    seq::state(std::to_string(mask) + std::to_string(bM) + std::to_string(round));
}
void registration() { if (seq::choose(2)) late<A, B>(true); else late<P, Q>(false); }
} // namespace i02
using namespace i02;

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    g.push_back({"instances", instances, setup, false, true, false, 2});
    g.push_back({"registration between calls", registration, nullptr, true, false, false, 2});
    seq::main_(argc, argv, g);
}
