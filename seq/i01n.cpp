// I01: numbers of arguments, results
#include "seq/i01.h"
#include <functional>
#include <map>

namespace i01 {
// ---- numbers of arguments
std::vector<int> got;
template<typename... A> int counted(A... a) { got = {a...}; return int(sizeof...(A)); }
template<typename... A> void hush(A... a) { got = {a...}; got.push_back(-1); }
struct Arity
{
    std::vector<int> made; int of = 7;
    template<typename... A> int method(A... a) { got = {a...}; return of + int(sizeof...(A)); }
    template<typename... A> void quiet(A... a) const { got = {a...}; got.push_back(-1); }
    template<typename... A> static int none(A... a) { got = {a...}; return 100 + int(sizeof...(A)); }
    template<typename... A> int constant(A... a) const { got = {a...}; return of + int(sizeof...(A)); }
    template<typename... A> void loud(A... a) { got = {a...}; got.push_back(-1); }
    template<typename... A> static void silent(A... a) { got = {a...}; got.push_back(-1); }
};
template<typename I> struct ManyOf; template<size_t... I> struct ManyOf<std::index_sequence<I...>>
{
    template<size_t> using Int = int;
    template<int> struct Of { int n; explicit Of(Int<I>... a): n(int(sizeof...(I))) { got = {a...}; } };
    static void define(std::string const &n)
    {
        { auto g = global_define(); g._method("n" + n, &counted<Int<I>...>)._method("h" + n, &hush<Int<I>...>)._method("f" + n, std::function<int(Int<I>...)>{&counted<Int<I>...>}); }
        { auto g = global_define(); g._class<Arity>("Arity")._method("m" + n, &Arity::method<Int<I>...>)._method("q" + n, &Arity::quiet<Int<I>...>)._method("s" + n, &Arity::none<Int<I>...>)
            ._method("c" + n, &Arity::constant<Int<I>...>)._method("l" + n, &Arity::loud<Int<I>...>)._method("t" + n, &Arity::silent<Int<I>...>); }
        { auto g = global_define(); g._class<Of<0>>("Of" + n).template _constructor<Int<I>...>(); }
    }
};
template<size_t N> void defineArity() { ManyOf<std::make_index_sequence<N>>::define(std::to_string(N)); }
template<typename F, size_t... I> variant withInts(F f, std::index_sequence<I...>) { return f(int(I + 11)...); }
template<typename F> variant give(F f, int n)
{
    switch (n) {
    case 0: return withInts(f, std::make_index_sequence<0>{}); case 1: return withInts(f, std::make_index_sequence<1>{}); case 2: return withInts(f, std::make_index_sequence<2>{}); case 3: return withInts(f, std::make_index_sequence<3>{});
    case 4: return withInts(f, std::make_index_sequence<4>{}); case 5: return withInts(f, std::make_index_sequence<5>{}); case 6: return withInts(f, std::make_index_sequence<6>{}); case 7: return withInts(f, std::make_index_sequence<7>{});
    case 8: return withInts(f, std::make_index_sequence<8>{}); case 9: return withInts(f, std::make_index_sequence<9>{});
    }
    return variant{};
}
template<typename F> variant giveTen(F f) { return withInts(f, std::make_index_sequence<10>{}); }
void setupArity()
{
    if (MetaNamespace::global()->getMethod("n0")) return;
    defineArity<0>(); defineArity<1>(); defineArity<2>(); defineArity<3>(); defineArity<4>(); defineArity<5>(); defineArity<6>(); defineArity<7>(); defineArity<8>(); defineArity<9>(); defineArity<10>();
}
void arity()
{
    // things to call: kind, prefix of the name, whether an int is returned, whether a constant instance will do
    enum { Free, Method, ByName, Static, Made };
    struct Callee { int kind; char const *prefix; bool result, constant; char const *name; };
    static Callee const callees[] = {
        {Free, "n", true, true, "function"}, {Free, "h", false, true, "void function"}, {Free, "f", true, true, "std::function"},
        {Method, "m", true, false, "method"}, {Method, "c", true, true, "constant method"}, {Method, "l", false, false, "void method"}, {Method, "q", false, true, "constant void method"},
        {ByName, "m", true, false, "method by name"}, {ByName, "c", true, true, "constant method by name"}, {ByName, "l", false, false, "void method by name"}, {ByName, "q", false, true, "constant void method by name"},
        {Static, "s", true, true, "static method"}, {Static, "t", false, true, "static void method"}, {Made, "", true, true, "constructor"},
    };
    auto &callee = callees[seq::choose(int(sizeof callees / sizeof *callees))]; int kind = callee.kind;
    int through = kind == Method || kind == ByName ? seq::choose(4) : 0; // variant, constant variant, variant with a pointer, constant one
    int params = seq::choose(11), given = seq::choose(11), missing = seq::choose(3); // an argument in the middle is missing; a superfluous one after it
    if (kind == Made && params == 0) return; // the default constructor has a name of its own
    if (through == 1 && !callee.constant) return;
    std::string n = std::to_string(params);
    auto root = MetaNamespace::global(); auto k = root->getClass("Arity");
    auto where = [&] { static char const *const ways[] = {"", " through a constant variant", " through a pointer", " through a constant variant with a pointer"}; return std::string(callee.name) + ways[through] + " of " + n + " parameters called with " + std::to_string(given) + (missing == 1 ? " arguments, the first empty: " : missing == 2 ? " arguments, the last but one empty: " : " arguments: "); };
    Arity object; variant v; if (through < 2) v = variant{object}; else v = variant{&object}; variant const &cv = v;
    auto run = [&](auto f) -> variant {
        if (given == 10) return giveTen(f);
        return give(f, given);
    };
    if ((kind == Method || kind == ByName) && (params == 10 || given == 10)) return; // at most nine besides the instance
    if (missing == 1 && given == 0) return; if (missing == 2 && given < 2) return;
    auto m = kind == Free ? root->getMethod(callee.prefix + n) : kind == Made ? nullptr : k->getMethod(callee.prefix + n);
    MetaConstructor const *c = nullptr;
    if (kind == Made) { auto o = root->getClass("Of" + n); for (size_t i = 0; i < o->constructorCount(); ++i) if (o->getConstructor(i)->name().substr(0, 11) == "constructor") c = o->getConstructor(i); }
    CHECK(kind == Made ? bool(c) : bool(m));
    got.clear(); bool thrown = false; variant result;
    auto wrap = [&](auto... x) {
        auto call = [&](auto &&... y) -> variant {
            if (kind == Made) return c->invoke(std::forward<decltype(y)>(y)...);
            if constexpr(sizeof...(y) < 10) {
                if (kind == Method) return through & 1 ? m->invoke(cv, std::forward<decltype(y)>(y)...) : m->invoke(v, std::forward<decltype(y)>(y)...);
                if (kind == ByName) return through & 1 ? cv.invoke(callee.prefix + n, std::forward<decltype(y)>(y)...) : v.invoke(callee.prefix + n, std::forward<decltype(y)>(y)...);
            }
            return m->invoke(std::forward<decltype(y)>(y)...);
        };
        if (!missing) return call(std::move(x)...);
        int gap = missing == 1 ? 0 : int(sizeof...(x)) - 2;
        // every argument is an argument object, the one at the gap is empty
        auto one = [&](int &value) { return value - 11 == gap ? argument{} : argument{value}; };
        return call(one(x)...);
    };
    try { result = run(wrap); } catch (rtti::runtime_error const &) { thrown = true; }
    seq::step();
    bool ok = missing ? missing == 1 && given == 1 && params == 0 : params == given; // empty ones at the end are as good as none
    if (thrown == ok) seq::fail(where() + (ok ? "refused" : "not refused"));
    if (!ok) { if (!got.empty()) seq::fail(where() + "refused but called"); return; }
    std::vector<int> want; for (int i = 0; i < params; ++i) want.push_back(11 + i);
    if (!callee.result) want.push_back(-1);
    if (got != want) { std::string s; for (int x: got) s += std::to_string(x) + " "; seq::fail(where() + "the arguments arrived as " + s); }
    if (!callee.result) CHECK(result.empty());
    else if (kind == Made) CHECK(result.metaClass() == root->getClass("Of" + n));
    else CHECK(result.is<int>() && result.cref<int>() == (kind == Free ? params : kind == Static ? 100 + params : 7 + params));
    seq::state(where());
}

// ---- results
struct Results
{
    X x{5}; D d{6}; int n = 7; int array[3] = {1, 2, 3}; X *px = &x;
    X value() { return X{8}; } X const constValue() const { return X{9}; } X &ref() { return x; } X const &cref() const { return x; } X *pointer() { return px; } X const *constPointer() const { return px; }
    X &base() { return d; } X const &constBase() const { return d; } X *basePointer() { return &d; } X *null() const { return nullptr; } X *&pointerRef() { return px; } int (&arrayRef())[3] { return array; }
    std::unique_ptr<int> moveOnly() const { return std::make_unique<int>(4); } M movable() { return M{3}; } std::string text() const { return make<std::string>(2); } E enumeration() const { return E(1); } void nothing() { n = 70; }
    std::reference_wrapper<X> wrapped() { return x; } variant var() { return variant{n}; } variant varRef() { return variant{std::ref(n)}; }
    int qualified() & { return 20; } int noexceptional() const noexcept { return 21; } int constQualified() const & noexcept { return 23; } int unstable() volatile { return 24; } int unstableConst() const volatile & noexcept { return 25; } int qualifiedNoexcept() & noexcept { return 26; }
};
Results *theOne; 
X valueF() { return theOne->value(); } X const &crefF() { return theOne->x; } X &refF() { return theOne->x; } X &baseF() { return theOne->d; } M movableF() { return M{3}; } void nothingF() { theOne->n = 71; } int (&arrayF())[3] { return theOne->array; } int noexceptF() noexcept { return 22; } X *pointerF() { return &theOne->d; } std::string textF() { return make<std::string>(2); }
void setupResults()
{
    if (MetaNamespace::global()->getClass("Results")) return;
    auto g = global_define();
    g._class<Results>("Results")._method("value", &Results::value)._method("constValue", &Results::constValue)._method("ref", &Results::ref)._method("cref", &Results::cref)._method("pointer", &Results::pointer)._method("constPointer", &Results::constPointer)
        ._method("base", &Results::base)._method("constBase", &Results::constBase)._method("basePointer", &Results::basePointer)._method("null", &Results::null)._method("pointerRef", &Results::pointerRef)._method("arrayRef", &Results::arrayRef)
        ._method("moveOnly", &Results::moveOnly)._method("movable", &Results::movable)._method("text", &Results::text)._method("enumeration", &Results::enumeration)._method("nothing", &Results::nothing)._method("wrapped", &Results::wrapped)._method("var", &Results::var)._method("varRef", &Results::varRef)
        ._method("qualified", &Results::qualified)._method("noexceptional", &Results::noexceptional)._method("constQualified", &Results::constQualified)._method("unstable", &Results::unstable)._method("unstableConst", &Results::unstableConst)._method("qualifiedNoexcept", &Results::qualifiedNoexcept)
        ._method("valueF", &valueF)._method("crefF", &crefF)._method("refF", &refF)._method("baseF", &baseF)._method("movableF", &movableF)._method("nothingF", &nothingF)._method("arrayF", &arrayF)._method("noexceptF", &noexceptF)._method("pointerF", &pointerF)._method("textF", &textF)._method("functionF", std::function<std::string(int)>{[](int i) { return make<std::string>(i); }})._method("referenceF", valueF);
}
void results()
{
    Results r; theOne = &r; variant v{std::ref(r)}, p{&r}; int how = seq::choose(4); auto k = MetaNamespace::global()->getClass("Results");
    auto call = [&](char const *name) -> variant { return how == 0 ? v.invoke(name) : how == 1 ? p.invoke(name) : how == 2 ? k->getMethod(name)->invoke(v) : k->getMethod(name)->invoke(std::as_const(p)); };
    auto callF = [&](char const *name) -> variant { return k->getMethod(name)->invoke(); };
    auto isRef = [&](variant &&x, X *at) { CHECK(x.is<X>()); CHECK(x.is<X &>()); CHECK(&x.ref<X>() == at); CHECK(x.metaClass() == MetaClass::find(at == &r.d ? metaTypeId<D>() : metaTypeId<X>())); x.ref<X>().number = 33; CHECK(at->number == 33); };
    auto isCref = [&](variant &&x, X *at) { CHECK(x.is<X const &>()); CHECK(!x.is<X &>()); CHECK(&x.cref<X>() == at); };
    int what = seq::choose(36);
    switch (what) {
    case 31: CHECK(call("constQualified").cref<int>() == 23); break;
    case 32: CHECK(call("unstable").cref<int>() == 24); break;
    case 33: CHECK(call("unstableConst").cref<int>() == 25); break;
    case 34: CHECK(call("qualifiedNoexcept").cref<int>() == 26); break;
    case 35: CHECK(k->getMethod("functionF")->invoke(2).to<std::string>() == make<std::string>(2)); CHECK(callF("referenceF").cref<X>().number == 8); break;
    case 0: { auto x = call("value"); CHECK(x.cref<X>().number == 8); x.ref<X>().number = 1; break; }
    case 1: { auto x = call("constValue"); CHECK(x.cref<X>().number == 9); break; }
    case 2: isRef(call("ref"), &r.x); break;
    case 3: isCref(call("cref"), &r.x); break;
    case 4: CHECK(call("pointer").to<X *>() == &r.x); break;
    case 5: { auto x = call("constPointer"); CHECK(x.to<X const *>() == &r.x); CHECK(!x.is<X *>()); break; }
    case 6: isRef(call("base"), &r.d); CHECK(call("base").to<D>().number == 33); break;
    case 7: isCref(call("constBase"), &r.d); CHECK(&call("constBase").cref<D>() == &r.d); break;
    case 8: CHECK(call("basePointer").to<X *>() == &r.d); CHECK(call("basePointer").to<D *>() == &r.d); CHECK(call("basePointer").to<Other *>() == &r.d); break;
    case 9: { auto x = call("null"); CHECK(!x.empty()); CHECK(x.to<X *>() == nullptr); break; }
    case 10: { auto x = call("pointerRef"); CHECK(&x.ref<X *>() == &r.px); x.ref<X *>() = &r.d; CHECK(r.px == &r.d); break; }
    case 11: { auto x = call("arrayRef"); CHECK(x.to<int *>() == r.array); x.ref<int[3]>()[1] = 9; CHECK(r.array[1] == 9); break; }
    case 12: { auto x = call("moveOnly"); CHECK(x.is<std::unique_ptr<int>>()); CHECK(*x.cref<std::unique_ptr<int>>() == 4); break; }
    case 13: CHECK(call("movable").cref<M>().number == 3); break;
    case 14: CHECK(call("text").cref<std::string>() == make<std::string>(2)); break;
    case 15: CHECK(call("enumeration").cref<E>() == E(1)); break;
    case 16: CHECK(call("nothing").empty()); CHECK(r.n == 70); break;
    case 17: isRef(call("wrapped"), &r.x); break;
    case 18: { auto x = call("var"); CHECK(x.cref<int>() == 7); x.ref<int>() = 1; CHECK(r.n == 7); break; }
    case 19: { auto x = call("varRef"); CHECK(&x.ref<int>() == &r.n); break; }
    case 20: CHECK(call("qualified").cref<int>() == 20); break;
    case 21: CHECK(call("noexceptional").cref<int>() == 21); break;
    case 22: CHECK(callF("valueF").cref<X>().number == 8); break;
    case 23: isCref(callF("crefF"), &r.x); break;
    case 24: isRef(callF("refF"), &r.x); break;
    case 25: isRef(callF("baseF"), &r.d); break;
    case 26: CHECK(callF("movableF").cref<M>().number == 3); break;
    case 27: CHECK(callF("nothingF").empty()); CHECK(r.n == 71); break;
    case 28: { auto x = callF("arrayF"); CHECK(x.to<int *>() == r.array); break; }
    case 29: CHECK(callF("noexceptF").cref<int>() == 22); break;
    case 30: CHECK(callF("pointerF").to<D *>() == &r.d); CHECK(callF("textF").to<std::string>() == make<std::string>(2)); break;
    }
    seq::step(); seq::state(std::to_string(what));
}
} // namespace i01
