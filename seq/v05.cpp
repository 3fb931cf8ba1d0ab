// V05: conversions use exactly the registered converters and fail cleanly
#include "seq/vkinds.h"
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metanamespace.h>
#include <rtti/metaconstructor.h>
#include <memory>

namespace {

// ---- values: a number, and the mark of the converter that made it
int calls; void const *seenAt; int seenValue;
void called(void const *at, int value) { ++calls; seenAt = at; seenValue = value; }

inline std::string textOf(int value, int mark) { return std::to_string(value) + ":" + std::to_string(mark) + " and more text to be kept elsewhere"; }
struct Src: tracked::Obj<20, 24, true>   // has member functions used as converters
{
    TRACKED_COMMON(Src, 20, 24, true)
    Src(Src const &o): Base(o, 0) {} Src(Src &&o) noexcept: Base(static_cast<Base &>(o), true) {} Src &operator=(Src const &o) { set(o.get()); return *this; }
    std::string text() const { called(this, get()); return textOf(get(), 91); }
    std::string textOk(bool &ok) const { called(this, get()); ok = get() != 3; return textOf(get(), 92); }
    int number() const { called(this, get()); return get() * 1000 + 91; }
    int numberOk(bool &ok) const { called(this, get()); ok = get() != 3; return get() * 1000 + 92; }
};
struct Dst: tracked::Obj<21, 40, false>
{
    TRACKED_COMMON(Dst, 21, 40, false)
    Dst(Dst const &o): Base(o, 0) {} Dst(Dst &&o): Base(static_cast<Base &>(o), true) {} Dst &operator=(Dst const &o) { set(o.get()); return *this; }
    Dst(Src const &s): Base(s.get() * 1000 + 95) { called(nullptr, s.get()); }
};
enum class E: int { none };

template<typename T> int num(T const &x) { return Rep<T>::get(x); }
template<> int num<std::string>(std::string const &x) { return std::stoi(x); }
template<> int num<E>(E const &x) { return int(x); }
template<> int num<int *>(int *const &x) { return *x; }
template<typename T> T made(int value, int mark) { return T{value * 1000 + mark}; }
template<> int *made<int *>(int value, int mark) { static int store[16 * 1000]; auto p = store + value * 1000 + mark; *p = value * 1000 + mark; return p; }
template<> std::string made<std::string>(int value, int mark) { return textOf(value, mark); }
template<typename T> int markOf(T const &x) { return num(x) % 1000; }
template<> int markOf<std::string>(std::string const &x) { return std::stoi(x.substr(x.find(':') + 1)); }
template<typename T> int valueOf(T const &x) { return num(x) / 1000; }
template<> int valueOf<std::string>(std::string const &x) { return std::stoi(x); }
template<typename T> T value(int v) { return T(v); }
template<> std::string value<std::string>(int v) { return std::to_string(v); }
template<> int *value<int *>(int v) { static int store[8]; store[v] = v; return store + v; }

template<typename F, typename T> T byFunction(F x) { called(nullptr, num(x)); return made<T>(num(x), 90); }
template<typename F, typename T> T byConstRef(F const &x) { called(&x, num(x)); return made<T>(num(x), 93); }
template<typename F, typename T> T byFunctionOk(F const &x, bool &ok) { called(&x, num(x)); ok = true; return made<T>(num(x), 94); }

enum Form { FUNCTION, CONST_REF, FUNCTOR, REPORTS, REPORTS_NO, THROWS, REPORTS_THROWS, MEMBER, MEMBER_OK, CONSTRUCTOR, REMOVES_ITSELF, NESTED, REPLACES_ITSELF, ASKS_AT_END, FORMS };
char const *const formName[] = {"function", "function const&", "functor", "reporting functor", "functor reporting failure", "throwing functor", "throwing reporting functor", "member", "reporting member", "constructor", "functor removing itself", "functor converting another", "functor replacing itself", "functor asking when it is destroyed"};

struct Model { bool has = false; int form = 0, mark = 0; };
struct Pair
{
    char const *name;
    bool (*reg)(int form, int mark); void (*unreg)(int how); bool (*has)(int how);
    bool (*supports)(int form);
    void (*use)(Model &m, int value, int held, int way);
};

template<typename F, typename T> struct P
{
    static constexpr bool cls = std::is_same_v<F, Src>;
    static bool supports(int f)
    {
        if (f == MEMBER || f == MEMBER_OK) return cls && (std::is_same_v<T, std::string> || std::is_same_v<T, int>);
        if (f == CONSTRUCTOR) return cls && std::is_same_v<T, Dst>;
        return true;
    }
    static bool reg(int form, int mark)
    {
        auto keep = std::make_shared<int>(mark); // lives as long as the converter
        switch (form) {
        case FUNCTION: return MetaType::registerConverter<F, T>(byFunction<F, T>);
        case CONST_REF: return MetaType::registerConverter<F const &, T>(byConstRef<F, T>);
        case FUNCTOR: return MetaType::registerConverter<F, T>([keep](F const &x) { called(&x, num(x)); return made<T>(num(x), *keep); });
        case REPORTS: return MetaType::registerConverter<F, T>([keep](F const &x, bool &ok) { called(&x, num(x)); ok = num(x) != 3; return made<T>(num(x), *keep); });
        case REPORTS_NO: return MetaType::registerConverter<F, T>([keep](F const &x, bool &ok) { called(&x, num(x)); ok = false; return made<T>(num(x), *keep); });
        case THROWS: return MetaType::registerConverter<F, T>([keep](F const &x) -> T { called(&x, num(x)); if (*keep) throw 5; return made<T>(0, 0); });
        case REPORTS_THROWS: return MetaType::registerConverter<F, T>([keep](F const &x, bool &ok) -> T { called(&x, num(x)); ok = true; if (*keep) throw 5; return made<T>(0, 0); });
        case REMOVES_ITSELF: return MetaType::registerConverter<F, T>([keep](F const &x) { called(&x, num(x)); MetaType::unregisterConverter<F, T>(); return made<T>(num(x), *keep); });
        case REPLACES_ITSELF: return MetaType::registerConverter<F, T>([keep](F const &x) { called(&x, num(x)); MetaType::unregisterConverter<F, T>(); bool r = MetaType::registerConverter<F, T>(byFunctionOk<F, T>); int m = *keep; if (!r) seq::fail("registration inside of a converter is refused"); return made<T>(num(x), m); });
        case NESTED: return MetaType::registerConverter<F, T>([keep](F const &x) { called(&x, num(x)); auto c = calls; auto at = seenAt; auto va = seenValue;
                         bool h = MetaType::hasConverter<F, T>(); variant v{E(2)}; bool r = v.tryConvert<double>(); calls = c; seenAt = at; seenValue = va;
                         if (!h || !r || v.cref<double>() != 2.25) seq::fail("conversion inside of a conversion"); return made<T>(num(x), *keep); });
        case ASKS_AT_END: { auto asks = std::shared_ptr<int>(new int(mark), [](int *p) { delete p; (void)MetaType::hasConverter<F, T>(); if (!MetaType::hasConverter<E, double>()) seq::fail("converters are gone when one is destroyed"); variant v{E(2)}; if (!v.tryConvert<double>() || v.cref<double>() != 2.25) seq::fail("conversion while a converter is destroyed"); MetaType::unregisterConverter<double, Dst>(); });
                         return MetaType::registerConverter<F, T>([asks](F const &x) { called(&x, num(x)); return made<T>(num(x), *asks); }); }
        case MEMBER: if constexpr(std::is_same_v<F, Src>) { if constexpr(std::is_same_v<T, std::string>) return MetaType::registerConverter(&Src::text); else if constexpr(std::is_same_v<T, int>) return MetaType::registerConverter(&Src::number); } return false;
        case MEMBER_OK: if constexpr(std::is_same_v<F, Src>) { if constexpr(std::is_same_v<T, std::string>) return MetaType::registerConverter(&Src::textOk); else if constexpr(std::is_same_v<T, int>) return MetaType::registerConverter(&Src::numberOk); } return false;
        case CONSTRUCTOR: if constexpr(std::is_same_v<F, Src> && std::is_same_v<T, Dst>) return MetaType::registerConverter<F, T>(); return false;
        }
        return false;
    }
    static void unreg(int how = 0)
    {
        switch (how) {
        case 0: MetaType::unregisterConverter<F, T>(); break;
        case 1: MetaType::unregisterConverter(metaTypeId<F const &>(), metaTypeId<T>()); break;
        case 2: MetaType::unregisterConverter(metaTypeId<F>(), metaTypeId<T const &>()); break;
        case 3: MetaType::unregisterConverter<F const &, T const &>(); break;
        default: MetaType::unregisterConverter<F &, T const>(); break;
        }
    }
    static bool has(int how)
    {
        switch (how) {
        case 0: return MetaType::hasConverter<F, T>();
        case 1: return MetaType::hasConverter(metaTypeId<F const &>(), metaTypeId<T>());
        case 2: return MetaType::hasConverter(MetaType{metaTypeId<F>()}, MetaType{metaTypeId<T const &>()});
        case 3: return MetaType::hasConverter<F &, T const>();
        default: return MetaType::hasConverter<F const, T &&>();
        }
    }
    // what the converter does for a value: made / refused / throws
    static void use(Model &m, int v, int held, int way)
    {
        static Holder1<F> h; h.x = value<F>(v);
        variant x = held == 0 ? variant{h.x} : held == 1 ? variant{std::ref(h.x)} : held == 2 ? variant{std::cref(h.x)} : variant{F(h.x)};
        bool constant = held == 3; variant const &c = x;
        auto type = x.typeId();
        int mark = m.form == FUNCTION ? 90 : m.form == CONST_REF ? 93 : m.form == MEMBER ? 91 : m.form == MEMBER_OK ? 92 : m.form == CONSTRUCTOR ? 95 : m.form == -1 ? 94 : m.mark;
        bool throws = m.has && m.form == REPORTS_THROWS;
        bool ok = m.has && !throws && m.form != THROWS && m.form != REPORTS_NO && !((m.form == REPORTS || m.form == MEMBER_OK) && v == 3);
        bool same = std::is_same_v<F, T>;
        CHECK((constant ? c.canConvert<T>() : x.canConvert<T>()) == (m.has || same));
        calls = 0; seenAt = nullptr; seenValue = -1;
        void const *at = &x.cref<F>();
        auto result = [&](T const &t) { if constexpr(std::is_same_v<F, T>) return t == h.x && calls == 0; else return valueOf(t) == v && markOf(t) == mark; };
        bool done = false, usedConverter = true;
        if (way == 0) { // throwing form, value returned
            try { T t = constant ? c.to<T>() : x.to<T>(); done = true; CHECK(result(t)); }
            catch (rtti::bad_variant_convert const &) { CHECK(!throws); } catch (int) { CHECK(throws && !same); }
        }
        else if (way == 1) { // in place
            try { x.convert<T>(); done = true; } catch (rtti::bad_variant_convert const &) { CHECK(!throws); } catch (int) { CHECK(throws && !same); }
        }
        else if (way == 2) done = x.tryConvert<T>();
        else if (way == 4) { // the other way round: the bare value is converted to what the variant has
            usedConverter = false;
            bool back = MetaType::hasConverter<T, F>(); // would be used first
            T t = [&] { if constexpr(std::is_same_v<F, T>) return value<T>(v); else return made<T>(v, mark); }();
            variant y = held == 0 || held == 3 ? variant{t} : held == 1 ? variant{std::ref(t)} : variant{std::cref(t)}; variant const &cy = y; bool e = false, threw = false;
            if (!back) {
                try { e = constant ? cy.eq(h.x) : y.eq(h.x); } catch (int) { threw = true; }
                if (same) CHECK(e); else if (throws) CHECK(threw); else CHECK(e == ok);
                CHECK(calls == (m.has && !same));
            } else CHECK(!calls);
        }
        else { // comparison goes through the converter
            usedConverter = false;
            T t = [&] { if constexpr(std::is_same_v<F, T>) return value<T>(v); else return made<T>(v, mark); }();
            bool r = false, threw = false;
            try { r = x.eq(t); } catch (int) { threw = true; }
            if (same) CHECK(r);
            else if (throws) CHECK(threw); // reported to the caller
            else if (ok) { CHECK(r); }
            else CHECK(!r);
            if (ok && !same) { T other = made<T>(v, mark == 89 ? 88 : 89); Model was = m; (void)was; if (m.form != REMOVES_ITSELF && m.form != REPLACES_ITSELF && m.form != CONSTRUCTOR) CHECK(!x.eq(other)); }
        }
        if (usedConverter) {
            CHECK(done == (ok || same));
            CHECK(calls == (m.has && !same ? 1 : 0));
            if (calls) { CHECK(seenValue == v); if (seenAt) CHECK(seenAt == at); }
        }
        if (way == 1 || way == 2) {
            if (done) { CHECK(x.typeId() == metaTypeId<T>()); CHECK(result(x.cref<T>())); }
            else { CHECK(x.typeId() == type && &x.cref<F>() == at); CHECK(num(x.cref<F>()) == v); }
        }
        else { CHECK(x.typeId() == type && &x.cref<F>() == at); CHECK(num(x.cref<F>()) == v); }
        CHECK(num(h.x) == v);
        if (m.has && !same && (calls || way == 3)) { if (m.form == REMOVES_ITSELF) m = {}; else if (m.form == REPLACES_ITSELF) m.form = -1; }
    }
    template<typename X> struct Holder1 { X x{}; };
};
template<typename F, typename T> Pair pair(char const *n) { using X = P<F, T>; return {n, X::reg, X::unreg, X::has, X::supports, X::use}; }

std::vector<Pair> const &pairs()
{
    static std::vector<Pair> const p = {
        pair<int, std::string>("int->string"), pair<Src, int>("Src->int"), pair<Src, std::string>("Src->string"), pair<Src, Dst>("Src->Dst"), pair<std::string, Src>("string->Src"),
        pair<int, Dst>("int->Dst"), pair<E, int>("E->int"), pair<int, int>("int->int"), pair<int *, std::string>("int*->string"), pair<std::string, std::string>("string->string"), pair<int, int *>("int->int*"),
    };
    return p;
}

void prepare()
{
    auto outside = tracked::table;
    MetaType::registerConverter<E, double>([](E e) { return int(e) + 0.25; });
    for (auto &p: pairs()) for (int f = 0; f < FORMS; ++f) if (p.supports(f)) { Model m; m.has = p.reg(f, 7); m.form = f; m.mark = 7; p.unreg(0); }
    for (auto &p: pairs()) for (int h = 0; h < 4; ++h) for (int w = 0; w < 5; ++w) { Model m; p.use(m, 1, h, w); }
    for (auto &p: pairs()) for (int h = 0; h < 5; ++h) if (p.has(h)) seq::fail("converter is left over");
    for (int i = 0; i < pairs()[3].supports(0); ++i) {}
    (void)outside; // static holders live on
}

struct World
{
    std::vector<int> ps; std::vector<Model> m; int marks = 1;
    explicit World(std::vector<int> p): ps(std::move(p)), m(ps.size()) {}
    ~World() { for (int p: ps) pairs()[size_t(p)].unreg(0); }

    void observe()
    {
        for (size_t i = 0; i < ps.size(); ++i) {
            auto &p = pairs()[size_t(ps[i])];
            for (int h = 0; h < 5; ++h) CHECK(p.has(h) == m[i].has);
        }
        std::string t; for (size_t i = 0; i < ps.size(); ++i) t += std::to_string(ps[i]) + (m[i].has ? ":" + std::to_string(m[i].form) : "") + ",";
        seq::state(t);
    }
    void everyUse()
    {
        for (size_t i = 0; i < ps.size(); ++i) for (int held = 0; held < 4; ++held) for (int way = 0; way < 5; ++way) for (int v: {1, 3}) { pairs()[size_t(ps[i])].use(m[i], v, held, way); observe(); }
    }
    void op(std::vector<int> const &forms)
    {
        int n = int(ps.size()), nf = int(forms.size());
        int c = seq::choose(n * (nf + 2));
        size_t i = size_t(c) / size_t(nf + 2); c %= nf + 2;
        auto &p = pairs()[size_t(ps[i])];
        if (c == nf) { int how = n == 1 ? seq::choose(5) : 3; seq::note("unregister %s (%d)", p.name, how); p.unreg(how); m[i] = {}; }
        else if (c == nf + 1) { int way = seq::choose(5); seq::note("use %s (%d)", p.name, way); p.use(m[i], 2, 1 + way % 2, way); }
        else {
            int f = forms[size_t(c)]; if (!p.supports(f)) return;
            seq::note("register %s: %s", p.name, formName[f]);
            bool r = p.reg(f, ++marks); CHECK(r == !m[i].has);
            if (r) m[i] = {true, f, marks};
        }
        seq::step(); observe();
    }
};
void histories(std::vector<int> ps, std::vector<int> forms, int depth)
{
    auto outside = tracked::table;
    { World w{std::move(ps)}; w.observe(); for (int d = 0; d < depth; ++d) w.op(forms); w.everyUse(); }
    tracked::settle(outside);
}
std::vector<int> const ALL = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13};

// arrays are converted by the converters of their pointers
void arrays()
{
    int form = seq::choose(4), held = seq::choose(3), v = 1 + seq::choose(3);
    static int const forms[] = {FUNCTION, FUNCTOR, REPORTS, THROWS};
    static int a[3]; a[0] = v; a[1] = 20; a[2] = 30;
    seq::note("array held %d, %s", held, formName[forms[form]]);
    { variant x = held == 0 ? variant{a} : held == 1 ? variant{std::ref(a)} : variant{std::cref(a)};
    CHECK(!x.canConvert<std::string>()); CHECK(!variant{x}.tryConvert<std::string>());
    CHECK((P<int *, std::string>::reg(forms[form], 5)));
    CHECK(x.canConvert<std::string>());
    bool ok = forms[form] != THROWS && !(forms[form] == REPORTS && v == 3);
    std::string s; bool done = true; try { s = x.to<std::string>(); } catch (rtti::bad_variant_convert const &) { done = false; }
    CHECK(done == ok); if (ok) CHECK(std::stoi(s) == v);
    std::string e = made<std::string>(v, forms[form] == FUNCTION ? 90 : 5);
    CHECK(x.eq(e) == ok); CHECK(!x.eq(made<std::string>(v + 1, 5)));
    variant sv{e}; CHECK(!sv.eq(a) || ok);
    variant y{x}; CHECK(y.tryConvert<std::string>() == ok); CHECK(ok == (y.typeId() == metaTypeId<std::string>()));
    P<int *, std::string>::unreg(); CHECK(!x.canConvert<std::string>()); CHECK(!x.eq(e));
    CHECK(a[1] == 20 && (x.cref<int[3]>()[2] == 30)); }
    seq::step(); seq::state("a" + std::to_string(form) + std::to_string(held) + std::to_string(v));
}

// constructors of classes that are registered with them: those that convert implicitly are converters from then on
struct CB; struct CA { int from = 0, v = 0; CA() = default; CA(int n): from(1), v(n) {} CA(std::string const &s): from(2), v(int(s.size())) {} explicit CA(double d): from(3), v(int(d)) {} explicit CA(char const *): from(8) {} CA(int a, int b): from(4), v(a + b) {} CA(short *p): from(5), v(*p) {} };
struct CB { int from = 0, v = 0; CB() = default; CB(CA const &a): from(6), v(a.v) {} CB(CA &a, char): from(7) {} operator CA() const { return CA{v}; } };
void constructors()
{
    using rtti::global_define; using rtti::MetaNamespace;
    static char const *const names[] = {"CA(int)", "CA(string)", "explicit CA(double)", "CA(int, int), explicit CA(char const *)", "CB(CA)", "CA(short *)", "CA(CB) by conversion", "a converter int->CA", "a converter CA->int", "a converter CB->CA", "no converter int->CA", "no converter CA->int", "no converter CA->CB", "CA(int) of that name"};
    enum { IA, SA, AB, PA, BA, AI, DA, COUNT }; int conv[COUNT] = {}; short number = 4; int depth = seq::thorough() ? 4 : 3;
    auto probe = [&] {
        auto to = [&](char const *what, auto value, auto target, int how, int v) {
            using T = decltype(target); variant x{value}; variant const &c = x; seq::step();
            auto where = [&] { return std::string(what) + ": "; };
            if (x.canConvert<T>() != !!how || c.canConvert<T>() != !!how || MetaType::hasConverter<decltype(value), T>() != !!how) seq::fail(where() + (how ? "not possible" : "possible"));
            auto right = [&](T const &t) { if constexpr(std::is_same_v<T, int>) return t == v; else return t.from == how && t.v == v; };
            try { if (!right(c.to<T>())) seq::fail(where() + "another value"); if (!how) seq::fail(where() + "not refused"); } catch (rtti::bad_variant_convert const &) { if (how) seq::fail(where() + "refused"); }
            variant y{x}; CHECK(y.tryConvert<T>() == !!how); CHECK(y.is<T>() == !!how || (std::is_same_v<decltype(value), T>)); if (how) CHECK(right(y.cref<T>()));
        };
        to("int to CA", 5, CA{}, conv[IA], 5); to("string to CA", std::string("four"), CA{}, conv[SA], 4); to("double to CA", 2.0, CA{}, conv[DA], 2); to("CA to CB", CA{7}, CB{}, conv[AB], 7); to("CB to CA", CB{CA{8}}, CA{}, conv[BA], 8); to("CA to int", CA{9}, 0, conv[AI], 9); to("pointer to CA", &number, CA{}, conv[PA], 4);
        to("char to CA", 'c', CA{}, 0, 0); to("text to CA", static_cast<char const *>("x"), CA{}, 0, 0); to("int to CB", 3, CB{}, 0, 0); // no steps in between
    };
    probe();
    for (int d = 0; d < depth; ++d) {
        int c = seq::choose(14); seq::note("%s;", names[c]); seq::step();
        auto set = [&](int i, int how) { if (!conv[i]) conv[i] = how; };
        switch (c) {
        case 0: global_define()._class<CA>("CA")._constructor<int>(); set(IA, 1); break;
        case 1: global_define()._class<CA>("CA")._constructor<std::string const &>(); set(SA, 2); break;
        case 2: global_define()._class<CA>("CA")._constructor<double>(); set(DA, 1); break; // (a double is an int, for an implicit conversion)
        case 3: global_define()._class<CA>("CA")._constructor<int, int>(); global_define()._class<CA>("CA")._constructor<char const *>(); break;
        case 4: global_define()._class<CB>("CB")._constructor<CA const &>(); set(AB, 6); break;
        case 5: global_define()._class<CA>("CA")._constructor<short *>(); set(PA, 5); break;
        case 6: global_define()._class<CA>("CA")._constructor<CB>(); set(BA, 1); break;
        case 7: CHECK((MetaType::registerConverter<int, CA>([](int n) { CA a{n}; a.from = 9; return a; })) == !conv[IA]); set(IA, 9); break;
        case 8: CHECK((MetaType::registerConverter<CA, int>([](CA const &a) { return a.v; })) == !conv[AI]); set(AI, 1); break;
        case 9: CHECK((MetaType::registerConverter<CB, CA>([](CB const &b, bool &ok) { ok = true; CA a{b.v}; a.from = 8; return a; })) == !conv[BA]); set(BA, 8); break;
        case 10: MetaType::unregisterConverter<int, CA>(); conv[IA] = 0; break;
        case 11: MetaType::unregisterConverter<CA, int>(); conv[AI] = 0; break;
        case 12: MetaType::unregisterConverter<CA, CB>(); conv[AB] = 0; break;
        case 13: global_define()._class<CA>("CA")._constructor<int>("made"); set(IA, 1); break;
        }
        probe();
    }
    if (auto k = MetaNamespace::global()->getClass("CA")) for (size_t i = 0; i < k->constructorCount(); ++i) if (k->getConstructor(i)->name() == "constructor(int)") CHECK(k->getConstructor(i)->invoke(6).cref<CA>().v == 6);
    std::string t; for (int c: conv) t += char('0' + c); seq::state(t);
}

// All converters between many types: each pair of types has a converter of its own, whatever others there are
constexpr int MANY = 20;
template<int I> struct Num { int v = 0; };
int manyKey(int v, int i, int j) { return v * 1000 + i * MANY + j + 1; }
struct ManyPair { bool (*add)(int); void (*remove)(); bool (*has)(); bool (*can)(); int (*get)(int); };
template<int I, int J> ManyPair manyPair()
{
    return {[](int d) { return MetaType::registerConverter<Num<I>, Num<J>>([d](Num<I> const &x) { return Num<J>{manyKey(x.v, I, J) + d}; }); },
            [] { MetaType::unregisterConverter<Num<I>, Num<J>>(); }, [] { return MetaType::hasConverter<Num<I>, Num<J>>(); },
            [] { return variant{Num<I>{1}}.canConvert<Num<J>>(); },
            [](int v) { variant const x{Num<I>{v}}; try { return x.to<Num<J>>().v; } catch (rtti::bad_variant_convert const &) { return -1; } }};
}
template<std::size_t... K> std::vector<ManyPair> manyPairs(std::index_sequence<K...>) { return {manyPair<int(K) / MANY, int(K) % MANY>()...}; }
void many()
{
    static auto const pair = manyPairs(std::make_index_sequence<MANY * MANY>{});
    std::vector<int> model(MANY * MANY, -1); // what is added to the value, -1: not registered
    auto add = [&](int i, int j, int d) { seq::step(); if (pair[i * MANY + j].add(d) != (model[i * MANY + j] < 0)) seq::fail("converter " + std::to_string(i) + "->" + std::to_string(j) + (model[i * MANY + j] < 0 ? " refused" : " registered twice")); if (model[i * MANY + j] < 0) model[i * MANY + j] = d; };
    auto remove = [&](int i, int j) { seq::step(); pair[i * MANY + j].remove(); model[i * MANY + j] = -1; };
    auto check = [&] {
        for (int i = 0; i < MANY; ++i)
            for (int j = 0; j < MANY; ++j) {
                if (i == j) continue;
                auto const &p = pair[i * MANY + j]; int const m = model[i * MANY + j];
                if (p.has() != (m >= 0) || p.can() != (m >= 0) || p.get(2) != (m < 0 ? -1 : manyKey(2, i, j) + m)) seq::fail("conversion " + std::to_string(i) + "->" + std::to_string(j) + (m < 0 ? ", which has no converter" : ", by its converter"));
            }
    };
    int const a = seq::choose(MANY), b = seq::choose(MANY), mode = seq::choose(4);
    if (a == b) return;
    seq::note("%d->%d, mode %d", a, b, mode);
    switch (mode) {
    case 0: add(a, b, 0); break;                                                                                       // only this one
    case 1: for (int i = 0; i < MANY; ++i) for (int j = 0; j < MANY; ++j) if (i != j && !(i == a && j == b)) add(i, j, 0); break; // all but this one
    case 2: for (int i = 0; i < MANY; ++i) for (int j = 0; j < MANY; ++j) if (i != j) add(i, j, 0);                         // replaced among all
            remove(a, b); check(); add(a, b, 500); add(a, b, 0); break;
    case 3: for (int j = MANY; j--;) for (int i = MANY; i--;) if (i != j && (i == a || j == b || i == b || j == a)) add(i, j, 0); // all of two types, then one way less
            check(); for (int i = 0; i < MANY; ++i) if (i != a) remove(a, i); break;
    }
    check();
    for (int i = 0; i < MANY; ++i) for (int j = 0; j < MANY; ++j) if (i != j) remove(i, j);
    check();
    seq::state(std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(mode));
}

} // namespace

int main(int argc, char **argv)
{
    pairs();
    std::vector<seq::Group> g;
    int np = int(pairs().size());
    g.push_back({"one pair, all forms, depth 3", [=] { histories({seq::choose(np)}, ALL, 3); }, prepare, false, true, false, 2});
    g.push_back({"pairs of pairs, depth 3", [=] { int i = seq::choose(np), j = seq::choose(np); if (j <= i) return; histories({i, j}, {FUNCTION, FUNCTOR, REPORTS, THROWS, MEMBER}, 3); }, prepare, false, true, false, 3});
    g.push_back({"converting constructors", constructors, nullptr, true, false, false, 2});
    g.push_back({"many types", many, nullptr, false, true, false, 1});
    g.push_back({"arrays", arrays, prepare, false, true, false, 1});
    g.push_back({"one pair, all forms, depth 5", [=] { histories({seq::choose(np)}, ALL, 5); }, prepare, false, true, true, 3});
    g.push_back({"pairs of pairs, depth 4", [=] { int i = seq::choose(np), j = seq::choose(np); if (j <= i) return; histories({i, j}, {FUNCTION, FUNCTOR, REPORTS, REPORTS_THROWS, MEMBER, REMOVES_ITSELF}, 4); }, prepare, false, true, true, 4});
    seq::main_(argc, argv, g);
}
