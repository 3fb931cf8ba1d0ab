// V03: access to a variant is type safe, const correct and consistent
#include "seq/vkinds.h"
#include "seq/oracle.h"

namespace {

struct Other { int x; bool operator==(Other const &o) const { return x == o.x; } };
struct DerivedOther: Other {};
union Uni { int i; float f; bool operator==(Uni const &o) const { return i == o.i; } };

// ---- things held
template<typename T> struct Store { static inline T x{}; };
template<typename T> variant byValue() { return variant{T(Store<T>::x)}; }
template<typename T> variant byCopy() { return variant{Store<T>::x}; }
template<typename T> variant byMove() { return variant{T(3)}; }
template<typename T> variant byRef() { return variant{std::ref(Store<T>::x)}; }
template<typename T> variant byCRef() { return variant{std::cref(Store<T>::x)}; }

// ---- ways of looking
enum Form { IS, IS_L, IS_CL, IS_R, REF, CREF, DATA, TO, CAN, C_IS, C_IS_L, C_IS_CL, C_IS_R, C_REF, C_CREF, C_DATA, C_TO, C_CAN, R_REF, R_RREF, FORMS };
char const *const formName[] = {"is<T>", "is<T&>", "is<T const&>", "is<T&&>", "ref", "cref", "data", "to", "canConvert", "const is<T>", "const is<T&>", "const is<T const&>", "const is<T&&>", "const ref", "const cref", "const data", "const to", "const canConvert", "rvalue ref", "rvalue rref"};

struct Result { bool ok = false; bool queried = false; void const *address = nullptr; bool sameValue = true; };
template<typename T> struct Tag { using type = T; };

template<typename X> bool sameBytes(X const &a, void const *held, bool arrayHeld)
{
    if constexpr(std::is_pointer_v<X>) return arrayHeld ? (void const *)(a) == held : a == *static_cast<X const *>(held);
    else { auto *h = static_cast<std::remove_cv_t<X> const *>(held); return a == *h; }
}
template<typename X> Result look(variant &v, int form, void const *held, bool arrayHeld)
{
    Result r; variant const &c = v;
    auto ref = [&](auto &&f) { try { r.address = f(); r.ok = true; } catch (rtti::bad_variant_convert const &) { seq::fail("cast fails with the error of conversions"); } catch (rtti::bad_variant_cast const &) {} };
    auto query = [&](bool b) { r.ok = b; r.queried = true; };
    using V = std::remove_cv_t<X>;
    switch (form) {
    case IS: if constexpr(!std::is_array_v<X>) query(v.is<X>()); else query(v.is<X>()); break;
    case IS_L: query(v.is<X &>()); break;
    case IS_CL: query(v.is<X const &>()); break;
    case IS_R: query(v.is<X &&>()); break;
    case C_IS: query(c.is<X>()); break;
    case C_IS_L: query(c.is<X &>()); break;
    case C_IS_CL: query(c.is<X const &>()); break;
    case C_IS_R: query(c.is<X &&>()); break;
    case REF: ref([&] { return static_cast<void const *>(std::addressof(v.ref<X>())); }); break;
    case CREF: ref([&] { return static_cast<void const *>(std::addressof(v.cref<X>())); }); break;
    case C_REF: ref([&] { return static_cast<void const *>(std::addressof(c.ref<X>())); }); break;
    case C_CREF: ref([&] { return static_cast<void const *>(std::addressof(c.cref<X>())); }); break;
    case R_REF: ref([&] { return static_cast<void const *>(std::addressof(std::move(v).ref<X>())); }); break;
    case R_RREF: ref([&] { auto &&x = std::move(v).rref<X>(); return static_cast<void const *>(std::addressof(x)); }); break;
    case DATA: r.address = v.data<X>(); r.ok = r.address; break;
    case C_DATA: r.address = c.data<X>(); r.ok = r.address; break;
    case CAN: if constexpr(!std::is_array_v<X>) query(v.canConvert<X>()); break;
    case C_CAN: if constexpr(!std::is_array_v<X>) query(c.canConvert<X>()); break;
    case TO: case C_TO:
        if constexpr(!std::is_array_v<X> && std::is_same_v<X, V> && std::is_copy_constructible_v<V>) {
            r.queried = true;
            try { V x = form == TO ? v.to<V>() : c.to<V>(); r.ok = true; r.sameValue = sameBytes<V>(x, held, arrayHeld); }
            catch (rtti::bad_variant_convert const &) {}
        }
        break;
    }
    return r;
}
// does the form exist for the target
template<typename X> bool exists(int form)
{
    if (form == TO || form == C_TO) return !std::is_array_v<X> && !std::is_const_v<X> && std::is_copy_constructible_v<X>;
    if (form == CAN || form == C_CAN) return !std::is_array_v<X>;
    return true;
}
template<typename U, typename X> constexpr unsigned expectations()
{
    using C = std::add_const_t<U>;
    bool const e[FORMS] = {
        oracle::access<U &, X>(), oracle::access<U &, X &>(), oracle::access<U &, X const &>(), oracle::access<U &, X &&>(),
        oracle::access<U &, X &>(), oracle::access<U &, X const &>(), oracle::access<U &, X &>(), oracle::access<U &, X>(), oracle::access<U &, X>(),
        oracle::access<C &, X>(), oracle::access<C &, X &>(), oracle::access<C &, X const &>(), oracle::access<C &, X &&>(),
        oracle::access<C &, X const &>(), oracle::access<C &, X const &>(), oracle::access<C &, X const &>(), oracle::access<C &, X>(), oracle::access<C &, X>(),
        oracle::access<U, X const &>(), oracle::access<U &&, X &&>()};
    unsigned m = 0; for (int i = 0; i < FORMS; ++i) m |= unsigned(e[i]) << i;
    return m;
}

using Targets = std::tuple<int, int const, unsigned, double, Color, std::string, std::string const, Small, Small const, Big, Flat, MoveSmall, Thrower, Other, DerivedOther, Uni,
    int[3], int const[3], int[2], int[4], int[2][2], std::string[2], std::string const[1], char[4], char const[4], int *[2], int const *[2], int const *const[2],
    int *, int *const, int const *, int const *const, int **, int const **, int const *const *, int *const *, int const *const *const, int ***, int const *const *const *, unsigned *, char const *, char *,
    Fn, void *, void const *, int Other::*, std::string *, std::string const *, bool, char, long>;
constexpr int NT = int(std::tuple_size_v<Targets>);

struct Target { Result (*look)(variant &, int, void const *, bool); bool (*exists)(int); bool array, pointer; };
template<typename... X> std::vector<Target> targetsOf(Tag<std::tuple<X...>>) { return {{look<X>, exists<X>, std::is_array_v<X>, std::is_pointer_v<X>}...}; }

struct Held
{
    char const *name; variant (*make)(); bool array; rtti::MetaType_ID (*type)();
    void const *(*address)(variant const &); void const *fixed; std::vector<unsigned> expect; bool copyable;
};
template<typename U> void const *heldAddress(variant const &v) { return std::addressof(v.cref<U>()); }
template<typename U, typename... X> Held held(char const *n, variant (*make)(), void const *fixed, Tag<std::tuple<X...>>)
{ return {n, make, std::is_array_v<U>, metaTypeId<U>, heldAddress<std::remove_const_t<U>>, fixed, {expectations<U, X>()...}, copyable<std::remove_cv_t<U>>}; }
#define VAL(...) held<__VA_ARGS__>("value " #__VA_ARGS__, byValue<__VA_ARGS__>, nullptr, Tag<Targets>{})
#define COPY(...) held<__VA_ARGS__>("value " #__VA_ARGS__, byCopy<__VA_ARGS__>, nullptr, Tag<Targets>{})
#define REFTO(...) held<__VA_ARGS__>("ref " #__VA_ARGS__, byRef<__VA_ARGS__>, &Store<__VA_ARGS__>::x, Tag<Targets>{})
#define CREFTO(...) held<__VA_ARGS__ const>("cref " #__VA_ARGS__, byCRef<__VA_ARGS__>, &Store<__VA_ARGS__>::x, Tag<Targets>{})

using PA2 = int *[2]; using PCA2 = int const *[2]; using A3 = int[3]; using A22 = int[2][2]; using S2 = std::string[2]; using C4 = char[4]; using CC4 = char const[4];
using PM = int Other::*; using PP = int *const *; using PCP = int const *const *;

std::vector<Held> const &helds()
{
    static std::vector<Held> const h = {
        VAL(int), REFTO(int), CREFTO(int), VAL(double), VAL(bool), VAL(char), VAL(long), VAL(unsigned), VAL(Color), CREFTO(Color), VAL(std::string), REFTO(std::string), CREFTO(std::string),
        VAL(Small), REFTO(Small), CREFTO(Small), VAL(Big), REFTO(Big), CREFTO(Big), VAL(Thrower), VAL(Flat), CREFTO(Flat), VAL(Other), VAL(DerivedOther), REFTO(DerivedOther), VAL(Uni),
        held<MoveSmall>("value MoveSmall", byMove<MoveSmall>, nullptr, Tag<Targets>{}), REFTO(MoveSmall), CREFTO(MoveSmall),
        COPY(A3), REFTO(A3), CREFTO(A3), COPY(A22), REFTO(A22), COPY(S2), CREFTO(S2), COPY(C4), COPY(PA2), REFTO(PA2), CREFTO(PA2), COPY(PCA2), REFTO(PCA2),
        VAL(int *), REFTO(int *), CREFTO(int *), VAL(int const *), REFTO(int const *), VAL(int **), CREFTO(int **), VAL(int const **), VAL(PP), VAL(PCP), REFTO(PCP), CREFTO(PCP), VAL(int ***),
        VAL(unsigned *), VAL(char const *), VAL(char *), VAL(Fn), REFTO(Fn), VAL(void *), VAL(void const *), VAL(PM), VAL(std::string *), VAL(std::string const *), CREFTO(std::string *),
    };
    return h;
}
std::vector<Target> const &targets() { static auto const t = targetsOf(Tag<Targets>{}); return t; }

void prepare()
{
    Store<std::string>::x = "a text that is longer than the small buffer";
    Store<int>::x = 41; Store<int *>::x = &Store<int>::x; Store<int const *>::x = &Store<int>::x; Store<int **>::x = &Store<int *>::x;
    Store<PP>::x = &Store<int *>::x; Store<PCP>::x = &Store<int const *>::x; Store<Fn>::x = fn1; Store<char const *>::x = "text"; Store<void *>::x = &Store<int>::x;
    Store<S2>::x[0] = "one"; Store<A3>::x[1] = 2; Store<A22>::x[1][0] = 5;
}

void one(variant &v, Held const &h, void const *addr, int t, int form)
{
    auto &target = targets()[size_t(t)];
    variant copy; if (h.copyable) copy = v;
    auto r = target.look(v, form, addr, h.array);
    bool want = h.expect[size_t(t)] >> form & 1;
    seq::step();
    if (r.ok != want) seq::fail(want ? "permitted access is refused" : "access is granted that C++ does not permit");
    if (r.ok && r.address) {
        if (h.array && !target.array) { if (*static_cast<void const *const *>(r.address) != addr) seq::fail("pointer to elements of the array is wrong"); }
        else if (r.address != addr) seq::fail("access yields another object than the one held");
    }
    CHECK(r.sameValue);
    CHECK(!v.empty() && v.typeId() == h.type() && h.address(v) == addr);
    if (h.copyable) CHECK(copy == v);
}
void matrix(int accesses)
{
    int i = seq::choose(int(helds().size())); auto &h = helds()[size_t(i)];
    variant v = h.make(); CHECK(v.typeId() == h.type());
    void const *addr = h.address(v);
    if (h.fixed) CHECK(addr == h.fixed);
    seq::note("%s:", h.name);
    for (int a = 0; a < accesses; ++a) {
        int t = seq::choose(NT), form = seq::choose(FORMS);
        if (!targets()[size_t(t)].exists(form)) return;
        seq::note("%s target %d", formName[form], t);
        one(v, h, addr, t, form);
        seq::state(std::to_string(i) + "/" + std::to_string(t) + "/" + std::to_string(form));
    }
}
void empty()
{
    int t = seq::choose(NT), form = seq::choose(FORMS), how = seq::choose(4);
    variant v; if (how == 1) { v = 5; v.clear(); } if (how == 2) { variant w{std::string{"x"}}; v = std::move(w); v.clear(); } if (how == 3) { v = Big{4}; variant w{std::move(v)}; }
    if (!targets()[size_t(t)].exists(form)) return;
    seq::note("empty %d %s target %d", how, formName[form], t);
    auto r = targets()[size_t(t)].look(v, form, nullptr, false);
    CHECK(!r.ok); CHECK(v.empty()); seq::step();
    seq::state("empty/" + std::to_string(t) + "/" + std::to_string(form));
}
// the reference given by a permitted mutable access is the way to change what is held
template<typename T> void writes()
{
    int how = seq::choose(4);
    variant v = how == 3 ? variant{std::ref(external<T>())} : variant{Rep<T>::make(1)};
    if (how == 3) Rep<T>::set(external<T>(), 1);
    variant copy{v};
    if (how == 0 || how == 3) Rep<T>::set(v.ref<T>(), 2); else if (how == 1) Rep<T>::set(*v.data<T>(), 2); else { auto &&x = std::move(v).rref<T>(); Rep<T>::set(x, 2); }
    CHECK(Rep<T>::get(v.cref<T>()) == Rep<T>::get(Rep<T>::make(2)));
    CHECK(Rep<T>::get(static_cast<variant const &>(v).ref<T>()) == Rep<T>::get(Rep<T>::make(2)));
    { T t = v.to<T>(); CHECK(Rep<T>::get(t) == Rep<T>::get(Rep<T>::make(2))); }
    CHECK(Rep<T>::get(copy.cref<T>()) == Rep<T>::get(Rep<T>::make(how == 3 ? 2 : 1)));
    seq::step();
}
void write()
{
    static void (*const w[])() = {writes<int>, writes<Small>, writes<Big>, writes<Thrower>, writes<std::string>, writes<double>, writes<Flat>, writes<int *>, writes<int const *>, writes<Fn>, writes<std::shared_ptr<int>>, writes<Wide>, writes<Color>};
    int i = seq::choose(int(sizeof w / sizeof *w)); seq::note("type %d", i); seq::state("w" + std::to_string(i)); w[i]();
}

} // namespace

int main(int argc, char **argv)
{
    helds(); targets();
    std::vector<seq::Group> g;
    g.push_back({"every held kind, target and form of access", [] { matrix(1); }, prepare, false, true, false, 2});
    g.push_back({"empty variants", empty, prepare, false, true, false, 2});
    g.push_back({"writing through what access gives", write, prepare, false, true, false, 2});
    g.push_back({"two accesses after each other", [] { matrix(2); }, prepare, false, true, true, 3});
    seq::main_(argc, argv, g);
}
