// M01: traits of types, flags, identifiers and output helpers; see m01.cpp
// A type is described by a string, from outside in: L and R references, P pointer, A2/A3 array, c const, then i int,
// s and t classes (without and with ==), u union, v void, f function. Traits are computed on the string independently.
#include "seq/seq.h"
#include <rtti/misc_traits.h>
#include <rtti/metatype.h>
#include <rtti/signature.h>
#include <rtti/tagged_id.h>
#include <unordered_set>
#include <sstream>

namespace {
using namespace rtti;
using S = std::string;
struct C { char a; int b; };
struct Q { short x[3]; bool operator==(Q const &) const { return true; } };
union U { int i; double d; };

template<typename T> S describe()
{
    if constexpr(std::is_lvalue_reference_v<T>) return "L" + describe<std::remove_reference_t<T>>();
    else if constexpr(std::is_rvalue_reference_v<T>) return "R" + describe<std::remove_reference_t<T>>();
    else if constexpr(std::is_array_v<T>) return "A" + std::to_string(std::extent_v<T>) + describe<std::remove_extent_t<T>>();
    else if constexpr(std::is_const_v<T>) return "c" + describe<std::remove_const_t<T>>();
    else if constexpr(std::is_pointer_v<T>) return "P" + describe<std::remove_pointer_t<T>>();
    else if constexpr(std::is_same_v<T, int>) return "i";
    else if constexpr(std::is_same_v<T, C>) return "s";
    else if constexpr(std::is_same_v<T, Q>) return "t";
    else if constexpr(std::is_same_v<T, U>) return "u";
    else if constexpr(std::is_void_v<T>) return "v";
    else if constexpr(std::is_same_v<T, int(char)>) return "f";
    else return "?";
}
// ---- the model
S strip(S t, char c) { S r; for (char x: t) if (x != c) r += x; return r; }
S noRef(S t) { return t[0] == 'L' || t[0] == 'R' ? t.substr(1) : t; }
bool isArray(S const &t) { return t[0] == 'A'; }
bool isPtr(S const &t) { return t[0] == 'P' || (t[0] == 'c' && t[1] == 'P'); }
S pointee(S const &t) { return t.substr(t[0] == 'c' ? 2 : 1); }
S noTopConst(S t) { size_t i = 0; while (t[i] == 'A') i += 2; if (t[i] == 'c') t.erase(i, 1); return t; } // const of an array is that of its elements
bool isConst(S const &t) { size_t i = 0; while (t[i] == 'A') i += 2; return t[i] == 'c'; }
long pointers(S const &t) { long n = 0; for (char c: t) n += c == 'P'; return n; }
S base(S const &t) { return t.substr(t.size() - 1); }
S decay(S t) { t = noRef(t); if (isArray(t)) return "P" + t.substr(2); if (t == "f") return "Pf"; return noTopConst(t); }
long length(S const &t) { long n = 1; for (size_t i = 0; t[i] == 'A'; i += 2) n *= t[i + 1] - '0'; return n; }
long sizeOf(S t)
{
    t = noRef(t); if (isArray(t)) return (t[1] - '0') * sizeOf(t.substr(2)); if (isPtr(t)) return 8;
    switch (base(t)[0]) { case 'i': return 4; case 's': return 8; case 't': return 6; case 'u': return 8; default: return 0; }
}
long constMask(S const &t) { long mask = 0, at = pointers(t); for (char c: t) { if (c == 'c') mask |= 1L << at; if (c == 'P') --at; } return mask; }
S noPointers(S t) { while (isPtr(t)) t = pointee(t); return noTopConst(t); }
bool comparable(S const &t) { S u = noRef(t); return isArray(u) || isPtr(u) || base(u) == "i" || base(u) == "t" || u == "f"; }

void same(char const *what, S const &of, S const &got, S const &want) { seq::step(); if (got != want) seq::fail(S(what) + " of " + of + " is " + got + ", not " + want); }
void same(char const *what, S const &of, long got, long want) { same(what, of, std::to_string(got), std::to_string(want)); }
template<typename T> S valueType() { return describe<T>(); }

template<typename T> void traits()
{
    S const t = describe<T>(), n = noRef(t); seq::note("%s", t.c_str()); seq::state(t);
    using N = std::remove_reference_t<T>;
    same("removal of all const", t, describe<remove_all_cv_t<T>>(), strip(t, 'c'));
    same("full decay", t, describe<full_decay_t<T>>(), strip(decay(t), 'c'));
    same("base type", t, describe<base_type_t<T>>(), base(t));
    same("number of pointers", t, pointer_arity<N>::value, pointers(n));
    same("number of pointers", t, pointer_arity_v<N>, pointers(n));
    same("array length", t, array_length_v<N>, length(n));
    same("const mask", t, const_bitset<N>::value, constMask(n));
    same("type without pointers", t, describe<remove_all_pointers_t<N>>(), noPointers(n));
    same("three pointers added to", t, describe<add_pointers_t<T, 3>>(), "PPP" + n);
    same("no pointers added to", t, describe<add_pointers_t<T, 0>>(), t);
    same("reference to constant", t, is_lvalue_const_reference_v<T>, t[0] == 'L' && isConst(n));
    same("pointer to class", t, is_class_ptr_v<T>, isPtr(n) && (strip(pointee(n), 'c') == "s" || strip(pointee(n), 'c') == "t"));
    if constexpr(!std::is_function_v<N> && !(std::is_void_v<N> && std::is_const_v<N>)) same("size", t, size_of_v<T>, sizeOf(t));
    if constexpr(!std::is_void_v<N>) same("comparability", t, has_eq_v<N, N>, comparable(t));
    if constexpr(!std::is_void_v<N>) same("comparability without exceptions", t, has_nt_eq_v<N, N>, comparable(t) && (isArray(n) || isPtr(n) || base(n) != "t"));
    same("choice", t, conditional_v<std::is_const_v<N>, std::true_type, std::false_type>, isConst(n));
    // of what the library tells
    if constexpr(!std::is_function_v<N> && !std::is_void_v<N>) {
        MetaType m{metaTypeId<T>()};
        same("reported pointers", t, m.pointerArity(), pointers(n));
        same("reported size", t, long(m.typeSize()), sizeOf(t));
        same("reported decay", t, S{MetaType{m.decayId()}.typeName()}, S{type_name<full_decay_t<T>>()});
        same("reported const", t, m.isConst(), isConst(n));
        same("reported array", t, m.isArray(), isArray(n));
        same("reported pointer", t, m.isPointer(), isPtr(n));
        same("reported class", t, m.isClass(), !isPtr(n) && (base(n) == "s" || base(n) == "t"));
        same("reported pointer to class", t, m.isClassPtr(), isPtr(n) && pointers(n) == 1 && (base(n) == "s" || base(n) == "t"));
        same("reported pointer to void", t, m.isVoidPtr(), isPtr(n) && base(n) == "v");
    }
}
// every type of up to `depth` constructors on top of the base
std::vector<void(*)()> &all() { static std::vector<void(*)()> v; return v; }
template<typename T, int Depth> void grow()
{
    all().push_back(&traits<T>);
    if constexpr(!std::is_void_v<T>) { all().push_back(&traits<T &>); all().push_back(&traits<T &&>); }
    if constexpr(Depth > 0) {
        grow<T *, Depth - 1>();
        if constexpr(!std::is_const_v<std::remove_all_extents_t<T>> && !std::is_function_v<T>) grow<T const, Depth - 1>();
        if constexpr(!std::is_void_v<T> && !std::is_function_v<T>) grow<T[2], Depth - 1>();
    }
}
constexpr int DEPTH = 4;
void types() { auto &v = all(); int n = int(v.size()), hi = seq::choose((n + 63) / 64), lo = seq::choose(64); if (hi * 64 + lo < n) v[hi * 64 + lo](); }

// ---- converting constructors, templates
struct FromInt { FromInt(int); explicit FromInt(double); FromInt(C const &); explicit operator bool(); operator Q(); };
template<typename T, typename ...A> void converting(char const *what, bool want) { same("converting constructor", what, is_converting_constructor_v<T, A...>, want); seq::step(); }
template<int> struct V1 {}; template<auto ...> struct VN {}; template<typename, auto> struct TV {}; template<auto, typename> struct VT {};
template<auto, typename, typename> struct VTT {}; template<typename, typename, auto> struct TTV {}; template<auto, typename, typename, typename> struct VTTT {}; template<typename, typename, typename, auto> struct TTTV {};
template<typename ...> struct TN {};
template<typename T> struct Args; template<typename ...T> struct Args<mpl::type_list<T...>> { static S get() { S r; ((r += describe<T>() + " "), ...); return r; } };
template<typename T> void tmpl(char const *what, bool is, char const *args) { same("being made from a template", what, is_template_type<T>::value, is); same("template arguments", what, Args<template_type_args_t<T>>::get(), args); }
void templates()
{
    converting<FromInt, int>("FromInt(int)", true); converting<FromInt, int &>("FromInt(int &)", true); converting<FromInt, int const &>("FromInt(int const &)", true);
    converting<FromInt, C>("FromInt(C)", true); converting<FromInt, C &&>("FromInt(C &&)", true); converting<FromInt, FromInt>("FromInt(FromInt)", false);
    converting<FromInt, FromInt const &>("FromInt(FromInt const &)", false); converting<FromInt, FromInt &&>("FromInt(FromInt &&)", false);
    converting<FromInt>("FromInt()", false); converting<FromInt, int, int>("FromInt(int, int)", false); converting<FromInt, U>("FromInt(U)", false);
    converting<Q, FromInt &>("Q(FromInt &)", true); converting<bool, FromInt>("explicit bool", false);
    tmpl<int>("int", false, ""); tmpl<C>("class", false, ""); tmpl<TN<>>("no arguments", true, ""); tmpl<TN<int, C *>>("types", true, "i Ps ");
    tmpl<V1<3>>("a value", true, "i "); tmpl<VN<3, nullptr == nullptr ? 4 : 5>>("values", true, "i i "); tmpl<TV<C, 1>>("type, value", true, "s i "); tmpl<VT<1, C>>("value, type", true, "i s ");
    tmpl<VTT<1, C, Q>>("value, types", true, "i s t "); tmpl<TTV<C, Q, 1>>("types, value", true, "s t i "); tmpl<VTTT<1, C, Q, U>>("value, three types", true, "i s t u "); tmpl<TTTV<C, Q, U, 1>>("three types, value", true, "s t u i ");
}
// ---- flags: the operations on sets of flags are those on their numbers
void flags()
{
    int a = seq::choose(25), b = seq::choose(25), c = seq::choose(25);
    auto f = [](int i) { return i ? static_cast<TypeFlags>(1u << (i - 1)) : TypeFlags::None; };
    auto n = [](TypeFlags t) { return static_cast<std::uint32_t>(t); };
    CHECK(n(f(a) | f(b)) == (n(f(a)) | n(f(b)))); CHECK(n((f(a) | f(b)) & f(c)) == ((n(f(a)) | n(f(b))) & n(f(c)))); CHECK(n((f(a) | f(b)) | f(c)) == (n(f(a)) | n(f(b)) | n(f(c))));
    CHECK(n((f(a) | f(b)) & (f(b) | f(c))) == ((n(f(a)) | n(f(b))) & (n(f(b)) | n(f(c)))));
    seq::step();
}
// ---- identifiers
struct TagA; struct TagB;
template<typename I, typename V> void ids(std::vector<V> const &values)
{
    V a = values[seq::choose(int(values.size()))], b = values[seq::choose(int(values.size()))];
    I x{a}, y{b}, copy{x};
    CHECK(x.value() == a && V(x) == a && (x == y) == (a == b) && (x != y) == (a != b) && copy == x && !(copy != x));
    CHECK(x.valid() == (a != I::Default) && (x == I{}) == !x.valid() && !I{}.valid());
    if (a == b) CHECK(std::hash<I>{}(x) == std::hash<I>{}(y));
    std::unordered_set<I> set{x, y}; CHECK(set.size() == (a == b ? 1u : 2u) && set.count(x) && set.count(y));
    x = y; CHECK(x == y && x.value() == b && copy.value() == a); seq::step();
}
void identifiers()
{
    switch (seq::choose(4)) {
    case 0: ids<mpl::ID<TagA, int, -1>, int>({-1, 0, 1, 2147483647, -2147483647 - 1}); break;
    case 1: ids<mpl::ID<TagB, std::size_t, 0>, std::size_t>({0, 1, 2, ~std::size_t{0}, std::size_t{1} << 63, std::size_t{1} << 32}); break;
    case 2: ids<mpl::ID<TagA, char, 'x'>, char>({'x', 'y', 0, -1}); break;
    case 3: ids<MetaType_ID, std::size_t>({0, 1, std::size_t{1} << 32, (std::size_t{1} << 32) + 1, ~std::size_t{0}}); break;
    }
    static_assert(!std::is_convertible_v<int, mpl::ID<TagA, int, -1>> && !std::is_convertible_v<mpl::ID<TagA, int, -1>, int>
               && !std::is_constructible_v<mpl::ID<TagA, int, -1>, mpl::ID<TagB, int, -1>>);
}
// ---- text: lists with separators, signatures, sums of strings and views
void text()
{
    static S const values[] = {"", "a", ", ", S("x\0y", 3), S(40, 'z')}, prefixes[] = {"", "|", ", ", S("\0", 1)};
    S prefix = prefixes[seq::choose(4)]; int n = seq::choose(4), how = seq::choose(3);
    std::ostringstream os; auto it = prefix_ostream_iterator<std::string_view>{os, prefix}; S want;
    if (n) for (int i = 0; i < n; ++i) {
        S const &v = values[seq::choose(5)]; want += (i ? prefix : S{}) + v;
        if (how == 0) it = v; else if (how == 1) { *it = v; ++it; } else *it++ = v;
    }
    CHECK(&it.stream() == &os); CHECK(os.str() == want); seq::step();
}
void sums()
{
    static S const values[] = {"", "a", S("x\0y", 3), S(15, 'p'), S(16, 'q'), S(100, 'z')};
    S a = values[seq::choose(6)]; S const b = values[seq::choose(6)]; int how = seq::choose(4); std::string_view v = b; S want = a; want.append(b); S got, before = a;
    switch (how) {
    case 0: got = a + v; CHECK(a == before); break;
    case 1: got = std::move(a) + v; break;
    case 2: { S const &k = a; got = k + std::string_view{k}; want = before + before; CHECK(a == before); break; } // of itself
    case 3: got = S{a} + v + v; want += b; CHECK(a == before); break;
    }
    CHECK(got == want); seq::step();
}
template<typename ...T> void sig(char const *want)
{
    CHECK(signature<T...>::get("n") == S("n(") + want + ")"); CHECK(signature<mpl::type_list<T...>>::get("") == S("(") + want + ")");
    CHECK(f_signature<void(T...)>::get(std::string_view{"ab", 1}) == S("a(") + want + ")"); CHECK(f_signature<int(*)(T...)>::get("n") == S("n(") + want + ")"); seq::step();
}
void signatures()
{
    sig<>(""); sig<int>("int"); sig<int, char const *>("int, const char*"); sig<int &, int &&, int const &>("int&, int&&, const int&"); sig<int, int, int, int>("int, int, int, int");
}
} // namespace

void m01traits(std::vector<seq::Group> &g)
{
    grow<int, DEPTH>(); grow<C, DEPTH>(); grow<Q, 3>(); grow<U, 2>(); grow<void, DEPTH>(); grow<int(char), 3>();
    g.push_back({"traits of types", types}); g.push_back({"templates and converting constructors", templates}); g.push_back({"flags", flags});
    g.push_back({"identifiers", identifiers}); g.push_back({"lists of text", text}); g.push_back({"sums of text", sums}); g.push_back({"signatures", signatures});
}
