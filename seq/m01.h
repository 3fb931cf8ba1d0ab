// M01: lists of types and what is known of them, see m01.cpp
#pragma once
#include "seq/seq.h"
#include <rtti/typelist.h>
#include <rtti/function_traits.h>
#include <rtti/sfinae.h>
#include <rtti/misc_traits.h>
#include <rtti/finally.h>
#include <algorithm>
#include <array>
#include <optional>
#include <string>
#include <vector>

namespace {

// ---------------------------------------------------------------- type lists
// The elements: a type, the same with a qualifier, a list that is an element
using E0 = int; using E1 = int const; using E2 = mpl::type_list<int>; struct E3 {}; // E3 is in no list
constexpr int K = 3;
template<int I> using Elem = std::tuple_element_t<I, std::tuple<E0, E1, E2, E3>>;
using Seq = std::vector<int>;

template<typename T> constexpr int code() // of an element
{ return std::is_same_v<T, E0> ? 0 : std::is_same_v<T, E1> ? 1 : std::is_same_v<T, E2> ? 2 : std::is_same_v<T, E3> ? 3 : 99; }
template<typename T> struct Decode { static Seq get() { return {-99}; } };
template<typename ...T> struct Decode<mpl::type_list<T...>> { static Seq get() { return {code<T>()...}; } };
template<typename T> struct DecodeTuple { static Seq get() { return {-99}; } };
template<typename ...T> struct DecodeTuple<std::tuple<T...>> { static Seq get() { return {(std::is_same_v<T, std::tuple<int>> ? 2 : code<T>())...}; } };
template<typename T> Seq decode() { return Decode<T>::get(); }

// lists are numbered: length by length, as numbers to the base K
constexpr int power(int n) { int r = 1; while (n--) r *= K; return r; }
constexpr int listsUpTo(int length) { int r = 0; for (int i = 0; i <= length; ++i) r += power(i); return r; }
constexpr int lengthOf(int n) { int l = 0; while (n >= power(l)) n -= power(l++); return l; }
constexpr int elementOf(int n, int i) { int l = 0; while (n >= power(l)) n -= power(l++); while (i--) n /= K; return n % K; }
template<int N, typename I = std::make_index_sequence<size_t(lengthOf(N))>> struct MakeList;
template<int N, size_t ...I> struct MakeList<N, std::index_sequence<I...>> { using type = mpl::type_list<Elem<elementOf(N, int(I))>...>; };
template<int N> using List = typename MakeList<N>::type;
Seq sequence(int n) { Seq r; for (int i = 0; i < lengthOf(n); ++i) r.push_back(elementOf(n, i)); return r; }
std::string show(Seq const &s) { std::string t = "["; for (int i: s) t += std::to_string(i) + " "; return t + "]"; }

template<typename T> struct Twice: mpl::identity<T> {};           // type functions
template<> struct Twice<E0>: mpl::identity<E1> {}; template<> struct Twice<E1>: mpl::identity<E2> {}; template<> struct Twice<E2>: mpl::identity<E0> {};
template<typename T> struct Is0: std::is_same<T, E0> {};
template<typename T> struct Not0: std::bool_constant<!std::is_same_v<T, E0>> {};
template<typename T> struct Always: std::true_type {};
template<typename T> struct Never: std::false_type {};
template<typename S, typename T> struct Append;                   // left folds
template<typename ...S, typename T> struct Append<mpl::type_list<S...>, T>: mpl::identity<mpl::type_list<S..., T>> {};
template<typename T, typename S> struct Prepend;                  // right folds
template<typename T, typename ...S> struct Prepend<T, mpl::type_list<S...>>: mpl::identity<mpl::type_list<T, S...>> {};
template<typename T, typename S> struct Nest: mpl::identity<std::pair<T, S>> {};
template<typename S, typename T> struct NestL: mpl::identity<std::pair<S, T>> {};
struct Init {};
template<typename T> std::string nested() { if constexpr(std::is_same_v<T, Init>) return "i"; else return std::to_string(code<T>()); }
template<typename T> struct Nested { static std::string get() { return nested<T>(); } };
template<typename A, typename B> struct Nested<std::pair<A, B>> { static std::string get() { return "(" + Nested<A>::get() + "," + Nested<B>::get() + ")"; } };

void same(char const *what, Seq const &list, Seq const &got, Seq const &expected)
{
    seq::step();
    if (got != expected) seq::fail(std::string(what) + " of " + show(list) + " is " + show(got) + " instead of " + show(expected));
}
template<typename T> void same(char const *what, Seq const &list, T got, T expected)
{
    seq::step();
    if (got != expected) { if constexpr(std::is_same_v<T, std::string>) seq::fail(std::string(what) + " of " + show(list) + " is " + got + " instead of " + expected); else seq::fail(std::string(what) + " of " + show(list) + " is " + std::to_string(got) + " instead of " + std::to_string(expected)); }
}

using Fun = void (*)();

} // namespace
