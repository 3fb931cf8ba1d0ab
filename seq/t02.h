#pragma once
#pragma once
// Tables of T02: compatibility of types agrees with the qualification conversions and reference binding of C++
#include "seq/seq.h"
#include "seq/oracle.h"
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <functional>
#include <string>
#include <utility>
using rtti::MetaType; using rtti::MetaType_ID; using rtti::metaTypeId;

namespace t02 {

struct Rec { int a; };

template<typename... T> struct List { static constexpr int size = int(sizeof...(T)); };
template<typename... L> struct Cat;
template<> struct Cat<> { using type = List<>; };
template<typename... A> struct Cat<List<A...>> { using type = List<A...>; };
template<typename... A, typename... B, typename... R> struct Cat<List<A...>, List<B...>, R...>: Cat<List<A..., B...>, R...> {};
template<typename... L> using cat = typename Cat<L...>::type;

template<typename L> struct Point; // every pointer to one of the list, both ways qualified
template<typename... T> struct Point<List<T...>> { using type = cat<List<T *, T *const>...>; };
template<typename L> struct Refs;
template<typename... T> struct Refs<List<T...>> { using type = cat<List<T, T &, T &&>...>; };
template<typename L> struct RefsOnly;
template<typename... T> struct RefsOnly<List<T...>> { using type = cat<List<T &, T &&>...>; };
template<typename L> struct Arrays;
template<typename... T> struct Arrays<List<T...>> { using type = cat<List<T[2], T[3]>...>; };

template<typename B> using L0 = List<B, B const>;
template<typename B> using L1 = typename Point<L0<B>>::type;
template<typename B> using L2 = typename Point<L1<B>>::type;
template<typename B> using L3 = typename Point<L2<B>>::type;
template<typename L> using refs = typename Refs<L>::type;
template<typename L> using arrays = typename Arrays<L>::type;

// the constness of each level of From and To is left to the compiler
struct Row { MetaType_ID (*from)(); std::string_view (*print)(); std::vector<signed char> expect; bool reflexive; };
template<typename T> std::string_view print() { std::string_view s = __PRETTY_FUNCTION__; s = s.substr(s.find("T = ") + 4); return s.substr(0, s.find(';')); }
struct Table { std::vector<MetaType_ID (*)()> ids; std::vector<std::string_view (*)()> names; std::vector<Row> rows; };

template<typename F, typename T> constexpr bool expected(std::true_type) { return oracle::viewable<F, T>(); }
template<typename F, typename T> constexpr bool expected(std::false_type) { return false; }

template<typename From, typename... To> Row row()
{
    Row r{metaTypeId<From>, print<From>, {}, !std::is_reference_v<From> || (std::is_lvalue_reference_v<From>)};
    (r.expect.push_back(expected<From, To>(std::is_same<oracle::decayed<From>, oracle::decayed<To>>{})), ...);
    return r;
}
template<typename... T> Table const &table(List<T...>)
{
    static Table const t = [] {
        Table t; t.ids = {metaTypeId<T>...}; t.names = {print<T>...};
        (t.rows.push_back(row<T, T...>()), ...);
        for (auto f: t.ids) f();
        return t;
    }();
    return t;
}

// deeply nested pointers: constness at one, all or none of the levels
template<typename T, unsigned M, int N> struct Deep { using type = typename Deep<std::conditional_t<(M & 1) != 0, T const, T> *, (M >> 1), N - 1>::type; };
template<typename T, unsigned M> struct Deep<T, M, 0> { using type = std::conditional_t<(M & 1) != 0, T const, T>; };
template<int N> using deep = List<typename Deep<int, 0u, N>::type, typename Deep<int, (1u << (N + 1)) - 1, N>::type, typename Deep<int, 1u, N>::type, typename Deep<int, 2u, N>::type, typename Deep<int, (1u << N), N>::type, typename Deep<int, (1u << (N - 1)), N>::type,
    typename Deep<int, (1u << (N + 1)) - 2, N>::type, typename Deep<int, (1u << (N + 1)) - 4, N>::type, typename Deep<int, (1u << N) - 2, N>::type, typename Deep<int, (1u << N) - 1, N>::type, typename Deep<int, 5u, N>::type, typename Deep<int, (1u << (N + 1)) - 3, N>::type>;

} // namespace
namespace t02 { Table const &int3(); Table const &intArrays(); Table const &classes(); Table const &others(int i); }
