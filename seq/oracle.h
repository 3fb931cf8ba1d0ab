// What C++ says about types, independent of the library
#pragma once
#include <cstddef>
#include <type_traits>

namespace oracle {

// the type without any qualification, at any level
template<typename T> struct plain { using type = std::remove_cv_t<T>; };
template<typename T> struct plain<T *> { using type = typename plain<T>::type *; };
template<typename T> struct plain<T *const> { using type = typename plain<T>::type *; };
template<typename T> struct plain<T *volatile> { using type = typename plain<T>::type *; };
template<typename T> struct plain<T *const volatile> { using type = typename plain<T>::type *; };
template<typename T> struct plain<T &> { using type = typename plain<T>::type; };
template<typename T> struct plain<T &&> { using type = typename plain<T>::type; };
template<typename T, std::size_t N> struct plain<T[N]> { using type = typename plain<T>::type[N]; };
template<typename T, std::size_t N> struct plain<T const[N]> { using type = typename plain<T>::type[N]; };
// values of the type are kept as
template<typename T> using decayed = typename plain<std::decay_t<T>>::type;

template<typename F, typename T> constexpr bool qualification() // F* may become T*
{ return std::is_convertible_v<F *, T *>; }

// A value (of value category and constness given by From) may be viewed as To; for types that decay alike
template<typename From, typename To> constexpr bool viewable()
{
    using F = std::remove_reference_t<From>; using T = std::remove_reference_t<To>;
    if (std::is_lvalue_reference_v<To> && !std::is_const_v<T> && !std::is_lvalue_reference_v<From>) return false;
    if (std::is_rvalue_reference_v<To> && std::is_lvalue_reference_v<From>) return false;
    if constexpr(std::is_array_v<F>) {
        using E = std::remove_extent_t<F>;
        if constexpr(std::is_array_v<T>) {
            if (sizeof(F) < sizeof(T)) return false;
            // a copy of the elements needs no agreement about their constness
            using FE = std::remove_all_extents_t<F>; using TE = std::remove_all_extents_t<T>;
            if constexpr(std::is_reference_v<To>) return qualification<FE, TE>();
            else return qualification<FE const, TE const>();
        }
        else if constexpr(std::is_pointer_v<T>) {
            if constexpr(std::is_reference_v<To>) return std::is_const_v<T> && qualification<E *const, T>();
            else return qualification<E *const, T const>();
        }
        else return false;
    }
    else if constexpr(std::is_array_v<T>) return false;
    else if constexpr(std::is_reference_v<To>) return qualification<F, T>();
    else return qualification<F const, T const>();
}
template<typename From, typename To> constexpr bool access() { return std::is_same_v<decayed<From>, decayed<To>> && viewable<From, To>(); }

} // namespace oracle
