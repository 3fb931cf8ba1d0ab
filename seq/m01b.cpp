// M01: function types, see m01.cpp
#include "seq/seq.h"
#include <rtti/typelist.h>
#include <rtti/function_traits.h>
#include <rtti/sfinae.h>
#include <rtti/misc_traits.h>
#include <rtti/finally.h>
#include <algorithm>
#include <array>
#include <optional>
#include <string>
#include <vector>

namespace {

// ---------------------------------------------------------------- function types
struct Cls { int dummy = 0; };
struct MoveOnly { int v; explicit MoveOnly(int x): v{x} {} MoveOnly(MoveOnly &&o) noexcept: v{o.v} { o.v = -1; } };
// results × arguments × qualifiers; what the compiler says is written down by the macro that makes the type
template<typename F> struct Described { using T = mpl::function_traits<F>; };
template<typename L> struct ArgGet;
template<typename ...A> struct ArgGet<mpl::type_list<A...>>
{
    template<typename T, size_t ...I> static bool all(std::index_sequence<I...>) { return (std::is_same_v<typename T::template arg<I>::type, std::tuple_element_t<I, std::tuple<A...>>> && ... && true); }
};
template<typename F, typename C, bool c, bool v, bool l, bool r, bool ne, typename Uniform, typename R, typename ...A> void describe(char const *what)
{
    using T = mpl::function_traits<F>;
    seq::note("%s", what); seq::step();
    auto need = [&](bool ok, char const *attribute) { if (!ok) seq::fail(std::string("function traits of ") + what + ": " + attribute + " is wrong"); };
    need(std::is_same_v<typename T::class_type, C>, "class"); need(T::is_const::value == c, "const"); need(T::is_volatile::value == v, "volatile");
    need(T::is_lrefthis::value == l, "&"); need(T::is_rrefthis::value == r, "&&"); need(T::is_noexcept::value == ne, "noexcept");
    need(std::is_same_v<typename T::result_type, R>, "result"); need(std::is_same_v<typename T::args, mpl::type_list<A...>>, "arguments");
    need(T::arity::value == sizeof...(A), "arity"); need(ArgGet<mpl::type_list<A...>>::template all<T>(std::index_sequence_for<A...>{}), "argument");
    need(std::is_same_v<typename T::base_signature, std::conditional_t<ne, R(A...) noexcept, R(A...)>>, "signature");
    need(std::is_same_v<typename T::uniform_signature, Uniform>, "uniform signature");
    seq::state(what);
}
template<typename R, typename ...A> struct Functions
{
#define QUALIFIERS(X, NE, N) \
    X(, Cls &, 0,0,0,0, NE, N) X(const, Cls const &, 1,0,0,0, NE, N) X(volatile, Cls volatile &, 0,1,0,0, NE, N) X(const volatile, Cls const volatile &, 1,1,0,0, NE, N) \
    X(&, Cls &, 0,0,1,0, NE, N) X(const &, Cls const &, 1,0,1,0, NE, N) X(volatile &, Cls volatile &, 0,1,1,0, NE, N) X(const volatile &, Cls const volatile &, 1,1,1,0, NE, N) \
    X(&&, Cls &&, 0,0,0,1, NE, N) X(const &&, Cls const &&, 1,0,0,1, NE, N) X(volatile &&, Cls volatile &&, 0,1,0,1, NE, N) X(const volatile &&, Cls const volatile &&, 1,1,0,1, NE, N)
#define METHOD(Q, THIS, c, v, l, r, NE, N) if (i-- == 0) return describe<R (Cls::*)(A...) Q N, Cls, c, v, l, r, NE, std::conditional_t<NE, R(THIS, A...) noexcept, R(THIS, A...)>, R, A...>("R (C::*)(...) " #Q " " #N);
    static constexpr int count = 24 + 8;
    static void run(int i)
    {
        QUALIFIERS(METHOD, false, )
        QUALIFIERS(METHOD, true, noexcept)
        if (i-- == 0) return describe<R (*)(A...), void, 0, 0, 0, 0, 0, R(A...), R, A...>("R (*)(...)");
        if (i-- == 0) return describe<R (*)(A...) noexcept, void, 0, 0, 0, 0, 1, R(A...) noexcept, R, A...>("R (*)(...) noexcept");
        if (i-- == 0) return describe<R (&)(A...), void, 0, 0, 0, 0, 0, R(A...), R, A...>("R (&)(...)");
        if (i-- == 0) return describe<R (&)(A...) noexcept, void, 0, 0, 0, 0, 1, R(A...) noexcept, R, A...>("R (&)(...) noexcept");
        if (i-- == 0) return describe<R (*const)(A...), void, 0, 0, 0, 0, 0, R(A...), R, A...>("R (*const)(...)");
        if (i-- == 0) return describe<R (Cls::*const &)(A...) const, Cls, 1, 0, 0, 0, 0, R(Cls const &, A...), R, A...>("R (C::*const &)(...) const");
        if (i-- == 0) return describe<std::function<R(A...)>, void, 0, 0, 0, 0, 0, R(A...), R, A...>("std::function<R(...)>");
        if (i-- == 0) return describe<std::function<R(A...)> const &, void, 0, 0, 0, 0, 0, R(A...), R, A...>("std::function<R(...)> const &");
    }
};
template<typename R, typename ...L> void functionTypes(int i, int a)
{
    switch (a) {
    case 0: return Functions<R>::run(i);
    case 1: return Functions<R, int>::run(i);
    case 2: return Functions<R, int &>::run(i);
    case 3: return Functions<R, MoveOnly &&>::run(i);
    case 4: return Functions<R, Cls const &, char>::run(i);
    case 5: return Functions<R, int *, Cls &, MoveOnly>::run(i);
    case 6: return Functions<R, Cls, Cls, Cls, Cls, int const *, double &&>::run(i);
    }
}
void functions()
{
    int r = seq::choose(5), a = seq::choose(7), i = seq::choose(Functions<void>::count);
    switch (r) {
    case 0: return functionTypes<void>(i, a);
    case 1: return functionTypes<int>(i, a);
    case 2: return functionTypes<int &>(i, a);
    case 3: return functionTypes<Cls const &>(i, a);
    case 4: return functionTypes<MoveOnly>(i, a);
    }
}

} // namespace

void m01functions(std::vector<seq::Group> &g) { g.push_back({"function types", functions}); }
