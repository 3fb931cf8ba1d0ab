// I01: several arguments at once, and calls inside of calls
#pragma once
#include "seq/i01.h"
namespace i01 {
enum { FORMS = 7 }; // of parameters: string, string const &, string &&, X const &, X &&, X &, int const &
template<int F> struct FormOf;
template<> struct FormOf<0> { using type = std::string; }; template<> struct FormOf<1> { using type = std::string const &; }; template<> struct FormOf<2> { using type = std::string &&; };
template<> struct FormOf<3> { using type = X const &; }; template<> struct FormOf<4> { using type = X &&; }; template<> struct FormOf<5> { using type = X &; }; template<> struct FormOf<6> { using type = int const &; };
template<int F> using form_t = typename FormOf<F>::type;
struct Several { int calls = 0; int number[3]; void const *address[3]; };
extern Several outer, inner; extern bool nesting; void nested(); // nested: calls the same function again with other arguments
template<typename... P> std::string several(P... p)
{
    auto &rec = nesting ? outer : inner; bool write = &rec == &outer;
    if (nesting) { nesting = false; nested(); }
    ++rec.calls; int i = 0; ((rec.address[i] = std::addressof(p), rec.number[i] = num(p), ++i), ...);
    auto touch = [&](auto &x) { if constexpr(std::is_same_v<std::decay_t<decltype(x)>, X> && !std::is_const_v<std::remove_reference_t<decltype(x)>>) x.number = 77; };
    (void)write; (touch(p), ...);
    std::string all; for (int k = 0; k < i; ++k) all += std::to_string(rec.number[k]) + ","; return all;
}
struct SeveralHost { int self = 3; template<typename... P> std::string method(P... p) { return several<P...>(std::forward<P>(p)...); } };
template<int F, int G> void two()
{
    auto n = std::to_string(F) + std::to_string(G);
    { auto g = global_define(); g._method("two" + n, &several<form_t<F>, form_t<G>>); }
    if constexpr(F == G) { { auto g = global_define(); g._method("three" + n, &several<form_t<F>, form_t<F>, form_t<F>>); } { auto g = global_define(); g._class<SeveralHost>("SeveralHost")._method("two" + n, &SeveralHost::method<form_t<F>, form_t<F>>); } }
}
template<int F> void row() { two<F, 0>(); two<F, 1>(); two<F, 2>(); two<F, 3>(); two<F, 4>(); two<F, 5>(); two<F, 6>(); }
} // namespace i01
