// M01: pairs of type lists, see m01.cpp
#include "seq/m01.h"

namespace {

constexpr int PL = listsUpTo(3); // 40: pairs of lists
template<int N> void pairOf()
{
    using A = List<N / PL>; using B = List<N % PL>; Seq const a = sequence(N / PL), b = sequence(N % PL);
    seq::note("%s %s", show(a).c_str(), show(b).c_str()); seq::step();
    Seq x = a, y = b; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    if (mpl::typelist_unorderedequal_v<A, B> != (x == y)) seq::fail("lists " + show(a) + " and " + show(b) + " are said to be " + (x == y ? "different" : "equal up to order"));
    Seq e = a; e.insert(e.end(), b.begin(), b.end());
    same("concatenation", a, decode<typename mpl::typelist_concat<A, B>::type>(), e);
    seq::state(show(a) + show(b));
}
template<int ...N> std::array<Fun, sizeof...(N)> pairTable(std::integer_sequence<int, N...>) { return {&pairOf<N>...}; }
void pairs() { static auto const t = pairTable(std::make_integer_sequence<int, PL * PL>{}); int i = seq::choose(PL); t[size_t(i * PL + seq::choose(PL))](); }

} // namespace

void m01pairs(std::vector<seq::Group> &g) { g.push_back({"pairs of type lists", pairs}); }
