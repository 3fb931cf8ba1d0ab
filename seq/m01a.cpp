// M01: type lists, see m01.cpp
#include "seq/m01.h"

namespace {

template<typename L, int V> void element(Seq const &s)
{
    using T = Elem<V>;
    auto it = std::find(s.begin(), s.end(), V);
    same("index of " , s, long(mpl::typelist_indexof_v<L, T>), it == s.end() ? -1L : long(it - s.begin()));
    same("presence", s, bool(mpl::typelist_exists_v<L, T>), it != s.end());
    same("presence", s, bool(mpl::typelist_exists<L, T>::value), it != s.end());
    { Seq e = s; if (it != s.end()) e.erase(e.begin() + (it - s.begin())); same("removal of the first", s, decode<mpl::typelist_remove_t<L, T>>(), e); }
    { Seq e = s; e.erase(std::remove(e.begin(), e.end(), V), e.end()); same("removal of all", s, decode<mpl::typelist_removeall_t<L, T>>(), e); }
    { Seq e = s; e.insert(e.begin(), V); same("push front", s, decode<typename mpl::typelist_pushfront<L, T>::type>(), e); }
    { Seq e = s; e.push_back(V); same("push back", s, decode<typename mpl::typelist_pushback<L, T>::type>(), e); }
    { Seq e = s; e.insert(e.begin(), {V, 3}); same("push front of two", s, decode<typename mpl::typelist_pushfront<L, T, E3>::type>(), e); }
    { Seq e = s; e.push_back(3); e.push_back(V); same("push back of two", s, decode<typename mpl::typelist_pushback<L, E3, T>::type>(), e); }
}
template<typename L, size_t ...I> void elements(Seq const &s, std::index_sequence<I...>)
{ (same("element", s, code<mpl::typelist_get_t<L, I>>(), s[I]), ...); }

template<typename T> struct Indexes { static Seq get() { return {-99}; } };
template<size_t ...I> struct Indexes<mpl::index_sequence<I...>> { static Seq get() { return {int(I)...}; } };
template<typename L> struct ArgsOf; template<typename ...T> struct ArgsOf<mpl::type_list<T...>> { using indexes = mpl::index_sequence_for_t<T...>; };

template<int N> void list()
{
    using L = List<N>; Seq const s = sequence(N);
    seq::note("%s", show(s).c_str());
    same("content", s, decode<L>(), s);
    same("being a list", s, bool(mpl::is_typelist_v<L>), true);
    same("size", s, long(mpl::typelist_size_v<L>), long(s.size()));
    same("size", s, long(mpl::typelist_size<L>::value), long(s.size()));
    same("emptiness", s, bool(mpl::typelist_isempty_v<L>), s.empty());
    elements<L>(s, std::make_index_sequence<size_t(lengthOf(N))>{});
    element<L, 0>(s); element<L, 1>(s); element<L, 2>(s); element<L, 3>(s);
    if constexpr(lengthOf(N) > 0) {
        same("first", s, code<typename mpl::typelist_first<L>::type>(), s.front());
        same("last", s, code<typename mpl::typelist_last<L>::type>(), s.back());
        same("pop front", s, decode<typename mpl::typelist_popfront<L>::type>(), Seq(s.begin() + 1, s.end()));
        same("pop back", s, decode<typename mpl::typelist_popback<L>::type>(), Seq(s.begin(), s.end() - 1));
    }
    { // each element stays once; which of its occurrences is not promised
        Seq d = decode<mpl::typelist_remove_duplicates_t<L>>(); seq::step();
        Seq a = d, b = s; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); b.erase(std::unique(b.begin(), b.end()), b.end());
        if (a != b) seq::fail("removal of duplicates of " + show(s) + " gives " + show(d));
        size_t i = 0; for (int e: s) if (i < d.size() && d[i] == e) ++i; // a subsequence
        if (i != d.size()) seq::fail("removal of duplicates of " + show(s) + " changes the order: " + show(d));
    }
    same("tuple", s, DecodeTuple<typename mpl::typelist_tuple<L>::type>::get(), s);
    { Seq e = s; for (int &x: e) x = (x + 1) % 3; same("map", s, decode<mpl::typelist_map_t<L, Twice>>(), e); }
    { Seq e; for (int x: s) if (x == 0) e.push_back(x); same("filter", s, decode<typename mpl::typelist_filter<L, Is0>::type>(), e); }
    { Seq e; for (int x: s) if (x != 0) e.push_back(x); same("filter", s, decode<typename mpl::typelist_filter<L, Not0>::type>(), e); }
    same("filter", s, decode<typename mpl::typelist_filter<L, Always>::type>(), s);
    same("filter", s, decode<typename mpl::typelist_filter<L, Never>::type>(), Seq{});
    { Seq e = s; e.insert(e.begin(), 3); same("left fold", s, decode<typename mpl::typelist_foldl<L, Append, mpl::type_list<E3>>::type>(), e); }
    { Seq e = s; e.push_back(3); same("right fold", s, decode<typename mpl::typelist_foldr<L, Prepend, mpl::type_list<E3>>::type>(), e); }
    { std::string e = "i"; for (int x: s) e = "(" + e + "," + std::to_string(x) + ")"; same("left fold", s, Nested<typename mpl::typelist_foldl<L, NestL, Init>::type>::get(), e); }
    { std::string e = "i"; for (auto i = s.rbegin(); i != s.rend(); ++i) e = "(" + std::to_string(*i) + "," + e + ")"; same("right fold", s, Nested<typename mpl::typelist_foldr<L, Nest, Init>::type>::get(), e); }
    Seq e; for (size_t i = 0; i < s.size(); ++i) e.push_back(int(i));
    same("indexes", s, Indexes<mpl::index_sequence_for_t<L>>::get(), e);
    same("indexes", s, Indexes<typename ArgsOf<L>::indexes>::get(), e);
    same("indexes", s, Indexes<mpl::index_sequence_for_t<typename mpl::typelist_tuple<L>::type>>::get(), e);
    same("number of indexes", s, long(mpl::index_sequence_for_t<L>::size::value), long(s.size()));
    seq::state(show(s));
}
template<int ...N> std::array<Fun, sizeof...(N)> listTable(std::integer_sequence<int, N...>) { return {&list<N>...}; }
constexpr int LISTS = listsUpTo(4);
void lists() { static auto const t = listTable(std::make_integer_sequence<int, LISTS>{}); t[size_t(seq::choose(LISTS))](); }
static_assert(LISTS == 121);

// things that are no lists
void noLists()
{
    CHECK(!mpl::is_typelist_v<int> && !mpl::is_typelist_v<std::tuple<int>> && !mpl::is_typelist_v<mpl::type_list<int> &> && !mpl::is_typelist_v<mpl::type_list<int> *> && !mpl::is_typelist_v<void>);
    CHECK(std::is_same_v<mpl::empty_list, mpl::type_list<>> && mpl::typelist_isempty_v<mpl::empty_list>); seq::step();
    std::string order; auto put = [&](int i) { order += std::to_string(i); };
    [&](auto ...i) { EXPAND(put(i)) }(1, 2, 3, 4); CHECK(order == "1234");
    [&](auto ...i) { (void)put; EXPAND(put(i)) }(); CHECK(order == "1234"); seq::step(); seq::state(1);
}

} // namespace

void m01lists(std::vector<seq::Group> &g)
{
    g.push_back({"type lists", lists});
    g.push_back({"other types", noLists});
}
