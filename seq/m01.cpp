// M01: the building blocks: type lists are sequences, function types are described as the compiler sees them,
// methods are detected, scope guards run once
#include "seq/seq.h"
#include <rtti/typelist.h>
#include <rtti/function_traits.h>
#include <rtti/sfinae.h>
#include <rtti/misc_traits.h>
#include <rtti/finally.h>
#include <algorithm>
#include <array>
#include <optional>
#include <string>
#include <vector>

void m01lists(std::vector<seq::Group> &g);
void m01functions(std::vector<seq::Group> &g);
void m01pairs(std::vector<seq::Group> &g);
void m01traits(std::vector<seq::Group> &g);

namespace {

struct MoveOnly { int v; explicit MoveOnly(int x): v{x} {} MoveOnly(MoveOnly &&o) noexcept: v{o.v} { o.v = -1; } };
// functors and lambdas: described by their operator
struct Functor { int operator()(int x) { return x + 1; } };
struct ConstFunctor { int operator()(int x) const { return x + 2; } };
struct NoexceptFunctor { int operator()(int x) const noexcept { return x + 3; } };
struct RefFunctor { int operator()(int x) & { return x + 4; } };
struct RefNoexceptFunctor { int operator()(int x) & noexcept { return x + 5; } };
struct ConstRefFunctor { int operator()(int x) const & { return x + 6; } };
struct VolatileFunctor { int operator()(int x) volatile { return x + 7; } };
int plain(int x) { return x + 10; }
int plainNoexcept(int x) noexcept { return x + 11; }
struct Eater { int operator()(MoveOnly &&m, int &out) const { MoveOnly mine{std::move(m)}; out = mine.v; return mine.v * 2; } };
template<typename F> int called(F f, int x) { auto g = mpl::make_function(f); static_assert(std::is_same_v<decltype(g), std::function<int(int)>>); return g(x); }
void callables()
{
    int captured = 100; int i = seq::choose(14), x = seq::choose(3);
    seq::step(); seq::state(std::to_string(i) + "," + std::to_string(x));
    auto lambda = [](int v) { return v + 20; }; auto capture = [&captured](int v) { return v + captured; }; auto mut = [n = 0](int v) mutable { return v + 30 + n++; }; auto ne = [](int v) noexcept { return v + 40; };
    int got = 0, expected = x;
    switch (i) {
    case 0: got = called(Functor{}, x); expected += 1; break;
    case 1: got = called(ConstFunctor{}, x); expected += 2; break;
    case 2: got = called(NoexceptFunctor{}, x); expected += 3; break;
    case 3: got = called(RefFunctor{}, x); expected += 4; break;
    case 4: got = called(RefNoexceptFunctor{}, x); expected += 5; break;
    case 5: got = called(ConstRefFunctor{}, x); expected += 6; break;
    case 6: got = called(VolatileFunctor{}, x); expected += 7; break;
    case 7: got = called(plain, x); expected += 10; break;
    case 8: got = called(plainNoexcept, x); expected += 11; break;
    case 9: got = called(lambda, x); expected += 20; break;
    case 10: got = called(capture, x); expected += 100; break;
    case 11: { auto g = mpl::make_function(mut); got = g(x); CHECK(got == x + 30); got = g(x); expected += 31; CHECK(mut(0) == 30); break; } // a copy was made
    case 12: got = called(ne, x); expected += 40; break;
    case 13: { auto g = mpl::make_function(Eater{}); MoveOnly m{x + 5}; int out = 0; got = g(std::move(m), out); CHECK(out == x + 5 && m.v == -1); expected = (x + 5) * 2; break; }
    }
    CHECK_MSG(got == expected, std::to_string(got));
    CHECK(!mpl::lambda_has_capture<decltype(lambda)>::value && mpl::lambda_has_capture<decltype(capture)>::value && !mpl::lambda_has_capture<decltype(ne)>::value && mpl::lambda_has_capture<Functor>::value);
}

// ---------------------------------------------------------------- detection of methods
HAS_TYPE(inner)
HAS_METHOD(act)
CAN_CALL_METHOD(act)
struct N0 {};
struct N1 { void act(); };
struct N2 { void act() const; };
struct N3 { int act(int); using inner = int; };
struct N4 { void act(); int act(int) const; };
struct N5: N1 { struct inner {}; };
struct N6: N2 { void act(); };
struct N7 { virtual void act() = 0; template<typename> struct inner {}; };
class N8 { void act(); using inner = int; };
struct N9 { void act() noexcept; enum inner {}; };
struct NA { void act() &; void act() &&; };
struct NB: N1, N2 {};
struct NC { long act(char const *, double) const &; };
struct ND { template<typename T> void act(T); };
template<typename C> struct Has
{
    template<typename S> static constexpr bool sig() { return has_method_act<S>::value; }
    static std::string all()
    {
        std::string r;
        auto put = [&](bool b) { r += b ? '1' : '0'; };
        put(has_method_act<C>::value);
        put(sig<void (C::*)()>()); put(sig<void (C::*)() const>()); put(sig<int (C::*)(int)>()); put(sig<int (C::*)(int) const>()); put(sig<void (C::*)() &>()); put(sig<void (C::*)() const &>());
        r += ' ';
        put(can_call_method_act<C, void()>::value); put(can_call_method_act<C const, void()>::value); put(can_call_method_act<C &, void()>::value); put(can_call_method_act<C, void(int)>::value); put(can_call_method_act<C const, void(int)>::value);
        put(can_call_method_act<C, int(int)>::value); put(can_call_method_act<C, double(short)>::value); put(can_call_method_act<C, char *(int)>::value); put(can_call_method_act<C const, long(char *, int)>::value);
        r += ' '; put(has_type_inner<C>::value);
        return r;
    }
};
void methods()
{
    struct Case { char const *name; std::string got, expected; };
    static Case const cases[] = {
        {"none", Has<N0>::all(), "0000000 000000000 0"},
        {"void act()", Has<N1>::all(), "1100000 101000000 0"},
        {"void act() const", Has<N2>::all(), "1010000 111000000 0"},
        {"int act(int)", Has<N3>::all(), "1001000 000101100 1"},
        {"overloaded", Has<N4>::all(), "0100100 101111100 0"},
        {"inherited", Has<N5>::all(), "1100000 101000000 1"},
        {"hiding", Has<N6>::all(), "1100000 101000000 0"},
        {"pure virtual", Has<N7>::all(), "1100000 101000000 0"},
        {"private", Has<N8>::all(), "0000000 000000000 0"},
        {"noexcept", Has<N9>::all(), "1100000 101000000 1"},
        {"ambiguous", Has<NB>::all(), "0000000 000000000 0"},
        {"other arguments", Has<NC>::all(), "1000000 000000001 0"},
    };
    auto &c = cases[seq::choose(int(sizeof cases / sizeof *cases))]; seq::step(); seq::state(c.name);
    CHECK_MSG(c.got == c.expected, std::string(c.name) + ": " + c.got);
}
void methodsTemplates()
{
    CHECK(!has_method_act<ND>::value && has_method_act<void (ND::*)(int)>::value && can_call_method_act<ND, void(int)>::value && !can_call_method_act<ND, void()>::value);
    CHECK(!has_method_act<NA>::value && has_method_act<void (NA::*)() &>::value && has_method_act<void (NA::*)() &&>::value && !has_method_act<void (NA::*)()>::value);
    CHECK(can_call_method_act<NA, void()>::value && can_call_method_act<NA &, void()>::value && !can_call_method_act<NA const, void()>::value);
    CHECK(!has_type_inner<int>::value && !has_type_inner<void>::value);
    seq::step(); seq::state(2);
}

// ---------------------------------------------------------------- scope guards
// Histories over guards in two places: made, moved, dismissed, left. Every function runs once, when the guard that has it dies.
struct Job { int *runs; void operator()() noexcept { if (runs) ++*runs; } };
using Guard = ::internal::scope_guard<Job>;
constexpr int JOBS = 6;
void guards()
{
    int runs[JOBS] = {}; bool armed[JOBS] = {}; bool lost[JOBS] = {}; int made = 0;
    std::optional<Guard> place[2]; int has[2] = {-1, -1}; // job of the guard; -1: none
    auto verify = [&] {
        for (int j = 0; j < made; ++j) {
            int expected = armed[j] ? 0 : 1;
            if (lost[j]) continue;
            CHECK_MSG(runs[j] == expected, "function " + std::to_string(j) + " ran " + std::to_string(runs[j]) + " times instead of " + std::to_string(expected));
        }
    };
    auto ends = [&](int p) { if (has[p] >= 0) armed[has[p]] = false; has[p] = -1; };
    bool over[JOBS] = {}; // its guard was assigned to: it ran, or never will
    int const depth = seq::thorough() ? 7 : 5; std::string t;
    for (int d = 0; d < depth; ++d) {
        int op = seq::choose(6), p = op < 5 ? seq::choose(2) : 0;
        seq::step();
        switch (op) {
        case 0: if (made == JOBS) return; // made
            place[p].reset(); ends(p); seq::note("make %d", p);
            { Job job{&runs[made]}; if (seq::choose(2)) place[p].emplace(static_cast<Job const &>(job)); else place[p].emplace(std::move(job)); }
            armed[made] = true; has[p] = made++; break;
        case 1: seq::note("move %d", p); // to the other place
            place[1 - p].reset(); ends(1 - p);
            if (!place[p]) break;
            place[1 - p].emplace(std::move(*place[p])); has[1 - p] = has[p]; has[p] = -1; break;
        case 2: seq::note("dismiss %d", p);
            if (!place[p]) break;
            place[p]->dismiss(); if (has[p] >= 0) lost[has[p]] = true, CHECK(runs[has[p]] == 0); has[p] = -1; break;
        case 3: seq::note("leave %d", p); place[p].reset(); ends(p); break;
        case 4: seq::note("assign %d", p); // to the other place
            if (!place[p] || !place[1 - p]) break;
            *place[1 - p] = std::move(*place[p]);
            if (int o = has[1 - p]; o >= 0) { over[o] = lost[o] = true; }
            has[1 - p] = has[p]; has[p] = -1; break;
        case 5: seq::note("nothing"); break;
        }
        verify();
        for (int j = 0; j < made; ++j) CHECK(!lost[j] || runs[j] <= over[j]); // dismissed
        t = std::to_string(has[0] >= 0) + std::to_string(has[1] >= 0) + std::to_string(place[0].has_value()) + std::to_string(place[1].has_value()); seq::state(t);
    }
    place[0].reset(); ends(0); place[1].reset(); ends(1); verify();
    for (int j = 0; j < made; ++j) CHECK(!lost[j] || runs[j] <= over[j]);
}
// a function is called while so many exceptions are in flight
template<typename F> struct AtEnd { F f; ~AtEnd() noexcept(false) { f(); } };
template<typename F> void inFlight(int n, F f)
{
    if (!n) return f();
    try { auto inner = [&] { inFlight(n - 1, f); }; AtEnd<decltype(inner)> a{inner}; throw n; } catch (int) {}
}
// the macros: the blocks run in reverse order at the end of their scope, however it is left
void scopes()
{
    int way = seq::choose(5), dismissed = seq::choose(4), where = seq::choose(5); std::string log;
    seq::note("left by %d, dismissed %d, called %d", way, dismissed, where); seq::step();
    auto f = [&] {
        FINALLY { log += 'a'; };
        for (int i = 0; i < 2; ++i) {
            FINALLY_EX(one) { log += 'b'; };
            FINALLY_EX(two) { log += 'c'; };
            log += '(';
            if (dismissed & 1) one.dismiss();
            if (dismissed & 2) two.dismiss();
            if (way == 1) return;
            if (way == 2) throw 1;
            if (way == 3) break;
            if (way == 4) continue;
            log += ')';
        }
        log += '.';
    };
    auto g = [&] { try { f(); } catch (int) { log += '!'; } };
    if (where < 4) inFlight(where, g); else try { throw 1; } catch (int) { g(); }
    std::string in = std::string(dismissed & 2 ? "" : "c") + (dismissed & 1 ? "" : "b"), e;
    switch (way) {
    case 0: e = "()" + in + "()" + in + ".a"; break;
    case 1: e = "(" + in + "a"; break;
    case 2: e = "(" + in + "a!"; break;
    case 3: e = "(" + in + ".a"; break;
    case 4: e = "(" + in + "(" + in + ".a"; break;
    }
    CHECK_MSG(log == e, log + " instead of " + e); seq::state(e);
}

} // namespace

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    m01lists(g); m01pairs(g); m01functions(g); m01traits(g);
    g.push_back({"callables", callables});
    g.push_back({"methods", methods});
    g.push_back({"method templates", methodsTemplates});
    g.push_back({"histories of scope guards", guards});
    g.push_back({"scopes", scopes});
    seq::main_(argc, argv, g);
}
