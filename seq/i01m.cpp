// I01: several arguments at once, and calls inside of calls
#include "seq/i01m.h"
#include "seq/i01oracle.h"
#include <map>
namespace i01 {
Several outer, inner; bool nesting;
void several_a(); void several_b(); void several_c(); void several_d();
void setupSeveral()
{
    if (MetaNamespace::global()->getMethod("two00")) return;
    several_a(); several_b(); several_c(); several_d();
}
// ---- what is given: seven sources for each of the kinds string, X and int
int kindOf(int form) { return form < 3 ? 0 : form < 6 ? 1 : 2; }
enum { LV, RV, OTHER_LV, OTHER_RV, VAR, OTHER_VAR, LAST, SOURCES }; // LAST: an expiring variant of int, an object of a derived class, a double
struct Things
{
    std::string s; X x; int i; Y y; D d; double r; variant v;
    explicit Things(int n): s(make<std::string>(n)), x(n), i(n), y(n), d(n), r(n) {}
    argument give(int kind, int source)
    {
        switch (source) {
        case LV: return kind == 0 ? argument{s} : kind == 1 ? argument{x} : argument{i};
        case RV: return kind == 0 ? argument{std::move(s)} : kind == 1 ? argument{std::move(x)} : argument{std::move(i)};
        case OTHER_LV: return kind == 0 ? argument{i} : kind == 1 ? argument{y} : argument{s};
        case OTHER_RV: return kind == 0 ? argument{std::move(i)} : kind == 1 ? argument{std::move(y)} : argument{std::move(s)};
        case VAR: v = kind == 0 ? variant{s} : kind == 1 ? variant{x} : variant{i}; return argument{v};
        case OTHER_VAR: v = kind == 0 ? variant{i} : kind == 1 ? variant{y} : variant{s}; return argument{v};
        default: if (kind == 0) { v = variant{i}; return argument{std::move(v)}; } return kind == 1 ? argument{d} : argument{r};
        }
    }
    void const *at(int kind, int source)
    {
        switch (source) {
        case LV: case RV: return kind == 0 ? static_cast<void const *>(&s) : kind == 1 ? static_cast<void const *>(&x) : &i;
        case VAR: return kind == 0 ? static_cast<void const *>(&std::as_const(v).cref<std::string>()) : kind == 1 ? static_cast<void const *>(&std::as_const(v).cref<X>()) : &std::as_const(v).cref<int>();
        case LAST: return kind == 1 ? static_cast<X const *>(&d) : nullptr;
        default: return nullptr;
        }
    }
    bool converted(int kind, int source) const { return source == OTHER_LV || source == OTHER_RV || source == OTHER_VAR || (source == LAST && kind != 1); }
    bool rvalue(int kind, int source) const { return source == RV || source == OTHER_RV || (source == LAST && kind == 0); }
    bool intact(int n) { return num(s) == n && x.number == n && i == n && y.number == n && d.number == n && r == n; }
};
int allowedFor(int form, bool converted, bool rvalue)
{
    switch (form) {
    case 0: return FRESH;
    case 1: case 3: case 6: return converted ? FRESH : BOUND;
    case 2: case 4: return converted ? rvalue ? FRESH : FRESH | REFUSED : rvalue ? BOUND : REFUSED;
    default: return converted || rvalue ? REFUSED : BOUND;
    }
}
int theForms[3], theCount; MetaMethod const *theMethod; variant *theHost;
template<typename... A> variant call(A &&... a) { return theHost ? theMethod->invoke(*theHost, std::forward<A>(a)...) : theMethod->invoke(std::forward<A>(a)...); }
void nested()
{
    Things t[3] = {Things{7}, Things{8}, Things{9}};
    auto one = [&](int i) { return t[i].give(kindOf(theForms[i]), theForms[i] == 5 ? LV : OTHER_RV); };
    variant r = theCount == 2 ? call(one(0), one(1)) : call(one(0), one(1), one(2));
    for (int i = 0; i < theCount; ++i) CHECK(inner.number[i] == (theForms[i] == 5 ? 7 + i : (7 + i) * 10 + 1));
    CHECK(inner.calls == 1);
}
void severalArguments()
{
    converters(true);
    int what = seq::choose(3), first = seq::choose(FORMS), second = what == 0 ? seq::choose(FORMS) : first; // free functions of two and three parameters, method of two
    theCount = what == 1 ? 3 : 2; theForms[0] = first; theForms[1] = second; theForms[2] = first;
    auto n = std::to_string(first) + std::to_string(second);
    variant host{SeveralHost{}}; theHost = what == 2 ? &host : nullptr;
    theMethod = what == 2 ? MetaNamespace::global()->getClass("SeveralHost")->getMethod("two" + n) : MetaNamespace::global()->getMethod((what == 1 ? "three" : "two") + n);
    CHECK(theMethod);
    int source[3] = {seq::choose(SOURCES), seq::choose(SOURCES), theCount == 3 ? seq::choose(SOURCES) : 0};
    bool same = kindOf(first) == kindOf(second) && source[0] == source[1] && seq::choose(2), nest = seq::choose(2);
    Things t[3] = {Things{4}, Things{5}, Things{6}}; Things *of[3] = {&t[0], same ? &t[0] : &t[1], &t[2]};
    auto where = [&] {
        static char const *const forms[] = {"std::string", "std::string const &", "std::string &&", "X const &", "X &&", "X &", "int const &"}, *const sources[] = {"lvalue", "rvalue", "lvalue to be converted", "rvalue to be converted", "variant", "variant to be converted", "something else"};
        std::string s = what == 2 ? "method(" : "function("; for (int i = 0; i < theCount; ++i) s += std::string(i ? ", " : "") + forms[theForms[i]]; s += ") given "; for (int i = 0; i < theCount; ++i) s += std::string(i ? ", " : "") + sources[source[i]];
        return s + (same ? ", the same twice" : "") + (nest ? ", called again inside: " : ": ");
    };
    outer = inner = Several{}; nesting = true; bool thrown = false; variant result; std::vector<argument> args; bool again = nest;
    auto one = [&](int i) { return of[i]->give(kindOf(theForms[i]), source[i]); };
    if (!nest) nesting = false;
    try { if (theCount == 2) { auto a = one(0), b = one(1); result = call(std::move(a), std::move(b)); } else { auto a = one(0), b = one(1), c = one(2); result = call(std::move(a), std::move(b), std::move(c)); } }
    catch (rtti::runtime_error const &) { thrown = true; }
    nesting = false; seq::step();
    auto &rec = nest ? outer : inner;
    bool may = true, must = false; int allowed[3];
    for (int i = 0; i < theCount; ++i) { int k = kindOf(theForms[i]); allowed[i] = allowedFor(theForms[i], of[i]->converted(k, source[i]), of[i]->rvalue(k, source[i])); if (!(allowed[i] & ~REFUSED)) may = false; if (allowed[i] & REFUSED) must = true; }
    if (thrown) {
        if (rec.calls) seq::fail(where() + "reports an error though it was called");
        if (!must) seq::fail(where() + "refused");
        for (int i = 0; i < theCount; ++i) if (!t[i].intact(4 + i)) seq::fail(where() + "refused, but an argument was changed");
    } else {
        if (!may) seq::fail(where() + "called though an argument can't be bound");
        if (rec.calls != 1) seq::fail(where() + "called " + std::to_string(rec.calls) + " times");
        std::string all;
        for (int i = 0; i < theCount; ++i) {
            int k = kindOf(theForms[i]), number = same && i == 1 ? 4 : 4 + i; int expect = of[i]->converted(k, source[i]) ? number * 10 + 1 : number;
            if (rec.number[i] != expect) seq::fail(where() + "argument " + std::to_string(i + 1) + " arrived as " + std::to_string(rec.number[i]) + " instead of " + std::to_string(expect));
            bool bound = rec.address[i] == of[i]->at(k, source[i]) && rec.address[i]; if (!(allowed[i] & (bound ? BOUND : FRESH))) seq::fail(where() + "argument " + std::to_string(i + 1) + (bound ? " is given itself" : " isn't given itself"));
            for (int j = 0; j < i; ++j) if (rec.address[j] == rec.address[i] && !(same && j == 0 && i == 1)) seq::fail(where() + "two parameters share an object");
            all += std::to_string(expect) + ",";
        }
        if (result.cref<std::string>() != all) seq::fail(where() + "the result is wrong");
    }
    seq::state(n + std::to_string(what) + std::to_string(thrown) + std::to_string(source[0]) + std::to_string(source[1]));
}
} // namespace i01
