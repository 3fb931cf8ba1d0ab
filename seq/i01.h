// I01: what is given as an argument, what parameters there are, and what C++ makes of a pair
#pragma once
#include "seq/seq.h"
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metanamespace.h>
#include <rtti/metaconstructor.h>
#include <rtti/metaerror.h>
#include <rtti/variant.h>
#include <memory>
#include <string>
#include <vector>

namespace i01 {
using namespace rtti;

// ---- classes
struct Other { virtual ~Other() = default; int o = 4; };
struct X
{
    DECLARE_CLASSINFO
public:
    int number = 0; X() = default; explicit X(int n): number(n) {}
    X(X const &o): number(o.number) {} X(X &&o): number(o.number) { o.number = -1; } X &operator=(X const &o) { number = o.number; return *this; } X &operator=(X &&o) { number = o.number; o.number = -1; return *this; }
    virtual ~X() = default;
    long pad[3] = {};
};
struct D: Other, X
{
    DECLARE_CLASSINFO
public:
    std::string text{"a text that is longer than the small buffer"};
    D() = default; explicit D(int n): X(n) {}
};
struct Y { int number = 0; Y() = default; explicit Y(int n): number(n) {} };
struct M { int number = 0; M() = default; explicit M(int n): number(n) {} M(M &&o) noexcept: number(o.number) { o.number = -1; } M &operator=(M &&o) noexcept { number = o.number; o.number = -1; return *this; } std::unique_ptr<int> p; };
enum class E: short { none };

// ---- numbers of things
inline int num(int x) { return x; } inline int num(double x) { return int(x); } inline int num(E x) { return int(x); }
inline int num(std::string const &x) { return x.empty() ? -1 : std::stoi(x); }
inline int num(X const &x) { return x.number; } inline int num(D const &x) { return x.number; } inline int num(D const *p) { return p ? p->number : -9; } inline int num(Y const &x) { return x.number; } inline int num(M const &x) { return x.number; } inline int num(Other const &x) { return x.o; }
inline int num(int const *p) { return p ? *p : -9; } inline int num(X const *p) { return p ? p->number : -9; } inline int num(Other const *p) { return p ? p->o : -9; }
template<typename T> T make(int n) { return T(n); }
template<> inline std::string make<std::string>(int n) { return std::to_string(n) + " and a text that is longer than the small buffer"; }
template<typename T> void set(T &x, int n) { if constexpr(!std::is_const_v<T>) x = make<T>(n); }
inline void set(Other &x, int n) { x.o = n; } inline void set(X &x, int n) { x.number = n; } inline void set(D &x, int n) { x.number = n; }
extern int pointedInt; extern D pointedD; extern X pointedX; // what pointers point to after being written
inline void set(int *&x, int) { x = &pointedInt; } inline void set(int const *&x, int) { x = &pointedInt; }
inline void set(X *&x, int) { x = &pointedX; } inline void set(X const *&x, int) { x = &pointedX; } inline void set(D *&x, int) { x = &pointedD; }
template<typename T> void steal(T &x) { [[maybe_unused]] std::remove_cv_t<T> taken = std::move(x); }

// ---- what is seen by the functions called
struct Record { int calls = 0; void const *address = nullptr; void const *pointer = nullptr; int number = 0; int before = 0, after = 0; };
extern Record rec;
template<typename P> void called(std::remove_reference_t<P> &p)
{
    ++rec.calls; rec.address = std::addressof(p); rec.number = num(p);
    if constexpr(std::is_pointer_v<std::remove_reference_t<P>>) rec.pointer = p;
    if constexpr(std::is_lvalue_reference_v<P> && !std::is_const_v<std::remove_reference_t<P>>) set(p, 77);
    else if constexpr(std::is_rvalue_reference_v<P> && !std::is_const_v<std::remove_reference_t<P>>) steal(p);
}

// ---- things given
enum Thing { T_INT, T_STRING, T_X, T_D, T_Y, T_M, T_E, T_DOUBLE, T_XP, T_CXP, T_DP, T_CDP, T_XD, T_NULLX, T_NULLD, T_IP, T_CIP, THINGS };
enum Category { LVALUE, CONST_LVALUE, RVALUE, CONST_RVALUE, VIA_RVALUE /* expiring variant with a mutable reference */ };
#ifndef I03
enum Shape { FREE, MIDDLE, METHOD, CONSTRUCTOR, NAMED, SHAPES };
struct Callee { MetaMethod const *free, *middle, *method; MetaConstructor const *constructor; variant *instance; };
template<typename A> variant pass(Callee const &c, int shape, A &&a)
{
    switch (shape) {
    case FREE: return c.free->invoke(std::forward<A>(a));
    case MIDDLE: return c.middle->invoke(1, std::forward<A>(a), std::string("3"));
    case METHOD: return c.method->invoke(*c.instance, std::forward<A>(a));
    case NAMED: return c.instance->invoke("m", std::forward<A>(a));
    default: return c.constructor->invoke(std::forward<A>(a));
    }
}
#else
enum Shape { STATIC, STATIC_PAIR, FIELD, PAIR, FIELD_NAMED, PAIR_NAMED, FIELD_PTR, PAIR_PTR, SHAPES };
struct Callee { MetaProperty const *var, *varPair, *field, *pair; variant *instance, *pointer; };
template<typename A> variant pass(Callee const &c, int shape, A &&a)
{
    switch (shape) {
    case STATIC: c.var->set(std::forward<A>(a)); break;
    case STATIC_PAIR: c.varPair->set(std::forward<A>(a)); break;
    case FIELD: c.field->set(*c.instance, std::forward<A>(a)); break;
    case PAIR: c.pair->set(*c.instance, std::forward<A>(a)); break;
    case FIELD_NAMED: c.instance->set_property("f", std::forward<A>(a)); break;
    case PAIR_NAMED: c.instance->set_property("p", std::forward<A>(a)); break;
    case FIELD_PTR: c.field->set(std::as_const(*c.pointer), std::forward<A>(a)); break;
    default: c.pair->set(std::as_const(*c.pointer), std::forward<A>(a));
    }
    return variant{};
}
#endif
struct Arg
{
    std::string name; Thing thing; Category cat;
    bool viaVariant;
    variant (*call)(Callee const &c, int shape);          // gives the thing
    void (*prepare)(); void (*drop)();                    // makes the thing with number 5
    int (*number)();                                      // its number now
    void const *(*address)(); void const *(*pointer)();   // where it is, where it points to
    void const *(*as)(int base);                          // sub-objects of the thing: 0 itself, 1 X, 2 Other, 3 D; and for pointers of what is pointed to
};
std::vector<Arg> &args();

// ---- parameters
enum Form { VALUE, LREF, CREF, RREF };
struct Param
{
    std::string name; Form form; int thing; bool copyable;
    Callee callee; int family; // family: 0 itself, 1 X, 2 Other, 3 D; +10 pointers
    bool constTarget;          // pointer to const
    bool field = true;         // I03: also as a variable and a field
    void (*reset)() = nullptr; int (*number)(int shape) = nullptr; void const *(*address)(int shape) = nullptr; // I03: what the properties stand for
    int (*read)(variant const &) = nullptr; bool (*writable)(variant const &) = nullptr; void const *(*at)(variant const &) = nullptr;
};
std::vector<Param> &params();
enum Ty { INT, STRING, ENUM, TX, TD, TOTHER, TM, XP, CXP, DP, CDP, OP, COP, IP, CIP };
template<typename T> constexpr int tyOf()
{
    if (std::is_same_v<T, int>) return INT; if (std::is_same_v<T, std::string>) return STRING; if (std::is_same_v<T, E>) return ENUM;
    if (std::is_same_v<T, X>) return TX; if (std::is_same_v<T, D>) return TD; if (std::is_same_v<T, Other>) return TOTHER; if (std::is_same_v<T, M>) return TM;
    if (std::is_same_v<T, X *>) return XP; if (std::is_same_v<T, X const *>) return CXP; if (std::is_same_v<T, D *>) return DP; if (std::is_same_v<T, D const *>) return CDP;
    if (std::is_same_v<T, Other *>) return OP; if (std::is_same_v<T, Other const *>) return COP; if (std::is_same_v<T, int *>) return IP; return CIP;
}
} // namespace i01
