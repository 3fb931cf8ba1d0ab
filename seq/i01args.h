#pragma once
#include "seq/i01.h"
namespace i01 {
// storage of things, by their type
template<typename T, int K> struct Hold
{
    static inline T *x = nullptr; static inline variant *v = nullptr;
    static inline std::remove_pointer_t<T> *pointee = nullptr;
};
template<typename P> struct Pointee { static auto *make() { return new std::remove_cv_t<P>(5); } };

template<typename T, Thing K> struct Give
{
    using H = Hold<T, K>;
    static T initial()
    {
        if constexpr(std::is_pointer_v<T>) {
            if (K == T_NULLX || K == T_NULLD) return nullptr;
            if constexpr(K == T_XD) return static_cast<X *>(d = new D(5));
            else { auto p = new std::remove_cv_t<std::remove_pointer_t<T>>(5); H::pointee = p; return p; }
        } else return make<T>(5);
    }
    static inline D *d = nullptr;
    static void prepare() { H::x = new T(initial()); }
    static void drop() { delete H::v; H::v = nullptr; delete H::x; H::x = nullptr; if constexpr(std::is_pointer_v<T>) { delete d; d = nullptr; delete H::pointee; H::pointee = nullptr; } }
    static T const &at() { if (H::v) return *const_cast<variant const *>(H::v)->template data<T>(); return *H::x; }
    static int number() { return num(at()); }
    static void const *address() { return std::addressof(at()); }
    static void const *pointer() { if constexpr(std::is_pointer_v<T>) return at(); else return nullptr; }
    template<typename C> static void const *sub(C const *c, int base)
    {
        if constexpr(std::is_base_of_v<X, C>) {
            if (base == 0) return c;
            if (base == 1) return static_cast<X const *>(c);
            auto full = K == T_XD ? d : nullptr;
            if constexpr(std::is_same_v<C, D>) full = const_cast<D *>(c);
            if (full) return base == 2 ? static_cast<void const *>(static_cast<Other const *>(full)) : full;
        }
        return base == 0 ? c : nullptr;
    }
    static void const *as(int base)
    {
        if constexpr(std::is_pointer_v<T>) return sub(at(), base); else return sub(&at(), base);
    }
    static variant &box() { return *(H::v = new variant{std::move(*H::x)}); }
    static void reg(char const *thing)
    {
        auto add = [&](char const *way, Category cat, bool via, variant (*call)(Callee const &, int)) {
            args().push_back({std::string(thing) + " as " + way, K, cat, via, call, prepare, drop, number, address, pointer, as});
        };
        add("lvalue", LVALUE, false, [](Callee const &c, int s) { return pass(c, s, *H::x); });
        add("constant lvalue", CONST_LVALUE, false, [](Callee const &c, int s) { return pass(c, s, std::as_const(*H::x)); });
        add("rvalue", RVALUE, false, [](Callee const &c, int s) { return pass(c, s, std::move(*H::x)); });
        add("constant rvalue", CONST_RVALUE, false, [](Callee const &c, int s) { return pass(c, s, std::move(std::as_const(*H::x))); });
        add("std::ref", LVALUE, false, [](Callee const &c, int s) { return pass(c, s, std::ref(*H::x)); });
        add("std::cref", CONST_LVALUE, false, [](Callee const &c, int s) { return pass(c, s, std::cref(*H::x)); });
        add("named std::ref", LVALUE, false, [](Callee const &c, int s) { auto r = std::ref(*H::x); return pass(c, s, r); });
        add("named std::cref", CONST_LVALUE, false, [](Callee const &c, int s) { auto const r = std::cref(*H::x); return pass(c, s, r); });
        add("variant", LVALUE, true, [](Callee const &c, int s) { return pass(c, s, box()); });
        add("constant variant", CONST_LVALUE, true, [](Callee const &c, int s) { return pass(c, s, std::as_const(box())); });
        add("expiring variant", RVALUE, true, [](Callee const &c, int s) { return pass(c, s, std::move(box())); });
        add("constant expiring variant", CONST_RVALUE, true, [](Callee const &c, int s) { return pass(c, s, std::move(std::as_const(box()))); });
        add("std::ref of variant", LVALUE, true, [](Callee const &c, int s) { return pass(c, s, std::ref(box())); });
        add("variant of reference", LVALUE, true, [](Callee const &c, int s) { variant v{std::ref(*H::x)}; return pass(c, s, v); });
        add("variant of constant reference", CONST_LVALUE, true, [](Callee const &c, int s) { variant v{std::cref(*H::x)}; return pass(c, s, v); });
        add("constant variant of reference", CONST_LVALUE, true, [](Callee const &c, int s) { variant const v{std::ref(*H::x)}; return pass(c, s, v); });
        add("expiring variant of reference", VIA_RVALUE, true, [](Callee const &c, int s) { return pass(c, s, variant{std::ref(*H::x)}); });
        add("expiring variant of constant reference", CONST_RVALUE, true, [](Callee const &c, int s) { return pass(c, s, variant{std::cref(*H::x)}); });
    }
};
} // namespace i01
