// Kinds of values held by variants, with type-erased access for the harnesses
#pragma once
#include "seq/seq.h"
#include "seq/tracked.h"
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <string>
#include <functional>
#include <memory>
#include <optional>

using rtti::variant; using rtti::MetaType; using rtti::metaTypeId;

using tracked::Copyable; using tracked::CopyOnly; using tracked::MoveOnly;
TRACKED_COPYABLE(Small, true, 1, 8, true);
TRACKED_COPYABLE(Thrower, false, 2, 8, false);
TRACKED_COPYABLE(Big, true, 3, 40, true);
TRACKED_COPYABLE(Wide, true, 4, 64, true, 64);
TRACKED_COPYABLE(Wide16, true, 10, 16, true, 16);
struct CopySmall: tracked::Obj<5, 8, true, 4, CopyOnly>
{
    TRACKED_COMMON(CopySmall, 5, 8, true, 4, CopyOnly)
    CopySmall(CopySmall const &o) noexcept: Base(o, 0) {}
};
struct CopyBig: tracked::Obj<6, 32, false, 4, CopyOnly>
{
    TRACKED_COMMON(CopyBig, 6, 32, false, 4, CopyOnly)
    CopyBig(CopyBig const &o): Base(o, 0) {}
};
struct MoveSmall: tracked::Obj<7, 8, true, 4, MoveOnly>
{
    TRACKED_COMMON(MoveSmall, 7, 8, true, 4, MoveOnly)
    MoveSmall(MoveSmall &&o) noexcept: Base(static_cast<Base &>(o), true) {}
};
struct MoveBig: tracked::Obj<8, 48, false, 4, MoveOnly>
{
    TRACKED_COMMON(MoveBig, 8, 48, false, 4, MoveOnly)
    MoveBig(MoveBig &&o): Base(static_cast<Base &>(o), true) {}
};
TRACKED_COPYABLE(Elem, true, 9, 8, true);
enum class Color: short { none };
struct Flat { char a; double d; bool operator==(Flat const &o) const { return a == o.a && d == o.d; } }; // padding

inline int pool[1 << 12];
inline int fn0(int) { return 0; } inline int fn1(int) { return 1; } inline int fn2(int) { return 2; } inline int fn3(int) { return 3; }
using Fn = int (*)(int);
inline Fn const fns[4] = {fn0, fn1, fn2, fn3};

// How to make and read a value of a type
template<typename T> struct Rep
{
    static T make(int v) { return T{v}; }
    static int get(T const &x) { return x.get(); }
    static void set(T &x, int v) { x.set(v); }
};
template<> struct Rep<int> { static int make(int v) { return v; } static int get(int x) { return x; } static void set(int &x, int v) { x = v; } };
template<> struct Rep<double> { static double make(int v) { return v + 0.5; } static int get(double x) { return int(x - 0.5); } static void set(double &x, int v) { x = v + 0.5; } };
template<> struct Rep<Color> { static Color make(int v) { return Color(v); } static int get(Color x) { return int(x); } static void set(Color &x, int v) { x = Color(v); } };
template<> struct Rep<Flat> { static Flat make(int v) { return {char(v % 100), double(v)}; } static int get(Flat const &x) { if (x.a != char(int(x.d) % 100)) seq::fail("corrupted"); return int(x.d); } static void set(Flat &x, int v) { x = make(v); } };
template<> struct Rep<std::string>
{
    static std::string make(int v) { char b[40]; snprintf(b, sizeof b, v % 2 ? "value number %020d" : "%d", v); return b; }
    static int get(std::string const &s) { int v = std::stoi(s.size() > 20 ? s.substr(13) : s); if (make(v) != s) seq::fail("corrupted string"); return v; }
    static void set(std::string &x, int v) { x = make(v); }
};
template<> struct Rep<std::shared_ptr<int>>
{
    static std::shared_ptr<int> make(int v) { return std::make_shared<int>(v); }
    static int get(std::shared_ptr<int> const &x) { return *x; }
    static void set(std::shared_ptr<int> &x, int v) { x = make(v); }
};
template<> struct Rep<int *> { static int *make(int v) { return pool + v; } static int get(int *x) { return int(x - pool); } static void set(int *&x, int v) { x = pool + v; } };
template<> struct Rep<int const *> { static int const *make(int v) { return pool + v; } static int get(int const *x) { return int(x - pool); } static void set(int const *&x, int v) { x = pool + v; } };
template<> struct Rep<Fn> { static Fn make(int v) { return fns[v & 3]; } static int get(Fn x) { return x(0); } static void set(Fn &x, int v) { x = fns[v & 3]; } };
template<typename T, std::size_t N> struct Rep<T[N]>
{
    static int get(T const (&x)[N]) { int v = Rep<T>::get(x[0]); for (std::size_t i = 1; i < N; ++i) if (Rep<T>::get(x[i]) != v) seq::fail("array elements differ"); return v; }
    static void set(T (&x)[N], int v) { for (auto &e: x) Rep<T>::set(e, v); }
};

// A named object of type T with a value
template<typename T> struct Holder
{
    T x; explicit Holder(int v): x(Rep<T>::make(v)) {}
};
template<typename T, std::size_t N> struct Holder<T[N]>
{
    T x[N]; explicit Holder(int v): x{} { Rep<T[N]>::set(x, v); }
};
template<typename T> constexpr bool copyable = std::is_copy_constructible_v<std::remove_all_extents_t<T>>;

enum class Hold { value, ref, cref };
struct Kind
{
    char const *name; Hold hold;
    int decay;                                   // values of kinds with equal decay compare
    int ext;                                     // number of external object or -1
    bool copyable; int forms;
    rtti::MetaType_ID (*type)();
    void (*assign)(variant &, int form, int value);
    variant (*make)(int form, int value);
    int (*get)(variant const &);
    void const *(*address)(variant const &);     // of the object viewed
    void (*write)(variant &, int value);         // through a mutable reference
    void (*own)(variant &, bool move);           // assignment from the variant's own content; null for references
    void (*convert)(variant &); bool (*tryConvert)(variant &); bool (*canConvert)(variant &); // null for arrays
    bool (*is)(variant const &);
    int (*norm)(int);                            // value as it is read back
};

template<typename T, int N = 0> T &external() { static Holder<T> h{0}; return h.x; } // named objects that variants refer to
template<typename T> int identity(int v) { return v; }
template<> inline int identity<Fn>(int v) { return v & 3; }
template<> inline int identity<Color>(int v) { return v & 0x7fff; }

template<typename T, Hold H, int N> struct KindOf
{
    static variant make(int form, int v)
    {
        if constexpr(H == Hold::ref) return variant{std::ref(external<T, N>())};
        else if constexpr(H == Hold::cref) return variant{std::cref(external<T, N>())};
        else
        {
            std::optional<Holder<T>> h; { seq::NoFaults f; h.emplace(v); }
            if constexpr(copyable<T>) { if (form == 1) return variant{h->x}; if (form == 2) return variant{static_cast<T const &>(h->x)}; }
            return variant{static_cast<T &&>(h->x)};
        }
    }
    static void assign(variant &to, int form, int v)
    {
        if constexpr(H == Hold::ref) to = std::ref(external<T, N>());
        else if constexpr(H == Hold::cref) to = std::cref(external<T, N>());
        else
        {
            std::optional<Holder<T>> h; { seq::NoFaults f; h.emplace(v); }
            if constexpr(copyable<T>) { if (form == 1) { to = h->x; check(*h, v); return; } if (form == 2) { to = static_cast<T const &>(h->x); check(*h, v); return; } }
            to = static_cast<T &&>(h->x);
        }
    }
    static void check(Holder<T> &h, int v) { seq::NoFaults f; if (Rep<T>::get(h.x) != identity<T>(v)) seq::fail("source of a copy was changed"); }
    static int get(variant const &v) { seq::NoFaults f; return Rep<T>::get(v.cref<T>()); }
    static void const *address(variant const &v) { return &v.cref<T>(); }
    static void write(variant &v, int value) { seq::NoFaults f; Rep<T>::set(v.ref<T>(), value); }
    static void own(variant &v, bool move)
    {
        // an array whose second element can't be moved any more is left half moved: nothing to judge
        if constexpr(std::is_array_v<T> && !std::is_nothrow_move_constructible_v<std::remove_all_extents_t<T>>) { if constexpr(copyable<T>) v = v.cref<T>(); return; }
        if constexpr(copyable<T>) { if (!move) { v = v.cref<T>(); return; } }
        if constexpr(!std::is_same_v<T, CopySmall> && !std::is_same_v<T, CopyBig>) v = std::move(v.ref<T>()); else v = v.cref<T>();
    }
    static rtti::MetaType_ID type() { return metaTypeId<std::conditional_t<H == Hold::cref, T const, T>>(); }
    static bool is(variant const &v) { return v.is<T const &>(); }
};

template<typename T> void convertTo(variant &v) { v.convert<T>(); }
template<typename T> bool tryConvertTo(variant &v) { return v.tryConvert<T>(); }
template<typename T> bool canConvertTo(variant &v) { return v.canConvert<T>(); }

inline std::vector<void (*)(int)> &extSet() { static std::vector<void (*)(int)> r; return r; }
inline std::vector<int (*)()> &extGet() { static std::vector<int (*)()> r; return r; }
inline std::vector<void const *> &extAddress() { static std::vector<void const *> r; return r; }
template<typename T, int N> int extNumber()
{
    static int const n = [] {
        extSet().push_back([](int v) { Rep<T>::set(external<T, N>(), v); });
        extGet().push_back([] { return Rep<T>::get(external<T, N>()); });
        extAddress().push_back(&external<T, N>());
        return int(extSet().size()) - 1;
    }();
    return n;
}
inline int nextDecay() { static int n = 0; return n++; }
template<typename T> int decayOf() { static int const n = nextDecay(); return n; }

template<typename T, Hold H = Hold::value, int N = 0> Kind kind(char const *name)
{
    using K = KindOf<T, H, N>;
    Kind k{};
    k.name = name; k.hold = H; k.decay = decayOf<T>(); k.ext = H == Hold::value ? -1 : extNumber<T, N>();
    k.copyable = copyable<T>; k.forms = H == Hold::value ? (copyable<T> ? 3 : 1) : 1;
    k.type = K::type; k.assign = K::assign; k.make = K::make; k.get = K::get; k.address = K::address; k.write = K::write; k.is = K::is; k.norm = identity<T>;
    if constexpr(H == Hold::value) k.own = K::own;
    if constexpr(!std::is_array_v<T> && H == Hold::value && copyable<T>) { k.convert = convertTo<T>; k.tryConvert = tryConvertTo<T>; k.canConvert = canConvertTo<T>; }
    return k;
}
