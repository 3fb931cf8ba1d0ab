// V04: equality of variants is an equivalence over type and value, and hashes agree
#include "seq/vkinds.h"
#include "seq/oracle.h"
#include <cmath>
#include <map>
#include <utility>

namespace {

struct Plain { int x; double pad; bool operator==(Plain const &o) const { return x == o.x; } }; // equality ignores a member
struct NoEq { int x; };
struct NoEqBig { int x[20]; };
struct Base { int b; bool operator==(Base const &o) const { return b == o.b; } };
struct Derived: Base { int d; bool operator==(Derived const &o) const { return b == o.b && d == o.d; } };
struct Throws { int x; bool operator==(Throws const &) const { throw seq::Injected{}; } };
union Uni { int i; bool operator==(Uni const &o) const { return i == o.i; } };

// two different values of every type; value 2 equals value 0 but is not identical to it where that is possible
template<typename T> struct Val { static void set(T &x, int v) { Rep<T>::set(x, v == 2 ? 0 : v); } };
template<> struct Val<double> { static void set(double &x, int v) { x = v == 1 ? 1.0 : v == 2 ? -0.0 : 0.0; } };
template<> struct Val<float> { static void set(float &x, int v) { x = v == 1 ? 1.0f : v == 2 ? -0.0f : 0.0f; } };
template<> struct Val<bool> { static void set(bool &x, int v) { x = v == 1; } };
template<> struct Val<char> { static void set(char &x, int v) { x = v == 1 ? 'b' : 'a'; } };
template<> struct Val<long> { static void set(long &x, int v) { x = v == 1; } };
template<> struct Val<Flat> { static void set(Flat &x, int v) { std::memset(static_cast<void *>(&x), v == 2 ? 0x55 : 0, sizeof x); x.a = v == 1 ? 1 : 0; x.d = v == 2 ? -0.0 : 0; } };
template<> struct Val<Plain> { static void set(Plain &x, int v) { x.x = v == 1; x.pad = v; } };
template<> struct Val<NoEq> { static void set(NoEq &x, int v) { x.x = v == 1; } };
template<> struct Val<NoEqBig> { static void set(NoEqBig &x, int v) { std::memset(&x, 0, sizeof x); x.x[0] = v == 1; } };
template<> struct Val<Throws> { static void set(Throws &x, int v) { x.x = v; } };
template<> struct Val<Base> { static void set(Base &x, int v) { x.b = v == 1; } };
template<> struct Val<Derived> { static void set(Derived &x, int v) { x.b = 0; x.d = v == 1; } };
template<> struct Val<Uni> { static void set(Uni &x, int v) { x.i = v == 1; } };
template<> struct Val<std::string> { static void set(std::string &x, int v) { if (v == 2) x.reserve(500); x = v == 1 ? "some long text, value one" : "some long text, value nil"; } };
template<> struct Val<std::pair<int, std::string>> { static void set(std::pair<int, std::string> &x, int v) { x.first = v == 1; x.second = "pair"; } };
template<> struct Val<std::vector<int>> { static void set(std::vector<int> &x, int v) { if (v == 2) x.reserve(100); x.assign(3, v == 1); } };
template<> struct Val<std::shared_ptr<int>> { static void set(std::shared_ptr<int> &x, int v) { static std::shared_ptr<int> s[2] = {std::make_shared<int>(0), std::make_shared<int>(0)}; x = s[v == 1]; } };
template<> struct Val<void *> { static void set(void *&x, int v) { x = pool + (v == 1); } };
template<> struct Val<char const *> { static char const *text(int v) { static char const t[2][4] = {"abc", "abc"}; return t[v == 1]; } static void set(char const *&x, int v) { x = text(v); } };
template<> struct Val<int **> { static void set(int **&x, int v) { static int *p[2]; x = p + (v == 1); } };
template<> struct Val<int const **> { static void set(int const **&x, int v) { int **p; Val<int **>::set(p, v); x = const_cast<int const **>(p); } };
template<> struct Val<int Base::*> { static void set(int Base::*&x, int v) { x = v == 1 ? nullptr : &Base::b; } };
template<typename T, std::size_t N> struct Val<T[N]> { static void set(T (&x)[N], int v) { for (std::size_t i = 0; i < N; ++i) Val<T>::set(x[i], i + 1 == N ? v : 0); } }; // differ in the last element

template<typename T> struct Cell { T x{}; };
template<typename T> T &ref(int v, int side) { static Cell<T> c[3][2]; Val<T>::set(c[v][side].x, v); return c[v][side].x; }
enum Path { RVALUE, LVALUE, CONST_LVALUE, COPY, MOVED, REF, CREF, SWAPPED, ASSIGNED, MUTATED, REF_COPY, PATHS };
char const *const pathName[] = {"rvalue", "lvalue", "const lvalue", "copy", "moved", "ref", "cref", "swapped", "assigned", "mutated", "copied ref"};
template<typename T> variant make(int v, int path, int side)
{
    Cell<T> c; Val<T>::set(c.x, v);
    switch (path) {
    case RVALUE: return variant{static_cast<T &&>(c.x)};
    case LVALUE: return variant{c.x};
    case CONST_LVALUE: return variant{static_cast<T const &>(c.x)};
    case COPY: { variant a{c.x}; variant b{a}; a.clear(); return b; }
    case MOVED: { variant a{c.x}, b; b = std::move(a); return b; }
    case REF: return variant{std::ref(ref<T>(v, side))};
    case CREF: return variant{std::cref(ref<T>(v, side))};
    case SWAPPED: { variant a{std::string("other")}, b{c.x}; swap(a, b); return a; }
    case ASSIGNED: { variant a{Big{9}}; a = c.x; return a; }
    case MUTATED: { Cell<T> o; Val<T>::set(o.x, v == 1 ? 0 : 1); variant a{o.x}; Val<T>::set(a.ref<T>(), v); return a; }
    default: { variant a{std::ref(ref<T>(v, side))}; variant b{a}; return b; }
    }
}
enum class Cmp { ok, none, throws };
// comparison of a variant with a bare value: 0/1, 2 an error was reported
template<typename T> int withValue(variant const &a, int v, int how)
{
    Cell<T> c; Val<T>::set(c.x, v);
    try { bool r = how == 0 ? a == c.x : how == 1 ? !(a != c.x) : how == 2 ? a.eq(c.x) : !a.neq(c.x); return r; }
    catch (rtti::runtime_error const &) { return 2; } catch (seq::Injected const &) { return 3; }
}
struct Type { char const *name; variant (*make)(int, int, int); Cmp cmp; int cls; int (*withValue)(variant const &, int, int); };
int classes = 0;
template<typename T> int classOf() { static int const n = classes++; return n; }
template<typename T> using Class = typename oracle::plain<T>::type; // arrays stay arrays
template<typename T> Type type(char const *n, Cmp c = Cmp::ok) { return {n, make<T>, c, classOf<Class<T>>(), withValue<T>}; }

std::vector<Type> const &types()
{
    static std::vector<Type> const t = {
        type<int>("int"), type<double>("double"), type<float>("float"), type<bool>("bool"), type<char>("char"), type<long>("long"), type<Color>("enum"), type<std::string>("string"),
        type<Small>("small"), type<Big>("big"), type<Thrower>("thrower"), type<Wide>("wide"), type<Flat>("flat"), type<Plain>("plain"), type<Uni>("union"), type<Base>("base"), type<Derived>("derived"),
        type<std::pair<int, std::string>>("pair"), type<std::vector<int>>("vector"), type<std::shared_ptr<int>>("shared"),
        type<int *>("int*"), type<int const *>("int const*"), type<int **>("int**"), type<int const **>("int const**"), type<void *>("void*"), type<char const *>("char const*"), type<Fn>("fn"), type<int Base::*>("member pointer"),
        type<int[2]>("int[2]"), type<int[3]>("int[3]"), type<int[2][2]>("int[2][2]"), type<double[2]>("double[2]"), type<std::string[2]>("string[2]"), type<Flat[2]>("flat[2]"), type<char[4]>("char[4]"),
        type<NoEq>("noeq", Cmp::none), type<NoEqBig>("noeq big", Cmp::none), type<NoEq[2]>("noeq[2]", Cmp::none), type<Throws>("throwing", Cmp::throws), type<Throws[2]>("throwing[2]", Cmp::throws),
    };
    return t;
}
int norm(int v) { return v == 2 ? 0 : v; }
void prepare() { for (auto &t: types()) for (int v = 0; v < 3; ++v) for (int p = 0; p < PATHS; ++p) { variant x = t.make(v, p, 0); (void)std::hash<variant>{}(x); t.withValue(variant{}, v, 0); } }
int compare(variant const &a, variant const &b)
{
    try { bool r = a == b; if ((a != b) == r) seq::fail("operators == and != agree"); return r; }
    catch (rtti::runtime_error const &) { return 2; } catch (seq::Injected const &) { return 3; }
}
int expected(Type const &a, int va, Type const &b, int vb)
{
    if (a.cls != b.cls) return 0;
    if (a.cmp == Cmp::none) return 2;
    return norm(va) == norm(vb);
}
bool pointersAlike(Type const &a, Type const &b) { return a.cls == b.cls; }

void pairs()
{
    int nt = int(types().size());
    int i = seq::choose(nt), pi = seq::choose(PATHS), vi = seq::choose(3);
    int j = seq::choose(nt), pj = seq::choose(PATHS), vj = seq::choose(3);
    auto &a = types()[size_t(i)], &b = types()[size_t(j)];
    variant x = a.make(vi, pi, 0), y = b.make(vj, pj, 1);
    auto tx = x.typeId(), ty = y.typeId();
    seq::note("%s %d (%s) == %s %d (%s)", a.name, vi, pathName[pi], b.name, vj, pathName[pj]);
    auto hx = std::hash<variant>{}(x), hy = std::hash<variant>{}(y);
    int want = expected(a, vi, b, vj), r = compare(x, y), back = compare(y, x);
    seq::step();
    if (a.cls == b.cls && a.cmp == Cmp::throws) { CHECK(r == 3 && back == 3); }
    else { CHECK_MSG(r == want, std::to_string(r)); CHECK(back == want); }
    if (r == 1) CHECK(hx == hy);
    // self
    variant c{x}; int self = compare(c, x);
    CHECK(self == (a.cmp == Cmp::ok ? 1 : a.cmp == Cmp::none ? 2 : 3) || (a.cmp == Cmp::throws && self == 1)); // an object is equal to itself without asking
    CHECK(std::hash<variant>{}(c) == hx && std::hash<variant>{}(x) == hx);
    if (a.cmp == Cmp::ok) CHECK(compare(x, x) == 1);
    CHECK(x.typeId() == tx && y.typeId() == ty);
    CHECK(compare(x, variant{}) == 0 && compare(variant{}, x) == 0);
    seq::state(std::string(a.name) + std::to_string(vi) + pathName[pi] + b.name + std::to_string(vj) + pathName[pj]);
}
void values()
{
    int nt = int(types().size());
    int i = seq::choose(nt), pi = seq::choose(PATHS + 1), vi = seq::choose(3);
    int j = seq::choose(nt), vj = seq::choose(3), how = seq::choose(4);
    auto &a = types()[size_t(i)], &b = types()[size_t(j)];
    variant x; if (pi < PATHS) x = a.make(vi, pi, 0);
    seq::note("%s %d (%s) with the value %s %d, form %d", a.name, vi, pi < PATHS ? pathName[pi] : "empty", b.name, vj, how);
    int want = pi < PATHS ? expected(a, vi, b, vj) : 0, r = b.withValue(x, vj, how);
    seq::step(); seq::state(std::string("v") + a.name + std::to_string(vi) + std::to_string(pi) + b.name + std::to_string(vj));
    if (pi < PATHS && a.cls == b.cls && a.cmp == Cmp::throws) CHECK(r == 3);
    else CHECK_MSG(r == want, std::to_string(r));
}
// as keys of a hash table: what was stored is found again by any equal variant
void keys()
{
    int nt = int(types().size());
    int i = seq::choose(nt), j = seq::choose(nt), pi = seq::choose(PATHS), pj = seq::choose(PATHS);
    auto &a = types()[size_t(i)], &b = types()[size_t(j)];
    if (a.cmp != Cmp::ok || b.cmp != Cmp::ok) return;
    variant x = a.make(0, pi, 0), y = a.make(1, pj, 0), z = b.make(2, pj, 1);
    seq::note("%s (%s) %s (%s)", a.name, pathName[pi], b.name, pathName[pj]);
    auto h = std::hash<variant>{};
    auto bucketFind = [&](variant const &k) { int n = -1, m = 0; for (auto *e: {&x, &y}) { if (h(*e) == h(k) && *e == k) n = m; ++m; } return n; };
    CHECK(bucketFind(x) == 0); CHECK(bucketFind(y) == 1);
    CHECK(bucketFind(z) == (a.cls == b.cls ? 0 : -1));
    // transitive over all three
    for (auto *p: {&x, &y, &z}) for (auto *q: {&x, &y, &z}) for (auto *r: {&x, &y, &z}) if (*p == *q && *q == *r) CHECK(*p == *r);
    seq::step(); seq::state(std::string("k") + a.name + b.name + std::to_string(pi) + std::to_string(pj));
}

} // namespace

int main(int argc, char **argv)
{
    types();
    std::vector<seq::Group> g;
    g.push_back({"every pair of variants", pairs, prepare, false, true, false, 3});
    g.push_back({"every variant with every bare value", values, prepare, false, true, false, 3});
    g.push_back({"variants as keys", keys, prepare, false, true, false, 2});
    seq::main_(argc, argv, g);
}
