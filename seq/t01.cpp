// T01: type identity and introspection agree with the C++ type system
#include "seq/seq.h"
#include "seq/oracle.h"
#include "seq/t01types.h"
#include <cstring>
using rtti::MetaType; using rtti::MetaType_ID; using rtti::metaTypeId; using rtti::TypeFlags; using namespace tt;

namespace {

struct Hidden { long x[9]; };

template<typename T, typename = void> struct eqComparable: std::false_type {};
template<typename T> struct eqComparable<T, std::void_t<decltype(bool(std::declval<T>() == std::declval<T>()))>>: std::true_type {};

template<typename T> struct baseOf { using type = std::remove_cv_t<T>; };
template<typename T> struct baseOf<T &>: baseOf<T> {};
template<typename T> struct baseOf<T &&>: baseOf<T> {};
template<typename T> struct baseOf<T *>: baseOf<T> {};
template<typename T> struct baseOf<T *const>: baseOf<T> {};
template<typename T, std::size_t N> struct baseOf<T[N]>: baseOf<T> {};
template<typename T, std::size_t N> struct baseOf<T const[N]>: baseOf<T> {};
template<typename T> constexpr int levels() { if constexpr(std::is_pointer_v<T>) return 1 + levels<std::remove_pointer_t<T>>(); else return 0; }

struct Info
{
    MetaType_ID (*id)(); MetaType_ID (*decay)(); std::string_view (*print)();
    std::size_t size; unsigned flags, flagsMask; int arity; bool isDecayed;
    bool isConst, lref, rref, cls, ptr, voidPtr, classPtr, funPtr, array;
    int same;  // number of the type: equal numbers are the same type
};
int numbers = 0;
template<typename T> int number() { static int const n = numbers++; return n; }
template<typename T> std::string_view print() { std::string_view s = __PRETTY_FUNCTION__; return s; }

template<typename T> Info info()
{
    using N = std::remove_reference_t<T>; using P = std::remove_pointer_t<N>; using B = typename baseOf<T>::type; using F = TypeFlags;
    Info i{};
    i.id = metaTypeId<T>; i.decay = metaTypeId<oracle::decayed<T>>; i.print = print<T>;
    if constexpr(std::is_void_v<N>) i.size = 0; else i.size = sizeof(N);
    i.isDecayed = std::is_same_v<T, oracle::decayed<T>>;
    i.arity = levels<std::remove_all_extents_t<N>>(); // of the elements of an array
    i.isConst = std::is_const_v<N>; i.lref = std::is_lvalue_reference_v<T>; i.rref = std::is_rvalue_reference_v<T>;
    i.ptr = std::is_pointer_v<N>; i.array = std::is_array_v<N>;
    i.cls = std::is_class_v<B> && !i.ptr; i.voidPtr = i.ptr && std::is_void_v<B>;
    i.classPtr = levels<N>() == 1 && std::is_class_v<B>; i.funPtr = levels<N>() == 1 && std::is_function_v<B>;
    unsigned f = 0; auto set = [&](bool b, F x) { if (b) f |= unsigned(x); };
    set(i.isConst, F::Const); set(i.ptr, F::Pointer); set(std::is_member_pointer_v<N>, F::MemberPointer); set(i.lref, F::LvalueReference); set(i.rref, F::RvalueReference);
    set(std::is_array_v<P>, F::Array); set(std::is_void_v<B>, F::Void); set(std::is_integral_v<B>, F::Integral); set(std::is_floating_point_v<B>, F::FloatPoint); set(std::is_enum_v<B>, F::Enum);
    set(std::is_function_v<B>, F::Function); set(std::is_union_v<B>, F::Union); set(std::is_class_v<B>, F::Class); set(std::is_standard_layout_v<B>, F::StandardLayout); set(std::is_trivial_v<B>, F::Trivial);
    set(std::is_abstract_v<B>, F::Abstract); set(std::is_polymorphic_v<B>, F::Polymorphic); set(std::is_default_constructible_v<B>, F::DefaultConstructible); set(std::is_copy_constructible_v<B>, F::CopyConstructible);
    set(std::is_copy_assignable_v<B>, F::CopyAssignable); set(std::is_move_constructible_v<B>, F::MoveConstructible); set(std::is_move_assignable_v<B>, F::MoveAssignable); set(std::is_destructible_v<B>, F::Destructible);
    set(eqComparable<N const &>::value, F::EQ_Comparable);
    i.flags = f; i.flagsMask = (1u << 24) - 1;
    if (i.array) i.flagsMask &= ~unsigned(F::EQ_Comparable); // of the elements or of the pointers: both readings
    i.same = number<T>();
    return i;
}

template<typename B> void family(std::vector<Info> &v)
{
    constexpr bool obj = !std::is_void_v<B> && !std::is_function_v<B>;
    if constexpr(obj) {
        v.push_back(info<B>()); v.push_back(info<B const>()); v.push_back(info<B &>()); v.push_back(info<B const &>()); v.push_back(info<B &&>()); v.push_back(info<B const &&>());
        if constexpr(!std::is_abstract_v<B>) {
            v.push_back(info<B[2]>()); v.push_back(info<B const[2]>()); v.push_back(info<B[3]>()); v.push_back(info<B (&)[2]>()); v.push_back(info<B const (&)[2]>()); v.push_back(info<B (&&)[2]>()); v.push_back(info<B[2][3]>()); v.push_back(info<B[3][2]>());
            v.push_back(info<B (*)[2]>()); v.push_back(info<B (*const &)[2]>());
        }
        v.push_back(info<B const *>()); v.push_back(info<B const *const>()); v.push_back(info<B const *const *>()); v.push_back(info<B *const *>()); v.push_back(info<B const **>()); v.push_back(info<B const *&>()); v.push_back(info<B const *const &>());
    }
    else if constexpr(std::is_void_v<B>) { v.push_back(info<B const *>()); v.push_back(info<B const *const &>()); v.push_back(info<B const **>()); }
    v.push_back(info<B *>()); v.push_back(info<B *const>()); v.push_back(info<B **>()); v.push_back(info<B *&>()); v.push_back(info<B *const &>()); v.push_back(info<B *&&>()); v.push_back(info<B *[2]>()); v.push_back(info<B *const[2]>()); v.push_back(info<B ***>());
}
std::vector<Info> const &universe()
{
    static std::vector<Info> const u = [] {
        std::vector<Info> v;
#define FAM(...) family<__VA_ARGS__>(v)
        FAM(void); FAM(bool); FAM(char); FAM(signed char); FAM(unsigned char); FAM(wchar_t); FAM(char32_t); FAM(short); FAM(int); FAM(unsigned); FAM(long); FAM(unsigned long long); FAM(float); FAM(double); FAM(long double);
        FAM(Enum); FAM(Scoped); FAM(Outer::E); FAM(Union); FAM(Empty); FAM(Pod); FAM(Text); FAM(Abstract); FAM(Poly); FAM(NoCopy); FAM(MoveOnly); FAM(NoDefault); FAM(NoAssign); FAM(Outer::Inner); FAM(Hidden);
        FAM(std::string); FAM(std::vector<int>); FAM(Tmpl<>); FAM(Tmpl<int>); FAM(Tmpl<int, Pod>); FAM(Tmpl<Pod, int>); FAM(Tmpl<Tmpl<int>>); FAM(Tmpl<int *>); FAM(Tmpl<int const>); FAM(Tmpl<Tmpl<char>, char>);
        FAM(Fun); FAM(Fun2); FAM(ObjPtr); FAM(MemFun); FAM(std::shared_ptr<Pod>); FAM(std::function<int(int)>);
        // other spellings of the same types
        v.push_back(info<std::add_lvalue_reference_t<signed int>>()); v.push_back(info<decltype(sizeof 0) *>()); v.push_back(info<std::basic_string<char>>()); v.push_back(info<long unsigned>()); v.push_back(info<unsigned const long *>()); v.push_back(info<const char *>());
        return v;
    }();
    return u;
}
void prepare() { for (auto &i: universe()) { i.id(); i.decay(); } }

void each()
{
    int n = int(universe().size());
    int q = seq::choose((n + 99) / 100), r = seq::choose(100); if (q * 100 + r >= n) return;
    auto &i = universe()[size_t(q * 100 + r)]; MetaType t{i.id()};
    seq::note("%.*s", int(i.print().size()), i.print().data());
    CHECK(t.valid()); CHECK(t.typeId() == i.id() && MetaType{t.typeId()}.typeId() == i.id()); CHECK(bool(i.id().valid()));
    CHECK_MSG(t.typeSize() == i.size, std::to_string(t.typeSize()));
    CHECK(t.isConst() == i.isConst); CHECK(t.isLvalueReference() == i.lref); CHECK(t.isRvalueReference() == i.rref); CHECK(t.isReference() == (i.lref || i.rref));
    CHECK(t.isClass() == i.cls); CHECK(t.isPointer() == i.ptr); CHECK(t.isVoidPtr() == i.voidPtr); CHECK(t.isClassPtr() == i.classPtr); CHECK(t.isFunctionPtr() == i.funPtr); CHECK(t.isArray() == i.array);
    CHECK(t.pointerArity() == i.arity);
    CHECK(t.decayId() == i.decay()); CHECK(t.decayed() == i.isDecayed);
    CHECK(MetaType{t.decayId()}.decayId() == t.decayId() && MetaType{t.decayId()}.decayed());
    unsigned f = unsigned(t.typeFlags());
    if ((f ^ i.flags) & i.flagsMask) { char b[100]; snprintf(b, sizeof b, "flags %#x, C++ has %#x", f, i.flags); seq::fail(b); }
    CHECK((f & ~((1u << 24) - 1)) == 0);
    // by name
    std::string name{t.typeName()};
    CHECK(!name.empty()); CHECK(MetaType{std::string_view{name}}.typeId() == t.typeId());
    std::string again = name; CHECK(MetaType{std::string_view{again}}.valid());
    seq::step(); seq::state(name);
}
void pairwise()
{
    int n = int(universe().size());
    int q = seq::choose((n + 99) / 100), r = seq::choose(100); if (q * 100 + r >= n) return;
    auto &a = universe()[size_t(q * 100 + r)];
    seq::note("%.*s", int(a.print().size()), a.print().data());
    for (auto &b: universe()) {
        bool same = a.same == b.same;
        seq::step();
        if ((a.id() == b.id()) != same) seq::fail(std::string(same ? "one type has two identities: " : "two types have one identity: ") + std::string(b.print()));
        CHECK((a.id() != b.id()) != same);
        CHECK((MetaType{a.id()}.typeName() == MetaType{b.id()}.typeName()) == same);
        if (same) CHECK(std::hash<MetaType_ID>{}(a.id()) == std::hash<MetaType_ID>{}(b.id()));
    }
    seq::state(std::string(a.print()));
}
// names that are no names of types
void names()
{
    int n = int(universe().size());
    int q = seq::choose((n + 99) / 100), r = seq::choose(100); if (q * 100 + r >= n) return;
    auto &a = universe()[size_t(q * 100 + r)]; std::string name{MetaType{a.id()}.typeName()};
    seq::note("%s", name.c_str());
    auto lookup = [&](std::string const &s) { MetaType t{std::string_view{s}}; seq::step(); if (t.valid() && t.typeName() != s) seq::fail("the name " + s + " finds " + std::string(t.typeName())); if (!t.valid()) { CHECK(!t.typeId().valid() && t.typeSize() == 0 && !t.metaClass() && !t.decayId().valid()); } return t.valid(); };
    for (size_t l = 0; l < name.size(); ++l) { lookup(name.substr(0, l)); lookup(name.substr(l + 1)); std::string m = name; m[l] ^= 1; lookup(m); }
    CHECK(!lookup(name + " ")); CHECK(!lookup(" " + name)); CHECK(!lookup(name + name)); CHECK(!lookup(std::string(name).append(1, '\0'))); CHECK(!lookup("")); CHECK(!lookup("no such type"));
    CHECK(!MetaType{}.valid()); CHECK(!MetaType{MetaType_ID{}}.valid());
    seq::state(name);
}
// identity does not depend on the order of first uses
using Step = MetaType_ID (*)();
void orders()
{
    static Step const ids[] = {metaTypeId<Pod>, metaTypeId<Pod const>, metaTypeId<Pod &>, metaTypeId<Pod const &>, metaTypeId<Pod &&>, metaTypeId<Pod *>, metaTypeId<Pod const *>, metaTypeId<Pod const *const &>, metaTypeId<Pod[2]>, metaTypeId<Pod const (&)[3]>, metaTypeId<Pod **>};
    static Step const decays[] = {metaTypeId<Pod>, metaTypeId<Pod>, metaTypeId<Pod>, metaTypeId<Pod>, metaTypeId<Pod>, metaTypeId<Pod *>, metaTypeId<Pod *>, metaTypeId<Pod *>, metaTypeId<Pod *>, metaTypeId<Pod *>, metaTypeId<Pod **>};
    static char const *const spell[] = {"tt::Pod", "const tt::Pod", "tt::Pod&", "const tt::Pod&", "tt::Pod&&", "tt::Pod*", "const tt::Pod*", "const tt::Pod* const&", "tt::Pod [2]", "const tt::Pod (&)[3]", "tt::Pod**"};
    constexpr int N = 11;
    MetaType_ID got[N]{}; MetaType early[N];
    for (int d = 0; d < (seq::thorough() ? 4 : 3); ++d) {
        int c = seq::choose(2 * N);
        if (c < N) { seq::note("use %s", spell[c]); auto id = ids[c](); CHECK(id.valid()); CHECK(!got[c].valid() || got[c] == id); got[c] = id; }
        else { c -= N; seq::note("look for %s", spell[c]); early[c] = MetaType{std::string_view{spell[c]}}; CHECK(!got[c].valid() || early[c].typeId() == got[c]); }
        seq::step();
    }
    std::string st;
    for (int i = 0; i < N; ++i) {
        st += got[i].valid() ? '1' : '0';
        auto id = ids[i](); CHECK(id.valid()); CHECK(!got[i].valid() || got[i] == id); CHECK(!early[i].valid() || early[i].typeId() == id);
        CHECK(MetaType{std::string_view{spell[i]}}.typeId() == id); CHECK(MetaType{id}.typeName() == spell[i]); CHECK(MetaType{id}.decayId() == decays[i]());
        for (int j = 0; j < i; ++j) CHECK(ids[j]() != id);
    }
    seq::state(st);
}
void units()
{
    seq::note("other translation unit");
    std::vector<MetaType_ID> here{metaTypeId<int>(), metaTypeId<int const &>(), metaTypeId<Pod>(), metaTypeId<Pod *>(), metaTypeId<Tmpl<int, Pod>>(), metaTypeId<std::string>(), metaTypeId<Fun2 *>(), metaTypeId<MemFun>(), metaTypeId<Pod[4]>(), metaTypeId<Outer::Inner &&>()};
    auto there = otherUnit();
    int i = seq::choose(int(here.size()));
    CHECK(there[size_t(i)].second == here[size_t(i)]); seq::step(); seq::state(there[size_t(i)].first);
}
// distinct types whose printed names are equal
void namesakes()
{
    int i = seq::choose(4);
    seq::step(); seq::state("namesake" + std::to_string(i));
    switch (i) {
    case 0: { seq::note("std::nullptr_t and std::nullptr_t const"); if (metaTypeId<std::nullptr_t>() == metaTypeId<std::nullptr_t const>() && !seq::known("one-identity:nullptr_t-and-const-nullptr_t")) seq::fail("two types have one identity"); break; }
    case 1: { seq::note("two lambdas of a function"); auto a = [] { return 1; }; auto b = [] { return 2L; }; if (metaTypeId<decltype(a)>() == metaTypeId<decltype(b)>() && !seq::known("one-identity:lambdas-of-one-function")) seq::fail("two types have one identity"); break; }
    case 2: { seq::note("types of one name in unnamed namespaces of two translation units"); if (metaTypeId<Hidden>() == otherUnitHidden() && !seq::known("one-identity:unnamed-namespace-types-of-two-units")) seq::fail("two types have one identity"); break; }
    case 3: { seq::note("function pointers that differ in noexcept"); CHECK(metaTypeId<int (*)(int)>() != metaTypeId<FunNx *>()); break; }
    }
}

} // namespace

int main(int argc, char **argv)
{
    universe();
    std::vector<seq::Group> g;
    g.push_back({"orders of first use", orders, nullptr, true, false, false, 2});
    g.push_back({"introspection of every type", each, prepare, false, true, false, 2});
    g.push_back({"identity of every pair of types", pairwise, prepare, false, true, false, 2});
    g.push_back({"names", names, prepare, false, true, false, 2});
    g.push_back({"two translation units", units, nullptr, true, false, false, 1});
    g.push_back({"namesakes", namesakes, nullptr, true, false, false, 1});
    seq::main_(argc, argv, g);
}
