// C03: concurrent first use of types yields one identity, fully published
#include "rmc/common.h"
#include <cstring>
#include <memory>

namespace {

struct P { int a; int b; };
struct Q { double d[3]; bool operator==(Q const &) const { return true; } };
enum class E : short { one, two };
struct Big { char c[100] = {}; Big() = default; Big(Big const &) = default; };

bool has(TypeFlags f, TypeFlags b) { return (f & b) == b; }

// description of T, computed by the compiler
template<typename T> void described(MetaType t)
{
    using U = std::remove_reference_t<T>;
    using D = full_decay_t<T>;
    RMC_CHECK(t.valid());
    RMC_CHECK(t.typeId() == metaTypeId<T>());
    RMC_CHECK(t.typeName() == type_name<T>());
    if constexpr (!std::is_void_v<U>) RMC_CHECK(t.typeSize() == sizeof(U));
    RMC_CHECK(t.isConst() == std::is_const_v<U>);
    RMC_CHECK(t.isLvalueReference() == std::is_lvalue_reference_v<T>);
    RMC_CHECK(t.isRvalueReference() == std::is_rvalue_reference_v<T>);
    RMC_CHECK(t.isPointer() == std::is_pointer_v<U>);
    RMC_CHECK(t.isArray() == std::is_array_v<U>);
    RMC_CHECK(t.isClass() == std::is_class_v<U>);
    RMC_CHECK(has(t.typeFlags(), TypeFlags::Enum) == std::is_enum_v<U>);
    RMC_CHECK(t.decayId().valid());
    if constexpr (!std::is_same_v<T, D>) RMC_CHECK(MetaType{t.decayId()}.typeName() == type_name<D>());
    else RMC_CHECK(t.decayId() == t.typeId());
    auto byName = MetaType{type_name<T>()};
    RMC_CHECK(byName.typeId() == t.typeId());
}
template<typename T> void use() { described<T>(metaType<T>()); }
template<typename T> std::function<void()> first() { return [] { use<T>(); }; }

// look the type up by a name written out: nothing, or the whole description
template<typename T> void lookup(char const *name)
{
    auto t = MetaType{std::string_view{name}};
    if (t.valid()) {
        out("found");
        RMC_CHECK(t.typeName() == name); RMC_CHECK(t.typeSize() == sizeof(std::remove_reference_t<T>)); RMC_CHECK(t.decayId().valid());
        RMC_CHECK(MetaType{t.decayId()}.decayId() == t.decayId());
        RMC_CHECK(t.isPointer() == std::is_pointer_v<std::remove_reference_t<T>>);
        described<T>(t);
    } else out("none");
    publish();
}

MetaType_ID ids[4];
template<typename T> std::function<void()> id() { return [] { ids[rmc::thread()] = metaTypeId<T>(); RMC_CHECK(ids[rmc::thread()].valid()); RMC_CHECK(MetaType{ids[rmc::thread()]}.typeName() == type_name<T>()); }; }
auto same = [] { for (int i = 1; i < 4; ++i) if (ids[i].valid()) RMC_CHECK(ids[i] == ids[0]); };
auto distinct = [] { for (int i = 1; i < 4; ++i) for (int k = 0; k < i; ++k) if (ids[i].valid()) RMC_CHECK(ids[i] != ids[k]); };

std::string name(MetaType t) { return std::string{t.typeName()}; }

std::vector<Scenario> all()
{
    std::vector<Scenario> v;
    auto none = [] {};
    auto warmInt = [] { metaTypeId<int>(); };
    v.push_back({"same_class", none, {id<P>(), id<P>()}, same});
    v.push_back({"same_scalar", none, {id<int>(), id<int>(), id<int>()}, same, rmc::Unbounded});
    v.push_back({"same_pointer_to_const", none, {id<P const *>(), id<P const *>()}, same});
    v.push_back({"same_reference", none, {id<Q const &>(), id<Q const &>()}, same});
    v.push_back({"same_array", none, {id<int[3]>(), id<int[3]>()}, same});
    v.push_back({"same_three", none, {id<E>(), id<E>(), id<E>()}, same});
    v.push_back({"different_scalars", none, {id<int>(), id<long>(), id<short>()}, distinct});
    v.push_back({"different_classes", none, {id<P>(), id<Q>()}, distinct});
    v.push_back({"different_qualifiers", none, {id<P *>(), id<P const *>()}, distinct});
    v.push_back({"different_references", none, {id<P &>(), id<P &&>()}, distinct});
    v.push_back({"value_and_reference", none, {first<P>(), first<P &>()}, [] { use<P>(); use<P&>(); RMC_CHECK(metaType<P&>().decayId() == metaTypeId<P>()); }});
    v.push_back({"value_and_const_pointer", none, {first<Q const *>(), first<Q *const>()}, [] { use<Q const *>(); use<Q *const>(); }});
    v.push_back({"related_three", none, {first<E &>(), first<E const &>(), first<E>()}, [] { RMC_CHECK(metaType<E&>().decayId() == metaTypeId<E>()); RMC_CHECK(metaType<E const&>().decayId() == metaTypeId<E>()); }, 3});
    v.push_back({"pointer_chain", none, {first<int **>(), first<int *const *>()}, [] { use<int**>(); }});
    v.push_back({"array_and_pointer", none, {first<int[3]>(), first<int *>()}, [] { use<int[3]>(); use<int*>(); }});
    v.push_back({"function_pointer", none, {first<int (*)(int)>(), first<int (*)(int)>()}, [] { RMC_CHECK(metaType<int(*)(int)>().isFunctionPtr()); }});
    static std::string nP, nPref, nE, nInt;
    auto names = [] { nP = type_name<P>(); nPref = type_name<P const &>(); nE = type_name<E>(); nInt = type_name<int>(); };
    v.push_back({"lookup_class", names, {first<P>(), [] { lookup<P>(nP.c_str()); }}, [] { use<P>(); }});
    v.push_back({"lookup_reference", names, {first<P const &>(), [] { lookup<P const &>(nPref.c_str()); }}, [] { use<P>(); }});
    v.push_back({"lookup_scalar", names, {first<int>(), [] { lookup<int>(nInt.c_str()); }, [] { lookup<int>(nInt.c_str()); }}, [] { use<int>(); }, 3});
    v.push_back({"lookup_registers", names, {[] { lookup<E>(nE.c_str()); use<E>(); }, [] { lookup<E>(nE.c_str()); use<E>(); }}, [] { use<E>(); }});
    v.push_back({"lookup_while_others_register", [=] { names(); metaTypeId<P>(); }, {
        [] { metaTypeId<int>(); metaTypeId<long>(); metaTypeId<Q>(); },
        [] { for (int i = 0; i < 3; ++i) { auto t = MetaType{std::string_view{nP}}; RMC_CHECK(t.valid()); RMC_CHECK(t.typeSize() == sizeof(P)); } RMC_CHECK(!MetaType{"no such type"}.valid()); }
    }, [] { use<P>(); use<Q>(); }});
    v.push_back({"compatible", none, {
        [] { RMC_CHECK(MetaType::compatible(metaType<int &>(), metaType<int const &>())); },
        [] { RMC_CHECK(!MetaType::compatible(metaType<int const &>(), metaType<int &>())); RMC_CHECK(MetaType::compatible(metaType<int>(), metaType<int const &>())); }
    }, none, 3});
    v.push_back({"variants", none, {
        [] { variant x = 5; RMC_CHECK(x.is<int>()); RMC_CHECK(x.typeId() == metaTypeId<int>()); },
        [] { variant x = 7; RMC_CHECK(x.typeId() == metaTypeId<int>()); RMC_CHECK(x.to<int>() == 7); }
    }, none, 2});
    v.push_back({"variants_large", none, {
        [] { variant x = Big{}; RMC_CHECK(x.typeId() == metaTypeId<Big>()); variant y = x; RMC_CHECK(y.data<Big>() && y.data<Big>() != x.data<Big>()); },
        [] { variant x = Big{}; RMC_CHECK(x.cref<Big>().c[99] == 0); }
    }, none, 2});
    v.push_back({"converter_of_new_types", none, {
        [] { RMC_CHECK((MetaType::registerConverter<short, long>([](short s) { return long(s) + 1; }))); variant x = short(4); RMC_CHECK(x.to<long>() == 5); },
        [] { auto h = MetaType::hasConverter<short, long>(); variant x = short(4); bool ok = x.tryConvert<long>(); if (h) RMC_CHECK(ok); if (ok) RMC_CHECK(x == long(5)); out(ok ? "yes" : "no"); publish(); }
    }, none, 2});
    v.push_back({"metaclass_by_name", names, {
        [] { global_define()._class<P>("P")._end(); RMC_CHECK(MetaClass::find(metaTypeId<P>())->name() == "P"); },
        [] { auto c = MetaClass::find(std::string_view{nP}); out(c ? "found" : "none"); if (c) { RMC_CHECK(c->metaTypeId() == metaTypeId<P>()); RMC_CHECK(c->name() == "P"); } publish(); }
    }, none, 3});
    v.push_back({"global_namespace", none, {
        [] { auto g = root(); RMC_CHECK(g && g->isGlobal()); RMC_CHECK(g->namespaceCount() == 0); },
        [] { global_define()._attribute("a", 1); RMC_CHECK(root()->attributeCount() == 1); }
    }, [] { RMC_CHECK(root()->attributeCount() == 1); }});
    v.push_back({"printing", none, {
        [] { std::ostringstream s; s << metaType<P>(); RMC_CHECK(s.str().find(type_name<P>()) != std::string::npos); },
        [] { std::ostringstream s; s << metaType<P>(); RMC_CHECK(s.str().find("Class") != std::string::npos); }
    }, none, 3});
    (void)warmInt;
    return v;
}

} // namespace

int main(int argc, char **argv) { return rmc::main_(argc, argv, all()); }
