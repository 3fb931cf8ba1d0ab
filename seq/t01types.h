#pragma once
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace tt {
struct Pod { int a; bool operator==(Pod const &o) const { return a == o.a; } };
struct Text { std::string s; Text() {} Text(Text const &o): s(o.s) {} Text &operator=(Text const &) { return *this; } };
struct Abstract { virtual ~Abstract() = default; virtual void f() = 0; };
struct Poly { virtual ~Poly() = default; bool operator==(Poly const &) const noexcept { return true; } };
struct NoCopy { NoCopy() = default; NoCopy(NoCopy const &) = delete; NoCopy &operator=(NoCopy const &) = delete; };
struct MoveOnly { MoveOnly(MoveOnly &&) = default; MoveOnly &operator=(MoveOnly &&) = default; };
struct NoDefault { explicit NoDefault(int) {} };
struct NoAssign { int const x = 0; };
struct Empty {};
union Union { int i; float f; };
enum Enum { a, b };
enum class Scoped: unsigned char { x };
template<typename... T> struct Tmpl {};
struct Outer { struct Inner { int x; }; enum E { e }; };
using Fun = void(); using Fun2 = int(int, char const *); using FunNx = int(int) noexcept;
using ObjPtr = int Pod::*; using MemFun = int (Pod::*)(int) const;
}
// identities seen by another translation unit
std::vector<std::pair<char const *, rtti::MetaType_ID>> otherUnit();
rtti::MetaType_ID otherUnitHidden();
