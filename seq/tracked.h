// Objects that record their lifetime by address; copies and moves may fail (fault points)
#pragma once
#include "seq/seq.h"
#include <cstring>
#include <map>
#include <new>
#include <utility>

namespace tracked {

struct Entry { std::size_t size; int tag; bool moved, copied, relocatable, copyOnly; };
// lives outside of counted memory: fixed table
struct Table
{
    static constexpr int N = 512;
    struct Row { char const *at; Entry e; } rows[N]; int n = 0;
    Row *find(void const *p) { for (int i = 0; i < n; ++i) if (rows[i].at == p) return rows + i; return nullptr; }
    void erase(Row *r) { *r = rows[--n]; }
    void add(void const *p, Entry e) { if (n == N) seq::fail("too many live objects"); rows[n++] = {static_cast<char const *>(p), e}; }
};
inline Table table;
inline bool comparisonsFail = false;  // comparisons are fault points
inline bool judgeLeftovers = false; // property V02 does

// The finding: values relocated between variants in place leave the source, moved from, not destroyed
inline void leftover(Table::Row *r, char const *what)
{
    if (r->e.relocatable && (r->e.moved || (r->e.copyOnly && r->e.copied)) && (!judgeLeftovers || seq::known(r->e.copyOnly ? "inplace-relocation-source-not-destroyed:copy-only" : "inplace-relocation-source-not-destroyed:movable"))) { table.erase(r); return; }
    seq::fail(std::string(what) + " object of tag " + std::to_string(r->e.tag) + (r->e.moved ? " (moved from)" : ""));
}
inline void born(void const *p, Entry e, std::size_t align)
{
    if (reinterpret_cast<std::uintptr_t>(p) % align) seq::fail("misaligned object of tag " + std::to_string(e.tag));
    auto *a = static_cast<char const *>(p);
    for (int i = 0; i < table.n; ++i) {
        auto &r = table.rows[i];
        if (r.at < a + e.size && a < r.at + r.e.size) { leftover(&r, "object constructed over not destroyed"); --i; }
    }
    table.add(p, e);
}
inline Table::Row *alive(void const *p, char const *what)
{
    auto *r = table.find(p);
    if (!r) seq::fail(std::string(what) + ": object is not alive");
    return r;
}
inline void died(void const *p) { table.erase(alive(p, "destruction")); }
// at the end of an execution nothing lives
inline void finish() { while (table.n) leftover(table.rows, "not destroyed"); }
// every object that did not exist before is gone
inline void settle(Table const &before)
{
    for (int i = 0; i < table.n; ++i) {
        bool old = false;
        for (int j = 0; j < before.n; ++j) old = old || before.rows[j].at == table.rows[i].at;
        if (!old) { leftover(table.rows + i, "not destroyed"); --i; }
    }
    if (table.n != before.n) seq::fail("an object that is not held by value was destroyed");
}
// storage is gone or handed over: objects living there were forgotten
inline void reset() { table.n = 0; }

struct Copyable {}; struct MoveOnly {}; struct CopyOnly {};

template<int Tag, std::size_t Size, bool NothrowMove, std::size_t Align = alignof(int), typename Mode = Copyable>
struct alignas(Align) Obj
{
    static constexpr bool inplace = Size <= 2 * sizeof(void *) && Align <= sizeof(void *) && NothrowMove;
    static constexpr bool copyOnly = std::is_same_v<Mode, CopyOnly>;
    int value; char pad[Size - sizeof(int)];

    static Entry entry() { return {sizeof(Obj), Tag, false, false, inplace, copyOnly}; }
    void fill() { std::memset(pad, 'a' + value % 26, sizeof pad); }
    bool intact() const { for (char c: pad) if (c != char('a' + value % 26)) return false; return true; }

    Obj(): value(0) { seq::fault_point("default"); fill(); born(this, entry(), Align); }
    explicit Obj(int v): value(v) { fill(); born(this, entry(), Align); }
    template<typename M = Mode, typename = std::enable_if_t<!std::is_same_v<M, MoveOnly>>>
    Obj(Obj const &o, int) noexcept(copyOnly && NothrowMove): value(o.value)
    {
        auto *r = alive(&o, "copy"); r->e.copied = true;
        if constexpr(!(copyOnly && NothrowMove)) seq::fault_point("copy");
        fill(); born(this, entry(), Align);
    }
    Obj(Obj &o, bool) noexcept(NothrowMove): value(o.value)
    {
        alive(&o, "move");
        if constexpr(!NothrowMove) seq::fault_point("move");
        fill(); auto *r = alive(&o, "move"); r->e.moved = true; o.value = -1; o.fill();
        born(this, entry(), Align);
    }
    ~Obj() { died(this); }
    void set(int v) { alive(this, "write"); value = v; fill(); }
    int get() const { alive(this, "read"); if (!intact()) seq::fail("object is corrupted"); return value; }
    bool operator==(Obj const &o) const { if (comparisonsFail) seq::fault_point("=="); return get() == o.get(); }
};

// gives the special members their declared form
#define TRACKED_COMMON(NAME, ...) \
    using Base = ::tracked::Obj<__VA_ARGS__>; using Base::Base; NAME() = default; \
    bool operator==(NAME const &o) const { return Base::operator==(o); }
#define TRACKED_COPYABLE(NAME, NOTHROW, ...) \
struct NAME: ::tracked::Obj<__VA_ARGS__> { TRACKED_COMMON(NAME, __VA_ARGS__) \
    NAME(NAME const &o): Base(o, 0) {} NAME(NAME &&o) noexcept(NOTHROW): Base(static_cast<Base&>(o), true) {} \
    NAME &operator=(NAME const &o) { this->set(o.get()); return *this; } }

} // namespace tracked
