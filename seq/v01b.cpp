// V01: objects of all sizes and alignments, around the size that is kept in place
#include "seq/seq.h"
#include <rtti/variant.h>
#include <cstring>
#include <memory>
#include <set>
#include <vector>
using namespace rtti;

namespace {
struct Log { std::set<void const *> alive; long made = 0; };
Log *lifetimes;
// How: 0 trivial, 1 moves don't throw, 2 moves may throw, 3 copied only
template<size_t S, size_t A, int How> struct alignas(A) Sz
{
    unsigned char b[S];
    explicit Sz(int v) { fill(v); add(); }
    Sz(Sz const &o) noexcept(How == 1) { std::memcpy(b, o.b, S); o.there(); add(); }
    Sz(Sz &&o) noexcept(How == 1) { std::memcpy(b, o.b, S); o.there(); o.fill(0); add(); }
    ~Sz() { there(); lifetimes->alive.erase(this); std::memset(b, 0xee, S); }
    void fill(int v) { for (size_t i = 0; i < S; ++i) b[i] = (unsigned char)(v * 37 + int(i) * (v ? 1 : 0)); }
    void add() { if (std::uintptr_t(this) % A) seq::fail("not aligned"); if (!lifetimes->alive.insert(this).second) lifetimes->made++; }
    void there() const { if (!lifetimes->alive.count(this)) seq::fail("an object is used that isn't alive"); }
};
template<size_t S, size_t A> struct alignas(A) Sz<S, A, 0>
{
    unsigned char b[S];
    explicit Sz(int v) { fill(v); }
    void fill(int v) { for (size_t i = 0; i < S; ++i) b[i] = (unsigned char)(v * 37 + int(i) * (v ? 1 : 0)); }
    void there() const { if (std::uintptr_t(this) % A) seq::fail("not aligned"); }
};
template<size_t S, size_t A> struct alignas(A) Sz<S, A, 3>
{
    unsigned char b[S];
    explicit Sz(int v) { fill(v); lifetimes->alive.insert(this); }
    Sz(Sz const &o) noexcept { std::memcpy(b, o.b, S); o.there(); lifetimes->alive.insert(this); }
    ~Sz() { there(); lifetimes->alive.erase(this); std::memset(b, 0xee, S); }
    void fill(int v) { for (size_t i = 0; i < S; ++i) b[i] = (unsigned char)(v * 37 + int(i) * (v ? 1 : 0)); }
    void there() const { if (std::uintptr_t(this) % A) seq::fail("not aligned"); if (!lifetimes->alive.count(this)) seq::fail("an object is used that isn't alive"); }
};
struct T { std::string name; void (*make)(variant &, int); void (*check)(variant &, int, void const *, void const *); void (*take)(variant &, int); void (*arrays)(variant &, int); void (*checkArray)(variant &, int); };
template<typename K> void is(K const &k, int v) { K w{v}; if (std::memcmp(k.b, w.b, sizeof k.b)) seq::fail("another value"); k.there(); }
template<size_t S, size_t A, int How> T type()
{
    using K = Sz<S, A, How>;
    return {std::to_string(S) + "/" + std::to_string(A) + "/" + std::to_string(How),
        [](variant &x, int v) { x = K{v}; },
        [](variant &x, int v, void const *from, void const *to) {
            CHECK(x.is<K>() && x.typeId() == metaTypeId<K>()); auto &k = x.cref<K>(); is(k, v);
            if (reinterpret_cast<std::uintptr_t>(&k) % A) seq::fail("not aligned");
            auto p = reinterpret_cast<char const *>(&k); if (p >= from && p < to && (p + sizeof(K) > to)) seq::fail("the object sticks out of its variant");
            K copy = x.to<K>(); is(copy, v); CHECK(&x.ref<K>() == &k);
        },
        [](variant &x, int v) { K k = std::move(x).template to<K>(); is(k, v); },
        [](variant &x, int v) { K a[2] = {K{v}, K{v + 1}}; x = a; },
        [](variant &x, int v) { auto &a = x.cref<K[2]>(); is(a[0], v); is(a[1], v + 1); }};
}
template<int How> void ofAll(std::vector<T> &t)
{
    auto add = [&](auto... x) { (t.push_back(x), ...); };
    add(type<1, 1, How>(), type<3, 1, How>(), type<7, 1, How>(), type<8, 1, How>(), type<9, 1, How>(), type<15, 1, How>(), type<16, 1, How>(), type<17, 1, How>(), type<24, 1, How>(), type<25, 1, How>(), type<32, 1, How>(), type<33, 1, How>(), type<200, 1, How>());
    add(type<12, 4, How>(), type<16, 4, How>(), type<20, 4, How>(), type<8, 8, How>(), type<16, 8, How>(), type<24, 8, How>());
    add(type<16, 16, How>(), type<32, 16, How>(), type<32, 32, How>(), type<64, 64, How>());
}
std::vector<T> const &types() { static std::vector<T> t; if (t.empty()) { ofAll<0>(t); ofAll<1>(t); ofAll<2>(t); ofAll<3>(t); } return t; }
struct Framed { unsigned char before[32]; variant v; unsigned char after[32]; Framed() { std::memset(before, 0x5a, 32); std::memset(after, 0xa5, 32); } void check() { for (auto c: before) CHECK(c == 0x5a); for (auto c: after) CHECK(c == 0xa5); } };
}

// every pair of types in two variants: assign, copy, move, swap, take
void sizes()
{
    auto &ts = types(); int n = int(ts.size()); int i = seq::choose(n), j = seq::choose(n + 1), op = seq::choose(6);
    auto &a = ts[size_t(i)]; T const *b = j < n ? &ts[size_t(j)] : nullptr; seq::note("%s and %s, %d", a.name.c_str(), b ? b->name.c_str() : "empty", op);
    static Log log; log = {}; lifetimes = &log;
    {
        auto x = std::make_unique<Framed>(), y = std::make_unique<Framed>(); // (two of them, anywhere)
        auto is = [](Framed &f, T const *t, int v) { seq::step(); f.check(); if (t) t->check(f.v, v, &f.v, &f.v + 1); else CHECK(f.v.empty()); };
        a.make(x->v, 3); if (b) b->make(y->v, 4); is(*x, &a, 3); is(*y, b, 4);
        switch (op) {
        case 0: x->v = y->v; is(*x, b, 4); is(*y, b, 4); break;
        case 1: x->v = std::move(y->v); is(*x, b, 4); is(*y, nullptr, 0); break;
        case 2: std::swap(x->v, y->v); is(*x, b, 4); is(*y, &a, 3); std::swap(x->v, y->v); is(*x, &a, 3); is(*y, b, 4); break;
        case 3: if (b) b->take(y->v, 4); { variant z{std::move(x->v)}; CHECK(x->v.empty()); x->v = z; is(*x, &a, 3); } break;
        case 4: x->v.clear(); is(*x, nullptr, 0); a.make(y->v, 5); is(*y, &a, 5); { variant z{y->v}; std::swap(y->v, z); is(*y, &a, 5); } break;
        case 5: a.arrays(x->v, 6); a.checkArray(x->v, 6); y->v = x->v; a.checkArray(y->v, 6); std::swap(x->v, y->v); a.checkArray(x->v, 6); { variant z{std::move(x->v)}; a.checkArray(z, 6); CHECK(x->v.empty()); } break;
        }
        x->check(); y->check();
    }
    seq::state(a.name + (b ? b->name : "") + std::to_string(op));
}
