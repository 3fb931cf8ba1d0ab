// C04: concurrent converter registration, removal and use is linearizable.
// Every combination of short programs over the converter operations is run under every schedule; the
// recorded history must have a linearization.
#include "rmc/common.h"
#include <memory>

namespace {

struct From { int v; };
struct Via { long w; };

struct Op { enum K { reg, unreg, has, conv, tryconv, can } k; int arg; int result; unsigned from, to; int pair; };
std::vector<Op> hist[4];
variant source1, source2;

// converter number id; the value it holds dies with it
struct Functor {
    std::shared_ptr<int> id; // heap: use after destruction is seen
    explicit Functor(int i) : id{new int{i}} {}
    int operator()(From f) const { int a = *id; rmc::point(); return a * 100 + f.v + (*id - a); }
};
struct Functor2 {
    std::shared_ptr<int> id;
    explicit Functor2(int i) : id{new int{i}} {}
    int operator()(Via f, bool &ok) const { ok = *id != 9; rmc::point(); return *id * 100 + int(f.w); }
};

void perform(Op o)
{
    o.from = rmc::stamp();
    if (o.pair == 0) switch (o.k) {
    case Op::reg: o.result = MetaType::registerConverter<From, int>(Functor{o.arg}); break;
    case Op::unreg: MetaType::unregisterConverter<From, int>(); o.result = 0; break;
    case Op::has: o.result = MetaType::hasConverter<From, int>(); break;
    case Op::conv: { variant x = From{7}; try { o.result = x.to<int>(); } catch (bad_variant_cast const &) { o.result = -1; } break; }
    case Op::tryconv: { variant x = From{7}; o.result = x.tryConvert<int>() ? iv(x) : -1; if (o.result == -1) RMC_CHECK(x.cref<From>().v == 7); break; }
    case Op::can: { variant x = From{7}; o.result = x.canConvert<int>(); break; }
    }
    else switch (o.k) {
    case Op::reg: o.result = MetaType::registerConverter<Via, int>(Functor2{o.arg}); break;
    case Op::unreg: MetaType::unregisterConverter<Via, int>(); o.result = 0; break;
    case Op::has: o.result = MetaType::hasConverter<Via, int>(); break;
    case Op::conv: case Op::tryconv: { variant x = Via{8}; try { o.result = x.to<int>(); } catch (bad_variant_cast const &) { o.result = -1; } break; }
    case Op::can: { variant x = Via{8}; o.result = x.canConvert<int>(); break; }
    }
    o.to = rmc::stamp();
    hist[rmc::thread()].push_back(o);
}

// sequential specification: state of a pair is the number of the registered converter, 0 if none
bool apply(int (&st)[2], Op const &o)
{
    int &s = st[o.pair]; int base = o.pair ? 8 : 7;
    switch (o.k) {
    case Op::reg: if (s) return o.result == 0; s = o.arg; return o.result == 1;
    case Op::unreg: s = 0; return true;
    case Op::has: case Op::can: return o.result == (s != 0);
    default: return o.result == ((s && s != 9) ? s * 100 + base : -1);
    }
}
bool linearize(std::size_t (&pos)[4], int (&st)[2])
{
    bool done = true; unsigned firstEnd = ~0u;
    for (int t = 0; t < 4; ++t) for (std::size_t k = pos[t]; k < hist[t].size(); ++k) { done = false; if (hist[t][k].to < firstEnd) firstEnd = hist[t][k].to; }
    if (done) return true;
    for (int t = 0; t < 4; ++t) if (pos[t] < hist[t].size()) {
        auto &o = hist[t][pos[t]];
        if (o.from > firstEnd) continue; // another operation ended before this one began
        int save[2] = {st[0], st[1]};
        if (apply(st, o)) { ++pos[t]; if (linearize(pos, st)) return true; --pos[t]; }
        st[0] = save[0]; st[1] = save[1];
    }
    return false;
}
int initial[2];
void verdict()
{
    std::string s;
    for (int t = 0; t < 4; ++t) { for (auto &o: hist[t]) s += std::string(1, "rux?c!"[o.k == Op::reg ? 0 : o.k == Op::unreg ? 1 : o.k == Op::conv ? 2 : o.k == Op::has ? 3 : o.k == Op::tryconv ? 4 : 5]) + std::to_string(o.result) + " "; s += "|"; }
    rmc::outcome(s);
    std::size_t pos[4] = {}; int st[2] = {initial[0], initial[1]};
    if (!linearize(pos, st)) rmc::fail("history has no linearization: " + s);
    // the final state answers consistently
    RMC_CHECK((MetaType::hasConverter<From, int>()) == variant{From{1}}.canConvert<int>());
}

void warm() { metaTypeId<From>(); metaTypeId<Via>(); metaTypeId<int>(); metaTypeId<From&>(); metaTypeId<From const&>(); metaTypeId<Via&>(); metaTypeId<int&>(); metaTypeId<int const&>();
    variant x = From{1}; variant y = Via{1}; variant z = 1; (void)x.tryConvert<int>(); (void)y.tryConvert<int>(); (void)(z.is<int>()); (void)z.cref<int>(); (void)x.cref<From>(); y = 1;
    MetaType::registerConverter<From, int>(Functor{4}); MetaType::unregisterConverter<From, int>(); MetaType::registerConverter<Via, int>(Functor2{4}); MetaType::unregisterConverter<Via, int>(); }

std::vector<Op> alphabet(int t) { return {{Op::reg, t + 1, 0, 0, 0, 0}, {Op::unreg, 0, 0, 0, 0, 0}, {Op::has, 0, 0, 0, 0, 0}, {Op::conv, 0, 0, 0, 0, 0}, {Op::tryconv, 0, 0, 0, 0, 0}}; }
std::string str(std::vector<Op> const &p) { std::string s; for (auto &o: p) s += o.k == Op::reg ? 'r' : o.k == Op::unreg ? 'u' : o.k == Op::has ? 'h' : o.k == Op::conv ? 'c' : o.k == Op::can ? 'q' : 't'; return s; }

Scenario make(std::vector<std::vector<Op>> programs, int init, int bound)
{
    Scenario s;
    s.name = init ? "present" : "absent";
    for (auto &p: programs) s.name += "_" + str(p) + (p.empty() || !p[0].pair ? "" : "2");
    s.setup = [init] { warm(); if (init) { MetaType::registerConverter<From, int>(Functor{8}); initial[0] = 8; } };
    for (auto &p: programs) s.threads.push_back([p] { for (auto &o: p) perform(o); });
    s.final = verdict;
    s.quickBound = bound;
    return s;
}

std::vector<Scenario> all(bool thorough)
{
    std::vector<Scenario> v;
    auto a0 = alphabet(0), a1 = alphabet(1), a2 = alphabet(2);
    auto words = [](std::vector<Op> const &a, unsigned n) { std::vector<std::vector<Op>> r{{}}; for (unsigned i = 0; i < n; ++i) { std::vector<std::vector<Op>> q; for (auto &w: r) for (auto &o: a) { q.push_back(w); q.back().push_back(o); } r = q; } return r; };
    // all programs of one and of two operations in two threads
    unsigned n = thorough ? 2 : 2;
    for (int init = 0; init < 2; ++init) {
        for (auto &p: words(a0, 1)) for (auto &q: words(a1, 1)) v.push_back(make({p, q}, init, rmc::Unbounded));
        for (auto &p: words(a0, n)) for (auto &q: words(a1, thorough ? 2 : 1)) v.push_back(make({p, q}, init, rmc::Unbounded));
        // three threads, one operation each
        for (auto &p: words(a0, 1)) for (auto &q: words(a1, 1)) for (auto &r: words(a2, 1)) if (str(p) <= str(q) && str(q) <= str(r)) v.push_back(make({p, q, r}, init, thorough ? rmc::Unbounded : 3));
    }
    // two pairs at once
    Op r2{Op::reg, 9, 0, 0, 0, 1}, r3{Op::reg, 3, 0, 0, 0, 1}, c2{Op::conv, 0, 0, 0, 0, 1}, u2{Op::unreg, 0, 0, 0, 0, 1}, q1{Op::can, 0, 0, 0, 0, 0}, q2{Op::can, 0, 0, 0, 0, 1};
    v.push_back(make({{r3, c2}, {a1[0], a1[3]}}, 0, rmc::Unbounded));
    v.push_back(make({{r2, c2, u2}, {a1[1], a1[0], a1[3]}}, 1, rmc::Unbounded));
    v.push_back(make({{a0[0], c2}, {r3, a1[3]}}, 0, rmc::Unbounded));
    v.push_back(make({{u2, r3, c2}, {r2, c2, q2}}, 0, rmc::Unbounded));
    v.push_back(make({{q1, a0[3]}, {a1[1], a1[0]}}, 1, rmc::Unbounded));
    v.push_back(make({{a0[1], a0[0], a0[3]}, {a1[3], a1[1], a1[3]}}, 1, rmc::Unbounded));
    v.push_back(make({{a0[0], a0[3], a0[1]}, {a1[0], a1[3], a1[1]}}, 0, rmc::Unbounded));
    v.push_back(make({{a0[0], a0[1]}, {a1[0], a1[1]}, {a2[3], a2[3]}}, 0, 2));
    v.push_back(make({{a0[3]}, {a1[1], a1[0]}, {a2[3]}}, 1, 2));
    return v;
}

} // namespace

int main(int argc, char **argv)
{
    bool thorough = false; for (int i = 1; i < argc; ++i) thorough |= std::string(argv[i]) == "--thorough";
    return rmc::main_(argc, argv, all(thorough));
}
