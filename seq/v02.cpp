// V02: lifetimes balance under every fault
#include "seq/vmachine.h"
using namespace vmachine;

struct NoDefault: tracked::Obj<11, 24, false>
{
    using Base = tracked::Obj<11, 24, false>; NoDefault() = delete; explicit NoDefault(int v): Base(v) {}
    NoDefault(NoDefault const &o): Base(o, 0) {} NoDefault(NoDefault &&o): Base(static_cast<Base &>(o), true) {}
    bool operator==(NoDefault const &o) const { return Base::operator==(o); }
};
struct Pinned: tracked::Obj<12, 24, false>
{
    using Base = tracked::Obj<12, 24, false>; using Base::Base; Pinned() = default; Pinned(Pinned const &) = delete;
    bool operator==(Pinned const &o) const { return Base::operator==(o); }
};

// Runs `f` with faults; true: it returned. The exception must be the injected one, or (refused) an rtti error
template<typename F> bool attempt(F &&f, bool refused, char const *what)
{
    seq::arm(seq::thorough() ? 2 : 1);
    bool threw = false;
    try { f(); }
    catch (seq::Injected const &) { seq::disarm(); threw = true; }
    catch (std::bad_alloc const &) { seq::disarm(); threw = true; if (!seq::injected()) seq::fail(std::string(what) + ": bad_alloc"); }
    catch (rtti::runtime_error const &e) { seq::disarm(); threw = true; if (!refused && !seq::injected()) seq::fail(std::string(what) + " throws " + e.what()); }
    seq::disarm();
    if (refused && !threw) seq::fail(std::string(what) + " does not throw");
    seq::step(); seq::state(std::string(what) + (threw ? "!" : "") + (seq::injected() ? "F" : ""));
    return !threw;
}

// ---- objects made through their type description
template<typename T> struct Made
{
    // what an object shows that was default constructed or moved from
    static int left(T const &x)
    {
        if constexpr(std::is_same_v<T, std::shared_ptr<int>>) return x ? *x : -1;
        else if constexpr(std::is_same_v<T, std::string>) return int(x.size());
        else return Rep<T>::get(x);
    }
    static void run()
    {
        auto outside = tracked::table;
        MetaType type{metaTypeId<T>()};
        int form = seq::choose(3); // default, copy, move
        seq::note("construct form %d", form);
        {
            Holder<T> h{7};
            void *p = nullptr;
            bool refused = form == 0 ? !std::is_default_constructible_v<T> : form == 1 ? !copyable<T> : !std::is_move_constructible_v<std::remove_all_extents_t<T>>;
            if (attempt([&] { p = type.construct(form ? &h.x : nullptr, form == 2); }, refused, "construct")) {
                auto &x = *static_cast<T *>(p);
                CHECK(std::uintptr_t(p) % alignof(T) == 0);
                if (form) CHECK(Rep<T>::get(x) == Rep<T>::get(Holder<T>{7}.x));
                if constexpr(std::is_default_constructible_v<T> && !std::is_trivially_default_constructible_v<T> && !std::is_array_v<T>) if (!form) { T t{}; CHECK(left(x) == left(t)); }
                if constexpr(std::is_move_constructible_v<T>) if (form == 2) { Holder<T> as{7}; T moved(std::move(as.x)); (void)moved; CHECK(left(h.x) == left(as.x)); } // moved, not copied
                if constexpr(std::is_array_v<T>) if (form == 2) { using B = std::remove_extent_t<T>; Holder<B> as{7}; B moved(std::move(as.x)); (void)moved; for (auto &e: h.x) CHECK(Made<B>::left(e) == Made<B>::left(as.x)); }
                Rep<T>::set(x, 9); CHECK(Rep<T>::get(x) == identity<T>(9));
                type.destruct(p);
            }
            if (form == 1) CHECK(Rep<T>::get(h.x) == identity<T>(7));
        }
        tracked::settle(outside);
    }
};
template<typename... T> void made()
{
    using R = void (*)(); static R const r[] = {Made<T>::run...};
    int i = seq::choose(int(sizeof...(T))); seq::note("type %d", i); seq::state("type" + std::to_string(i)); r[i]();
}
void construct()
{ made<int, Small, Thrower, Big, std::string, Wide, Wide16, CopySmall, CopyBig, MoveSmall, MoveBig, NoDefault, Pinned, double, int *, Flat, std::shared_ptr<int>, Small[2], Thrower[3], int[4]>(); }

// ---- values taken out of variants, comparisons with values, with plain and reporting converters
int mode; // what the reporting converter does: 0 reports success, 1 failure, 2 throws
void prepareTo()
{
    prepare();
    MetaType::registerConverter<Thrower, NoDefault>([](Thrower const &x, bool &ok) { ok = mode == 0; if (mode == 2) throw seq::Injected{}; return NoDefault{x.get()}; });
    MetaType::registerConverter<Big, NoDefault>([](Big const &x) { if (mode == 2) throw seq::Injected{}; return NoDefault{x.get()}; });
    { variant v{NoDefault{1}}; v.to<NoDefault>(); v.eq(NoDefault{1}); }
}
template<typename T> void taken(Kind const &k, int what, bool has, bool reporting)
{
    auto outside = tracked::table;
    {
        variant v = k.make(0, 5);
        if (k.ext >= 0) extSet()[size_t(k.ext)](5);
        bool same = k.decay == decayOf<T>();
        bool can = same || (has && (mode == 0 || (mode == 1 && !reporting)));
        std::optional<Holder<T>> h; h.emplace(5);
        bool anyThrow = has && mode == 2 && reporting && what != 4;
        auto guarded = [&](auto &&f, bool refused, char const *n) {
            if (!anyThrow) return attempt(f, refused, n);
            bool threw = false; try { f(); } catch (seq::Injected const &) { threw = true; }
            if (!threw) seq::fail(std::string(n) + ": the exception of the converter is lost");
            seq::step(); return false;
        };
        if (what == 0) {
            int got = -1;
            if (guarded([&] { T t = v.to<T>(); seq::disarm(); got = Rep<T>::get(t); }, !can, "to")) CHECK(got == identity<T>(5));
        }
        else if (what == 1) {
            int got = -1;
            if (guarded([&] { variant const &c = v; T t = c.to<T>(); seq::disarm(); got = Rep<T>::get(t); }, !can, "to const")) CHECK(got == identity<T>(5));
        }
        else if (what == 2) {
            bool r = false; bool back = hasConv(decayOf<T>(), k.decay);
            tracked::comparisonsFail = true; bool done = guarded([&] { r = v.eq(h->x); }, false, "eq"); tracked::comparisonsFail = false;
            if (done && !seq::injected()) CHECK(r == (can || (back && !has)) || (back && has));
        }
        else if (what == 4) { // two variants are compared
            std::optional<variant> w; w.emplace(h->x); bool r = false;
            tracked::comparisonsFail = true; bool done = guarded([&] { r = v == *w; seq::disarm(); }, false, "=="); tracked::comparisonsFail = false;
            if (done && !seq::injected()) CHECK(r == same);
            CHECK(w->typeId() == metaTypeId<T>()); CHECK(Rep<T>::get(w->cref<T>()) == identity<T>(5));
        }
        else {
            bool r = false; variant before; if (k.copyable) before = v;
            { seq::arm(1); r = v.tryConvert<T>(); seq::disarm(); seq::step(); }
            if (!seq::injected()) CHECK(r == can);
            if (r) { CHECK(v.typeId() == metaTypeId<T>()); CHECK(Rep<T>::get(v.cref<T>()) == identity<T>(5)); }
            else { CHECK(v.typeId() == k.type()); if (k.copyable) CHECK(v == before); }
        }
        if (what != 3) CHECK(v.typeId() == k.type() && k.get(v) == k.norm(5));
    }
    if (k.ext >= 0) extSet()[size_t(k.ext)](0);
    tracked::settle(outside);
}
void takeOut()
{
    int i = seq::choose(int(kinds().size())); auto &k = kinds()[size_t(i)];
    int what = seq::choose(5); mode = 0;
    int t = seq::choose(8);
    seq::note("%s %s type %d", k.name, what == 0 ? "to" : what == 1 ? "const to" : what == 2 ? "eq" : what == 3 ? "tryConvert" : "==", t);
    bool toNo = k.decay == decayOf<Thrower>() || k.decay == decayOf<Big>();
    if (t == 0 && toNo) { mode = seq::choose(3); seq::note("mode %d", mode); }
    seq::state(std::string(k.name) + "/" + std::to_string(what) + "/" + std::to_string(t) + "/" + std::to_string(mode));
    switch (t) {
    case 0: taken<NoDefault>(k, what == 3 && k.decay == decayOf<Thrower>() ? 0 : what, toNo, k.decay == decayOf<Thrower>()); break;
    case 1: taken<Small>(k, what, hasConv(k.decay, decayOf<Small>()), false); break;
    case 2: taken<Thrower>(k, what, hasConv(k.decay, decayOf<Thrower>()), false); break;
    case 3: taken<Big>(k, what, hasConv(k.decay, decayOf<Big>()), false); break;
    case 4: taken<std::string>(k, what, hasConv(k.decay, decayOf<std::string>()), false); break;
    case 5: taken<Wide>(k, what, hasConv(k.decay, decayOf<Wide>()), false); break;
    case 6: taken<CopySmall>(k, what, hasConv(k.decay, decayOf<CopySmall>()), false); break;
    case 7: taken<CopyBig>(k, what, hasConv(k.decay, decayOf<CopyBig>()), false); break;
    }
}

int main(int argc, char **argv)
{
    tracked::judgeLeftovers = true;
    int const n = int(kinds().size());
    auto pairs = [n](int slots, int depth, std::vector<int> apart) {
        return [=] {
            int i = seq::choose(n), j;
            if (apart.empty()) j = i + seq::choose(n - i); else j = (i + apart[size_t(seq::choose(int(apart.size())))]) % n;
            if (!together(i, j)) return;
            histories(slots, i == j ? std::vector<int>{i} : std::vector<int>{i, j}, depth, true);
        };
    };
    std::vector<seq::Group> g;
    g.push_back({"one slot, one kind, depth 3", [=] { histories(1, {seq::choose(n)}, 3, true); }, prepare, false, true, false, 2});
    g.push_back({"two slots, all pairs of kinds, depth 2", pairs(2, 2, {}), prepare, false, true, false, 3});
    g.push_back({"two slots, pairs of kinds, depth 3", pairs(2, 3, {1, 2}), prepare, false, true, false, 3});
    g.push_back({"two slots, all pairs of kinds, depth 3", pairs(2, 3, {}), prepare, false, true, true, 3});
    g.push_back({"objects made through type descriptions", construct, prepare, false, true, false, 2});
    g.push_back({"values taken out of variants and compared", takeOut, prepareTo, false, true, false, 2});
    seq::main_(argc, argv, g);
}
