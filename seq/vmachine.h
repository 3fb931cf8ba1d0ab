// The machine of variant slots: all histories of operations against a reference model.
// The same machine runs without faults (V01) and with a fault at every place (V02).
#pragma once
#include "seq/vkinds.h"

namespace vmachine {

// value -> value converters known to the machine (plain functors)
struct Conv { int from, to; };
inline std::vector<Conv> &convs() { static std::vector<Conv> c; return c; }
template<typename From, typename To> void converter()
{
    MetaType::registerConverter<From, To>([](From const &f) { return Rep<To>::make(Rep<From>::get(f)); });
    convs().push_back({decayOf<From>(), decayOf<To>()});
}
inline bool hasConv(int from, int to) { for (auto &c: convs()) if (c.from == from && c.to == to) return true; return false; }

inline std::vector<Kind> const &kinds()
{
    static std::vector<Kind> const k = {
        kind<int>("int"), kind<Small>("small"), kind<Thrower>("thrower"), kind<Big>("big"), kind<std::string>("string"),
        kind<int[3]>("int[3]"), kind<Elem[2]>("elem[2]"), kind<Wide>("wide"), kind<CopySmall>("copyonly"), kind<MoveSmall>("moveonly"),
        kind<int, Hold::ref>("ref(int)"), kind<int, Hold::ref, 1>("ref(another int)"), kind<int, Hold::cref>("cref(int)"), kind<Small, Hold::ref>("ref(small)"), kind<Small, Hold::ref, 1>("ref(another small)"), kind<std::string, Hold::cref>("cref(string)"), kind<int[3], Hold::ref>("ref(int[3])"),
        kind<int *>("int*"), kind<CopyBig>("copybig"), kind<MoveBig>("movebig"), kind<Wide16>("wide16"), kind<Flat>("flat"),
        kind<std::shared_ptr<int>>("shared"), kind<Fn>("fn"), kind<Big, Hold::cref>("cref(big)"), kind<int *, Hold::ref>("ref(int*)"), kind<Thrower, Hold::ref>("ref(thrower)"), kind<double>("double"),
        kind<std::string[2]>("string[2]"), kind<int[2][2]>("int[2][2]"), kind<Elem[2], Hold::ref>("ref(elem[2])"),
        kind<Thrower[2]>("thrower[2]"), kind<MoveBig[2]>("movebig[2]"),
    };
    return k;
}

inline void prepare()
{
    kinds();
    auto outside = tracked::table;
    for (auto &k: kinds()) { variant v = k.make(0, 1); k.type(); (void)k.get(v); (void)k.is(v); (void)std::hash<variant>{}(v); if (k.convert) { variant w; try { k.convert(w); } catch (rtti::bad_variant_convert const &) {} } }
    converter<int, Small>(); converter<Small, int>(); converter<int, std::string>(); converter<std::string, int>();
    converter<int, Big>(); converter<Big, Thrower>(); converter<Thrower, int>(); converter<int, Wide>(); converter<int, CopySmall>();
    tracked::settle(outside);
    for (size_t i = 0; i < extSet().size(); ++i) extSet()[i](0);
}

struct Slot { int kind = -1, value = 0; };
constexpr int MAXSLOTS = 3;

struct Machine
{
    int const n; std::vector<int> const ks; bool const faults;
    variant v[MAXSLOTS]; Slot m[MAXSLOTS]; std::vector<int> ext;
    int fresh = 0;

    Machine(int slots, std::vector<int> k, bool f): n(slots), ks(std::move(k)), faults(f), ext(extSet().size(), 0)
    { for (size_t i = 0; i < ext.size(); ++i) extSet()[i](0); }

    int value(Slot const &s) const { auto &k = kinds()[size_t(s.kind)]; return k.ext >= 0 ? ext[size_t(k.ext)] : s.value; }

    bool agrees(int i) const
    {
        auto &s = m[i]; variant const &x = v[i];
        if (s.kind < 0) return x.empty();
        auto &k = kinds()[size_t(s.kind)];
        return !x.empty() && x.typeId() == k.type() && k.get(x) == k.norm(value(s)) && (k.ext < 0 || k.address(x) == extAddress()[size_t(k.ext)]);
    }
    void verify() const
    {
        for (int i = 0; i < n; ++i) {
            auto &s = m[i]; variant const &x = v[i];
            CHECK(x.empty() == (s.kind < 0)); CHECK(bool(x) == (s.kind >= 0));
            if (s.kind < 0) { CHECK(!x.typeId().valid()); for (int k: ks) CHECK(!kinds()[size_t(k)].is(x)); CHECK(std::hash<variant>{}(x) == std::hash<variant>{}(variant{})); continue; }
            auto &k = kinds()[size_t(s.kind)];
            CHECK(x.typeId() == k.type());
            if (k.get(x) != k.norm(value(s))) seq::fail("slot " + std::to_string(i) + " holds " + std::to_string(k.get(x)) + " instead of " + std::to_string(k.norm(value(s))));
            for (int o: ks) CHECK(kinds()[size_t(o)].is(x) == (kinds()[size_t(o)].decay == k.decay));
            if (k.ext >= 0) CHECK(k.address(x) == extAddress()[size_t(k.ext)]);
            else for (auto *a: extAddress()) CHECK(k.address(x) != a);
        }
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
            bool both = m[i].kind >= 0 && m[j].kind >= 0, eq = (m[i].kind < 0 && m[j].kind < 0);
            if (both) {
                auto &a = kinds()[size_t(m[i].kind)], &b = kinds()[size_t(m[j].kind)];
                eq = a.decay == b.decay && a.norm(value(m[i])) == b.norm(value(m[j]));
                if (i != j && a.ext < 0 && b.ext < 0) CHECK(a.address(v[i]) != b.address(v[j]));
            }
            CHECK_MSG((v[i] == v[j]) == eq, "slots " + std::to_string(i) + "," + std::to_string(j));
            if (eq) CHECK(std::hash<variant>{}(v[i]) == std::hash<variant>{}(v[j]));
        }
        for (size_t e = 0; e < ext.size(); ++e) CHECK(extGet()[e]() == ext[e]);
    }
    void remember() const
    {
        std::string t; // values are numbered by first occurrence
        std::vector<int> seen;
        auto num = [&](int x) { for (size_t i = 0; i < seen.size(); ++i) if (seen[i] == x) return int(i); seen.push_back(x); return int(seen.size()) - 1; };
        for (int i = 0; i < n; ++i) { t += std::to_string(m[i].kind) + ":"; if (m[i].kind >= 0) t += std::to_string(num(value(m[i]))); t += ","; }
        for (int k: ks) if (int e = kinds()[size_t(k)].ext; e >= 0) t += "/" + std::to_string(num(ext[size_t(e)]));
        seq::state(t);
    }

    // One operation. Its effect on the model is applied when it did not fail.
    void op()
    {
        Slot before[MAXSLOTS]; for (int i = 0; i < n; ++i) before[i] = m[i];
        bool failed = false; int touched = 0; // slots that may be empty after a fault
        auto kindAt = [&](int i) -> Kind const & { return kinds()[size_t(m[i].kind)]; };
        auto run = [&](auto &&f, bool mayThrow, char const *what) {
            if (faults) seq::arm(seq::thorough() ? 2 : 1);
            bool threw = false; std::string how;
            try { f(); }
            catch (seq::Injected const &) { seq::disarm(); threw = true; how = "injected"; }
            catch (std::bad_alloc const &) { seq::disarm(); threw = true; how = "bad_alloc"; }
            catch (std::exception const &e) { seq::disarm(); threw = true; how = e.what(); if (!mayThrow && !seq::injected()) { seq::fail(std::string(what) + " throws: " + how); } }
            seq::disarm();
            if (threw && !seq::injected() && !mayThrow) seq::fail(std::string(what) + " throws " + how);
            if (!threw && mayThrow && !seq::injected()) seq::fail(std::string(what) + " does not throw");
            failed = threw;
        };
        int per = 0; for (int k: ks) per += kinds()[size_t(k)].forms;
        int nConv = int(ks.size());
        int c = seq::choose(n * per + n * n * 2 + n * (n + 1) / 2 + n * 6 + 1 + n * nConv * 2);
        auto take = [&](int count) { if (c < count) return true; c -= count; return false; };
        if (take(n * per)) { // assignment of a value
            int i = c / per, r = c % per, ki = 0; while (r >= kinds()[size_t(ks[size_t(ki)])].forms) r -= kinds()[size_t(ks[size_t(ki++)])].forms;
            auto &k = kinds()[size_t(ks[size_t(ki)])]; int val = ++fresh;
            seq::note("v%d=%s%s(%d)", i, k.name, r == 0 ? "&&" : r == 1 ? "&" : " const&", val);
            touched = 1 << i;
            run([&] { k.assign(v[i], r, val); }, false, "assignment of a value");
            if (!failed) m[i] = {ks[size_t(ki)], val};
        }
        else if (take(n * n)) { // copy assignment
            int i = c / n, j = c % n; seq::note("v%d=v%d", i, j);
            touched = 1 << i;
            bool refuse = i != j && m[j].kind >= 0 && !kindAt(j).copyable;
            int how = (i + j + fresh) % 3; // from a constant, a mutable and an expiring constant variant alike
            run([&] { if (how == 0) v[i] = static_cast<variant const &>(v[j]); else if (how == 1) v[i] = v[j]; else v[i] = static_cast<variant const &&>(v[j]); }, refuse, "copy assignment");
            if (!failed) m[i] = m[j];
        }
        else if (take(n * n)) { // move assignment
            int i = c / n, j = c % n; seq::note("v%d=move(v%d)", i, j);
            run([&] { v[i] = std::move(v[j]); }, false, "move assignment");
            if (failed) seq::fail("move assignment throws");
            if (i != j) { m[i] = m[j]; m[j] = {}; }
        }
        else if (take(n * (n + 1) / 2)) {
            int i = 0; while (c >= n - i) c -= n - i, ++i; int j = i + c; seq::note("swap(v%d,v%d)", i, j);
            run([&] { using std::swap; swap(v[i], v[j]); }, false, "swap");
            if (failed) seq::fail("swap throws");
            std::swap(m[i], m[j]);
        }
        else if (take(n)) {
            seq::note("v%d.clear()", c); run([&] { v[c].clear(); }, false, "clear");
            if (failed) seq::fail("clear throws");
            m[c] = {};
        }
        else if (take(n)) { // through temporaries
            int i = c; seq::note("v%d=variant(move(v%d))", i, i);
            bool e = true;
            run([&] { variant t{std::move(v[i])}; e = v[i].empty(); v[i] = std::move(t); e = e && t.empty(); }, false, "move construction");
            if (failed) seq::fail("move construction throws");
            CHECK(e);
        }
        else if (take(n)) { // copy construction; the copy is equal, of the same type, and dies first
            int i = c; seq::note("variant(v%d)", i);
            bool refuse = m[i].kind >= 0 && !kindAt(i).copyable, ok = true;
            auto same = [&](variant &t) { seq::disarm(); ok = t == v[i] && t.typeId() == v[i].typeId() && (m[i].kind < 0 || (kindAt(i).ext >= 0) == (kindAt(i).address(t) == kindAt(i).address(v[i]))); };
            int how = fresh % 3;
            run([&] { if (how == 0) { variant t{static_cast<variant const &>(v[i])}; same(t); } else if (how == 1) { variant t{v[i]}; same(t); } else { variant t{static_cast<variant const &&>(v[i])}; same(t); } }, refuse, "copy construction");
            CHECK(ok);
        }
        else if (take(n)) { // write through a mutable reference
            int i = c, val = ++fresh; seq::note("v%d.ref()=%d", i, val);
            if (m[i].kind < 0) { bool t = false; try { v[i].ref<int>(); } catch (rtti::bad_variant_cast const &) { t = true; } CHECK(t); }
            else {
                auto &k = kindAt(i); bool t = false;
                try { k.write(v[i], val); } catch (rtti::bad_variant_cast const &) { t = true; }
                CHECK(t == (k.hold == Hold::cref));
                if (!t) { if (k.ext >= 0) ext[size_t(k.ext)] = k.norm(val); else m[i].value = val; }
            }
        }
        else if (take(2 * n)) { // assignment from the content of the variant itself
            bool move = c >= n; int i = c % n; seq::note("v%d=%sv%d.ref()", i, move ? "move of " : "", i);
            if (m[i].kind < 0 || !kindAt(i).own) return;
            touched = 1 << i;
            run([&] { kindAt(i).own(v[i], move); }, false, "assignment of the own content");
        }
        else if (take(1)) { // external objects change
            seq::note("ext");
            for (size_t e = 0; e < ext.size(); ++e) { extSet()[e](++fresh); ext[e] = extGet()[e](); }
        }
        else { // conversion
            bool t = c / (n * nConv); c %= n * nConv; int i = c / nConv; auto ki = ks[size_t(c % nConv)]; auto &k = kinds()[size_t(ki)];
            seq::note("v%d.%s<%s>", i, t ? "tryConvert" : "convert", k.name);
            if (!k.convert) return;
            touched = 1 << i;
            bool can = m[i].kind >= 0 && (hasConv(kindAt(i).decay, k.decay) || (kindAt(i).decay == k.decay));
            if (m[i].kind >= 0) CHECK(k.canConvert(v[i]) == can);
            bool r = true;
            if (t) {
                run([&] { r = k.tryConvert(v[i]); }, false, "tryConvert");
                if (failed) seq::fail("tryConvert throws");
                if (!seq::injected()) CHECK(r == can);
            }
            else run([&] { k.convert(v[i]); }, !can, "convert");
            if (!failed && r) m[i] = {ki, k.norm(value(m[i]))};
        }
        seq::step();
        if (failed || (faults && seq::injected())) // previous value or empty, nothing else changed
            for (int i = 0; i < n; ++i) {
                if (agrees(i)) continue;
                if (!(touched >> i & 1)) seq::fail("slot " + std::to_string(i) + " was changed by the failure of another");
                m[i] = {};
                if (!agrees(i)) seq::fail("slot " + std::to_string(i) + " has neither its previous value nor is it empty after the failure");
            }
        verify(); remember();
    }
    void history(int depth)
    {
        remember(); for (int d = 0; d < depth; ++d) op();
        for (int i = 0; i < n; ++i) v[i].clear();
        for (int i = 0; i < n; ++i) CHECK(v[i].empty());
    }
};

inline void histories(int slots, std::vector<int> ks, int depth, bool faults)
{
    auto outside = tracked::table;             // external objects
    { Machine m(slots, std::move(ks), faults); m.history(depth); }
    tracked::settle(outside);
}

// arrays decay to pointers: a variant converted to a pointer into itself is not a meaningful history
inline bool together(int a, int b)
{
    auto arr = [](int k) { return kinds()[size_t(k)].decay == decayOf<int[3]>(); };
    auto ptr = [](int k) { return kinds()[size_t(k)].decay == decayOf<int *>(); };
    return !(arr(a) && ptr(b)) && !(arr(b) && ptr(a));
}

} // namespace vmachine

