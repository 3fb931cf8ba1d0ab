// R04: a class has at most one metaclass and misuse is reported
#include "seq/regmodel.h"
#include <set>
using namespace reg;

namespace {

struct B1 { int x = 1; bool operator==(B1 const &) const { return true; } }; struct B2 { virtual ~B2() = default; int y = 2; };
struct D: B1, B2 { int z = 3; };
struct Host {};
template<int N> int fun() { return N; }
using Fun = int (*)();
Fun const funs[] = {fun<0>, fun<1>, fun<2>, fun<3>, fun<4>, fun<5>, fun<6>, fun<7>};

template<typename K> void constructors(Node *n)
{
    if (std::is_default_constructible_v<K>) n->define(mcatConstructor, "d_constructor");
    if (std::is_copy_constructible_v<K>) n->define(mcatConstructor, "c_constructor");
    if (std::is_move_constructible_v<K>) n->define(mcatConstructor, "m_constructor");
}
// the class is found through everything that tells the type
template<typename K> void ways(MetaItem const *addr)
{
    K k{}; K const &ck = k;
    auto same = [addr](MetaClass const *c, char const *what) { if (static_cast<MetaItem const *>(c) != addr) seq::fail(std::string("class of ") + what + (addr ? c ? " is another one" : " is not found" : " is found though it is not registered")); };
    same(MetaClass::find(metaTypeId<K>()), "the type"); same(MetaClass::find(type_name<K>()), "the name of the type"); same(metaType<K>().metaClass(), "the description of the type");
    variant v{k}, r{std::ref(k)}, c{std::cref(k)}, p{&k}, pc{&ck};
    variant const cv{k}, cr{std::ref(k)};
    same(v.metaClass(), "a variant holding a value"); same(r.metaClass(), "a variant holding a reference"); same(c.metaClass(), "a variant holding a constant reference");
    same(p.metaClass(), "a variant holding a pointer"); same(pc.metaClass(), "a variant holding a pointer to constant"); same(cv.metaClass(), "a constant variant"); same(cr.metaClass(), "a constant variant holding a reference");
    if (variant{}.metaClass()) seq::fail("class of an empty variant");
}

enum Type { tB1, tB2, tD, tHost };
struct World
{
    Node root; Checker check; Node *of[4] = {}; // registered classes
    std::map<Node *, int> pending;              // deferred definitions: number of the function they add
    int serial = 0;
    World()
    {
        root.addr = MetaNamespace::global();
        check.names = {"a", "b", "n", "h", "lazy0()", "after()", "after", "d_constructor", "m_constructor", "c_constructor", "B1"};
        for (auto n: {type_name<B1>(), type_name<B2>(), type_name<D>()}) check.names.emplace_back(n);
        check.extra = [](Node const &n, MetaItem const *it) { if (n.cat == mcatMethod && static_cast<MetaMethod const *>(it)->invoke().to<int>() != n.tag) Checker::bad(n, "is another function"); };
        global_define()._namespace("n")._end()._class<Host>("h")._end();
        root.define(mcatNamespace, "n");
        add<Host>(&root, "h", tHost);
    }
    template<typename K> void add(Node *at, std::string const &name, Type t)
    { auto k = at->define(mcatClass, name); k->type = metaTypeId<K>(); constructors<K>(k); of[t] = k; check.classes.push_back(k); }
    Node *place(int i) { return i == 0 ? &root : i == 1 ? root.find(mcatNamespace, "n") : of[tHost]; }
    void force(Node *n)
    {
        auto p = pending.find(n); if (p == pending.end()) return;
        int i = p->second; pending.erase(p); n->define(mcatMethod, "lazy" + std::to_string(i) + "()", i);
    }
    template<typename F> static void at(int i, F f)
    { auto g = global_define(); if (i == 0) f(static_cast<Root const &>(g)); else if (i == 1) f(g._namespace("n")); else f(g._class<Host>("h")); }
    // the builder goes on in the container it was in
    template<typename B> void after(B b, Node *n) { force(n); b._method("after", funs[serial]); n->define(mcatMethod, "after()", serial); }

    template<typename K> void registration(Type t, int where, std::string const &name, bool unnamed)
    {
        Node *n = place(where); std::string nm = unnamed ? std::string{type_name<K>()} : name;
        seq::note("class %d in %s as %s;", int(t), where == 0 ? "global" : where == 1 ? "n" : "h", unnamed ? "(unnamed)" : nm.c_str());
        force(n);
        Node *have = n->find(mcatClass, nm); bool refuse = have ? have->type != metaTypeId<K>() : of[t] != nullptr;
        bool threw = false;
        at(where, [&](auto b) {
            using T = typename ClassOf<decltype(b)>::type;
            if constexpr(!std::is_same_v<T, K>) {
                try { auto k = unnamed ? b.template _class<K>() : b.template _class<K>(nm); (void)k; if (refuse) seq::fail("registration is not refused"); if (!have) add<K>(n, nm, t); after(k, of[t]); }
                catch (duplicate_metaclass const &) { threw = true; after(b, n); }
                catch (std::exception const &e) { seq::fail(std::string("wrong exception: ") + e.what()); }
            }
        });
        if (threw && !refuse) seq::fail("registration is refused");
    }
    // the class D is opened where it is
    template<typename F> void openD(F f)
    {
        Node *n = of[tD]; int where = n->owner == &root ? 0 : n->owner == of[tHost] ? 2 : 1;
        at(where, [&](auto b) { f(b.template _class<D>(n->name)); });
    }
    void bases(int which)
    {
        static char const *const text[] = {"B1", "B2", "B1, B2", "B2, B1", "B1, B1", "Host?"};
        Node *n = of[tD]; seq::note("base %s%s;", text[which], n ? "" : " (not registered)");
        if (!n) return;
        force(n->owner); force(n);
        std::vector<Type> want; if (which == 0) want = {tB1}; if (which == 1) want = {tB2}; if (which == 2) want = {tB1, tB2}; if (which == 3) want = {tB2, tB1}; if (which == 4) want = {tB1, tB1};
        bool refuse = false; for (auto t: want) refuse |= !of[t];
        bool threw = false;
        openD([&](auto b) {
            try { if (which == 0) b.template _base<B1>(); else if (which == 1) b.template _base<B2>(); else if (which == 2) b.template _base<B1, B2>(); else if (which == 3) b.template _base<B2, B1>(); else b.template _base<B1, B1>(); }
            catch (unregistered_metaclass const &) { threw = true; }
            catch (std::exception const &e) { seq::fail(std::string("wrong exception: ") + e.what()); }
            if (threw != refuse) seq::fail(threw ? "base is refused" : "base that is not registered is accepted");
            if (!threw) for (auto t: want) n->base(of[t]);
            after(b, n);
        });
    }
    void lazy(int which, bool go)
    {
        Node *n = which == 0 ? place(1) : which == 1 ? of[tHost] : of[tD];
        seq::note("lazy on %s%s;", which == 0 ? "n" : which == 1 ? "h" : "D", n ? "" : " (not registered)");
        if (n && which == 2) force(n->owner);
        if (!n || (attached.count(n) && (n->isClass() || !pending.count(n)))) return; // what happens after the first one was run is not specified; a class may be run when it is opened again
        bool refuse = pending.count(n), threw = false; int i = serial;
        auto attach = [&](auto b) {
            using T = typename ClassOf<decltype(b)>::type;
            std::string name = "lazy" + std::to_string(i);
            try { b._lazy([name, i](meta_define<T> m) { m._method(name, funs[i]); }); }
            catch (definition_error const &) { threw = true; }
            if (threw != refuse) seq::fail(threw ? "deferred definition is refused" : "second deferred definition is accepted");
            if (!threw) pending[n] = i;
            if (go) {
                bool second = false; try { b._lazy([](meta_define<T> m) { m._method("never", funs[7]); }); } catch (definition_error const &) { second = true; }
                if (!second) seq::fail("second deferred definition is accepted");
                after(b, n);
            }
        };
        if (which == 0) at(1, [&](auto b) { if constexpr(!std::is_same_v<decltype(b), Root>) attach(b); });
        else if (which == 1) at(2, attach); else openD(attach);
        attached.insert(n);
    }
    std::set<Node *> attached;

    void verify()
    {
        std::vector<Node *> todo; for (auto &p: pending) todo.push_back(p.first); for (auto n: todo) force(n);
        check.all(root, root.addr);
        ways<B1>(of[tB1] ? of[tB1]->addr : nullptr); ways<B2>(of[tB2] ? of[tB2]->addr : nullptr); ways<D>(of[tD] ? of[tD]->addr : nullptr); ways<Host>(of[tHost]->addr);
        seq::state(root.print());
    }
    void op(bool full)
    {
        seq::step();
        int places = full ? 3 : 2, regs = 3 * places * 2;
        int c = seq::choose(regs + (full ? 5 + 3 + 3 + 3 : 5 + 2));
        if (c < regs) {
            int t = c / (places * 2); c %= places * 2; int where = c / 2; std::string nm = c % 2 ? "b" : "a";
            if (t == 0) registration<B1>(tB1, where, nm, false); else if (t == 1) registration<B2>(tB2, where, nm, false); else registration<D>(tD, where, nm, false);
        }
        else if (c -= regs; c < 5) bases(c);
        else if (c -= 5; full && c < 3) { if (c == 0) registration<B1>(tB1, 1, "", true); else if (c == 1) registration<B2>(tB2, 0, "", true); else registration<D>(tD, 2, "", true); }
        else { if (full) c -= 3; int which = full ? c % 3 : c == 0 ? 0 : 2; lazy(which, full && c >= 3); }
        ++serial;
    }
};
void history(int depth, bool full)
{
    World w;
    for (int d = 0; d < depth; ++d) { if (seq::choose(2)) { w.verify(); } w.op(full); }
    w.verify();
}

// ---- bases named in any order, repeatedly and for several classes
struct D2: B2, B1 {}; struct DD: D, Host {};
template<typename K, typename... B> void nameBases(char const *name) { auto g = global_define(); g._class<K>(name).template _base<B...>(); }
void namedBases()
{
    Node root; Checker check; root.addr = MetaNamespace::global(); check.names = {"d_constructor", "m_constructor", "c_constructor"};
    std::map<std::string, Node *> of;
    auto add = [&](auto *k, char const *name) { using K = std::remove_pointer_t<decltype(k)>; { auto g = global_define(); g._class<K>(name); } auto n = root.define(mcatClass, name); n->type = metaTypeId<K>(); constructors<K>(n); of[name] = n; check.classes.push_back(n); check.names.push_back(name); };
    add((B1 *)0, "B1"); add((B2 *)0, "B2"); add((Host *)0, "Host"); add((D *)0, "D"); add((D2 *)0, "D2"); add((DD *)0, "DD");
    int depth = seq::thorough() ? 6 : 4;
    for (int i = 0; i < depth; ++i) {
        static char const *const text[] = {"D: B1;", "D: B2;", "D2: B1;", "D2: B2, B1;", "DD: D;", "DD: Host, D;", "DD: B1;", "nothing;"};
        int op = seq::choose(8); seq::note("%s", text[op]); seq::step();
        auto is = [&](char const *k, std::initializer_list<char const *> bases) { for (auto b: bases) of[k]->base(of[b]); };
        switch (op) {
        case 0: nameBases<D, B1>("D"); is("D", {"B1"}); break; case 1: nameBases<D, B2>("D"); is("D", {"B2"}); break;
        case 2: nameBases<D2, B1>("D2"); is("D2", {"B1"}); break; case 3: nameBases<D2, B2, B1>("D2"); is("D2", {"B2", "B1"}); break;
        case 4: nameBases<DD, D>("DD"); is("DD", {"D"}); break; case 5: nameBases<DD, Host, D>("DD"); is("DD", {"Host", "D"}); break;
        case 6: nameBases<DD, B1>("DD"); is("DD", {"B1"}); break;
        default: if (i + 1 < depth) return;
        }
        check.all(root, root.addr); seq::state(root.print());
    }
}

// ---- constructors are offered exactly when C++ has them
struct All { int v = 1; };
struct NoDefault { int v; explicit NoDefault(int x): v(x) {} };
struct CopyOnly { int v = 1; CopyOnly() = default; CopyOnly(CopyOnly const &o): v(o.v) {} CopyOnly(CopyOnly &&) = delete; };
struct CopyNoDefault { int v; explicit CopyNoDefault(int x): v(x) {} CopyNoDefault(CopyNoDefault const &o): v(o.v) {} };
struct MoveOnly { int v = 1; MoveOnly() = default; MoveOnly(MoveOnly &&o): v(o.v) { o.v = -1; } };
struct MoveNoDefault { int v; explicit MoveNoDefault(int x): v(x) {} MoveNoDefault(MoveNoDefault &&o): v(o.v) { o.v = -1; } };
struct Nothing { int v; explicit Nothing(int x): v(x) {} Nothing(Nothing const &) = delete; };
struct Abstract { int v = 1; virtual int f() = 0; virtual ~Abstract() = default; };
struct HiddenDefault { int v; static HiddenDefault make(int x) { return HiddenDefault{x}; } HiddenDefault(HiddenDefault const &) = default; private: explicit HiddenDefault(int x): v(x) {} HiddenDefault(); };
struct Both { int v = 1; Both() = default; Both(Both const &o): v(o.v) {} Both(Both &&o): v(o.v) { o.v = -1; } };
struct Explicit { int v = 1; explicit Explicit() = default; };
struct Aggregate { int v = 1; int w = 2; };
union Uni { int v; char c; };
struct Derived: Both { using Both::Both; };

template<typename K> struct Case
{
    static void run()
    {
        seq::note("%s", std::string{type_name<K>()}.c_str());
        constexpr bool d = std::is_default_constructible_v<K>, c = std::is_copy_constructible_v<K>, m = std::is_move_constructible_v<K>;
        int where = seq::choose(3); bool again = seq::choose(2);
        auto reg = [&] {
            auto g = global_define();
            if (where == 0) g._class<K>("k"); else if (where == 1) g._namespace("n")._class<K>("k"); else g._class<Host>("h")._class<K>("k");
        };
        reg(); if (again) reg();
        auto const *root = MetaNamespace::global();
        auto k = where == 0 ? root->getClass("k") : where == 1 ? root->getNamespace("n")->getClass("k") : root->getClass("h")->getClass("k");
        CHECK(k); CHECK(k == MetaClass::find(metaTypeId<K>()));
        CHECK(bool(k->defaultConstructor()) == d); CHECK(bool(k->copyConstructor()) == c); CHECK(bool(k->moveConstructor()) == m);
        CHECK(k->constructorCount() == size_t(d) + c + m); CHECK(!k->getConstructor());
        std::set<MetaConstructor const *> all{k->defaultConstructor(), k->copyConstructor(), k->moveConstructor()}; all.erase(nullptr);
        CHECK(all.size() == k->constructorCount());
        for (size_t i = 0; i < k->constructorCount(); ++i) CHECK(all.count(k->getConstructor(i)) && k->getConstructor(i)->owner() == k);
        CHECK(!k->methodCount() && !k->propertyCount() && !k->attributeCount() && !k->baseClassCount() && !k->enumCount() && !k->classCount() && !k->namespaceCount());
        if constexpr(std::is_copy_constructible_v<K> && !std::is_union_v<K>) {
            auto source = [] { if constexpr(std::is_same_v<K, HiddenDefault>) return new K(HiddenDefault::make(5)); else if constexpr(std::is_default_constructible_v<K>) { auto p = new K(); p->v = 5; return p; } else return new K(5); };
            std::unique_ptr<K> x{source()};
            variant v = k->copyConstructor()->invoke(*x);
            CHECK(v.is<K>() && v.cref<K>().v == 5 && x->v == 5 && v.metaClass() == k);
            if constexpr(m) { variant w = k->moveConstructor()->invoke(std::move(*x)); CHECK(w.is<K>() && w.cref<K>().v == 5); if (std::is_same_v<K, Both> || std::is_same_v<K, MoveOnly>) CHECK(x->v == -1); }
        }
        else if constexpr(m && !std::is_union_v<K>) {
            auto source = [] { if constexpr(std::is_default_constructible_v<K>) { auto p = new K(); p->v = 5; return p; } else return new K(5); };
            std::unique_ptr<K> x{source()};
            variant w = k->moveConstructor()->invoke(std::move(*x)); CHECK(w.is<K>() && w.cref<K>().v == 5 && x->v == -1);
        }
        if constexpr(d && (c || m)) { variant v = k->defaultConstructor()->invoke(); CHECK(v.is<K>() && v.metaClass() == k); if constexpr(!std::is_union_v<K>) CHECK(v.cref<K>().v == 1); }
        seq::step(); seq::state(std::string{type_name<K>()} + std::to_string(where));
    }
};
template<typename... K> void offered()
{
    using R = void (*)(); static R const r[] = {Case<K>::run...};
    global_define()._namespace("n")._end()._class<Host>("h");
    r[seq::choose(int(sizeof...(K)))]();
}

} // namespace

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    g.push_back({"constructors offered", offered<All, NoDefault, CopyOnly, CopyNoDefault, MoveOnly, MoveNoDefault, Nothing, Abstract, HiddenDefault, Both, Explicit, Aggregate, Derived>, nullptr, true, false, false, 1});
    g.push_back({"bases", namedBases, nullptr, true, false, false, 1});
    g.push_back({"histories of registrations, all operations", [] { history(seq::thorough() ? 4 : 2, true); }, nullptr, true, false, false, 2});
    g.push_back({"histories of registrations", [] { history(seq::thorough() ? 4 : 3, false); }, nullptr, true, false, false, 2});
    seq::main_(argc, argv, g);
}
