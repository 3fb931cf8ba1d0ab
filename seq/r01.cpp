// R01: containers form a faithful tree of uniquely named items in definition order
#include "seq/regmodel.h"
#include <unistd.h>
using namespace reg;

namespace {

// every definition is told from the others of its name: a repeated one has to leave the first
template<int N> int f0() { return N; }
template<int N> int f1(int x) { return x + N; }
template<int N> int f2(char) { return N; }
int vars[12] = {100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111};
template<typename F, F... f> F pick(int i) { static F const t[] = {f...}; return t[i]; }
auto m0(int i) { return pick<int (*)(), f0<0>, f0<1>, f0<2>, f0<3>, f0<4>, f0<5>, f0<6>, f0<7>>(i); }
auto m1(int i) { return pick<int (*)(int), f1<0>, f1<1>, f1<2>, f1<3>, f1<4>, f1<5>, f1<6>, f1<7>>(i); }
auto m2(int i) { return pick<int (*)(char), f2<0>, f2<1>, f2<2>, f2<3>, f2<4>, f2<5>, f2<6>, f2<7>>(i); }
void behaves(Node const &n, MetaItem const *it)
{
    if (n.cat == mcatProperty) { auto v = static_cast<MetaProperty const *>(it)->get(); if (&v.cref<int>() != &vars[n.tag]) Checker::bad(n, "is not the variable it was defined with first"); }
    if (n.cat == mcatMethod) {
        auto m = static_cast<MetaMethod const *>(it); auto args = n.name.substr(n.name.find('('));
        int r = args == "()" ? m->invoke().to<int>() : args == "(int)" ? m->invoke(1000).to<int>() - 1000 : m->invoke('x').to<int>();
        if (r != n.tag) Checker::bad(n, "is not the function it was defined with first");
    }
}
enum class E0 { x }; enum class E1 { y };
struct K0 { int m = 0; }; struct K1 { int m = 1; explicit K1(int) {} K1() {} }; struct K2 { K2(K2 const &) = delete; };

struct Hist
{
    Checker check; Node *rootNode; std::function<void()> verify;
    std::vector<Node *> path; int left = 0; bool withClasses = false;
    int serial = 0; // number of the operation
};

template<typename K> void constructors(Node *n)
{
    if (std::is_default_constructible_v<K>) n->define(mcatConstructor, "d_constructor");
    if (std::is_copy_constructible_v<K>) n->define(mcatConstructor, "c_constructor");
    if (std::is_move_constructible_v<K>) n->define(mcatConstructor, "m_constructor");
}

template<typename B> void run(B b, Hist &h);
template<typename K, typename B> void openClass(B b, Hist &h, char const *name, char const *kname)
{
    Node *n = h.path.back(); auto type = metaTypeId<K>();
    seq::note("class %s %s;", kname, name);
    Node *have = n->find(mcatClass, name), *reg = nullptr;
    for (auto c: h.check.classes) if (c->type == type) reg = c;
    bool refuse = have ? have->type != type : reg != nullptr;
    seq::step();
    try {
        auto inner = b.template _class<K>(name);
        if (refuse) seq::fail("registration is not refused");
        auto k = n->define(mcatClass, name);
        if (!have) { k->type = type; constructors<K>(k); h.check.classes.push_back(k); }
        h.path.push_back(k); run(inner, h); return;
    }
    catch (duplicate_metaclass const &) { if (!refuse) seq::fail("registration is refused"); }
    run(b, h);
}
template<typename B> void run(B b, Hist &h)
{
    h.verify();
    if (!h.left--) return;
    int i = h.serial++;
    using T = typename ClassOf<B>::type; constexpr int depth = DepthOf<B>::value; constexpr int maxDepth = 4;
    Node *n = h.path.back();
    auto method = [&](char const *name, auto f, char const *args) { seq::note("method %s%s;", name, args); seq::step(); n->define(mcatMethod, std::string(name) + args, i); b._method(name, f); run(b, h); };
    auto property = [&](char const *name) { seq::note("property %s;", name); seq::step(); n->define(mcatProperty, name, i); b._property(name, &vars[i]); run(b, h); };
    auto enumeration = [&](char const *name, auto e) { seq::note("enum %s;", name); seq::step(); n->define(mcatEnum, name); b.template _enum<decltype(e)>(name); run(b, h); };
    auto ns = [&](char const *name) {
        if constexpr(std::is_void_v<T> && depth < maxDepth) { seq::note("namespace %s;", name); seq::step(); h.path.push_back(n->define(mcatNamespace, name)); run(b._namespace(name), h); }
    };
    auto end = [&] {
        if constexpr(depth > 0) if (h.path.size() > 1) { seq::note("end;"); seq::step(); h.path.pop_back(); run(b._end(), h); }
    };
    auto cls = [&](auto tag, char const *name, char const *kname) {
        using K = typename decltype(tag)::type;
        if constexpr(depth < 3 && !std::is_same_v<K, T>) openClass<K>(b, h, name, kname);
    };
    (void)cls;
    if (!h.withClasses)
        switch (seq::choose(11)) {
        case 0: end(); break;
        case 1: ns("a"); break;
        case 2: ns("b"); break;
        case 3: method("a", m0(i), "()"); break;
        case 4: method("a", m1(i), "(int)"); break;
        case 5: method("b", m2(i), "(char)"); break;
        case 6: property("a"); break;
        case 7: property("b"); break;
        case 8: enumeration("a", E0{}); break;
        case 9: enumeration("b", E1{}); break;
        case 10: method("ab", m0(i), "()"); break;
        }
    else
        switch (seq::choose(12)) {
        case 0: end(); break;
        case 1: ns("a"); break;
        case 2: ns("b"); break;
        case 3: cls(mpl::identity<K0>{}, "a", "K0"); break;
        case 4: cls(mpl::identity<K0>{}, "b", "K0"); break;
        case 5: cls(mpl::identity<K1>{}, "a", "K1"); break;
        case 6: cls(mpl::identity<K1>{}, "b", "K1"); break;
        case 7: cls(mpl::identity<K2>{}, "a", "K2"); break;
        case 8: method("a", m1(i), "(int)"); break;
        case 9: property("a"); break;
        case 10: enumeration("a", E0{}); break;
        case 11:
            if constexpr(std::is_same_v<T, K1>) { seq::note("constructor a(int);"); seq::step(); n->define(mcatConstructor, "a(int)"); b.template _constructor<int>("a"); run(b, h); }
            break;
        }
    { auto s = h.rootNode->print(); seq::state(s.substr(s.find('#'))); }
}
std::vector<std::string> universe() { return {"a", "b", "ab", "a(", "a(int", "a(int)", "a()", "a(char)", "b(char)", "b()", "ab()", "()", "c", "global", "a::b", "::a", "d_constructor", "constructor", " a", "A"}; }

void items(int depth)
{
    Fresh f; Hist h; h.check.names = universe(); h.check.extra = behaves; h.rootNode = f.root; h.left = depth; h.path = {f.root};
    h.verify = [&] { f.verify(h.check); };
    f.open([&h](auto b) { run(b, h); });
}
void classes(int depth, bool registered)
{
    Node root; root.addr = MetaNamespace::global();
    Hist h; h.check.names = universe(); h.check.extra = behaves; h.rootNode = &root; h.left = depth; h.path = {&root}; h.withClasses = true;
    h.verify = [&] { h.check.all(root, root.addr); };
    if (registered) { // K0 is class b, K1 is class b of namespace b
        seq::note("class K0 b; end; namespace b; class K1 b; end; end;");
        global_define()._class<K0>("b")._end()._namespace("b")._class<K1>("b")._end()._end();
        auto k0 = root.define(mcatClass, "b"); k0->type = metaTypeId<K0>(); constructors<K0>(k0);
        auto k1 = root.define(mcatNamespace, "b")->define(mcatClass, "b"); k1->type = metaTypeId<K1>(); constructors<K1>(k1);
        h.check.classes = {k0, k1};
    }
    atRoot([&h](Root b) { run(b, h); });
}
// names are any characters, among them those that end names in C
std::string const unusual[] = {"a", std::string("a\0", 2), std::string("a\0b", 3), std::string("\0c", 2), "\xc3\xa4\n", "a<b, c>"};
void anyNames(int depth)
{
    Fresh f; Checker c; c.extra = behaves; c.names = {"b", "a b", std::string("a\0b\0", 4), "\xc3"};
    for (auto &s: unusual) { c.names.push_back(s); c.names.push_back(s + "()"); c.names.push_back(s + "(int)"); }
    auto g = global_define(); auto b = g._namespace(f.outer)._namespace(f.inner);
    for (int i = 0; i < depth; ++i) {
        int k = seq::choose(int(std::size(unusual))), what = seq::choose(5); auto &name = unusual[k]; seq::note("%d named %d;", what, k); seq::step();
        switch (what) {
        case 0: { Node::assign(f.root->define(mcatNamespace, name)->attrs, name, i); b = b._namespace(name)._attribute(name, makeValue(i))._end(); break; }
        case 1: f.root->define(mcatMethod, name + "()", i); b._method(name, m0(i)); break;
        case 2: f.root->define(mcatMethod, name + "(int)", i); b._method(name, m1(i)); break;
        case 3: f.root->define(mcatProperty, name, i); b._property(name, &vars[i]); break;
        case 4: { auto e = f.root->define(mcatEnum, name); Node::assign(e->elems, name, i); b._enum<E0>(name)._element(name, makeValue(i)); break; }
        }
        f.verify(c);
    }
    { auto s = f.root->print(); seq::state(s.substr(s.find('#'))); }
}
// many items of each kind, in several orders: the lists keep the order and the names find them
void many()
{
    int n = seq::choose(70), what = seq::choose(4), step = 1 + seq::choose(3), again = seq::choose(2);
    Fresh f; Checker c; c.names = {"x"};
    auto g = global_define(); auto b = g._namespace(f.outer)._namespace(f.inner); seq::note("%d of kind %d", n, what);
    for (int k = 0; k < n * (1 + again); ++k) {
        auto name = "x" + std::to_string((k % n) * (2 * step + 1) % 71); int j = k < n ? k % 8 : (k + 1) % 8; seq::step();
        switch (what) {
        case 0: f.root->define(mcatNamespace, name); b = b._namespace(name)._end(); break;
        case 1: f.root->define(mcatMethod, name + "()", j); b._method(name, m0(j)); break;
        case 2: f.root->define(mcatProperty, name, j); b._property(name, &vars[j]); break;
        case 3: f.root->define(mcatEnum, name); b._enum<E0>(name); break;
        }
    }
    c.extra = behaves; f.verify(c); { auto s = f.root->print(); seq::state(s.substr(s.find('#'))); }
}
// namespaces in namespaces, deep: names repeat along the path, things are defined before, in and after every one
template<int D, typename B> void deeper(B b, Node *n, int depth, int names, int &tag)
{
    if constexpr(D < 24) {
        if (D >= depth) return;
        std::string name = names == 0 ? "n" : names == 1 ? std::string("n") + char('a' + D) : std::string(size_t(D % 3 + 1), 'n'); seq::step();
        auto method = [&](auto &&at, Node *of, char const *m) { int j = tag++ % 8; at._method(m, m0(j)); of->define(mcatMethod, std::string(m) + "()", j); };
        method(b, n, "before"); auto k = n->define(mcatNamespace, name);
        auto in = b._namespace(name); method(in, k, "in"); deeper<D + 1>(in, k, depth, names, tag);
        method(in._end(), n, "after"); 
    }
}
void deep()
{
    int depth = seq::choose(25), names = seq::choose(3), again = seq::choose(2), tag = 0; seq::note("%d deep, names %d", depth, names);
    Fresh f; Checker c; c.names = {"n", "nn", "nnn", "na", "nb", "before", "after", "in"}; c.extra = behaves;
    for (int i = 0; i <= again; ++i) { auto g = global_define(); deeper<0>(g._namespace(f.outer)._namespace(f.inner), f.root, depth, names, tag); }
    f.verify(c); seq::state(std::to_string(depth) + std::to_string(names));
}
// visits of methods and classes in order, and what the visitor does: asking, stopping, throwing, visiting again, defining
struct Stop {};
template<int> struct V {};
std::vector<void(*)(std::string const &, std::string const &, std::string const &)> const defineClass = {
    [](std::string const &o, std::string const &i, std::string const &n) { auto g = global_define(); g._namespace(o)._namespace(i)._class<V<0>>(n); }, [](std::string const &o, std::string const &i, std::string const &n) { auto g = global_define(); g._namespace(o)._namespace(i)._class<V<1>>(n); },
    [](std::string const &o, std::string const &i, std::string const &n) { auto g = global_define(); g._namespace(o)._namespace(i)._class<V<2>>(n); }, [](std::string const &o, std::string const &i, std::string const &n) { auto g = global_define(); g._namespace(o)._namespace(i)._class<V<3>>(n); }};
void visits()
{
    int of = seq::choose(2), n = seq::choose(4), at = n ? seq::choose(n) : 0, what = seq::choose(7); alarm(20);
    static char const *const whats[] = {"nothing", "stop", "throw", "ask", "visit again", "define", "define and ask"};
    seq::note("%d %s, the visitor of number %d does: %s", n, of ? "classes" : "methods", at, whats[what]);
    std::string outer = "vo", inner = "vi"; auto g = global_define(); auto b = g._namespace(outer)._namespace(inner);
    auto root = MetaNamespace::global()->getNamespace(outer)->getNamespace(inner); CHECK(root);
    std::vector<std::string> model; std::vector<MetaItem const *> items;
    auto define = [&] { int i = int(model.size()); auto name = "x" + std::to_string(i * 7 % 5); if (of) { defineClass[i](outer, inner, name); model.push_back(name); } else { b._method(name, m0(i)); model.push_back(name + "()"); }
        items.push_back(of ? static_cast<MetaItem const *>(root->getClass(name)) : root->getMethod(name)); CHECK(items.back() && items.back()->name() == model.back()); seq::step(); };
    for (int i = 0; i < n; ++i) define();
    auto visit = [&](std::function<bool(MetaItem const *)> const &v) { if (of) root->for_each_class([&v](MetaClass const *c) { return v(c); }); else root->for_each_method([&v](MetaMethod const *m) { return v(m); }); };
    auto ask = [&] { CHECK((of ? root->classCount() : root->methodCount()) == model.size());
        for (size_t i = 0; i < model.size(); ++i) { auto x = of ? static_cast<MetaItem const *>(root->getClass(i)) : root->getMethod(i); CHECK(x == items[i]); CHECK(x == (of ? static_cast<MetaItem const *>(root->getClass(model[i])) : root->getMethod(model[i]))); } };
    size_t seen = 0, count = n; bool thrown = false;
    try {
        visit([&](MetaItem const *x) -> bool {
            CHECK(seen < items.size()); CHECK(x == items[seen]); CHECK(x->owner() == root);
            if (int(seen++) != at) return true;
            switch (what) {
            case 1: return false;
            case 2: throw Stop{};
            case 3: ask(); break;
            case 4: { size_t again = 0; visit([&](MetaItem const *y) { CHECK(again < items.size() && y == items[again]); ++again; return true; }); CHECK(again == items.size()); break; }
            case 5: case 6: define(); if (what == 6) ask(); break;
            }
            return true;
        });
    } catch (Stop &) { thrown = true; }
    CHECK(thrown == (what == 2 && n));
    if (n && (what == 1 || what == 2)) CHECK(seen == size_t(at) + 1); else CHECK(seen == count || seen == items.size()); // the one added meanwhile may be visited
    ask(); if (model.size() < 4) define(); ask(); seq::state(std::to_string(of) + std::to_string(n) + whats[what]);
}

} // namespace

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    bool t = seq::thorough();
    g.push_back({"namespaces, methods, properties and enums", [t] { items(t ? 6 : 5); }, nullptr, false, false, false, 2});
    g.push_back({"classes", [t] { classes(t ? 5 : 4, false); }, nullptr, true, false, false, 2});
    g.push_back({"classes, some registered before", [t] { classes(t ? 5 : 4, true); }, nullptr, true, false, false, 2});
    g.push_back({"names of any characters", [t] { anyNames(t ? 4 : 3); }, nullptr, false, false, false, 2});
    g.push_back({"many items", many, nullptr, false, false, false, 2});
    g.push_back({"namespaces, deep", deep, nullptr, false, false, false, 1});
    g.push_back({"visits", visits, nullptr, true, false, false, 2});
    seq::main_(argc, argv, g);
}
