// R02: member lookup resolves overloads and inheritance by nearest definition
#include "seq/regmodel.h"
using namespace reg;

namespace {

struct K0 { int k = 0; }; struct K1: K0 {}; struct K2: K0 {}; struct K3: K1, K2 {}; struct K4 { int k = 4; };
template<int N> int f0() { return N; }
template<int N> int f1(int) { return N; }
template<int N> int f2(char const *) { return N; }
int vars[32];

struct Op { std::string text; std::function<void(std::vector<Node *> &)> model; std::function<void()> real; };
template<int I> struct KOf; template<> struct KOf<0> { using type = K0; }; template<> struct KOf<1> { using type = K1; }; template<> struct KOf<2> { using type = K2; }; template<> struct KOf<3> { using type = K3; }; template<> struct KOf<4> { using type = K4; };
template<int I> using K = typename KOf<I>::type;
template<int I> std::string kname() { return "K" + std::to_string(I); }

template<int I, int B> Op base() { return {"base " + kname<B>() + " of " + kname<I>(), [](auto &n) { n[I]->base(n[B]); }, [] { global_define()._class<K<I>>(kname<I>()).template _base<K<B>>(); }}; }
template<int I, int... B> Op bases() { return {"bases " + (std::string{} + ... + kname<B>()) + " of " + kname<I>(), [](auto &n) { (n[I]->base(n[B]), ...); }, [] { global_define()._class<K<I>>(kname<I>()).template _base<K<B>...>(); }}; }
template<int I, typename F> Op method(char const *name, F f, char const *args) { return {std::string("method ") + name + args + " of " + kname<I>(), [=](auto &n) { n[I]->define(mcatMethod, std::string(name) + args); }, [=] { global_define()._class<K<I>>(kname<I>())._method(name, f); }}; }
template<int I> Op property(char const *name) { return {std::string("property ") + name + " of " + kname<I>(), [=](auto &n) { n[I]->define(mcatProperty, name); }, [=] { global_define()._class<K<I>>(kname<I>())._property(name, &vars[I]); }}; }

template<typename C> void constructors(Node *n) { n->define(mcatConstructor, "d_constructor"); n->define(mcatConstructor, "c_constructor"); n->define(mcatConstructor, "m_constructor"); n->type = metaTypeId<C>(); }

// what was asked before doesn't matter afterwards: lookups between the definitions
void asked(Checker const &check, std::vector<Node *> const &n)
{
    for (auto k: n) {
        auto c = MetaClass::find(k->type); CHECK(c && c->name() == k->name);
        for (auto &name: check.names) {
            auto what = [&](char const *kind, MetaItem const *it) { return std::string(kind) + " " + name + " of " + k->name + ", asked between the definitions, is " + (it ? it->qualifiedName() : "nothing"); };
            auto m = c->getMethod(name); auto wm = k->lookup(mcatMethod, name); if (!m != !wm || (m && (m->name() != wm->name || m->owner()->name() != wm->owner->name))) seq::fail(what("method", m));
            auto p = c->getProperty(name); auto wp = k->lookup(mcatProperty, name); if (!p != !wp || (p && (p->name() != wp->name || p->owner()->name() != wp->owner->name))) seq::fail(what("property", p));
        }
        for (auto o: n) CHECK(c->inheritedFrom(MetaClass::find(o->type)) == k->inherits(o));
    }
}
void history(std::vector<Op> const &ops, int depth)
{
    Node root; root.addr = MetaNamespace::global(); Checker check; std::vector<Node *> n;
    auto open = [&](auto tag, char const *name) { using C = typename decltype(tag)::type; global_define()._class<C>(name); n.push_back(root.define(mcatClass, name)); constructors<C>(n.back()); };
    open(mpl::identity<K0>{}, "K0"); open(mpl::identity<K1>{}, "K1"); open(mpl::identity<K2>{}, "K2"); open(mpl::identity<K3>{}, "K3"); open(mpl::identity<K4>{}, "K4");
    check.classes = n; check.names = {"m", "m(int)", "m(char)", "m(const char*)", "m()", "m(", "mm", "mm()", "p", "q", "m(int", "(int)", "n", "K0::m", "pq"};
    std::vector<bool> done(ops.size()); bool between = seq::choose(2);
    for (int d = 0; d < depth; ++d) {
        int left = 0; for (bool b: done) left += !b;
        int c = seq::choose(left), i = 0; for (;; ++i) if (!done[size_t(i)] && c-- == 0) break;
        auto &op = ops[size_t(i)]; done[size_t(i)] = true;
        seq::note("%s;", op.text.c_str()); seq::step();
        op.real(); op.model(n);
        if (d + 1 == depth || (between && seq::thorough())) check.all(root, root.addr); else if (between) asked(check, n);
    }
    { MetaClass const *k3 = MetaClass::find(metaTypeId<K3>()); CHECK(k3->getMethod<int>("m") == k3->getMethod("m(int)")); CHECK(k3->getMethod<>("m") == k3->getMethod("m()")); CHECK(k3->getMethod<char const *>("m") == k3->getMethod("m(const char*)")); CHECK(!k3->getMethod("") && !k3->getProperty("")); }
    seq::state(root.print());
}
std::vector<Op> edges() { return {base<1, 0>(), base<2, 0>(), base<3, 1>(), base<3, 2>()}; }
template<typename... O> std::vector<Op> with(std::vector<Op> v, O... o) { (v.push_back(o), ...); return v; }

// many names and overloads in one namespace, any order of definition
void overloads(int depth)
{
    struct M { char const *name; int kind; };
    static M const ms[] = {{"f", 0}, {"f", 1}, {"f", 2}, {"ff", 1}, {"f ", 1}, {"F", 1}, {"operator()", 0}, {"operator()", 1}, {"operator", 1}, {"f [const ref]", 1}};
    static char const *const args[] = {"()", "(int)", "(const char*)"};
    Fresh fresh; Checker check; bool between = seq::choose(2); MetaNamespace const *real = nullptr;
    check.names = {"f", "ff", "f ", " f", "F", "f()", "f(int)", "f(const char*)", "f(char const*)", "f (int)", "ff(int)", "ff()", "fff", "f(", "f(int", "f)", "(int)", "()", "operator", "operator(", "operator()", "operator()()", "operator()(int)", "operator(int)", "operator()(", "f [const ref]", "f [const ref](int)", "f [", "f(i"};
    auto n = fresh.root; unsigned done = 0;
    for (int d = 0; d < depth; ++d) {
        int c = seq::choose(10); if (done >> c & 1) return; done |= 1u << c;
        auto &m = ms[c]; seq::note("%s%s;", m.name, args[m.kind]); seq::step();
        auto g = global_define(); auto b = g._namespace(fresh.outer)._namespace(fresh.inner);
        if (m.kind == 0) b._method(m.name, &f0<0>); else if (m.kind == 1) b._method(m.name, &f1<0>); else b._method(m.name, &f2<0>);
        n->define(mcatMethod, std::string(m.name) + args[m.kind]);
        if (between && d + 1 < depth) { if (!real) real = MetaNamespace::global()->getNamespace(fresh.outer)->getNamespace(fresh.inner); for (auto &name: check.names) { auto it = real->getMethod(name); auto w = n->lookup(mcatMethod, name); if (!it != !w || (it && it->name() != w->name)) seq::fail(name + ", asked between the definitions, is " + (it ? it->name() : "nothing")); } }
    }
    fresh.verify(check);
    { auto s = n->print(); seq::state(s.substr(s.find('#'))); }
}
// signatures of members, and of function types among the parameters
struct S { int k = 5; int get() const { return k; } int get() { return k + 1; } void set(int v) { k = v; } int call(int (*f)(int)) { return f(1); } static int st(S const &s) { return s.k; } S() {} S(int) {} explicit S(std::string const &, int) {} };
int apply(int (*f)(int), int x) { return f(x); }
int two(int (*)(int), int (*)(char const *)) { return 0; }
void signatures()
{
    struct D { char const *name; std::function<void(meta_define<S, Root> &)> def; std::string full; MetaCategory cat = mcatMethod; };
    using CG = int (S::*)() const; using G = int (S::*)();
    static std::vector<D> const ds = {
        {"get", [](auto &b) { b._method("get", static_cast<CG>(&S::get)); }, "get(const @&)"}, {"get", [](auto &b) { b._method("get", static_cast<G>(&S::get)); }, "get(@&)"},
        {"set", [](auto &b) { b._method("set", &S::set); }, "set(@&, int)"}, {"call", [](auto &b) { b._method("call", &S::call); }, "call(@&, int (*)(int))"},
        {"get", [](auto &b) { b._method("get", &S::st); }, "get(const @&)"}, {"apply", [](auto &b) { b._method("apply", &apply); }, "apply(int (*)(int), int)"},
        {"two", [](auto &b) { b._method("two", &two); }, "two(int (*)(int), int (*)(const char*))"},
        {"", [](auto &b) { b.template _constructor<int>(); }, "constructor(int)", mcatConstructor}, {"make", [](auto &b) { b.template _constructor<std::string const &, int>("make"); }, "make(const $&, int)", mcatConstructor}, {"make", [](auto &b) { b.template _constructor<int>("make"); }, "make(int)", mcatConstructor}};
    Node root; root.addr = MetaNamespace::global(); Checker check;
    auto sname = std::string(MetaType{metaTypeId<S>()}.typeName()), strname = std::string(MetaType{metaTypeId<std::string>()}.typeName());
    auto full = [&](std::string s) { for (size_t p; (p = s.find('@')) != s.npos;) s.replace(p, 1, sname); for (size_t p; (p = s.find('$')) != s.npos;) s.replace(p, 1, strname); return s; };
    check.names = {"get", "set", "call", "apply", "two", "make", "constructor", "d_constructor", "c_constructor", "m_constructor", "two(int (*)(int), int (*)", "two(int (*)", "call(", "mak", "makes", "ge"};
    for (auto &d: ds) check.names.push_back(full(d.full));
    auto g = global_define(); auto b = g._class<S>("S"); auto n = root.define(mcatClass, "S"); constructors<S>(n); check.classes = {n}; bool between = seq::choose(2);
    for (int d = 0; d < 3; ++d) {
        int c = seq::choose(int(ds.size())); auto &x = ds[size_t(c)];
        seq::note("%s;", x.full.c_str()); seq::step(); x.def(b); n->define(x.cat, full(x.full));
        if (between && d < 2) for (auto &name: check.names) { auto it = MetaNamespace::global()->getClass("S")->getMethod(name); auto w = n->lookup(mcatMethod, name); if (!it != !w || (it && it->name() != w->name)) seq::fail(name + ", asked between the definitions, is " + (it ? it->name() : "nothing")); }
    }
    check.all(root, root.addr); seq::state(n->print());
}

// lists of many base classes, given at once or in two parts
template<int I> struct W { int w = I; int own() const { return w; } }; template<typename S> struct WidesOf; template<size_t... I> struct WidesOf<std::index_sequence<I...>> { struct type: W<int(I)>... {}; }; using Wide = WidesOf<std::make_index_sequence<10>>::type;
template<int I> void wideBase(Node &root, std::vector<Node *> &n) { auto name = "W" + std::to_string(I); auto sig = "own" + std::to_string(I); global_define()._class<W<I>>(name)._method(sig, &W<I>::own)._property("w" + std::to_string(I), &W<I>::w); auto k = root.define(mcatClass, name); constructors<W<I>>(k); k->define(mcatMethod, sig + "(const " + std::string(MetaType{metaTypeId<W<I>>()}.typeName()) + "&)"); k->define(mcatProperty, "w" + std::to_string(I)); n.push_back(k); }
template<size_t... I> void wideBases(Node &root, std::vector<Node *> &n, std::index_sequence<I...>) { (wideBase<int(I)>(root, n), ...); }
template<int From, size_t... I> void giveBases(std::index_sequence<I...>) { global_define()._class<Wide>("Wide").template _base<W<From + int(I)>...>(); }
template<int From, int Count> void giveBases() { if constexpr(Count) giveBases<From>(std::make_index_sequence<Count>{}); }
template<int N, size_t... S> void wideOf(int split, std::index_sequence<S...>) { ((int(S) == split ? (giveBases<0, int(S)>(), giveBases<int(S), N - int(S)>()) : void()), ...); }
template<int N> void wideOf(int split) { wideOf<N>(split, std::make_index_sequence<N>{}); }
void wide()
{
    Node root; root.addr = MetaNamespace::global(); Checker check; std::vector<Node *> n; wideBases(root, n, std::make_index_sequence<10>{});
    int count = seq::choose(10) + 1, split = seq::choose(count); seq::note("%d base classes, %d of them at first", count, split); seq::step();
    { auto g = global_define(); g._class<Wide>("Wide"); } auto k = root.define(mcatClass, "Wide"); constructors<Wide>(k);
    switch (count) { case 1: wideOf<1>(split); break; case 2: wideOf<2>(split); break; case 3: wideOf<3>(split); break; case 4: wideOf<4>(split); break; case 5: wideOf<5>(split); break; case 6: wideOf<6>(split); break; case 7: wideOf<7>(split); break; case 8: wideOf<8>(split); break; case 9: wideOf<9>(split); break; default: wideOf<10>(split); }
    for (int i = 0; i < count; ++i) k->base(n[size_t(i)]);
    n.push_back(k); check.classes = n; for (int i = 0; i < 10; ++i) { check.names.push_back("own" + std::to_string(i)); check.names.push_back("w" + std::to_string(i)); }
    check.all(root, root.addr);
    Wide object; auto v = variant{std::ref(object)};
    for (int i = 0; i < 10; ++i) {
        auto name = std::to_string(i); bool ok = true; try { CHECK(v.invoke("own" + name).to<int>() == i); CHECK(v.get_property("w" + name).to<int>() == i); } catch (rtti::runtime_error const &) { ok = false; }
        CHECK(ok == (i < count));
    }
    seq::state(root.print());
}

// long chains of base classes, members defined at any two of them
template<int I> struct Ch: Ch<I - 1> {}; template<> struct Ch<0> { int c = 3; };
template<int I> void link(bool declare, int how) { auto name = "Ch" + std::to_string(I); if (declare) { global_define()._class<Ch<I>>(name); return; } if constexpr(I > 0) if (how == 0) global_define()._class<Ch<I>>(name).template _base<Ch<I - 1>>(); if (how == 1) global_define()._class<Ch<I>>(name)._method("m", &f0<I>)._property("p", &vars[I]); if (how == 2) global_define()._class<Ch<I>>(name)._method("m", &f1<I>)._property("q", &vars[I]); }
template<size_t... I> void chain(std::index_sequence<I...>)
{
    enum { N = sizeof...(I) }; using F = void (*)(bool, int); static F const links[] = {link<int(I)>...}; static MetaType_ID const types[] = {metaTypeId<Ch<int(I)>>()...};
    int i = seq::choose(N), j = seq::choose(N), back = seq::choose(2), last = seq::choose(2); seq::note("m() in %d, m(int) in %d, bases given %s, members %s", i, j, back ? "from the last" : "from the first", last ? "last" : "first");
    Node root; root.addr = MetaNamespace::global(); Checker check; std::vector<Node *> n;
    for (int k = 0; k < N; ++k) { links[k](true, 0); n.push_back(root.define(mcatClass, "Ch" + std::to_string(k))); n.back()->define(mcatConstructor, "d_constructor"); n.back()->define(mcatConstructor, "c_constructor"); n.back()->define(mcatConstructor, "m_constructor"); n.back()->type = types[k]; }
    auto members = [&] { links[i](false, 1); n[size_t(i)]->define(mcatMethod, "m()"); n[size_t(i)]->define(mcatProperty, "p"); links[j](false, 2); n[size_t(j)]->define(mcatMethod, "m(int)"); n[size_t(j)]->define(mcatProperty, "q"); };
    check.classes = n; check.names = {"m", "m()", "m(int)", "p", "q", "m(char)"};
    if (!last) members();
    for (int k = 1; k < N; ++k) { int d = back ? N - k : k; links[d](false, 0); n[size_t(d)]->base(n[size_t(d - 1)]); }
    if (last) { asked(check, n); members(); }
    seq::step(); check.all(root, root.addr); seq::state(root.print());
}
void chains() { chain(std::make_index_sequence<14>{}); }

} // namespace

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    static auto const m = with(edges(), method<0>("m", &f1<0>, "(int)"), method<0>("m", &f2<0>, "(const char*)"), method<1>("m", &f1<0>, "(int)"), method<1>("m", &f0<0>, "()"), method<2>("m", &f2<0>, "(const char*)"), method<2>("mm", &f0<0>, "()"), method<3>("m", &f0<0>, "()"), method<3>("m", &f1<0>, "(int)"));
    static auto const p = with(edges(), property<0>("p"), property<1>("p"), property<2>("p"), property<3>("p"), property<4>("p"), property<4>("q"), property<2>("q"));
    static auto const all = with(std::vector<Op>{bases<3, 1, 2>(), bases<3, 2, 1>(), bases<1, 0>(), bases<2, 0>()}, method<1>("m", &f1<0>, "(int)"), method<2>("m", &f1<0>, "(int)"), method<0>("m", &f1<0>, "(int)"), property<1>("m"), property<0>("m"), method<2>("p", &f1<0>, "(int)"));
    g.push_back({"methods and base classes", [] { history(m, seq::thorough() ? 5 : 4); }, nullptr, true, false, false, 2});
    g.push_back({"properties and base classes", [] { history(p, seq::thorough() ? 5 : 4); }, nullptr, true, false, false, 2});
    g.push_back({"lists of base classes", [] { history(all, seq::thorough() ? 6 : 4); }, nullptr, true, false, false, 2});
    g.push_back({"overloads and similar names", [] { overloads(seq::thorough() ? 6 : 5); }, nullptr, false, false, false, 2});
    g.push_back({"signatures", signatures, nullptr, true, false, false, 1});
    g.push_back({"many base classes", wide, nullptr, true, false, false, 1});
    g.push_back({"long chains of base classes", chains, nullptr, true, false, false, 1});
    seq::main_(argc, argv, g);
}
