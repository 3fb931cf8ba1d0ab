// R05: a deferred definition is indistinguishable from an immediate one
#include "seq/regmodel.h"
#include <unistd.h>
#include <set>
using namespace reg;

namespace {

struct Base { virtual ~Base() = default; int b = 1; };
struct Base2 { int b2 = 2; };
struct KX: Base, Base2 { int x = 0; KX() = default; explicit KX(int v): x(v) {} };
struct KY: Base, Base2 { int x = 0; KY() = default; explicit KY(int v): x(v) {} };
struct KC { int x = 0; };
struct KD { int x = 0; };
struct KE { int x = 0; };

template<int N> int f0() { return N; }
template<int N> int f1(int x) { return x + N; }
template<int... N> struct Funs { static constexpr int (*f[])() = {f0<N>...}; static constexpr int (*g[])(int) = {f1<N>...}; };
template<typename> struct FunsOf; template<int... N> struct FunsOf<std::integer_sequence<int, N...>>: Funs<N...> {};
using F = FunsOf<std::make_integer_sequence<int, 40>>;
int vars[40];

// ---- programs
enum Kind { METHOD, METHOD1, PROPERTY, ENUM, ATTR, NS, NSLAZY, CLASS, CLASSLAZY, BASE, BASE2, CONSTRUCTOR, OTHER, ASK, FORCE, KINDS };
struct Op { Kind kind; std::string name; int tag = 0; std::vector<Op> sub{}; };
using Prog = std::vector<Op>;
std::string text(Prog const &p)
{
    static char const *const n[] = {"method", "method1", "property", "enum", "attribute", "namespace", "lazy namespace", "class", "lazy class", "base", "base2", "constructor", "in", "ask", "force"};
    std::string s; for (auto &o: p) { s += std::string(n[o.kind]) + " " + o.name; if (!o.sub.empty()) s += "{" + text(o.sub) + "}"; s += "; "; } return s;
}

using Log = std::vector<std::string>;
Log *realLog; std::map<std::string, int> ran; // deferred definitions by name of their container

// ---- the model: a deferred definition runs when the contents of its container are used
struct Model
{
    Node root; std::map<Node *, Prog> pending; std::set<Node *> running; Log log; std::map<std::string, int> ran; std::vector<Node *> classes; std::set<std::string> reopened;
    Node *x() { return at("x"); } Node *y() { return at("y"); }
    Node *at(std::string const &n) { for (auto c: {mcatNamespace, mcatClass}) if (auto k = root.find(c, n)) return k; return nullptr; }
    void force(Node *n)
    {
        auto p = pending.find(n); if (p == pending.end() || running.count(n)) return;
        running.insert(n); ++ran[n->qualified()]; exec(n, p->second); running.erase(n); pending.erase(n);
    }
    void recursive(Node *n)
    {
        // all below, also what is added meanwhile
        for (bool again = true; again;) { again = false; force(n); for (auto c: {mcatClass, mcatNamespace}) for (size_t i = 0; i < n->kids[c].size(); ++i) { if (hasPending(n->kids[c][i].get())) { recursive(n->kids[c][i].get()); again = true; } } }
    }
    bool hasPending(Node *n) { if (pending.count(n) && !running.count(n)) return true; for (auto c: {mcatClass, mcatNamespace}) for (auto &k: n->kids[c]) if (hasPending(k.get())) return true; return false; }
    Node *openClass(Node *n, std::string const &name, MetaType_ID type, std::vector<char const *> const &ctors)
    {
        force(n); if (auto k = n->find(mcatClass, name)) { if (pending.count(k)) reopened.insert(name); return k; }
        auto k = n->define(mcatClass, name); k->type = type; classes.push_back(k);
        for (auto c: ctors) k->define(mcatConstructor, c);
        return k;
    }
    void attach(Node *k, Prog const &p) { if (!pending.count(k)) pending[k] = p; }
    void exec(Node *n, Prog const &p)
    {
        Node *cur = n;
        for (auto &o: p) {
            switch (o.kind) {
            case METHOD: force(n); n->define(mcatMethod, o.name + "()", o.tag); break;
            case METHOD1: force(n); n->define(mcatMethod, o.name + "(int)", o.tag); break;
            case PROPERTY: force(n); n->define(mcatProperty, o.name, o.tag); break;
            case ENUM: force(n); cur = n->define(mcatEnum, o.name); Node::assign(cur->elems, "e", o.tag); break;
            case ATTR: force(cur); Node::assign(cur->attrs, o.name, o.tag); break;
            case NS: force(n); exec(n->define(mcatNamespace, o.name), o.sub); cur = n; break;
            case NSLAZY: force(n); attach(n->define(mcatNamespace, o.name), o.sub); cur = n; break;
            case CLASS: case CLASSLAZY: {
                auto k = openClass(n, o.name, o.name == "e" ? metaTypeId<KE>() : o.name == "d" ? metaTypeId<KD>() : metaTypeId<KC>(), {"d_constructor", "c_constructor", "m_constructor"});
                if (o.kind == CLASS) exec(k, o.sub); else attach(k, o.sub); cur = n; break; }
            case BASE: case BASE2: force(n); n->base(root.find(mcatClass, o.kind == BASE ? "base" : "base2")); break;
            case CONSTRUCTOR: force(n); n->define(mcatConstructor, "constructor(int)"); break;
            case OTHER: { auto k = at(o.name); if (k->isClass() && pending.count(k)) reopened.insert(o.name); exec(k, o.sub); break; }
            case ASK: { auto k = at(o.name); force(k); log.push_back(std::to_string(k->kids[mcatMethod].size()) + "," + std::to_string(k->attrs.size())); break; }
            case FORCE: recursive(at(o.name)); break;
            default:;
            }
        }
    }
};

// ---- the same on the library
template<typename B> void exec(B b, Prog const &p, size_t i = 0);
template<typename T> auto callback(Prog const &p, std::string name)
{
    return [p, name](meta_define<T> m) { ++ran[name]; exec(m, p); };
}
template<typename G> void open(std::string const &name, G f)
{
    auto g = global_define(); auto root = MetaNamespace::global();
    auto k = root->getClass(name);
    if (!k) f(g._namespace(name)); else if (name == "x") f(g._class<KX>("x")); else f(g._class<KY>("y"));
}
MetaContainer const *find(std::string const &name)
{
    auto root = MetaNamespace::global(); if (auto n = root->getNamespace(name)) return n; return root->getClass(name);
}
template<typename B> void exec(B b, Prog const &p, size_t i)
{
    using T = typename ClassOf<B>::type; constexpr int depth = DepthOf<B>::value;
    for (; i < p.size(); ++i) {
        auto &o = p[i];
        auto inner = [&](auto k, bool lazy, char const *path) {
            using K = typename ClassOf<decltype(k)>::type;
            if (lazy) { try { k._lazy(callback<K>(o.sub, path)); } catch (definition_error const &) {} }
            else exec(k, o.sub);
            exec(k._end(), p, i + 1);
        };
        (void)inner;
        switch (o.kind) {
        case METHOD: b._method(o.name, F::f[o.tag]); break;
        case METHOD1: b._method(o.name, F::g[o.tag]); break;
        case PROPERTY: b._property(o.name, &vars[o.tag]); break;
        case ENUM: { auto e = b.template _enum<int>(o.name); e._element("e", makeValue(o.tag)); exec(e, p, i + 1); return; }
        case ATTR: b._attribute(o.name, makeValue(o.tag)); break;
        case NS: case NSLAZY: if constexpr(std::is_void_v<T> && depth < 3) { inner(b._namespace(o.name), o.kind == NSLAZY, o.name.c_str()); return; } break;
        case CLASS: case CLASSLAZY:
            if constexpr(depth < 3 && !std::is_same_v<T, KC> && !std::is_same_v<T, KD> && !std::is_same_v<T, KE>) {
                if (o.name == "e") { inner(b.template _class<KE>(o.name), o.kind == CLASSLAZY, o.name.c_str()); return; }
                if (o.name == "d") inner(b.template _class<KD>(o.name), o.kind == CLASSLAZY, o.name.c_str()); else inner(b.template _class<KC>(o.name), o.kind == CLASSLAZY, o.name.c_str());
                return;
            }
            break;
        case BASE: if constexpr(std::is_base_of_v<Base, T>) b.template _base<Base>(); break;
        case BASE2: if constexpr(std::is_base_of_v<Base2, T>) b.template _base<Base2>(); break;
        case CONSTRUCTOR: if constexpr(std::is_base_of_v<Base, T>) b.template _constructor<int>(); break;
        case OTHER: if constexpr(depth < 3) open(o.name, [&o](auto k) { exec(k, o.sub); }); break;
        case ASK: { auto k = find(o.name); auto m = k->methodCount(); realLog->push_back(std::to_string(m) + "," + std::to_string(k->attributeCount())); break; }
        case FORCE: find(o.name)->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); break;
        default:;
        }
    }
}

// ---- queries of the contents
std::string said(MetaItem const *i) { return i ? i->qualifiedName() : "none"; }
std::string said(Node const *n) { return n ? n->qualified() : "none"; }
std::string said(size_t n) { return std::to_string(n); }
struct Query { char const *name; bool cls; std::string (*real)(MetaContainer const *); std::string (*model)(Model &, Node *); };
#define C_ static_cast<MetaClass const *>(c)
Node *kid(Node *n, MetaCategory c, size_t i) { return i < n->kids[c].size() ? n->kids[c][i].get() : nullptr; }
std::vector<Query> const &queries()
{
    using C = MetaContainer const *; using N = Node *;
    static std::vector<Query> const q = {
        {"attributeCount", false, [](C c) { return said(c->attributeCount()); }, [](Model &, N n) { return said(n->attrs.size()); }},
        {"attribute(a)", false, [](C c) { return std::to_string(valueOf(c->attribute("a"))); }, [](Model &, N n) { for (auto &a: n->attrs) if (a.first == "a") return std::to_string(a.second); return std::string{"-1"}; }},
        {"attribute(0)", false, [](C c) { return std::to_string(valueOf(c->attribute(0))); }, [](Model &, N n) { return n->attrs.empty() ? "-1" : std::to_string(n->attrs[0].second); }},
        {"attributeName(0)", false, [](C c) { return c->attributeName(0); }, [](Model &, N n) { return n->attrs.empty() ? "" : n->attrs[0].first; }},
        {"for_each_attribute", false, [](C c) { std::string s; c->for_each_attribute([&](std::string_view k, variant const &v) { s += std::string(k) + "=" + std::to_string(valueOf(v)) + ";"; return true; }); return s; }, [](Model &, N n) { std::string s; for (auto &a: n->attrs) s += a.first + "=" + std::to_string(a.second) + ";"; return s; }},
        {"methodCount", false, [](C c) { return said(c->methodCount()); }, [](Model &, N n) { return said(n->kids[mcatMethod].size()); }},
        {"getMethod(a)", false, [](C c) { return said(c->getMethod("a")); }, [](Model &, N n) { return said(n->lookup(mcatMethod, "a")); }},
        {"getMethod(a(int))", false, [](C c) { return said(c->getMethod("a(int)")); }, [](Model &, N n) { return said(n->lookup(mcatMethod, "a(int)")); }},
        {"getMethod(inherited)", true, [](C c) { return said(c->getMethod("inherited")); }, [](Model &, N n) { return said(n->lookup(mcatMethod, "inherited")); }},
        {"getMethod(0)", false, [](C c) { return said(c->getMethod(size_t{})); }, [](Model &, N n) { return said(kid(n, mcatMethod, 0)); }},
        {"for_each_method", false, [](C c) { std::string s; c->for_each_method([&](MetaMethod const *m) { s += said(m); return true; }); return s; }, [](Model &, N n) { std::string s; for (auto &k: n->kids[mcatMethod]) s += said(k.get()); return s; }},
        {"propertyCount", false, [](C c) { return said(c->propertyCount()); }, [](Model &, N n) { return said(n->kids[mcatProperty].size()); }},
        {"getProperty(a)", false, [](C c) { return said(c->getProperty("a")); }, [](Model &, N n) { return said(n->lookup(mcatProperty, "a")); }},
        {"getProperty(inherited)", true, [](C c) { return said(c->getProperty("inherited")); }, [](Model &, N n) { return said(n->lookup(mcatProperty, "inherited")); }},
        {"getProperty(0)", false, [](C c) { return said(c->getProperty(size_t{})); }, [](Model &, N n) { return said(kid(n, mcatProperty, 0)); }},
        {"enumCount", false, [](C c) { return said(c->enumCount()); }, [](Model &, N n) { return said(n->kids[mcatEnum].size()); }},
        {"getEnum(a)", false, [](C c) { return said(c->getEnum("a")); }, [](Model &, N n) { return said(n->find(mcatEnum, "a")); }},
        {"getEnum(0)", false, [](C c) { return said(c->getEnum(size_t{})); }, [](Model &, N n) { return said(kid(n, mcatEnum, 0)); }},
        {"namespaceCount", false, [](C c) { return said(c->namespaceCount()); }, [](Model &, N n) { return said(n->kids[mcatNamespace].size()); }},
        {"getNamespace(c)", false, [](C c) { return said(c->getNamespace("c")); }, [](Model &, N n) { return said(n->find(mcatNamespace, "c")); }},
        {"getNamespace(0)", false, [](C c) { return said(c->getNamespace(size_t{})); }, [](Model &, N n) { return said(kid(n, mcatNamespace, 0)); }},
        {"classCount", false, [](C c) { return said(c->classCount()); }, [](Model &, N n) { return said(n->kids[mcatClass].size()); }},
        {"getClass(c)", false, [](C c) { return said(c->getClass("c")); }, [](Model &, N n) { return said(n->find(mcatClass, "c")); }},
        {"getClass(0)", false, [](C c) { return said(c->getClass(size_t{})); }, [](Model &, N n) { return said(kid(n, mcatClass, 0)); }},
        {"for_each_class", false, [](C c) { std::string s; c->for_each_class([&](MetaClass const *m) { s += said(m); return true; }); return s; }, [](Model &, N n) { std::string s; for (auto &k: n->kids[mcatClass]) s += said(k.get()); return s; }},
        {"constructorCount", false, [](C c) { return said(c->constructorCount()); }, [](Model &, N n) { return said(n->kids[mcatConstructor].size()); }},
        {"getConstructor<int>()", false, [](C c) { return said(c->getConstructor<int>()); }, [](Model &, N n) { return said(n->own(mcatConstructor, "constructor(int)")); }},
        {"getConstructor(constructor)", false, [](C c) { return said(c->getConstructor("constructor")); }, [](Model &, N n) { return said(n->own(mcatConstructor, "constructor")); }},
        {"getConstructor(0)", false, [](C c) { return said(c->getConstructor(size_t{})); }, [](Model &, N n) { return said(kid(n, mcatConstructor, 0)); }},
        {"defaultConstructor", false, [](C c) { return said(c->defaultConstructor()); }, [](Model &, N n) { return said(n->own(mcatConstructor, "d_constructor")); }},
        {"force", false, [](C c) { c->forceDeferredDefine(MetaContainer::ForceDeferred::SelfOnly); return std::string{}; }, [](Model &, N) { return std::string{}; }},
        {"baseClassCount", true, [](C c) { return said(C_->baseClassCount()); }, [](Model &, N n) { return said(n->bases.size()); }},
        {"baseClass(0)", true, [](C c) { return said(C_->baseClass(0)); }, [](Model &, N n) { return said(n->bases.empty() ? nullptr : n->bases[0]); }},
        {"derivedClassCount", true, [](C c) { return said(C_->derivedClassCount()); }, [](Model &, N n) { return said(n->derived.size()); }},
        {"inheritedFrom", true, [](C c) { return said(size_t(C_->inheritedFrom(MetaClass::find(metaTypeId<Base2>())))); }, [](Model &m, N n) { return said(size_t(n->inherits(m.root.find(mcatClass, "base2")))); }},
        {"variant is", true, [](C) { variant v{KX{}}; return said(size_t(v.is<Base2>())); }, [](Model &m, N n) { return said(size_t(n->inherits(m.root.find(mcatClass, "base2")))); }},
        {"variant convert", true, [](C) { variant v{KX{}}; return said(size_t(v.tryConvert<Base2>())); }, [](Model &m, N n) { return said(size_t(n->inherits(m.root.find(mcatClass, "base2")))); }},
        {"variant of pointer", true, [](C) { KX x; variant v{&x}; return said(size_t(v.is<Base2 *>())); }, [](Model &m, N n) { return said(size_t(n->inherits(m.root.find(mcatClass, "base2")))); }},
    };
    return q;
}
// ... and of the container itself, which define nothing
void outside(MetaContainer const *c, std::string const &name, bool cls)
{
    CHECK(c->name() == name); CHECK(c->qualifiedName() == "::" + name); CHECK(c->owner() == MetaNamespace::global()); CHECK(c->category() == (cls ? mcatClass : mcatNamespace));
    auto root = MetaNamespace::global();
    if (cls) { CHECK(root->getClass(name) == c); CHECK(MetaClass::find(C_->metaTypeId()) == c); size_t n = 0; root->for_each_class([&](MetaClass const *k) { n += k == c; return true; }); CHECK(n == 1); CHECK(C_->inheritedFrom(C_)); }
    else { CHECK(root->getNamespace(name) == c); CHECK(!static_cast<MetaNamespace const *>(c)->isGlobal()); }
    root->classCount(); root->namespaceCount(); root->attributeCount(); root->forceDeferredDefine(MetaContainer::ForceDeferred::SelfOnly);
}

// ---- a world of two containers with deferred definitions
struct World
{
    Model m; Checker check; Log log; bool cls[2];
    explicit World(bool classX, bool classY): cls{classX, classY}
    {
        realLog = &log; ran.clear();
        m.root.addr = MetaNamespace::global();
        check.names = {"a", "b", "c", "d", "e", "a()", "a(int)", "b()", "x", "y", "inherited", "inherited()", "constructor", "d_constructor", "constructor(int)", "q"};
        check.extra = [](Node const &n, MetaItem const *it) {
            if (n.cat == mcatMethod) { auto k = static_cast<MetaMethod const *>(it); int r = n.name.find("int") == std::string::npos ? k->invoke().to<int>() : k->invoke(1000).to<int>() - 1000; if (r != n.tag) Checker::bad(n, "is another function"); }
            if (n.cat == mcatProperty) { auto v = static_cast<MetaProperty const *>(it)->get(); if (&v.cref<int>() != &vars[n.tag]) Checker::bad(n, "is another variable"); }
        };
        global_define()._class<Base>("base")._method("inherited", F::f[30])._property("inherited", &vars[30])._end()._class<Base2>("base2")._end();
        auto b = m.openClass(&m.root, "base", metaTypeId<Base>(), {"d_constructor", "c_constructor", "m_constructor"}); b->define(mcatMethod, "inherited()", 30); b->define(mcatProperty, "inherited", 30);
        m.openClass(&m.root, "base2", metaTypeId<Base2>(), {"d_constructor", "c_constructor", "m_constructor"});
        check.classes = m.classes;
    }
    void create(int i, Prog const &pre, Prog const *lazy, Prog const &post)
    {
        std::string name = i ? "y" : "x"; bool c = cls[i];
        seq::note("%s %s: %slazy {%s} %s|", c ? "class" : "namespace", name.c_str(), text(pre).c_str(), lazy ? text(*lazy).c_str() : "none", text(post).c_str());
        auto all = [&](auto b) {
            using T = typename ClassOf<decltype(b)>::type;
            exec(b, pre); if (lazy) b._lazy(callback<T>(*lazy, name)); exec(b, post);
        };
        auto g = global_define();
        if (!c) all(g._namespace(name)); else if (!i) all(g._class<KX>("x")); else all(g._class<KY>("y"));
        Node *n = c ? m.openClass(&m.root, name, i ? metaTypeId<KY>() : metaTypeId<KX>(), {"d_constructor", "c_constructor", "m_constructor"}) : m.root.define(mcatNamespace, name);
        m.exec(n, pre); if (lazy) m.attach(n, *lazy); m.exec(n, post);
        seq::step();
    }
    MetaContainer const *real(int i) { return find(i ? "y" : "x"); }
    void ask(int i, Query const &q)
    {
        seq::note("%s.%s", i ? "y" : "x", q.name); seq::step();
        auto n = i ? m.y() : m.x();
        m.force(n); auto want = q.model(m, n); auto got = q.real(real(i));
        if (want != got) seq::fail(std::string(q.name) + " answers " + got + " instead of " + want);
        sameRan();
    }
    // opening a class again may define it
    void sameRan()
    {
        auto want = byName(); for (auto &n: m.reopened) if (!want.count(n) && ran.count(n)) want[n] = 1;
        CHECK_MSG(ran == want, "deferred definitions that were run: " + show(ran) + " instead of " + show(want));
    }
    std::map<std::string, int> byName() { std::map<std::string, int> r; for (auto &p: m.ran) { auto s = p.first; r[s.substr(s.rfind(':') + 1)] += p.second; } return r; }
    static std::string show(std::map<std::string, int> const &r) { std::string s; for (auto &p: r) s += p.first + "*" + std::to_string(p.second) + " "; return s; }
    void finish()
    {
        m.recursive(&m.root); MetaNamespace::global()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
        sameRan();
        compare(m.classes);
    }
    void compare(std::vector<Node *> const &known)
    {
        check.classes = known; check.all(m.root, m.root.addr);
        std::string a, b; for (auto &s: m.log) a += s + ";"; for (auto &s: log) b += s + ";";
        CHECK_MSG(a == b, "inside of definitions was seen " + b + " instead of " + a);
        sameRan();
        seq::state(m.root.print());
    }
};

// a second deferred definition of a class that is opened again is another matter
bool twice(Prog const &p) { int n = 0; for (auto &o: p) n += o.kind == CLASSLAZY; return n > 1; }
// one operation of a deferred definition of x
Op simple(bool cls, int tag)
{
    switch (seq::choose(14)) {
    case 0: return {METHOD, "a", tag};
    case 1: return {METHOD1, "a", tag};
    case 2: return {METHOD, "b", tag};
    case 3: return {PROPERTY, "a", tag};
    case 4: return {ENUM, "a", tag};
    case 5: return {ATTR, "a", tag};
    case 6: return {ATTR, "b", tag};
    case 7: if (cls) return {BASE, "base", tag}; return {NS, "c", tag, {{METHOD, "a", tag}, {ATTR, "a", tag}}};
    case 8: return {CLASS, "c", tag, {{METHOD, "a", tag}, {ATTR, "a", tag}}};
    case 9: if (cls) return {BASE2, "base2", tag}; return {NSLAZY, "c", tag, {{METHOD, "a", tag}, {ATTR, "a", tag}}};
    case 10: return {CLASSLAZY, "d", tag, {{METHOD, "a", tag}, {ATTR, "a", tag}}};
    case 11: return {OTHER, "y", tag, {{METHOD, "b", tag}, {ATTR, "b", tag}}};
    case 12: return {ASK, "x", tag};
    default: return {ASK, "y", tag};
    }
}
void prepareY(World &w) { Prog p{{METHOD, "b", 20}, {ATTR, "b", 20}}; w.create(1, {}, &p, {}); }
void oneContainer(int n)
{
    bool cls = seq::choose(2), clsY = false; auto &qs = queries();
    Prog lazy; for (int i = 0; i < n; ++i) lazy.push_back(simple(cls, i + 1));
    if (twice(lazy)) return;
    if (cls) lazy.push_back({CONSTRUCTOR, "", 9});
    auto &q = qs[size_t(seq::choose(int(qs.size())))]; if (q.cls && !cls) return;
    World w(cls, clsY); prepareY(w); w.create(0, {}, &lazy, {});
    outside(w.real(0), "x", cls); CHECK(ran.empty());
    w.ask(0, q); w.ask(0, qs[0]); w.finish();
}
void around()
{
    bool cls = seq::choose(2);
    Prog pre, post, lazy{simple(cls, 1)};
    switch (seq::choose(4)) { case 1: lazy.push_back({METHOD, "a", 2}); break; case 2: lazy.push_back({ATTR, "a", 2}); break; case 3: lazy.push_back({CLASS, "c", 2, {{METHOD, "a", 2}, {ATTR, "a", 2}}}); break; }
    switch (seq::choose(4)) { case 1: pre = {{METHOD, "a", 11}, {ATTR, "a", 11}}; break; case 2: pre = {{CLASS, "c", 11, {{METHOD, "a", 11}}}, {ENUM, "a", 11}}; break; case 3: if (cls) pre = {{BASE2, "base2", 11}, {PROPERTY, "a", 11}}; else pre = {{NS, "c", 11, {{METHOD, "a", 11}}}, {PROPERTY, "a", 11}}; break; }
    switch (seq::choose(8)) { case 1: post = {{METHOD, "a", 12}}; break; case 2: post = {{ATTR, "a", 12}}; break; case 3: post = {{ENUM, "a", 12}, {ATTR, "b", 12}}; break; case 4: post = {{CLASS, "c", 12, {{ATTR, "a", 12}}}}; break; case 5: if (cls) post = {{BASE, "base", 12}}; else post = {{NS, "c", 12, {{ATTR, "a", 12}, {METHOD, "a", 12}}}}; break; case 6: post = {{PROPERTY, "a", 12}}; break; case 7: if (cls) post = {{BASE2, "base2", 12}, {BASE, "base", 12}}; else post = {{ATTR, "b", 12}, {METHOD1, "a", 12}}; break; }
    auto &qs = queries(); static int const some[] = {0, 5, 30}; auto &q = qs[size_t(some[seq::choose(3)])];
    bool reopen = seq::choose(2);
    if (twice(lazy)) return;
    World w(cls, false); prepareY(w);
    if (reopen) { w.create(0, pre, &lazy, {}); w.create(0, {}, nullptr, post); } else w.create(0, pre, &lazy, post);
    w.ask(0, q); w.ask(0, qs[0]); w.finish();
}
// two containers whose definitions refer to each other
Op cross(std::string const &me, std::string const &other, int tag)
{
    switch (seq::choose(9)) {
    case 0: return {METHOD, "a", tag};
    case 1: return {OTHER, other, tag, {{METHOD, "a", tag}}};
    case 2: return {OTHER, other, tag, {{ATTR, "a", tag}, {METHOD, "b", tag}}};
    case 3: return {ASK, other, tag};
    case 4: return {ASK, me, tag};
    case 5: return {ATTR, "a", tag};
    case 6: return {OTHER, me, tag, {{METHOD, "b", tag}, {ATTR, "b", tag}}};
    case 7: return {CLASSLAZY, me == "x" ? "c" : "d", tag, {{METHOD, "a", tag}, {OTHER, other, tag, {{METHOD, "b", tag}}}}};
    default: return {FORCE, other, tag};
    }
}
void twoContainers(int nx, int ny)
{
    int k = seq::choose(3); bool cx = k & 1, cy = k & 2;
    Prog lx, ly; for (int i = 0; i < nx; ++i) lx.push_back(cross("x", "y", 1 + i)); for (int i = 0; i < ny; ++i) ly.push_back(cross("y", "x", 5 + i));
    if (twice(lx) || twice(ly)) return;
    World w(cx, cy); w.create(0, {}, &lx, {}); w.create(1, {}, &ly, {});
    CHECK(ran.empty());
    int first = seq::choose(4); auto &qs = queries();
    auto &q = qs[size_t(first < 2 ? 5 : 0)]; w.ask(first & 1, q);
    w.finish();
}
// deferred definitions below others, and forcing
void nested()
{
    bool cls = seq::choose(2); static Kind const lazyKinds[] = {NS, NSLAZY, CLASS, CLASSLAZY};
    auto pick = [&](std::string const &name, int tag, Prog sub) { Kind k = lazyKinds[seq::choose(4)]; if (cls && (k == NS || k == NSLAZY)) k = k == NS ? CLASS : CLASSLAZY; sub.push_back({METHOD, "a", tag}); return Op{k, name, tag, sub}; };
    // x { c { d } }, or x { c, d }; one of the definitions may add to a container forced before it
    int shape = seq::choose(4); Prog lazy; bool nestedIn = shape < 2;
    Prog extra; if (shape & 1) extra = {{OTHER, "y", 7, {{CLASSLAZY, "e", 7, {{METHOD, "b", 7}}}}}};
    if (nestedIn) { auto c = pick("c", 3, {}); if (c.kind == NS || c.kind == NSLAZY) { auto d = pick("d", 4, extra); c.sub.push_back(d); } else c.sub.insert(c.sub.end(), extra.begin(), extra.end()); lazy = {c, {METHOD, "a", 1}}; }
    else { auto c = pick("c", 3, {}); auto d = pick("d", 4, extra); lazy = {c, d, {METHOD, "a", 1}}; }
    Prog ly{{METHOD, "b", 20}};
    World w(cls, false);
    bool order = seq::choose(2), yLazy = seq::choose(2);
    auto mk = [&](int i) { if (i) w.create(1, {}, yLazy ? &ly : nullptr, {}); else w.create(0, {}, &lazy, {}); };
    mk(order); mk(!order); CHECK(ran.empty());
    auto root = MetaNamespace::global();
    using FD = MetaContainer::ForceDeferred;
    switch (seq::choose(6)) {
    case 0: seq::note("force x;"); w.real(0)->forceDeferredDefine(FD::SelfOnly); w.m.force(w.m.x()); break;
    case 1: seq::note("force x recursively;"); w.real(0)->forceDeferredDefine(FD::Recursive); w.m.recursive(w.m.x()); break;
    case 2: seq::note("force all;"); root->forceDeferredDefine(FD::Recursive); w.m.recursive(&w.m.root); break;
    case 3: seq::note("force y recursively;"); w.real(1)->forceDeferredDefine(FD::Recursive); w.m.recursive(w.m.y()); break;
    case 4: seq::note("ask x;"); w.ask(0, queries()[5]); break;
    case 5: seq::note("force root;"); root->forceDeferredDefine(FD::SelfOnly); break;
    }
    seq::step();
    w.sameRan();
    if ((shape & 1) || seq::choose(2)) w.finish(); else { auto known = w.m.classes; w.m.recursive(&w.m.root); w.compare(known); } // the comparison itself makes the rest of the definitions run
}

// base classes whose deferred definitions change the class that is being asked, and each other
struct ZS { int s = 0; }; struct Z0 { int a = 0; }; struct Z1 { int b = 0; }; struct ZD: Z0, Z1, ZS {}; struct ZE: ZD {};
template<int N> int zf() { return N; } int zv[4];
struct ZWorld { Node root, *k[5]; int act[2][2], n; bool own; } *zw; // act[i]: what the definition of base i does, n: how many of them
char const *const zActs[] = {"a method for itself", "a method for the class", "a method for the other base", "one more base for the class", "an attribute for the class", "a derived class of the class", "one more base for itself", "a property and an element for the class", "the class is asked", "the class is cast", "the whole is forced"};
template<int I, typename B> void zAct(B &b, int a)
{
    auto &k = zw->k; auto me = k[I];
    switch (a) {
    case 0: b._method("x", &zf<I>); me->define(mcatMethod, "x()"); break;
    case 1: global_define()._class<ZD>("ZD")._method("x", &zf<2>); k[2]->define(mcatMethod, "x()"); break;
    case 2: { using O = std::conditional_t<I == 0, Z1, Z0>; global_define()._class<O>(I ? "Z0" : "Z1")._method("x", &zf<3>); k[!I]->define(mcatMethod, "x()"); break; }
    case 3: global_define()._class<ZD>("ZD").template _base<ZS>(); k[2]->base(k[3]); break;
    case 4: global_define()._class<ZD>("ZD")._attribute("x", makeValue(6)); Node::assign(k[2]->attrs, "x", 6); break;
    case 5: if (!zw->root.find(mcatClass, "ZE")) { k[4] = zw->root.define(mcatClass, "ZE"); k[4]->type = metaTypeId<ZE>(); for (auto c: {"d_constructor", "c_constructor", "m_constructor"}) k[4]->define(mcatConstructor, c); } global_define()._class<ZE>("ZE").template _base<ZD>(); k[4]->base(k[2]); break;
    case 6: break; // see below: only of types that are derived
    case 7: global_define()._class<ZD>("ZD")._property("x", &zv[0]); k[2]->define(mcatProperty, "x"); break;
    case 8: { auto d = MetaClass::find(metaTypeId<ZD>()); (void)d->getMethod("y"); (void)d->getProperty("x"); (void)d->inheritedFrom(MetaClass::find(metaTypeId<ZS>())); (void)d->baseClassCount(); break; }
    case 9: { ZD o; auto v = variant{std::ref(o)}; CHECK(v.to<Z1>().b == 0); CHECK(static_cast<void const *>(&std::as_const(v).cref<Z0>()) == static_cast<Z0 *>(&o)); break; }
    case 10: MetaNamespace::global()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); break;
    }
}
template<int I> void zLazy(meta_define<std::conditional_t<I == 0, Z0, Z1>> b) { seq::note("(Z%d is defined)", I); for (int i = 0; i < zw->n; ++i) zAct<I>(b, zw->act[I][i]); }
void basesDefine()
{
    ZWorld w; zw = &w; w.root.addr = MetaNamespace::global(); w.n = seq::choose(2) + 1;
    for (auto &a: w.act) for (int i = 0; i < w.n; ++i) { a[i] = seq::choose(w.n == 1 ? 11 : 5); if (w.n == 2) { static int const some[] = {0, 2, 3, 4, 8}; a[i] = some[a[i]]; } }
    int late = seq::choose(2); bool dLazy = late; // the bases are derived while their definitions wait
    for (int i = 0; i < 2; ++i) seq::note("Z%d is going to define %s%s%s;", i, zActs[w.act[i][0]], w.n > 1 ? ", " : "", w.n > 1 ? zActs[w.act[i][1]] : "");
    Checker check;
    auto node = [&](int i, char const *name, MetaType_ID type) { w.k[i] = w.root.define(mcatClass, name); w.k[i]->type = type; for (auto c: {"d_constructor", "c_constructor", "m_constructor"}) w.k[i]->define(mcatConstructor, c); };
    node(3, "ZS", metaTypeId<ZS>()); global_define()._class<ZS>("ZS")._method("s", &zf<1>)._property("q", &ZS::s); w.k[3]->define(mcatMethod, "s()"); w.k[3]->define(mcatProperty, "q");
    node(0, "Z0", metaTypeId<Z0>()); global_define()._class<Z0>("Z0")._lazy(&zLazy<0>);
    node(1, "Z1", metaTypeId<Z1>()); global_define()._class<Z1>("Z1")._lazy(&zLazy<1>);
    node(2, "ZD", metaTypeId<ZD>()); w.k[4] = nullptr;
    static constexpr auto dModel = [] { auto &k = zw->k; k[2]->base(k[0]); k[2]->base(k[1]); k[2]->define(mcatMethod, "y()"); };
    if (dLazy) global_define()._class<ZD>("ZD")._lazy([](meta_define<ZD> b) { b._base<Z0, Z1>(); b._method("y", &zf<0>); dModel(); }); else { global_define()._class<ZD>("ZD")._base<Z0, Z1>()._method("y", &zf<0>); dModel(); }
    auto find = [](char const *n) { return MetaNamespace::global()->getClass(n); };
    auto d = find("ZD"); ZD o; auto v = variant{std::ref(o)};
    int q = seq::choose(12); static char const *const qs[] = {"method x", "method s", "property q", "property x", "attribute x", "inherits ZS", "inherits Z1", "visits methods", "base 2", "cast", "no such method", "derived of Z0"};
    seq::note("ZD is asked: %s;", qs[q]); seq::step();
    alarm(20);
    auto has = [&](int a) { return w.act[0][0] == a || w.act[1][0] == a || (w.n > 1 && (w.act[0][1] == a || w.act[1][1] == a)); };
    switch (q) {
    case 0: { auto m = d->getMethod("x()"); if (has(0) || (w.act[0][0] == 2 || (w.n > 1 && w.act[0][1] == 2))) CHECK(m); if (m) { CHECK(m->name() == "x()"); CHECK(m->owner() == d || m->owner() == find("Z0") || m->owner() == find("Z1")); } break; }
    case 1: { auto m = d->getMethod("s"); if (m) CHECK(has(3) && m->owner() == find("ZS")); break; }
    case 2: { auto m = d->getProperty("q"); if (m) CHECK(has(3) && m->owner() == find("ZS")); break; }
    case 3: { auto m = d->getProperty("x"); if (m) CHECK(has(7) && m->owner() == d); break; }
    case 4: CHECK(valueOf(d->attribute("x")) == -1); break; // no base class is asked for it
    case 5: if (d->inheritedFrom(find("ZS"))) CHECK(has(3)); break;
    case 6: CHECK(d->inheritedFrom(find("Z1"))); break;
    case 7: d->for_each_method([&](MetaMethod const *m) { (void)d->getMethod("s"); (void)d->getProperty("q"); return m != nullptr; }); break;
    case 8: { auto b = d->baseClass(2); if (b) CHECK(has(3) && b == find("ZS")); break; }
    case 9: CHECK(static_cast<void const *>(&v.ref<Z1>()) == static_cast<Z1 *>(&o)); break;
    case 10: CHECK(!d->getMethod("no such")); break;
    case 11: { auto b = find("Z0"); if (!dLazy) { CHECK(b->derivedClassCount() == 1); CHECK(b->derivedClass(0) == d); } else CHECK(b->derivedClassCount() <= 1); break; }
    }
    seq::step();
    MetaNamespace::global()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive);
    for (auto n: w.k) if (n) check.classes.push_back(n);
    check.names = {"x", "x()", "s", "q", "y", "a"}; check.all(w.root, w.root.addr);
    CHECK(static_cast<void const *>(&v.ref<Z0>()) == static_cast<Z0 *>(&o)); if (d->inheritedFrom(find("ZS"))) CHECK(static_cast<void const *>(&v.ref<ZS>()) == static_cast<ZS *>(&o)); else { bool refused = false; try { (void)v.ref<ZS>(); } catch (std::exception const &) { refused = true; } CHECK(refused); }
    alarm(90); zw = nullptr;
}

// a class whose deferred definition registers the classes that are derived from it
struct DA { int a = 1; }; struct DD: DA {}; struct DE: DA {}; struct DF: DD {};
void derivedDefine()
{
    int count = seq::choose(3), where = seq::choose(3), lazy = seq::choose(3), q = seq::choose(10); static bool ranA; ranA = false;
    seq::note("%d derived classes defined %s, %s, query %d first", count, where == 0 ? "inside" : where == 1 ? "globally" : "each in its own way", lazy == 0 ? "at once" : lazy == 1 ? "by a deferred definition" : "by a deferred definition, the last of them deferred too", q);
    auto content = [=](auto b) {
        ranA = true;
        auto add = [&](auto tag, char const *name, bool in, bool later) {
            using D = typename decltype(tag)::type; auto g = global_define();
            auto def = [&](auto c) { if (later) c._lazy([](auto k) { k.template _base<DA>(); k._method("own", F::f[3]); }); else { c.template _base<DA>(); c._method("own", F::f[3]); } };
            if (in) def(b.template _class<D>(name)); else def(g.template _class<D>(name));
        };
        b._method("first", F::f[2]);
        if (count > 0) add(mpl::identity<DD>{}, "d", where == 0 || where == 2, false);
        if (count > 1) { if (where == 0 || where == 2) { /* the builder stands in the class */ } add(mpl::identity<DE>{}, "e", false, lazy == 2); }
    };
    { auto g = global_define(); auto k = g._class<DA>("da"); if (lazy) k._lazy([=](meta_define<DA> b) { content(b); }); else content(k); }
    seq::step(); CHECK(ranA == !lazy); if (lazy && count) CHECK(!MetaClass::find(metaTypeId<DD>()));
    auto a = MetaClass::find(metaTypeId<DA>()); CHECK(a && a->name() == "da");
    auto in = [&]() -> MetaContainer const * { return where == 1 ? static_cast<MetaContainer const *>(MetaNamespace::global()) : a; };
    size_t now = size_t(count); if (lazy == 2 && count == 2) now = 1; // the last one is not linked until it is defined
    DD dd; DE de;
    auto ask = [&](int i) {
        seq::step();
        switch (i) {
        case 0: CHECK(a->derivedClassCount() == now); break;
        case 1: { auto d = a->derivedClass(0); CHECK(!d == !now); if (now) CHECK(d->metaTypeId() == metaTypeId<DD>()); break; }
        case 2: { auto d = a->derivedClass(1); CHECK(!d == (now < 2)); if (d) CHECK(d->metaTypeId() == metaTypeId<DE>()); break; }
        case 3: CHECK(a->methodCount() == 1 && a->getMethod("first")); break;
        case 4: CHECK(a->classCount() == size_t(count && where != 1)); break;
        case 5: a->forceDeferredDefine(MetaContainer::ForceDeferred::SelfOnly); if (count) { auto d = MetaClass::find(metaTypeId<DD>()); CHECK(d && d->inheritedFrom(a) && d->getMethod("first") && d->getMethod("own") && d->owner() == in()); } break;
        case 6: CHECK(!a->derivedClass(now)); CHECK(!a->derivedClass(~size_t{})); break;
        case 7: { variant v{dd}; if (ranA && count) { CHECK(v.is<DA>()); CHECK(v.to<DA>().a == 1); } else v.is<DA>(); break; }
        case 8: { MetaNamespace::global()->forceDeferredDefine(MetaContainer::ForceDeferred::Recursive); CHECK(ranA); now = size_t(count); CHECK(a->derivedClassCount() == now); if (count > 1) CHECK(a->derivedClass(1)->metaTypeId() == metaTypeId<DE>()); break; }
        case 9: CHECK(a->baseClassCount() == 0); CHECK(!a->baseClass(0)); break;
        }
    };
    ask(q); if (q != 7) CHECK(ranA);
    for (int i = 0; i < 10; ++i) if (i != q && i != 8) ask(i);
    if (count > 1) { auto e = MetaClass::find(metaTypeId<DE>()); CHECK(e && e->inheritedFrom(a) && e->getMethod("own")->invoke().to<int>() == 3); now = size_t(count); }
    ask(8); for (int i = 0; i < 8; ++i) ask(i);
    seq::state(std::to_string(count) + std::to_string(where) + std::to_string(lazy));
}

} // namespace

int main(int argc, char **argv)
{
    std::vector<seq::Group> g; bool t = seq::thorough();
    g.push_back({"one container, every first query", [t] { oneContainer(t ? 3 : 2); }, nullptr, true, false, false, 2});
    g.push_back({"immediate definitions before and after", around, nullptr, true, false, false, 2});
    g.push_back({"two containers that refer to each other", [t] { twoContainers(2, t ? 3 : 1); }, nullptr, true, false, false, 2});
    g.push_back({"nested definitions and forcing", nested, nullptr, true, false, false, 2});
    g.push_back({"definitions of derived classes", derivedDefine, nullptr, true, false, false, 1});
    g.push_back({"definitions of base classes", basesDefine, nullptr, true, false, false, 2});
    seq::main_(argc, argv, g);
}
