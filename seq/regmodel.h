// Reference model of the registry and its comparison with the real one
#pragma once
#include "seq/seq.h"
#include <rtti/metadefine.h>
#include <rtti/metaclass.h>
#include <rtti/metanamespace.h>
#include <rtti/metaconstructor.h>
#include <rtti/metaenum.h>
#include <rtti/metaerror.h>
#include <rtti/variant.h>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace reg {
using namespace rtti;

struct Node
{
    MetaCategory cat = mcatNamespace; std::string name; Node *owner = nullptr;
    std::vector<std::unique_ptr<Node>> kids[mcatCount];
    std::vector<std::pair<std::string, int>> attrs, elems;
    std::vector<Node *> bases, derived;
    MetaType_ID type{}; bool isClass() const { return cat == mcatClass; }
    MetaItem const *addr = nullptr;
    int tag = 0; // what the item is: which function, variable

    Node *find(MetaCategory c, std::string const &n) const { for (auto &k: kids[c]) if (k->name == n) return k.get(); return nullptr; }
    Node *define(MetaCategory c, std::string const &n, int tag_ = 0)
    {
        if (auto k = find(c, n)) return k;
        auto k = std::make_unique<Node>(); k->cat = c; k->name = n; k->owner = this; k->tag = tag_;
        kids[c].push_back(std::move(k)); return kids[c].back().get();
    }
    static void assign(std::vector<std::pair<std::string, int>> &l, std::string const &n, int v)
    {
        if (n.empty()) return; // an item without a name can't be asked for and is not stored
        for (auto &p: l) if (p.first == n) { p.second = v; return; }
        l.emplace_back(n, v);
    }
    void base(Node *b)
    {
        for (auto k: bases) if (k == b) return;
        bases.push_back(b);
        for (auto k: b->derived) if (k == this) return;
        b->derived.push_back(this);
    }
    bool inherits(Node const *b) const { if (b == this) return true; for (auto k: bases) if (k->inherits(b)) return true; return false; }
    std::string qualified() const { return owner ? owner->qualified() + "::" + name : std::string{}; }
    static std::string bare(std::string const &n)
    {
        if (n.empty() || n.back() != ')') return n;
        int depth = 0; for (size_t i = n.size(); i-- > 0;) { if (n[i] == ')') ++depth; if (n[i] == '(' && --depth == 0) return n.substr(0, i); }
        return n;
    }
    // full signature or bare name, first defined
    Node *own(MetaCategory c, std::string const &n) const { if (n.empty()) return nullptr; for (auto &k: kids[c]) if (k->name == n || ((c == mcatMethod || c == mcatConstructor) && bare(k->name) == n)) return k.get(); return nullptr; }
    Node *lookup(MetaCategory c, std::string const &n) const { if (auto k = own(c, n)) return k; for (auto b: bases) if (auto k = b->lookup(c, n)) return k; return nullptr; }
    std::string print() const
    {
        static char const *const cats[] = {"ns", "class", "prop", "method", "enum", "ctor"};
        std::string s = std::string(cats[cat]) + " " + name + "#" + std::to_string(tag);
        for (auto &a: attrs) s += "@" + a.first + "=" + std::to_string(a.second);
        for (auto &a: elems) s += "." + a.first + "=" + std::to_string(a.second);
        for (auto b: bases) s += ":" + b->name;
        s += "{"; for (auto &v: kids) for (auto &k: v) s += k->print() + ";"; return s + "}";
    }
};

inline int valueOf(variant const &v)
{
    if (v.empty()) return -1;
    if (v.is<int>()) return v.cref<int>();
    if (v.is<std::string>()) return std::stoi(v.cref<std::string>());
    return -2;
}
inline variant makeValue(int v) { return v & 1 ? variant{v} : variant{std::to_string(v) + "                                "}; }

struct Checker
{
    std::vector<std::string> names{"a", "b"};       // names to ask for
    std::vector<Node *> classes;                    // all registered
    std::function<void(Node const &, MetaItem const *)> extra;
    std::map<MetaItem const *, Node const *> seen;
    std::map<std::pair<MetaItem const *, std::string>, variant const *> given; // values as they were returned first: the references stay valid, and show the last value
    void same(Node const &n, MetaItem const *it, std::string const &name, variant const &v, int value)
    {
        auto &g = given[{it, name}]; if (!g) g = &v;
        if (valueOf(*g) != value) bad(n, "the reference returned for " + name + " before shows " + std::to_string(valueOf(*g)) + " instead of " + std::to_string(value));
    }
    long asked = 0;

    [[noreturn]] static void bad(Node const &n, std::string const &what) { seq::fail(n.qualified() + ": " + what); }
    static void need(bool ok, Node const &n, char const *what) { if (!ok) bad(n, what); }
#define NEED(...) need(bool(__VA_ARGS__), n, #__VA_ARGS__)

    void attributes(Node const &n, MetaItem const *it)
    {
        size_t k = n.attrs.size();
        if (it->attributeCount() != k) bad(n, "has " + std::to_string(it->attributeCount()) + " attributes instead of " + std::to_string(k));
        for (size_t i = 0; i < k; ++i) {
            if (it->attributeName(i) != n.attrs[i].first) bad(n, "attribute " + std::to_string(i) + " has the name " + it->attributeName(i));
            if (valueOf(it->attribute(i)) != n.attrs[i].second) bad(n, "attribute " + std::to_string(i) + " has the value " + std::to_string(valueOf(it->attribute(i))));
            if (&it->attribute(n.attrs[i].first) != &it->attribute(i)) bad(n, "attribute " + n.attrs[i].first + " by name and by index differ");
            same(n, it, "@" + n.attrs[i].first, it->attribute(i), n.attrs[i].second);
        }
        for (auto &s: names) { bool known = false; for (auto &a: n.attrs) known |= a.first == s; if (it->attribute(s).empty() == known) bad(n, "attribute " + s + (known ? " is not found" : " is found though it was not given")); }
        NEED(it->attribute("").empty()); NEED(it->attribute(k).empty()); NEED(it->attribute(k + 7).empty()); NEED(it->attribute(~size_t{}).empty()); NEED(it->attributeName(k).empty()); NEED(it->attributeName(~size_t{}).empty());
        for (size_t stop = 0; stop <= k; stop += k ? k : 1) {
            size_t i = 0;
            it->for_each_attribute([&](std::string_view name, variant const &v) { if (i >= k || name != n.attrs[i].first || valueOf(v) != n.attrs[i].second) bad(n, "iteration of attributes differs"); ++i; return i != stop; });
            if (i != (stop && stop < k ? stop : k)) bad(n, "iteration visited " + std::to_string(i) + " attributes");
        }
        if (k > 1) { size_t i = 0; it->for_each_attribute([&](std::string_view, variant const &) { ++i; return false; }); if (i != 1) bad(n, "iteration was not stopped"); }
        it->for_each_attribute({});
        asked += long(k) * 4 + 10;
    }
    void elements(Node const &n, MetaEnum const *it)
    {
        size_t k = n.elems.size();
        if (it->elementCount() != k) bad(n, "has " + std::to_string(it->elementCount()) + " elements instead of " + std::to_string(k));
        for (size_t i = 0; i < k; ++i) {
            if (it->elementName(i) != n.elems[i].first) bad(n, "element " + std::to_string(i) + " has the name " + it->elementName(i));
            if (valueOf(it->element(i)) != n.elems[i].second) bad(n, "element " + std::to_string(i) + " has the value " + std::to_string(valueOf(it->element(i))));
            if (&it->element(n.elems[i].first) != &it->element(i)) bad(n, "element by name and by index differ");
            same(n, it, n.elems[i].first, it->element(i), n.elems[i].second);
        }
        for (auto &s: names) { bool known = false; for (auto &a: n.elems) known |= a.first == s; if (it->element(s).empty() == known) bad(n, "element " + s + (known ? " is not found" : " is found though it was not given")); }
        NEED(it->element("").empty()); NEED(it->element(k).empty()); NEED(it->element(~size_t{}).empty()); NEED(it->elementName(k).empty()); NEED(it->elementName(~size_t{}).empty());
        size_t i = 0;
        it->for_each_element([&](std::string const &name, variant const &v) { if (i >= k || name != n.elems[i].first || valueOf(v) != n.elems[i].second) bad(n, "iteration of elements differs"); ++i; return true; });
        if (i != k) bad(n, "iteration visited " + std::to_string(i) + " elements");
        if (k > 1) { i = 0; it->for_each_element([&](std::string const &, variant const &) { ++i; return false; }); if (i != 1) bad(n, "iteration was not stopped"); }
        it->for_each_element({});
    }
    template<typename Count, typename At, typename By, typename Kind>
    void list(Node &n, MetaContainer const *c, MetaCategory cat, char const *what, Count count, At at, By by, Kind lookup)
    {
        auto &kids = n.kids[cat]; size_t k = kids.size();
        if ((c->*count)() != k) bad(n, std::string("has ") + std::to_string((c->*count)()) + " " + what + " instead of " + std::to_string(k));
        for (size_t i = 0; i < k; ++i) {
            auto it = (c->*at)(i);
            if (!it) bad(n, std::string(what) + " " + std::to_string(i) + " is null");
            if (it->name() != kids[i]->name) bad(n, std::string(what) + " " + std::to_string(i) + " is " + it->name() + " instead of " + kids[i]->name);
            if ((c->*by)(kids[i]->name) != it) bad(n, "looking for " + kids[i]->name + " finds another item or none");
            item(*kids[i], it);
        }
        if ((c->*at)(k) || (c->*at)(k + 3) || (c->*at)(~size_t{})) bad(n, std::string(what) + " beyond the last one");
        for (auto &s: names) {
            auto want = lookup(s); auto got = (c->*by)(s);
            if ((got != nullptr) != (want != nullptr)) bad(n, std::string(what) + " " + s + (want ? " is not found" : std::string(" is found: ") + got->qualifiedName()));
            if (got && want->addr && static_cast<MetaItem const *>(got) != want->addr) bad(n, std::string(what) + " " + s + " finds " + got->qualifiedName() + " instead of " + want->qualified());
            ++asked;
        }
        asked += long(k) * 6 + 4;
    }
    void item(Node &n, MetaItem const *it)
    {
        NEED(it); NEED(it->category() == n.cat);
        if (n.owner) { NEED(it->name() == n.name); NEED(static_cast<MetaItem const *>(it->owner()) == n.owner->addr); } else NEED(!it->owner());
        if (it->qualifiedName() != n.qualified()) bad(n, "has the qualified name " + it->qualifiedName());
        if (n.addr && n.addr != it) bad(n, "item has moved");
        n.addr = it;
        auto s = seen.emplace(it, &n); if (!s.second) bad(n, "item is found twice, it is " + s.first->second->qualified() + " too");
        attributes(n, it);
        if (n.cat == mcatEnum) elements(n, static_cast<MetaEnum const *>(it));
        if (extra) extra(n, it);
        if (n.cat == mcatNamespace || n.cat == mcatClass) container(n, static_cast<MetaContainer const *>(it));
    }
    void container(Node &n, MetaContainer const *c)
    {
        using C = MetaContainer;
        auto own = [&n](MetaCategory cat) { return [&n, cat](std::string const &s) { return n.find(cat, s); }; };
        auto inherited = [&n](MetaCategory cat) { return [&n, cat](std::string const &s) { return n.lookup(cat, s); }; };
        auto bare = [&n](MetaCategory cat) { return [&n, cat](std::string const &s) { return n.own(cat, s); }; };
        list(n, c, mcatEnum, "enums", &C::enumCount, static_cast<MetaEnum const *(C::*)(size_t) const>(&C::getEnum), static_cast<MetaEnum const *(C::*)(std::string_view) const>(&C::getEnum), own(mcatEnum));
        list(n, c, mcatProperty, "properties", &C::propertyCount, static_cast<MetaProperty const *(C::*)(size_t) const>(&C::getProperty), static_cast<MetaProperty const *(C::*)(std::string_view) const>(&C::getProperty), inherited(mcatProperty));
        list(n, c, mcatMethod, "methods", &C::methodCount, static_cast<MetaMethod const *(C::*)(size_t) const>(&C::getMethod), static_cast<MetaMethod const *(C::*)(std::string_view) const>(&C::getMethod), inherited(mcatMethod));
        list(n, c, mcatConstructor, "constructors", &C::constructorCount, static_cast<MetaConstructor const *(C::*)(size_t) const>(&C::getConstructor), static_cast<MetaConstructor const *(C::*)(std::string_view) const>(&C::getConstructor), bare(mcatConstructor));
        list(n, c, mcatClass, "classes", &C::classCount, static_cast<MetaClass const *(C::*)(size_t) const>(&C::getClass), static_cast<MetaClass const *(C::*)(std::string_view) const>(&C::getClass), own(mcatClass));
        list(n, c, mcatNamespace, "namespaces", &C::namespaceCount, static_cast<MetaNamespace const *(C::*)(size_t) const>(&C::getNamespace), static_cast<MetaNamespace const *(C::*)(std::string_view) const>(&C::getNamespace), own(mcatNamespace));
        auto order = [&](MetaCategory cat, auto each, char const *what) {
            size_t i = 0, k = n.kids[cat].size();
            each([&](MetaItem const *it) { if (i >= k || it != n.kids[cat][i]->addr) bad(n, std::string("iteration of ") + what + " differs"); ++i; return true; });
            if (i != k) bad(n, std::string("iteration visited ") + std::to_string(i) + " " + what);
            if (k > 1) { i = 0; each([&](MetaItem const *) { ++i; return false; }); if (i != 1) bad(n, "iteration was not stopped"); }
        };
        order(mcatClass, [c](auto f) { c->for_each_class([&](MetaClass const *k) { return f(k); }); }, "classes");
        order(mcatMethod, [c](auto f) { c->for_each_method([&](MetaMethod const *k) { return f(k); }); }, "methods");
        c->for_each_class({}); c->for_each_method({});
        if (n.isClass()) classItem(n, static_cast<MetaClass const *>(c));
        else { auto ns = static_cast<MetaNamespace const *>(c); NEED(ns->isGlobal() == !n.owner); }
    }
    void classItem(Node &n, MetaClass const *c)
    {
        NEED(c->metaTypeId() == n.type); NEED(MetaClass::find(n.type) == c); NEED(MetaType{n.type}.metaClass() == c);
        NEED(MetaClass::find(MetaType{n.type}.typeName()) == c);
        NEED(c->baseClassCount() == n.bases.size()); NEED(c->derivedClassCount() == n.derived.size());
        for (size_t i = 0; i < n.bases.size(); ++i) NEED(c->baseClass(i) && c->baseClass(i)->metaTypeId() == n.bases[i]->type);
        for (size_t i = 0; i < n.derived.size(); ++i) NEED(c->derivedClass(i) && c->derivedClass(i)->metaTypeId() == n.derived[i]->type);
        NEED(!c->baseClass(n.bases.size())); NEED(!c->derivedClass(n.derived.size())); NEED(!c->baseClass(~size_t{})); NEED(!c->derivedClass(~size_t{}));
        NEED(!c->inheritedFrom(nullptr)); NEED(c->inheritedFrom(c));
        for (auto k: classes) { auto o = MetaClass::find(k->type); NEED(o); if (c->inheritedFrom(o) != n.inherits(k)) bad(n, std::string(n.inherits(k) ? "does not inherit " : "inherits ") + k->name); }
    }
    // the whole tree below a node
    void all(Node &root, MetaItem const *it)
    {
        seen.clear(); item(root, it);
        seen.clear(); item(root, it); // with all addresses known
    }
#undef NEED
};

// builders of which depth
template<typename B> struct DepthOf;
template<typename T> struct DepthOf<meta_define<T, void>>: std::integral_constant<int, 0> {};
template<typename T, typename MB> struct DepthOf<meta_define<T, MB>>: std::integral_constant<int, 1 + DepthOf<MB>::value> {};
template<typename B> struct ClassOf;
template<typename T, typename MB> struct ClassOf<meta_define<T, MB>> { using type = T; };
using Root = meta_define<void, void>;

// the builders refer to the one they were made from
template<typename F> void atRoot(F f) { auto g = global_define(); f(static_cast<Root const &>(g)); }
// a new namespace for every execution of a process
struct Fresh
{
    Node global; Node *root = nullptr; std::string outer, inner;
    Fresh()
    {
        static long count = 0;
        outer = "o" + std::to_string(count / 200); inner = "r" + std::to_string(count % 200); ++count;
        global.addr = MetaNamespace::global();
        global_define()._namespace(outer)._namespace(inner)._end()._end();
        auto o = global.define(mcatNamespace, outer); o->addr = MetaNamespace::global()->getNamespace(outer);
        root = o->define(mcatNamespace, inner); root->addr = static_cast<MetaContainer const *>(o->addr)->getNamespace(inner);
        CHECK(root->addr);
    }
    template<typename F> void open(F f) { auto g = global_define(); f(g._namespace(outer)._namespace(inner)); }
    void verify(Checker &c) { c.all(*root, root->addr); }
};

} // namespace reg
