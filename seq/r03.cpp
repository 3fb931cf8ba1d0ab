// R03: attributes and enum elements are ordered name-value maps
#include "seq/regmodel.h"
#include <unistd.h>
using namespace reg;

namespace {

enum class E0 { x }; enum class E1 { y };
struct K0 { int m = 0; }; struct K1 { int m = 1; };
char const *const names[] = {"x", "y", "a long name that is not kept in a small buffer", ""};

struct Hist { std::function<void()> verify; Node *root = nullptr; std::vector<Node *> path; Node *item = nullptr; int left = 0, serial = 0; bool classes = false; std::vector<Node *> *known = nullptr; };

template<typename F> void give(int form, int v, F f) // the same value in different forms
{
    switch (form % 5) {
    case 0: if (v & 1) f(int(v)); else f(std::string(makeValue(v).to<std::string>())); break;
    case 1: { variant x = makeValue(v); f(x); CHECK(valueOf(x) == v); break; }
    case 2: { variant const x = makeValue(v); f(x); CHECK(valueOf(x) == v); break; }
    case 3: { variant x = makeValue(v); f(std::move(x)); break; }
    case 4: if (v & 1) { int const x = v; f(x); } else { std::string x = makeValue(v).to<std::string>(); f(x); CHECK(x == makeValue(v).to<std::string>()); } break;
    }
}
template<typename B> void run(B b, Hist &h)
{
    h.verify();
    if (!h.left--) return;
    using T = typename ClassOf<B>::type; constexpr int depth = DepthOf<B>::value; constexpr int maxDepth = 3;
    int i = h.serial++; Node *n = h.path.back(); Node *it = h.item;
    auto open = [&](Node *k) { h.item = k; if (k->cat != mcatEnum) h.path.push_back(k); };
    auto attribute = [&](int k) { seq::note("attribute %.4s=%d of %s;", names[k], i, it->name.c_str()); seq::step(); Node::assign(it->attrs, names[k], i); give(i, i, [&](auto &&v) { b._attribute(names[k], std::forward<decltype(v)>(v)); }); run(b, h); };
    auto element = [&](int k) { if (it->cat != mcatEnum) return; seq::note("element %.4s=%d;", names[k], i); seq::step(); Node::assign(it->elems, names[k], i); give(i, i, [&](auto &&v) { b._element(names[k], std::forward<decltype(v)>(v)); }); run(b, h); };
    auto enumeration = [&](char const *name, auto e) { seq::note("enum %s;", name); seq::step(); open(n->define(mcatEnum, name)); b.template _enum<decltype(e)>(name); run(b, h); };
    auto ns = [&](char const *name) { if constexpr(std::is_void_v<T> && depth < maxDepth) { seq::note("namespace %s;", name); seq::step(); open(n->define(mcatNamespace, name)); run(b._namespace(name), h); } };
    auto end = [&] { if constexpr(depth > 0) if (h.path.size() > 1) { seq::note("end;"); seq::step(); h.path.pop_back(); h.item = h.path.back(); run(b._end(), h); } };
    auto cls = [&](auto tag, char const *name) {
        using K = typename decltype(tag)::type;
        if constexpr(depth < 2 && !std::is_same_v<K, T>) {
            auto k = n->find(mcatClass, name); if (!k) for (auto c: *h.known) if (c->type == metaTypeId<K>()) return;
            seq::note("class %s;", name); seq::step();
            if (!k) { k = n->define(mcatClass, name); k->type = metaTypeId<K>(); k->define(mcatConstructor, "d_constructor"); k->define(mcatConstructor, "c_constructor"); k->define(mcatConstructor, "m_constructor"); h.known->push_back(k); }
            open(k); run(b.template _class<K>(name), h);
        }
    };
    if (!h.classes)
        switch (seq::choose(11)) {
        case 0: attribute(0); break; case 1: attribute(1); break; case 2: attribute(2); break; case 3: attribute(3); break;
        case 4: element(0); break; case 5: element(1); break; case 6: element(2); break;
        case 7: enumeration("e", E0{}); break; case 8: enumeration("f", E1{}); break;
        case 9: ns("n"); break; case 10: end(); break;
        }
    else
        switch (seq::choose(7)) {
        case 0: attribute(0); break; case 1: attribute(1); break; case 2: cls(mpl::identity<K0>{}, "K0"); break; case 3: cls(mpl::identity<K1>{}, "K1"); break;
        case 4: end(); break; case 5: enumeration("e", E0{}); break; case 6: element(0); break;
        }
    { auto s = h.root->print(); seq::state(s.substr(s.find('#'))); }
}
void items(int depth)
{
    Fresh f; Checker c; c.names = {"x", "y", names[2], "z", "n", "e", "f", "x ", "xx"}; Hist h; h.root = f.root; h.left = depth; h.path = {f.root}; h.item = f.root;
    h.verify = [&] { f.verify(c); };
    f.open([&h](auto b) { run(b, h); });
}
void classes(int depth)
{
    Node root; root.addr = MetaNamespace::global(); Checker c; c.names = {"x", "y", "z", "K0", "e"}; Hist h; h.root = &root; h.left = depth; h.path = {&root}; h.item = &root; h.classes = true; h.known = &c.classes;
    h.verify = [&] { c.all(root, root.addr); };
    atRoot([&h](Root b) { run(b, h); });
}
// many names, in every order of a few: growth of the map keeps names and values apart
void many()
{
    int n = seq::choose(40), rewrite = seq::choose(4), form = seq::choose(5), of = seq::choose(2);
    Fresh f; Checker c; Node *e = of ? f.root->define(mcatEnum, "e") : f.root;
    auto g = global_define(); auto b = g._namespace(f.outer)._namespace(f.inner); if (of) b._enum<E0>("e");
    auto set = [&](std::string const &name, int v) { Node::assign(of ? e->elems : e->attrs, name, v); give(form + v, v, [&](auto &&x) { if (of) b._element(name, std::forward<decltype(x)>(x)); else b._attribute(name, std::forward<decltype(x)>(x)); }); seq::step(); };
    seq::note("%d names, %d", n, rewrite);
    for (int i = 0; i < n; ++i) set("name" + std::to_string(i * 7 % 41), i);
    if (rewrite) for (int i = 0; i < n; i += rewrite) set("name" + std::to_string((n - 1 - i) * 7 % 41), 100 + i);
    f.verify(c); { auto s = f.root->print(); seq::state(s.substr(s.find('#'))); }
}
// names are any characters, among them those that end names in C
std::string const unusual[] = {"a", std::string("a\0", 2), std::string("a\0b", 3), std::string("a\0c", 3), std::string("\0", 1), "\xc3\xa4\n", "A"};
void anyNames(int depth)
{
    int of = seq::choose(2);
    Fresh f; Checker c; c.names = {"b", "c", "a ", std::string("a\0b\0", 4), "\xc3"}; for (auto &s: unusual) c.names.push_back(s);
    Node *e = of ? f.root->define(mcatEnum, "e") : f.root;
    auto g = global_define(); auto b = g._namespace(f.outer)._namespace(f.inner); if (of) b._enum<E0>("e");
    for (int i = 0; i < depth; ++i) {
        int k = seq::choose(int(std::size(unusual))); auto &name = unusual[k]; seq::note("name %d=%d;", k, i); seq::step();
        Node::assign(of ? e->elems : e->attrs, name, i); give(i, i, [&](auto &&x) { if (of) b._element(name, std::forward<decltype(x)>(x)); else b._attribute(name, std::forward<decltype(x)>(x)); });
        f.verify(c);
    }
    { auto s = f.root->print(); seq::state(s.substr(s.find('#'))); }
}
// visits in order, and what is done by the visitor: asking, stopping, throwing, visiting again, changing values and adding names
struct Stop {};
void visits()
{
    int of = seq::choose(2), n = seq::choose(5), at = n ? seq::choose(n) : 0, what = seq::choose(7), target = seq::choose(n + 1); alarm(20);
    static char const *const whats[] = {"nothing", "stop", "throw", "ask", "visit again", "assign", "assign and ask"};
    seq::note("%d names, the visitor of number %d does: %s (%d)", n, at, whats[what], target);
    Fresh f; Checker c; c.names = {"n0", "n1", "n2", "n3", "n4"}; Node *e = of ? f.root->define(mcatEnum, "e") : f.root; auto &model = of ? e->elems : e->attrs;
    auto g = global_define(); auto b = g._namespace(f.outer)._namespace(f.inner); if (of) b._enum<E0>("e");
    auto set = [&](int i, int v) { auto name = "n" + std::to_string(i); Node::assign(model, name, v); if (of) b._element(name, makeValue(v)); else b._attribute(name, makeValue(v)); seq::step(); };
    for (int i = 0; i < n; ++i) set(i, i);
    auto root = static_cast<MetaContainer const *>(f.root->addr); auto en = of ? root->getEnum("e") : nullptr;
    auto visit = [&](std::function<bool(std::string_view, variant const &)> const &v) { if (of) en->for_each_element(v); else root->for_each_attribute(v); };
    auto value = [&](std::string const &k) -> variant const & { return of ? en->element(k) : root->attribute(k); };
    auto before = model; size_t seen = 0; bool thrown = false;
    auto ask = [&] {
        CHECK((of ? en->elementCount() : root->attributeCount()) == model.size());
        for (size_t i = 0; i < model.size(); ++i) { CHECK((of ? en->elementName(i) : root->attributeName(i)) == model[i].first); CHECK(valueOf(value(model[i].first)) == model[i].second); CHECK(&value(model[i].first) == &(of ? en->element(i) : root->attribute(i))); }
    };
    try {
        visit([&](std::string_view name, variant const &v) -> bool {
            CHECK(seen < model.size()); CHECK(name == model[seen].first);
            CHECK(valueOf(v) == model[seen].second); CHECK(&v == &value(std::string{name}));
            if (int(seen++) != at) return true;
            switch (what) {
            case 1: return false;
            case 2: throw Stop{};
            case 3: ask(); break;
            case 4: { size_t again = 0; visit([&](std::string_view k, variant const &w) { CHECK(again < model.size() && k == model[again].first && valueOf(w) == model[again].second); return ++again <= size_t(target); }); CHECK(again == std::min(model.size(), size_t(target) + 1)); break; }
            case 5: case 6: set(target, 10 + target); if (what == 6) ask(); break;
            }
            return true;
        });
    } catch (Stop &) { thrown = true; }
    CHECK(thrown == (what == 2 && n));
    if (n && (what == 1 || what == 2)) CHECK(seen == size_t(at) + 1); else CHECK(seen == before.size() || seen == model.size()); // the one added meanwhile may be visited
    ask(); set(n + 1, 3); f.verify(c); { auto s = f.root->print(); seq::state(s.substr(s.find('#'))); }
}

// values that ask the item they are given to, when they are copied, moved or destroyed; and that fail to be copied
std::function<void()> asker; int askDepth; bool copyFails;
template<int Size> struct Asks
{
    int v; char pad[Size] = {}; static void ask() { if (asker && !askDepth) { ++askDepth; asker(); --askDepth; } }
    Asks(int n): v(n) {} Asks(Asks const &o): v(o.v) { if (copyFails) throw Stop{}; ask(); } Asks(Asks &&o) noexcept(Size == 1): v(o.v) { o.v = -1; if (Size > 1) ask(); } ~Asks() { if (v != -1) ask(); } // what was moved from is nobody anymore
    bool operator==(Asks const &o) const { return v == o.v; }
};
int askedValue(variant const &v) { if (v.is<Asks<1>>()) return v.cref<Asks<1>>().v; if (v.is<Asks<100>>()) return v.cref<Asks<100>>().v; if (v.is<std::shared_ptr<Asks<1>>>()) return v.cref<std::shared_ptr<Asks<1>>>()->v; return valueOf(v); }
void valuesAsk()
{
    int of = seq::choose(3), n = seq::choose(seq::thorough() ? 4 : 3) + 1; bool fail = false; // the last copy fails
    Fresh f; using L = std::vector<std::pair<std::string, int>>; L model; auto b0 = global_define(); auto b = b0._namespace(f.outer)._namespace(f.inner); if (of) b._enum<E0>("e");
    auto root = static_cast<MetaContainer const *>(static_cast<MetaContainer const *>(MetaNamespace::global()->getNamespace(f.outer))->getNamespace(f.inner)); auto en = of == 1 ? root->getEnum("e") : nullptr; auto it = of == 2 ? static_cast<MetaItem const *>(root->getEnum("e")) : root;
    auto count = [&] { return en ? en->elementCount() : it->attributeCount(); }; auto name = [&](size_t i) -> std::string { return en ? en->elementName(i) : it->attributeName(i); };
    auto value = [&](std::string const &k) -> variant const & { return en ? en->element(k) : it->attribute(k); };
    long asks = 0; bool busy = false; L after; // while a value is set: the map as it was or as it is going to be
    auto compare = [&](L const &l) -> bool { if (count() != l.size()) return false; for (size_t i = 0; i < l.size(); ++i) if (name(i) != l[i].first) return false; return true; };
    asker = [&] { ++asks; CHECK(compare(model) || compare(after)); for (auto &m: model) CHECK(!value(m.first).empty() || busy); size_t k = 0; auto visit = [&](std::string_view, variant const &) { ++k; return true; }; if (en) en->for_each_element(visit); else it->for_each_attribute(visit); CHECK(k == model.size() || k == after.size()); CHECK(value("nobody").empty()); CHECK(root->getMethod("nothing") == nullptr); };
    struct Off { ~Off() { asker = nullptr; copyFails = false; } } off;
    for (int i = 0; i < n; ++i) {
        int k = seq::choose(2), kind = seq::choose(4), how = seq::choose(3), v = i * 4 + 2; std::string key = k ? "x" : "y"; if (i + 1 == n && kind < 2 && how != 2) fail = seq::choose(2);
        seq::note("%s=%s%s;", key.c_str(), std::initializer_list<char const *>{"small", "large", "shared", "number"}.begin()[kind], fail && i + 1 == n ? " that can't be copied" : ""); seq::step();
        after = model; Node::assign(after, key, v); bool thrown = false;
        auto give = [&](auto &&x) { busy = true; if (of == 1) b._element(key, std::forward<decltype(x)>(x)); else b._attribute(key, std::forward<decltype(x)>(x)); };
        try {
            variant x = kind == 0 ? variant{Asks<1>{v}} : kind == 1 ? variant{Asks<100>{v}} : kind == 2 ? variant{std::make_shared<Asks<1>>(v)} : makeValue(v);
            copyFails = fail && i + 1 == n;
            if (how == 0) give(std::as_const(x)); else if (how == 1) give(x); else give(std::move(x));
        } catch (Stop &) { thrown = true; } catch (std::exception const &e) { seq::fail(std::string("the value is refused: ") + e.what()); }
        busy = false; copyFails = false; if (thrown) { CHECK(fail); after = model; } else { CHECK(!(fail && i + 1 == n)); model = after; }
        CHECK(compare(model)); for (auto &m: model) CHECK(askedValue(value(m.first)) == m.second);
    }
    asker = nullptr; // at the end of the process, too
    if (of == 1) { for (auto &m: model) b._element(m.first, 0); } else for (auto &m: model) b._attribute(m.first, 0);
    seq::state(std::to_string(of) + std::to_string(n) + std::to_string(asks > 0) + std::to_string(fail));
}

} // namespace

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    g.push_back({"attributes and elements", [] { items(seq::thorough() ? 7 : 6); }, nullptr, false, false, false, 2});
    g.push_back({"attributes of classes", [] { classes(seq::thorough() ? 7 : 6); }, nullptr, true, false, false, 2});
    g.push_back({"many names", many, nullptr, false, false, false, 2});
    g.push_back({"names of any characters", [] { anyNames(seq::thorough() ? 5 : 4); }, nullptr, false, false, false, 2});
    g.push_back({"visits", visits, nullptr, false, false, false, 2});
    g.push_back({"values that ask", valuesAsk, nullptr, false, false, false, 3});
    seq::main_(argc, argv, g);
}
