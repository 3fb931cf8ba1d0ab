// I03: properties are faithful views of variables, fields and pairs of functions
#include "seq/i03params.h"
#include "seq/i01oracle.h"
#include <map>
#include <cstring>

namespace i01 {
int pointedInt = 77; D pointedD{77}; X pointedX{77}; Record rec;
std::vector<Arg> &args() { static std::vector<Arg> v; return v; }
std::vector<Param> &params() { static std::vector<Param> v; return v; }
void params_a(); void params_b(); void params_c(); void params_d(); void params_e();
void args_a(); void args_b(); void args_c(); void args_d();

void setup()
{
    if (!params().empty()) return;
    { auto g = global_define(); g._class<Other>("Other"); }
    { auto g = global_define(); g._class<X>("X"); }
    { auto g = global_define(); g._class<D>("D")._base<Other, X>(); }
    params_a(); params_b(); params_c(); params_d(); params_e();
    args_a(); args_b(); args_c(); args_d();
}

variant read(Param const &p, int shape)
{
    auto &c = p.callee;
    switch (shape) {
    case STATIC: return c.var->get(); case STATIC_PAIR: return c.varPair->get(); case FIELD: return c.field->get(*c.instance); case PAIR: return c.pair->get(*c.instance);
    case FIELD_NAMED: return c.instance->get_property("f"); case PAIR_NAMED: return c.instance->get_property("p"); case FIELD_PTR: return c.field->get(std::as_const(*c.pointer)); default: return c.pair->get(*c.pointer);
    }
}
void values()
{
    auto &A = args(); auto &P = params();
    int conv = seq::choose(2); auto &p = P[seq::choose(int(P.size()))]; enum { WAYS = 18 };
    int thing = seq::choose(int(A.size() / WAYS)); auto &a = A[thing * WAYS + seq::choose(WAYS)]; int shape = seq::choose(SHAPES);
    bool pair = shape & 1; if (!pair && !p.field) return;
    converters(conv);
    static char const *const shapes[] = {"variable", "pair of functions", "field", "pair of methods", "field by name", "pair of methods by name", "field of an object pointed to", "pair of methods of an object pointed to"};
    auto where = [&] { return a.name + " written to a " + shapes[shape] + " of type " + p.name + (conv ? " (with converters): " : ": "); };
    auto r = relation(p, a.thing, conv); auto q = p; if (!pair) q.form = VALUE; int allowed = outcomes(q, a, r);
    p.reset(); a.prepare(); rec = Record{};
    auto old = read(p, shape); auto at = p.address(shape); int first = p.number(shape);
    if (p.at(old) != at || p.read(old) != first) seq::fail(where() + "before, another value is read");
    if (p.writable(old)) seq::fail(where() + "what is read isn't constant");
    int number0 = a.number(); void const *pointer0 = a.pointer(); bool thrown = false;
    try { a.call(p.callee, shape); } catch (rtti::runtime_error const &) { thrown = true; } catch (std::exception const &e) { seq::fail(where() + "fails with " + e.what()); }
    seq::step();
    int number1 = a.number(); void const *pointer1 = a.pointer(); int now = p.number(shape);
    auto fresh = read(p, shape);
    if (p.at(fresh) != at || p.read(fresh) != now || p.read(old) != now) seq::fail(where() + "another value is read afterwards");
    for (int s = 0; s < SHAPES; ++s) if (p.address(s) != at && p.number(s) != first) seq::fail(where() + "something else is written");
    if (thrown) {
        if (rec.calls) seq::fail(where() + "reports an error though it was written");
        if (!(allowed & REFUSED)) seq::fail(where() + "refused");
        if (now != first) seq::fail(where() + "refused, but it was written");
        if (number1 != number0 || pointer1 != pointer0) seq::fail(where() + "refused, but what was to be written changed");
    } else {
        if (!(allowed & ~REFUSED)) seq::fail(where() + "written though it can't be");
        if (pair && rec.calls != 1) seq::fail(where() + "the function was called " + std::to_string(rec.calls) + " times");
        int expect = r.rel == CONVERTED ? 51 : r.rel == BASE && r.base == 2 ? 4 : r.rel == PTR && r.base == 2 ? (a.thing == T_NULLX || a.thing == T_NULLD ? -9 : 4) : number0;
        if (now != expect) seq::fail(where() + "the value is " + std::to_string(now) + " instead of " + std::to_string(expect));
        if (pair) {
            bool bound = r.rel != CONVERTED && rec.address == (r.rel == BASE ? a.as(r.base) : a.address());
            if (!(allowed & (bound ? BOUND : FRESH)) && r.rel != PTR) seq::fail(where() + (bound ? "the object itself is given" : "not the object itself is given"));
            if (bound && p.form == LREF) { if (p.thing != TOTHER && number1 != 77) seq::fail(where() + "what the function did doesn't show"); }
            else if (bound && p.form == RREF) {}
            else if ((number1 != number0 || pointer1 != pointer0) && !(p.form == VALUE && (a.cat == RVALUE || a.cat == VIA_RVALUE))) seq::fail(where() + "what was written changed");
        } else if ((number1 != number0 || pointer1 != pointer0) && a.cat != RVALUE && a.cat != VIA_RVALUE) seq::fail(where() + "what was written changed");
    }
    a.drop();
    seq::state(std::to_string(r.rel * 1000 + q.form * 100 + a.cat * 10 + thrown) + p.name + std::to_string(shape));
}

// ---- histories of reading and writing
int variable, paired; int const fixedVariable = 12; std::string text; int calls;
int getPaired() { ++calls; return paired; } void setPaired(int n) { ++calls; paired = n; } void setThrowing(int) { throw std::string("thrown by the setter"); } int getThrowing() { throw std::string("thrown by the getter"); }
struct Thing3
{
    int field = 1; int const fixed = 2; std::string text = "text that is longer than the small buffer"; int paired = 3; X x{4}; X *px = &x;
    Thing3() = default; Thing3(Thing3 const &o): field(o.field), fixed(o.fixed), text(o.text), paired(o.paired), x(o.x), px(&x) {}
    int get() const { return paired; } void set(int n) { paired = n; } X &getX() { return x; } X const &getXc() const { return x; } void setX(X const &v) { x = v; }
};
struct Derived3: Other, Thing3 {};
void setupHistories()
{
    setup(); if (MetaNamespace::global()->getClass("Thing3")) return;
    { auto g = global_define(); g._property("variable", &variable)._property("fixedVariable", &fixedVariable)._property("paired", &getPaired, &setPaired)._property("text", &text)._property("throwing", &getThrowing, &setThrowing); }
    { auto g = global_define(); g._class<Thing3>("Thing3")._property("field", &Thing3::field)._property("fixed", &Thing3::fixed)._property("text", &Thing3::text)._property("paired", &Thing3::get, &Thing3::set)._property("x", &Thing3::x)._property("px", &Thing3::px)._property("setX", &Thing3::getXc, &Thing3::setX)._property("static", &variable); }
    { auto g = global_define(); g._class<Derived3>("Derived3")._base<Thing3>(); }
}
struct Model { int variable = 0, paired = 0; std::string text; struct Obj { int field, paired; std::string text; int x; bool px; } a, b; };
void histories()
{
    auto root = MetaNamespace::global(); auto K = root->getClass("Thing3");
    variable = 0; paired = 0; text = "a long text that needs memory of its own"; Thing3 real; variant a, b; Model m; m.text = text;
    Model::Obj o0{1, 3, real.text, 4, true};
    int holder = seq::choose(4); // a: value, reference, pointer, value of derived class; b: a copy of a
    a = holder == 0 ? variant{Thing3{}} : holder == 1 ? variant{std::ref(real)} : holder == 2 ? variant{&real} : variant{Derived3{}};
    m.a = o0; m.b = o0; bool copied = false; bool shared = holder == 1 || holder == 2;
    auto obj = [&](variant &v) -> Thing3 & { return holder == 2 ? *v.to<Thing3 *>() : v.ref<Thing3>(); };
    std::vector<std::pair<variant, std::function<int()>>> views; // variants read before and what they show
    int depth = seq::thorough() ? 5 : 4;
    auto verify = [&] {
        CHECK(variable == m.variable && paired == m.paired && text == m.text);
        CHECK(root->getProperty("variable")->get().cref<int>() == m.variable); CHECK(root->getProperty("paired")->get().cref<int>() == m.paired); CHECK(root->getProperty("text")->get().cref<std::string>() == m.text); CHECK(root->getProperty("fixedVariable")->get().cref<int>() == 12);
        auto look = [&](variant &v, Model::Obj &o) {
            auto &t = obj(v); CHECK(t.field == o.field && t.paired == o.paired && t.text == o.text && t.x.number == o.x && (t.px == &t.x) == o.px);
            CHECK(v.get_property("field").cref<int>() == o.field); CHECK(&v.get_property("field").cref<int>() == &t.field); CHECK(v.get_property("paired").cref<int>() == o.paired); CHECK(v.get_property("text").cref<std::string>() == o.text);
            CHECK(v.get_property("x").cref<X>().number == o.x); CHECK(v.get_property("setX").cref<X>().number == o.x); CHECK(v.get_property("fixed").cref<int>() == 2); CHECK((v.get_property("px").to<X *>() == &t.x) == o.px);
        };
        look(a, m.a); if (copied) look(b, shared ? m.a : m.b);
        for (auto &v: views) CHECK(v.first.cref<int>() == v.second());
    };
    verify();
    for (int i = 0; i < depth; ++i) {
        int op = seq::choose(22); int n = 100 + i; bool thrown = false;
        auto refused = [&](auto f) { bool t = false; try { f(); } catch (rtti::runtime_error const &) { t = true; } CHECK(t); };
        try { switch (op) {
        case 0: root->getProperty("variable")->set(n); m.variable = n; break;
        case 1: variable = n; m.variable = n; break;
        case 2: root->getProperty("paired")->set(n); m.paired = n; break;
        case 3: root->getProperty("text")->set(std::string("another text that is long enough ") + std::to_string(n)); m.text = "another text that is long enough " + std::to_string(n); break;
        case 4: root->getProperty("text")->set(root->getProperty("text")->get()); break; // itself
        case 5: K->getProperty("field")->set(a, n); m.a.field = n; break;
        case 6: a.set_property("field", n); m.a.field = n; break;
        case 7: a.set_property("paired", variant{n}); m.a.paired = n; break;
        case 8: a.set_property("x", X{n}); m.a.x = n; break;
        case 9: a.set_property("setX", X{n}); m.a.x = n; break;
        case 10: a.set_property("px", &pointedX); m.a.px = false; break;
        case 11: a.set_property("text", std::string("object's text that is long enough ") + std::to_string(n)); m.a.text = "object's text that is long enough " + std::to_string(n); break;
        case 12: obj(a).field = n; m.a.field = n; break;
        case 13: if (copied) return; b = a; copied = true; m.b = m.a; if (!shared && !m.b.px) m.b.px = true; break; // the copy constructor sets px
        case 14: if (!copied) return; b.set_property("field", n); (shared ? m.a : m.b).field = n; break;
        case 15: if (!copied) return; b.set_property("field", a.get_property("paired")); (shared ? m.a : m.b).field = m.a.paired; break; // from one to the other
        case 16: if (views.size() > 1) return; views.push_back({a.get_property("field"), [&] { return m.a.field; }}); break;
        case 17: if (views.size() > 1) return; views.push_back({root->getProperty("variable")->get(), [&] { return m.variable; }}); break;
        case 18: if (views.size() > 1) return; { int seen = m.a.paired; views.push_back({a.get_property("paired"), [seen] { return seen; }}); } break; // a copy
        case 19: // misuse
            refused([&] { root->getProperty("fixedVariable")->set(n); }); refused([&] { a.set_property("fixed", n); }); refused([&] { K->getProperty("field")->get(); }); refused([&] { K->getProperty("field")->set(n); }); refused([&] { root->getProperty("variable")->get(a); }); refused([&] { root->getProperty("variable")->set(a, n); });
            refused([&] { a.set_property("none", n); }); refused([&] { a.get_property("none"); }); refused([&] { a.set_property("field", std::string("text")); }); refused([&] { a.set_property("field", variant{}); }); refused([&] { root->getProperty("paired")->set(std::string("text")); }); refused([&] { a.set_property("text", 1); }); refused([&] { a.set_property("static", n); });
            break;
        case 20: try { root->getProperty("throwing")->set(n); CHECK(false); } catch (std::string const &s) { CHECK(s == "thrown by the setter"); } try { root->getProperty("throwing")->get(); CHECK(false); } catch (std::string const &s) { CHECK(s == "thrown by the getter"); } break;
        case 21: { variant const ca = a; // a copy that is constant
            if (holder == 2) { K->getProperty("field")->set(ca, n); m.a.field = n; } else { refused([&] { K->getProperty("field")->set(ca, n); }); refused([&] { K->getProperty("paired")->set(ca, n); }); } break; }
        } } catch (rtti::runtime_error const &e) { seq::fail("operation " + std::to_string(op) + ": " + e.what()); }
        (void)thrown; seq::step(); verify();
        seq::state(std::to_string(op * 32 + holder * 8 + int(views.size()) * 2 + copied) + std::to_string(m.a.field == m.b.field) + std::to_string(m.a.px));
    }
}
// ---- values that look equal, properties that look alike
struct Loose { int key = 0, rest = 0; bool operator==(Loose const &o) const { return key == o.key; } bool operator!=(Loose const &o) const { return key != o.key; } };
struct Alike { double d[2] = {0.0, 0.0}, f = 0.0, g = 0.0; Loose l[2], k; double get0() const { return d[0]; } void set0(double x) { d[0] = x; } double get1() const { return d[1]; } void set1(double x) { d[1] = x; }
    Loose const &getl0() const { return l[0]; } void setl0(Loose const &x) { l[0] = x; } Loose const &getl1() const { return l[1]; } void setl1(Loose const &x) { l[1] = x; } };
double vars[2], pairs[2]; Loose loose[2], loosePairs[2];
double getv0() { return pairs[0]; } void setv0(double x) { pairs[0] = x; } double getv1() { return pairs[1]; } void setv1(double x) { pairs[1] = x; }
Loose getk0() { return loosePairs[0]; } void setk0(Loose x) { loosePairs[0] = x; } Loose getk1() { return loosePairs[1]; } void setk1(Loose x) { loosePairs[1] = x; }
void setupAlike()
{
    setup(); if (MetaNamespace::global()->getClass("Alike")) return;
    { auto g = global_define(); g._property("vars0", &vars[0])._property("vars1", &vars[1])._property("pairs0", &getv0, &setv0)._property("pairs1", &getv1, &setv1)._property("loose0", &loose[0])._property("loose1", &loose[1])._property("loosePairs0", &getk0, &setk0)._property("loosePairs1", &getk1, &setk1); }
    { auto g = global_define(); g._class<Alike>("Alike")._property("d0", &Alike::get0, &Alike::set0)._property("d1", &Alike::get1, &Alike::set1)._property("f", &Alike::f)._property("g", &Alike::g)._property("l0", &Alike::getl0, &Alike::setl0)._property("l1", &Alike::getl1, &Alike::setl1)._property("k", &Alike::k); }
}
void alike()
{
    auto root = MetaNamespace::global(); for (int i = 0; i < 2; ++i) { vars[i] = pairs[i] = 0.0; loose[i] = loosePairs[i] = Loose{}; }
    Alike real, other; int how = seq::choose(3); variant a = how == 0 ? variant{std::ref(real)} : how == 1 ? variant{&real} : variant{Alike{}}, b{std::ref(other)};
    enum { SLOTS = 22 }; // 0-7 of namespaces, 8-14 of one object, 15-21 of the other
    static char const *const names[] = {"vars0", "vars1", "pairs0", "pairs1", "loose0", "loose1", "loosePairs0", "loosePairs1", "d0", "d1", "f", "g", "l0", "l1", "k"};
    auto isLoose = [](int s) { if (s > 14) s -= 7; return (s >= 4 && s < 8) || s >= 12; };
    double const ds[] = {0.0, -0.0, 1.5}; Loose const ls[] = {{0, 0}, {0, 1}, {2, 1}};
    auto obj = [&](int s) -> Alike & { return s > 14 ? other : how == 2 ? const_cast<Alike &>(a.cref<Alike>()) : real; };
    auto rawD = [&](int s) -> double & { auto &o = obj(s); switch (s > 14 ? s - 7 : s) { case 0: return vars[0]; case 1: return vars[1]; case 2: return pairs[0]; case 3: return pairs[1]; case 8: return o.d[0]; case 9: return o.d[1]; case 10: return o.f; default: return o.g; } };
    auto rawL = [&](int s) -> Loose & { auto &o = obj(s); switch (s > 14 ? s - 7 : s) { case 4: return loose[0]; case 5: return loose[1]; case 6: return loosePairs[0]; case 7: return loosePairs[1]; case 12: return o.l[0]; case 13: return o.l[1]; default: return o.k; } };
    auto sameD = [](double x, double y) { return !std::memcmp(&x, &y, sizeof(x)); }; auto sameL = [](Loose const &x, Loose const &y) { return x.key == y.key && x.rest == y.rest; };
    int model[SLOTS] = {};
    for (int step = 0; step < (seq::thorough() ? 3 : 2); ++step) {
        int s = seq::choose(SLOTS), v = seq::choose(3); auto name = names[s > 14 ? s - 7 : s]; auto &inst = s > 14 ? b : a;
        int form = seq::choose(3); // lvalue, variant, what is read from another property of the type
        int from = form == 2 ? isLoose(s) ? 4 : 0 : -1; if (form == 2 && v) return;
        variant value = isLoose(s) ? variant{ls[v]} : variant{ds[v]};
        auto read = [&](int s) { return s < 8 ? root->getProperty(names[s])->get() : (s > 14 ? b : a).get_property(names[s > 14 ? s - 7 : s]); };
        auto write = [&](auto &&x) { if (s < 8) root->getProperty(name)->set(x); else inst.set_property(name, x); };
        if (form == 0) { if (isLoose(s)) write(ls[v]); else write(ds[v]); } else if (form == 1) write(value); else write(read(from));
        model[s] = form == 2 ? model[from] : v; seq::step();
        for (int i = 0; i < SLOTS; ++i) {
            bool ok = isLoose(i) ? sameL(rawL(i), ls[model[i]]) && sameL(read(i).cref<Loose>(), ls[model[i]]) : sameD(rawD(i), ds[model[i]]) && sameD(read(i).cref<double>(), ds[model[i]]);
            if (!ok) seq::fail(std::string("after writing to ") + name + ": " + names[i > 14 ? i - 7 : i] + (i == s ? " isn't what was written" : " was written too"));
        }
        seq::state(std::to_string(s) + std::to_string(v) + std::to_string(form));
    }
}
void traits()
{
    auto root = MetaNamespace::global(); auto K = root->getClass("Thing3");
    switch (seq::choose(2)) {
    case 0: CHECK(root->getProperty("fixedVariable")->readOnly()); CHECK(K->getProperty("fixed")->readOnly()); break;
    case 1: for (auto n: {"variable", "paired", "text"}) CHECK(!root->getProperty(n)->readOnly()); for (auto n: {"field", "text", "paired", "x", "px", "setX"}) CHECK(!K->getProperty(n)->readOnly()); break;
    }
    seq::step();
}
} // namespace i01
using namespace i01;

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    g.push_back({"which can be written", traits, setupHistories, false, true, false, 1});
    g.push_back({"values that look equal", alike, setupAlike, false, true, false, 1});
    g.push_back({"histories", histories, setupHistories, false, true, false, 2});
    g.push_back({"values", values, setup, false, true, false, 2});
    seq::main_(argc, argv, g);
}
