// I01: invocation passes arguments and results faithfully or refuses
#include "seq/i01params.h"
#include "seq/i01oracle.h"
#include <map>

namespace i01 {
int pointedInt = 77; D pointedD{77}; X pointedX{77}; Record rec;
std::vector<Arg> &args() { static std::vector<Arg> v; return v; }
std::vector<Param> &params() { static std::vector<Param> v; return v; }
void params_a(); void params_b(); void params_c(); void params_d(); void params_e();
void args_a(); void args_b(); void args_c(); void args_d();

void setup()
{
    if (!params().empty()) return;
    { auto g = global_define(); g._class<Other>("Other"); }
    { auto g = global_define(); g._class<X>("X"); }
    { auto g = global_define(); g._class<D>("D")._base<Other, X>(); }
    { auto g = global_define(); g._class<Host>("Host"); }
    params_a(); params_b(); params_c(); params_d(); params_e();
    args_a(); args_b(); args_c(); args_d();
}

void arguments()
{
    auto &A = args(); auto &P = params();
    int conv = seq::choose(2); auto &p = P[seq::choose(int(P.size()))]; enum { WAYS = 18 };
    int thing = seq::choose(int(A.size() / WAYS)); auto &a = A[thing * WAYS + seq::choose(WAYS)]; int shape = seq::choose(SHAPES);
    converters(conv);
    static char const *const shapes[] = {"function", "second of three parameters", "method", "constructor", "method by name"};
    auto where = [&] { return a.name + " given to parameter " + p.name + " of a " + shapes[shape] + (conv ? " (with converters): " : ": "); };
    auto r = relation(p, a.thing, conv); int allowed = outcomes(p, a, r);
    a.prepare(); rec = Record{};
    int number0 = a.number(); void const *pointer0 = a.pointer();
    bool thrown = false; variant result;
    try { result = a.call(p.callee, shape); } catch (rtti::runtime_error const &) { thrown = true; } catch (std::exception const &e) { seq::fail(where() + "fails with " + e.what()); }
    seq::step();
    int number1 = a.number(); void const *pointer1 = a.pointer(); bool pointer = p.thing >= XP;
    if (thrown) {
        if (rec.calls) seq::fail(where() + "reports an error though the function was called");
        if (!(allowed & REFUSED)) seq::fail(where() + "refused");
        if (number1 != number0 || pointer1 != pointer0) seq::fail(where() + "refused, but the argument was changed");
    } else {
        if (rec.calls != 1) seq::fail(where() + "the function was called " + std::to_string(rec.calls) + " times");
        if (!(allowed & ~REFUSED)) seq::fail(where() + "given though it can't be bound");
        if (shape == MIDDLE && (rec.before != 1 || rec.after != 3)) seq::fail(where() + "the other arguments are wrong");
        void const *at = r.rel == BASE ? a.as(r.base) : a.address();
        bool bound = rec.address == at; if (r.rel == CONVERTED) bound = false;
        if (!(allowed & (bound ? BOUND : FRESH)) && !(r.rel == PTR)) seq::fail(where() + (bound ? "the object itself is given" : "not the object itself is given"));
        // value
        int expect = r.rel == CONVERTED ? 51 : r.rel == BASE && r.base == 2 ? 4 : r.rel == PTR && r.base == 2 ? (a.thing == T_NULLX || a.thing == T_NULLD ? -9 : 4) : number0;
        if (rec.number != expect) seq::fail(where() + "the value is " + std::to_string(rec.number) + " instead of " + std::to_string(expect));
        if (pointer && rec.pointer != (r.rel == PTR && r.base ? a.thing == T_NULLX || a.thing == T_NULLD ? nullptr : a.as(r.base) : pointer0)) seq::fail(where() + "points elsewhere");
        // effects
        if (bound && p.form == LREF) {
            if (p.thing == TOTHER) { /* another member */ }
            else if (number1 != 77) seq::fail(where() + "what the function wrote doesn't show");
        } else if (bound && p.form == RREF) {
            if ((p.thing == TX || p.thing == TD || p.thing == TM) && number1 != -1) seq::fail(where() + "wasn't moved from");
        } else if ((number1 != number0 || pointer1 != pointer0) && !(p.form == VALUE && (a.cat == RVALUE || a.cat == VIA_RVALUE))) seq::fail(where() + "the argument was changed");
        // result
        switch (shape) {
        case FREE: if (!result.is<int>() || result.cref<int>() != 1000 + rec.number) seq::fail(where() + "the result is wrong"); break;
        case MIDDLE: if (!result.is<std::string>() || result.cref<std::string>() != std::to_string(1000 + rec.number)) seq::fail(where() + "the result is wrong"); break;
        case METHOD: if (!result.is<int *>() || *result.to<int *>() != rec.number) seq::fail(where() + "the result is wrong"); break;
        case NAMED: if (!result.is<int>() || result.cref<int>() != rec.number || result.is<int &>()) seq::fail(where() + "the result is wrong"); break;
        default: if (result.empty() || !result.metaClass()) seq::fail(where() + "no object was made"); break;
        }
    }
    a.drop();
    seq::state(std::to_string(r.rel * 1000 + p.form * 100 + a.cat * 10 + thrown) + p.name);
}

void arity(); void setupArity(); void results(); void setupResults(); // i01n.cpp
void severalArguments(); void setupSeveral(); // i01m.cpp
} // namespace i01
using namespace i01;

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    g.push_back({"results", results, [] { setup(); setupResults(); }, false, true, false, 1});
    g.push_back({"several arguments", severalArguments, [] { setup(); setupSeveral(); }, false, true, false, 2});
    g.push_back({"numbers of arguments", arity, setupArity, false, true, false, 2});
    g.push_back({"arguments", arguments, setup, false, true, false, 2});
    seq::main_(argc, argv, g);
}
