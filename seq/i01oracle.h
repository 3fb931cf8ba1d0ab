#pragma once
#include "seq/i01.h"
namespace i01 {
// ---- what C++ makes of the pair
enum Rel { NONE, SAME, BASE, PTR, CONVERTED };
struct Relation { Rel rel = NONE; int base = 0; };
inline Relation relation(Param const &p, Thing t, bool converters)
{
    int ty = p.thing;
    auto pointers = [&](int cls, bool target_const, int stat, int dyn, bool thingConst) -> Relation {
        if (thingConst && !target_const) return {};
        if (cls == stat) return {thingConst == target_const ? SAME : PTR, cls};
        if (dyn == 3) return {PTR, cls};
        return {};
    };
    auto classOf = [&](int x) { return x == XP || x == CXP ? 1 : x == OP || x == COP ? 2 : x == DP || x == CDP ? 3 : 0; };
    switch (t) {
    case T_INT: if (ty == INT) return {SAME}; if (ty == STRING && converters) return {CONVERTED}; return {};
    case T_STRING: if (ty == STRING) return {SAME}; if (ty == INT && converters) return {CONVERTED}; return {};
    case T_DOUBLE: if (ty == INT && converters) return {CONVERTED}; return {};
    case T_E: if (ty == ENUM) return {SAME}; if (ty == INT && converters) return {CONVERTED}; return {};
    case T_X: if (ty == TX) return {SAME}; return {};
    case T_D: if (ty == TD) return {SAME}; if (ty == TX) return {BASE, 1}; if (ty == TOTHER) return {BASE, 2}; return {};
    case T_Y: if (ty == TX && converters) return {CONVERTED}; return {};
    case T_M: if (ty == TM) return {SAME}; return {};
    case T_IP: if (ty == IP) return {SAME}; if (ty == CIP) return {PTR}; return {};
    case T_CIP: if (ty == CIP) return {SAME}; return {};
    default: break;
    }
    int cls = classOf(ty); if (!cls) return {};
    switch (t) {
    case T_XP: case T_NULLX: return pointers(cls, p.constTarget, 1, 1, false);
    case T_CXP: return pointers(cls, p.constTarget, 1, 1, true);
    case T_XD: return pointers(cls, p.constTarget, 1, 3, false);
    case T_DP: case T_NULLD: return pointers(cls, p.constTarget, 3, 3, false);
    case T_CDP: return pointers(cls, p.constTarget, 3, 3, true);
    default: return {};
    }
}
enum Outcome { REFUSED = 1, BOUND = 2, FRESH = 4 };
inline int outcomes(Param const &p, Arg const &a, Relation r)
{
    bool object = r.rel == SAME || r.rel == BASE; bool lvalue = a.cat == LVALUE || a.cat == CONST_LVALUE;
    if (r.rel == NONE) return REFUSED;
    switch (p.form) {
    case VALUE: if (!object) return FRESH; return p.copyable ? FRESH : a.cat == RVALUE ? FRESH | REFUSED : a.cat == VIA_RVALUE ? FRESH | REFUSED : REFUSED;
    case LREF: if (!object) return REFUSED; return a.cat == LVALUE ? BOUND : a.cat == VIA_RVALUE ? BOUND | REFUSED : REFUSED;
    case CREF: return object ? BOUND : FRESH;
    case RREF:
        if (object) { if (a.cat == RVALUE) return BOUND; if (lvalue) return REFUSED; return REFUSED | (p.copyable ? FRESH : 0) | (a.cat == VIA_RVALUE ? BOUND : 0); }
        return a.cat == RVALUE ? FRESH : FRESH | REFUSED;
    }
    return 0;
}
inline std::string convertedText(int n) { return std::to_string(n * 10 + 1) + " converted to a text that is longer than the small buffer"; }
inline void converters(bool on)
{
    if (on) {
        MetaType::registerConverter<int, std::string>([](int x) { return convertedText(x); }); MetaType::registerConverter<std::string, int>([](std::string const &x) { return num(x) * 10 + 1; });
        MetaType::registerConverter<double, int>([](double x) { return int(x) * 10 + 1; }); MetaType::registerConverter<E, int>([](E x) { return int(x) * 10 + 1; }); MetaType::registerConverter<Y, X>([](Y const &y) { return X{y.number * 10 + 1}; });
    } else {
        MetaType::unregisterConverter<int, std::string>(); MetaType::unregisterConverter<std::string, int>(); MetaType::unregisterConverter<double, int>(); MetaType::unregisterConverter<E, int>(); MetaType::unregisterConverter<Y, X>();
    }
}

} // namespace i01
