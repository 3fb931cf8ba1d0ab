// T03: types and their flags are printed faithfully
#include "seq/seq.h"
#include <rtti/metatype.h>
#include <rtti/variant.h>
#include <cstring>
#include <ostream>
#include <sstream>
#include <map>
#include <vector>
using rtti::MetaType; using rtti::MetaType_ID; using rtti::metaTypeId; using rtti::TypeFlags;

namespace {

struct Buf: std::streambuf
{
    char b[2048];
    Buf() { setp(b, b + sizeof b); }
    void reset() { setp(b, b + sizeof b); }
    std::string_view text() const { return {b, size_t(pptr() - b)}; }
};

struct Name { TypeFlags flag; std::string_view name; };
#define F(X) {TypeFlags::X, #X}
Name const names[] = {F(Const), F(Pointer), F(MemberPointer), F(LvalueReference), F(RvalueReference), F(Array), F(Void), F(Integral), F(FloatPoint), F(Enum), F(Function), F(Union), F(Class),
    F(StandardLayout), F(Trivial), F(Abstract), F(Polymorphic), F(DefaultConstructible), F(CopyConstructible), F(CopyAssignable), F(MoveConstructible), F(MoveAssignable), F(Destructible), F(EQ_Comparable)};
constexpr int N = int(sizeof names / sizeof *names);

// the set of flags whose names the text lists, each once, in any order
unsigned parse(std::string_view s)
{
    unsigned seen = 0;
    if (s == "None") return 0;
    for (;;) {
        auto e = s.find('|'); auto t = s.substr(0, e);
        while (!t.empty() && t.front() == ' ') t.remove_prefix(1);
        while (!t.empty() && t.back() == ' ') t.remove_suffix(1);
        int i = 0; while (i < N && names[i].name != t) ++i;
        if (i == N) seq::fail("\"" + std::string(t) + "\" is printed, which is no name of a flag");
        if (seen & unsigned(names[i].flag)) seq::fail(std::string(t) + " is printed twice");
        seen |= unsigned(names[i].flag);
        if (e == s.npos) return seen;
        s = s.substr(e + 1);
    }
}
void flags()
{
    static Buf buf; static std::ostream out{&buf};
    unsigned high = 0; for (int i = 0; i < 4; ++i) high = high << 4 | unsigned(seq::choose(16));
    unsigned const mid = 0; high <<= 8;
    for (unsigned low = 0; low < 256; ++low) {
        unsigned f = high | mid | low;
        buf.reset(); out << TypeFlags(f); seq::step();
        unsigned got = parse(buf.text());
        if (got != f || !out.good()) { char b[64]; snprintf(b, sizeof b, "flags %#x are printed as ", f); seq::fail(b + std::string(buf.text())); }
    }
    seq::state(high | mid);
}

struct Cls { virtual ~Cls() = default; virtual void f() = 0; };
struct Pod { int a; };
union Uni { int i; float f; };
enum class En: char { x };
template<typename B> void ids(std::vector<MetaType_ID> &v)
{
    v.insert(v.end(), {metaTypeId<B>(), metaTypeId<B const>(), metaTypeId<B &>(), metaTypeId<B const &>(), metaTypeId<B &&>(), metaTypeId<B *>(), metaTypeId<B const *const &>(), metaTypeId<B **>()});
    if constexpr(!std::is_abstract_v<B>) v.insert(v.end(), {metaTypeId<B[2]>(), metaTypeId<B const (&)[3]>(), metaTypeId<B *[2]>()});
}
std::vector<MetaType_ID> const &all()
{
    static auto const v = [] { std::vector<MetaType_ID> v; ids<int>(v); ids<double>(v); ids<bool>(v); ids<std::string>(v); ids<Cls>(v); ids<Pod>(v); ids<Uni>(v); ids<En>(v); ids<int Pod::*>(v); ids<void (*)(int)>(v); ids<std::map<int, std::string>>(v); ids<rtti::variant>(v);
        v.push_back(metaTypeId<void *>()); v.push_back(metaTypeId<void const *>()); v.push_back(MetaType_ID{}); return v; }();
    return v;
}
void types()
{
    int i = seq::choose(int(all().size())), pad = seq::choose(3);
    MetaType t{all()[size_t(i)]};
    std::ostringstream out; if (pad) out << "before "; if (pad == 2) out << t << ' ';
    auto at = out.str().size(); out << t; seq::step();
    std::string s = out.str().substr(at);
    std::string want = "ID: [" + std::to_string(t.typeId().value()) + "], Name: [" + std::string(t.typeName()) + "], Flags: [";
    CHECK_MSG(s.compare(0, want.size(), want) == 0 && s.back() == ']', s);
    unsigned got = parse(std::string_view{s}.substr(want.size(), s.size() - want.size() - 1));
    CHECK_MSG(got == unsigned(t.typeFlags()), s);
    if (!t.valid()) CHECK(got == unsigned(TypeFlags::Void) && t.typeName() == "void");
    CHECK(out.good()); seq::state(s);
}

} // namespace

int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    g.push_back({"all combinations of flags", flags, nullptr, false, true, false, 2});
    g.push_back({"types", types, [] { all(); }, false, true, false, 1});
    seq::main_(argc, argv, g);
}
