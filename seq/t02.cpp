// T02: compatibility of types agrees with the qualification conversions and reference binding of C++
#include "seq/t02.h"
using namespace t02;

void check(Table const &t)
{
    int n = int(t.rows.size()); int i = seq::choose(n); auto &r = t.rows[size_t(i)];
    auto from = r.from();
    seq::note("from %.*s", int(r.print().size()), r.print().data());
    for (int j = 0; j < n; ++j) {
        auto to = t.ids[size_t(j)]();
        bool got = MetaType::compatible(MetaType{from}, MetaType{to});
        seq::step();
        if (got != bool(r.expect[size_t(j)])) seq::fail(std::string(got ? "reported compatible: " : "reported incompatible: ") + std::string(r.print()) + " -> " + std::string(t.names[size_t(j)]()));
        if (i == j && r.reflexive) CHECK(got);
        seq::state((std::uint64_t(i) << 20 | std::uint64_t(j)) * 0x9E3779B97F4A7C15u ^ t.rows.size());
    }
    CHECK(!MetaType::compatible(MetaType{from}, MetaType{})); CHECK(!MetaType::compatible(MetaType{}, MetaType{from})); CHECK(!MetaType::compatible(MetaType{}, MetaType{}));
}


int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    auto add = [&](char const *name, std::function<Table const &()> f) { g.push_back({name, [f] { check(f()); }, [f] { f(); }, false, true, false, 1}); };
    add("int, pointers of up to three levels", int3);
    add("int, pointers of up to two levels and arrays", intArrays);
    add("class, pointers of up to two levels and arrays", classes);
    static char const *const names[] = {"std::string, pointers of one level and arrays", "pointers to void", "pointers to functions", "arrays of arrays", "pointers of five levels", "pointers of four and twelve levels"};
    for (int i = 0; i < 6; ++i) add(names[i], [i]() -> Table const & { return others(i); });
    seq::main_(argc, argv, g);
}
