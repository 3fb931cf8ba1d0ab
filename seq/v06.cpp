// V06: variants see the dynamic class of what they hold
#include "seq/v06.h"
namespace v06 {
std::vector<Graph> &graphs() { static std::vector<Graph> g; return g; }
std::set<std::string> registered; int serial; long accesses;
void bad(Held const &h, char const *form, char const *target, std::string const &what)
{
    seq::fail(std::string(h.what) + " to " + h.cls + ", T = " + target + ", " + form + ": " + what);
}
}
int main(int argc, char **argv)
{
    auto &g = v06::graphs();
    std::sort(g.begin(), g.end(), [](auto &a, auto &b) { return std::string(a.text) < b.text; });
    std::vector<seq::Group> groups;
    groups.push_back({"held objects of inheritance graphs", [&] {
        int n = int(g.size()), hi = seq::choose((n + 199) / 200), lo = seq::choose(hi == n / 200 ? n % 200 : 200);
        auto &k = g[hi * 200 + lo];
        seq::note("%s", k.text); seq::state(k.text); k.run();
    }, nullptr, true, false, false, 2});
    seq::main_(argc, argv, groups);
}
