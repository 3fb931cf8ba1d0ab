// H01: class casts and inheritance queries agree with C++ on every inheritance graph
#include "seq/h01.h"
namespace h01 {
std::vector<Graph> &graphs() { static std::vector<Graph> g; return g; }
}
int main(int argc, char **argv)
{
    auto &g = h01::graphs();
    std::sort(g.begin(), g.end(), [](auto &a, auto &b) { return std::string(a.text) < b.text; });
    std::vector<seq::Group> groups;
    groups.push_back({"inheritance graphs", [&] {
        int n = int(g.size()), hi = seq::choose((n + 199) / 200), lo = seq::choose(hi == n / 200 ? n % 200 : 200);
        auto &k = g[hi * 200 + lo];
        seq::note("%s", k.text); seq::state(k.text); k.run();
    }, nullptr, true, false, false, 2});
    groups.push_back({"hierarchies that grow", [&] {
        int n = int(g.size()), hi = seq::choose((n + 199) / 200), lo = seq::choose(hi == n / 200 ? n % 200 : 200);
        auto &k = g[hi * 200 + lo];
        seq::note("%s", k.text); k.grow();
    }, nullptr, true, false, false, 2});
    seq::main_(argc, argv, groups);
}
