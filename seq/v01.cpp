// V01: variants are regular values
#include "seq/vmachine.h"
using namespace vmachine;
void sizes();

int main(int argc, char **argv)
{
    int const n = int(kinds().size());
    auto pairs = [n](int slots, int depth, std::vector<int> apart) {
        return [=] {
            int i = seq::choose(n), j;
            if (apart.empty()) j = i + seq::choose(n - i); else j = (i + apart[size_t(seq::choose(int(apart.size())))]) % n;
            if (!together(i, j)) return;
            histories(slots, i == j ? std::vector<int>{i} : std::vector<int>{i, j}, depth, false);
        };
    };
    std::vector<seq::Group> g;
    g.push_back({"one slot, one kind, depth 4", [=] { histories(1, {seq::choose(n)}, 4, false); }, prepare, false, true, false, 2});
    g.push_back({"two slots, pairs of kinds, depth 3", pairs(2, 3, {1, 2, 4, 7, 10, 13}), prepare, false, true, false, 3});
    g.push_back({"three slots, pairs of kinds, depth 3", pairs(3, 3, {9}), prepare, false, true, false, 3});
    g.push_back({"sizes and alignments", sizes, nullptr, false, false, false, 2});
    g.push_back({"one slot, one kind, depth 6", [=] { histories(1, {seq::choose(n)}, 6, false); }, prepare, false, true, true, 3});
    g.push_back({"three slots, more pairs of kinds, depth 3", pairs(3, 3, {1, 3, 5, 11}), prepare, false, true, true, 3});
    g.push_back({"two slots, all pairs of kinds, depth 4", pairs(2, 4, {}), prepare, false, true, true, 4});
    seq::main_(argc, argv, g);
}
