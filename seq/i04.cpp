#include "seq/i04.h"
using namespace i04;
int main(int argc, char **argv)
{
    std::vector<seq::Group> g;
    g.push_back({"small objects", small, smallSetup, false, true, false, 2});
    g.push_back({"large objects", big, bigSetup, false, true, false, 2});
    g.push_back({"objects whose moves fail", thrower, throwerSetup, false, true, false, 2});
    g.push_back({"objects that only move", move, moveSetup, false, true, false, 2});
    seq::main_(argc, argv, g);
}
