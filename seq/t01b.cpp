#include "seq/t01types.h"
using rtti::metaTypeId; using namespace tt;
namespace { struct Hidden { char c[3]; }; }
std::vector<std::pair<char const *, rtti::MetaType_ID>> otherUnit()
{
    return {{"int", metaTypeId<int>()}, {"int const&", metaTypeId<int const &>()}, {"Pod", metaTypeId<Pod>()}, {"Pod*", metaTypeId<Pod *>()}, {"Tmpl", metaTypeId<Tmpl<int, Pod>>()},
            {"string", metaTypeId<std::string>()}, {"Fun2*", metaTypeId<Fun2 *>()}, {"MemFun", metaTypeId<MemFun>()}, {"Pod[4]", metaTypeId<Pod[4]>()}, {"Inner&&", metaTypeId<Outer::Inner &&>()}};
}
rtti::MetaType_ID otherUnitHidden() { return metaTypeId<Hidden>(); }
