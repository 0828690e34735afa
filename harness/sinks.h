// Shared by the checks of sink creation (C15, C27).
#pragma once
#include <s3.sink.hh>
#include <sink.creator.hh>
#include <stream.h>
#include <vps3.hpp>
namespace h {
inline std::unique_ptr<ArrayDimensions> lattice_dims(unsigned nd)
{
    std::vector<ZarrDimension> v;
    for (unsigned i = 0; i < nd; ++i) {
        // sizes that would give other counts than the function handed over
        v.emplace_back(dim_name(i), i + 2 < nd ? ZarrDimensionType_Other : ZarrDimensionType_Space, i ? 40 : 0, 1, 1);
    }
    return std::make_unique<ArrayDimensions>(std::move(v), ZarrDataType_uint8);
}
inline unsigned dim_no(const ZarrDimension& d)
{
    for (unsigned i = 0; i < 8; ++i)
        if (d.name == dim_name(i)) return i;
    vp_assert(false, "the part function is called with a dimension of the array");
    return 0;
}
inline std::string decimal(uint64_t v) { return num(v); }
} // namespace h
