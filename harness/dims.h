// Shared parts of the array-geometry harnesses.
#pragma once
#include <cstdint>
#include <vector>
#include <vp.h>
#include <zarr.common.hh>
#include <zarr.dimension.hh>
struct Dims
{
    unsigned nd;
    uint64_t a[8], c[8], s[8];
    ZarrDataType t = ZarrDataType_uint8;
    std::vector<ZarrDimension> vec() const
    {
        std::vector<ZarrDimension> d;
        for (unsigned i = 0; i < nd; ++i)
            d.emplace_back("x", i + 2 >= nd ? ZarrDimensionType_Space : ZarrDimensionType_Other, (uint32_t)a[i], (uint32_t)c[i], (uint32_t)s[i]);
        return d;
    }
    ArrayDimensions make() const { return ArrayDimensions(vec(), t); }
    uint64_t chunks(unsigned i) const { return a[i] / c[i] + (a[i] % c[i] ? 1 : 0); }
    uint64_t shards(unsigned i) const { return chunks(i) / s[i] + (chunks(i) % s[i] ? 1 : 0); }
    uint64_t chunks_in_memory() const
    {
        uint64_t n = 1;
        for (unsigned i = 1; i < nd; ++i) n *= chunks(i);
        return n;
    }
    uint64_t frames_per_entry() const
    {
        uint64_t n = 1;
        for (unsigned i = 1; i + 2 < nd; ++i) n *= a[i];
        return n;
    }
    // coordinates of a frame over the dimensions but the last two
    void coords(uint64_t f, uint64_t* co) const
    {
        for (unsigned i = nd - 3; i > 0; --i) {
            co[i] = f % a[i];
            f /= a[i];
        }
        co[0] = f;
    }
    // row-major position of the frame's group of tiles among the buffered chunks
    uint64_t group(const uint64_t* co) const
    {
        uint64_t off = 0;
        for (unsigned i = 1; i + 2 < nd; ++i) off = off * chunks(i) + co[i] / c[i];
        return off * chunks(nd - 2) * chunks(nd - 1);
    }
    // byte position of the frame's tile in its chunk
    uint64_t inside(const uint64_t* co) const
    {
        uint64_t off = 0;
        for (unsigned i = 0; i + 2 < nd; ++i) off = off * c[i] + co[i] % c[i];
        return off * c[nd - 2] * c[nd - 1] * bpp();
    }
    uint64_t bpp() const
    {
        static const unsigned b[] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 };
        return b[t];
    }
};
// a frame number near a place whose coordinates are each at the beginning, the end or a chunk border of their dimensions,
// in the first, the second or a late round of the append dimension
static inline uint64_t corner_frame(const Dims& d, uint64_t spread)
{
    uint64_t f = 0;
    for (unsigned i = 0; i + 2 < d.nd; ++i) {
        const uint64_t k = vp_choose("corner", 0, 3);
        uint64_t co;
        if (i == 0) co = k == 0 ? 0 : k == 1 ? d.c[0] - 1 : k == 2 ? d.c[0] : 1000000;
        else {
            co = k == 0 ? 0 : k == 1 ? d.c[i] - 1 : k == 2 ? d.c[i] : d.a[i] - 1;
            if (co >= d.a[i]) vp_stop();
        }
        f = (i ? f * d.a[i] : 0) + co;
    }
    return (f > spread / 2 ? f - spread / 2 : 0) + vp_range("frame+", 0, spread);
}
// bases for sizes and frame numbers around which windows are laid
static inline uint64_t wide_base(uint64_t k)
{
    static const uint64_t b[] = { 1, 200, 0xfff0, 0x7ffffff0, 0xfffffff0, 0x10000 };
    return b[k];
}
// which regime:  0: every size and the frame number symbolic and small
//                1: sizes and frame number in windows anywhere in 32 bits, one path per size
static inline Dims sym_dims(unsigned regime, unsigned nd, uint64_t max_a, uint64_t max_c, uint64_t max_s)
{
    Dims d;
    d.nd = nd;
    for (unsigned i = 0; i < nd; ++i) {
        d.a[i] = vp_range("array", 1, max_a);
        d.c[i] = vp_range("chunk", 1, max_c);
        d.s[i] = max_s > 1 ? vp_range("shard", 1, max_s) : 1;
    }
    (void)regime;
    return d;
}
