// A frame's place inside its chunk.
#include <dims.h>
// args: mode, dimensions, max array, max chunk, max frame
//   mode 0: exactness and bounds, all symbolic
//   mode 1: two frames held at the same time never share a place
//   mode 2: sizes around given bases (args 5..), frame in windows
//   mode 3: the same, frames around the corners of chunks and arrays
extern "C" void harness()
{
    const unsigned mode = vp_arg(0), nd = vp_arg(1);
    Dims d;
    d.t = (ZarrDataType)vp_choose("dtype", 0, mode == 0 ? 9 : mode == 3 ? 0 : 3);
    if (mode >= 2) {
        d.nd = nd;
        for (unsigned i = 0; i < nd; ++i) {
            d.a[i] = vp_arg(5 + 2 * i) + vp_choose("array+", 0, vp_arg(3));
            d.c[i] = vp_arg(6 + 2 * i) + vp_choose("chunk+", 0, vp_arg(3));
            d.s[i] = 1;
        }
        unsigned __int128 n = d.bpp();
        for (unsigned i = 0; i < nd; ++i) {
            n *= d.c[i];
            if (n >> 63) vp_stop(); // no such chunk
        }
        const uint64_t period = d.c[0] * d.frames_per_entry();
        const uint64_t where = mode == 3 ? 0 : vp_choose("window", 0, 4);
        uint64_t base = where == 0 ? 0 : where == 1 ? period : where == 2 ? 7 * period : where == 3 ? 1ull << 31 : 1ull << 32;
        base = base > 8 ? base - 8 : 0;
        uint64_t f = mode == 3 ? corner_frame(d, vp_arg(4)) : base + vp_range("frame+", 0, vp_arg(4));
        if (f / d.frames_per_entry() / d.c[0] >> 32) vp_stop();
        ArrayDimensions dims = d.make();
        uint64_t co[8];
        d.coords(f, co);
        uint64_t got = dims.chunk_internal_offset(f);
        vp_observe(1, got);
        vp_assert(got == d.inside(co), "the byte offset in the chunk is exact");
        vp_assert(got + d.c[nd - 1] * d.c[nd - 2] * d.bpp() <= dims.bytes_per_chunk(), "the tile ends within the chunk");
        vp_reach(1);
        return;
    }
    Dims e = sym_dims(0, nd, vp_arg(2), vp_arg(3), 1);
    e.t = d.t;
    ArrayDimensions dims = e.make();
    if (mode == 0) {
        uint64_t f = vp_range("frame", 0, vp_arg(4));
        uint64_t co[8];
        e.coords(f, co);
        uint64_t got = dims.chunk_internal_offset(f);
        vp_observe(1, got);
        vp_assert(got == e.inside(co), "the byte offset in the chunk is exact");
        vp_assert(got + e.c[nd - 1] * e.c[nd - 2] * e.bpp() <= dims.bytes_per_chunk(), "the tile ends within the chunk");
        vp_reach(1);
    } else {
        // two different frames of the same stretch of the append dimension
        const uint64_t period = e.c[0] * e.frames_per_entry();
        uint64_t k = vp_range("stretch", 0, 2);
        uint64_t i = vp_range("first", 0, vp_arg(4)), j = vp_range("second", 0, vp_arg(4));
        vp_assume(i < j);
        vp_assume(j < period);
        uint64_t f = k * period + i, g = k * period + j;
        uint64_t fo = dims.chunk_internal_offset(f), go = dims.chunk_internal_offset(g);
        uint64_t fg = dims.tile_group_offset(f), gg = dims.tile_group_offset(g);
        uint64_t tile = e.c[nd - 1] * e.c[nd - 2] * e.bpp();
        vp_observe(1, fo);
        vp_observe(2, gg);
        vp_assert(fg != gg || fo + tile <= go || go + tile <= fo, "frames held together occupy different bytes");
        vp_reach(1);
    }
}
