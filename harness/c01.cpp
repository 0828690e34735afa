// Frames are routed to the chunk that covers them.
#include <dims.h>
// args: regime, dimensions, max array size, max chunk size, max frame number
//   regime 0: all symbolic at once
//   regime 1: sizes given by arguments 5.. (array, chunk for dimensions 0..nd-3 as base values,
//             plus a symbolic offset 0..3), frame number = base + symbolic 0..255
//   regime 2: the same, frame numbers around the corners of chunks and arrays
extern "C" void harness()
{
    const unsigned regime = vp_arg(0), nd = vp_arg(1);
    Dims d;
    uint64_t f;
    if (regime == 0) {
        d = sym_dims(0, nd, vp_arg(2), vp_arg(3), 1);
        f = vp_range("frame", 0, vp_arg(4));
    } else {
        d.nd = nd;
        for (unsigned i = 0; i < nd; ++i) {
            d.a[i] = vp_arg(5 + 2 * i) + vp_choose("array+", 0, vp_arg(3));
            d.c[i] = vp_arg(6 + 2 * i) + vp_choose("chunk+", 0, vp_arg(3));
            d.s[i] = 1;
        }
        // windows around whole periods of the buffered region and around powers of two
        const uint64_t period = d.c[0] * d.frames_per_entry();
        const uint64_t where = regime == 2 ? 0 : vp_choose("window", 0, 5);
        uint64_t base = where == 0 ? 0 : where == 1 ? period : where == 2 ? 5 * period : where == 3 ? d.frames_per_entry() : where == 4 ? 1ull << 31 : 1ull << 32;
        base = base > 8 ? base - 8 : 0;
        f = regime == 2 ? corner_frame(d, vp_arg(4)) : base + vp_range("frame+", 0, vp_arg(4));
        // positions that do not fit their types, or buffers no machine holds, are out of scope
        if (f / d.frames_per_entry() / d.c[0] >> 32) vp_stop();
        uint64_t n = 1;
        for (unsigned i = 1; i < nd; ++i) {
            if (d.chunks(i) >> 32 || (n * d.chunks(i)) >> 32) vp_stop();
            n *= d.chunks(i);
        }
    }
    auto v = d.vec();
    v[0].array_size_px = regime == 0 && vp_choose("append_sized", 0, 1) ? d.a[0] : 0;
    ArrayDimensions dims(std::move(v), ZarrDataType_uint8);
    uint64_t co[8];
    d.coords(f, co);
    for (unsigned i = 0; i + 2 < nd; ++i) {
        uint64_t got = dims.chunk_lattice_index(f, i);
        vp_observe(i, got);
        vp_assert(got == co[i] / d.c[i], "the chunk coordinate along a dimension is that of the chunk covering the frame");
    }
    uint64_t got = dims.tile_group_offset(f);
    vp_observe(99, got);
    vp_assert(got == d.group(co), "the frame's group of tiles starts at the row-major position of its chunk");
    vp_reach(1);
    // the two tile dimensions have no frame coordinate
    if (regime == 0) {
        for (unsigned i = nd - 2; i < nd + 1; ++i) {
            bool threw = false;
            try {
                dims.chunk_lattice_index(f, i);
            } catch (const std::exception&) {
                threw = true;
            }
            vp_assert(threw, "asking for the chunk coordinate along a tile dimension is refused");
        }
    }
}
