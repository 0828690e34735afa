// A stream much larger than those of store.cpp, of one geometry: counts, indices and offsets leave the range of 8 and of 16 bits.
#include <stream.h>
using namespace h;
// args: version, pixel type, rows, columns, chunk of (frames, rows, columns), shard of the same, frames, frames per call, bits (2 compressed)
extern "C" void harness()
{
    world();
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.dtype = (ZarrDataType)vp_arg(1);
    g.arr[1] = vp_arg(2);
    g.arr[2] = vp_arg(3);
    for (unsigned i = 0; i < 3; ++i) {
        g.chunk[i] = vp_arg(4 + i);
        g.shard[i] = vp_arg(7 + i);
    }
    default_types(g);
    Settings s(g);
    const bool packed = vp_arg(12) & 2;
    if (packed) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscLZ4, 3, 1 };
        s.s.compression_settings = &s.comp;
    }
    const uint64_t fb = g.frame_bytes(), frames = vp_arg(10), step = vp_arg(11) * fb, n = frames * fb;
    unsigned char* px = (unsigned char*)malloc(n);
    const unsigned v = vp_sym("px", 8), w = vp_sym("py", 8);
    unsigned char some[251];
    for (unsigned i = 0; i < 251; ++i) some[i] = (unsigned char)((i & 1 ? v : w) ^ i);
    for (uint64_t i = 0; i < n; ++i) px[i] = some[(i + i / 1009) % 251];
    ZarrStream* st = create(s);
    vp_assert(st != nullptr, "a valid stream is created");
    for (uint64_t at = 0; at < n; at += step) append_all(st, px + at, n - at < step ? n - at : step);
    ZarrStream_destroy(st);
    const uint64_t want = g.version == ZarrVersion_2 ? expect_v2("/w/s/0", g, px, frames, packed) : expect_v3("/w/s/data/root/0", g, px, frames, packed);
    vp_observe(1, want);
    free(px);
    vp_reach(1);
}
