// A stream is written frame by frame, finished, and read back.
#include <stream.h>
using namespace h;
// args: version, dimensions, 8 size limits (see choose_geo), min frames, max frames, first pixel type, last pixel type, bits (1 multiscale, 2 compressed)
extern "C" void harness()
{
    world();
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.nd = vp_arg(1);
    choose_geo(g, 2);
    g.dtype = (ZarrDataType)vp_choose("type", vp_arg(12), vp_arg(13));
    const uint64_t fb = g.frame_bytes();
    unsigned char* px = sym_bytes("px", vp_arg(11) * fb);
    Settings s(g);
    s.s.multiscale = vp_arg(14) & 1;
    const bool packed = vp_arg(14) & 2;
    if (packed) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscZstd, 3, 1 };
        s.s.compression_settings = &s.comp;
    }
    ZarrStream* st = create(s);
    vp_assert(st != nullptr, "a valid stream is created");
    uint64_t frames = 0;
    for (; frames < vp_arg(11) && (frames < vp_arg(10) || vp_choose("another", 0, 1)); ++frames) append_all(st, px + frames * fb, fb);
    ZarrStream_destroy(st);
    uint64_t want;
    if (g.version == ZarrVersion_2) {
        want = expect_v2("/w/s/0", g, px, frames, packed);
        uint64_t extra = 0;
        for (const char* m : { "/w/s/0/.zarray", "/w/s/0/.zattrs" }) extra += file(m) != nullptr;
        vp_assert(files_below("/w/s/0") == want + extra, "there are no other files among the chunks");
    } else {
        want = expect_v3("/w/s/data/root/0", g, px, frames, packed);
        vp_assert(files_below("/w/s/data/root/0") == want, "there are no other files among the shards");
    }
    vp_observe(1, want);
    if (frames) vp_reach(1);
    free(px);
}
