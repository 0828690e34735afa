// An object store receives what a file system receives.
#include <compare.h>
#include <vpblosc.hpp>
using namespace h;
// args: version, dimensions, 8 size limits (see choose_geo), frames, first pixel type, last pixel type, bits (1 multiscale, 2 compressed, 16 metadata), bytes beyond the frames, large
extern "C" void harness()
{
    world();
    vpblosc::verbatim = true;
    vps3::reset();
    vps3::buckets.push_back("bucket");
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.nd = vp_arg(1);
    if (vp_arg(15)) { // one geometry
        for (unsigned i = 0; i < 3; ++i) {
            g.arr[i] = i ? vp_arg(2) : 0;
            g.chunk[i] = vp_arg(i ? 3 : 8);
            g.shard[i] = g.version == ZarrVersion_3 ? vp_arg(i ? 4 : 9) : 1;
        }
        default_types(g);
    } else choose_geo(g, 2);
    g.dtype = (ZarrDataType)vp_choose("type", vp_arg(11), vp_arg(12));
    uint64_t slots = 1;
    for (unsigned i = 0; i < g.nd; ++i) slots *= g.shard[i];
    Settings s(g);
    const unsigned bits = vp_arg(13);
    s.s.multiscale = bits & 1;
    if (bits & 2) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscZstd, 1, 2 };
        s.s.compression_settings = &s.comp;
    }
    if (bits & 16) s.s.custom_metadata = "{\"a\": [1, 2.5, \"x\", null]}";
    const uint64_t n = g.frame_bytes() * vp_choose("frames", 0, vp_arg(10)) + vp_arg(14);
    unsigned char* px;
    if (vp_arg(15)) { // large: most bytes are given
        px = (unsigned char*)malloc(n);
        unsigned char some[241];
        for (unsigned i = 0; i < 241; ++i) some[i] = (unsigned char)(i % 16 ? i * 7 : vp_sym("px", 8));
        for (uint64_t i = 0; i < n; ++i) px[i] = some[(i + i / 1009) % 241];
    } else px = sym_bytes("px", n);
    const bool tls = g.version == ZarrVersion_2;
    s.s3 = { tls ? " https://s3:9000" : "http://s3\t ", "\tbucket ", "id \n", " key/+" };
    vps3::expected = tls ? "https://s3:9000 https id key/+" : "http://s3 http id key/+";
    for (int where = 0; where < 2; ++where) {
        s.s.s3_settings = where ? &s.s3 : nullptr;
        s.s.store_path = where ? "some/where" : "/w/s";
        ZarrStream* st = ZarrStream_create(&s.s);
        vp_assert(st != nullptr, "a valid stream is created");
        size_t out = 0;
        vp_assert(ZarrStream_append(st, px, n, &out) == ZarrStatusCode_Success && out == n, "append succeeds");
        ZarrStream_destroy(st);
    }
    const Contents f = files_of("/w/s"), o = objects_of("some/where");
    same_store(f, o, slots);
    uint64_t all = 0;
    for (auto* x : vps3::objects) {
        ++all;
        vp_assert(x->bucket == "bucket" && (x->puts == 1 || x->completes == 1), "every object is stored once, in the bucket asked for");
    }
    vp_assert(vps3::requests > 0 && vps3::strangers == 0, "every request goes to the endpoint given, with the credentials given");
    vp_assert(all == o.size(), "no object is stored elsewhere");
    vp_observe(1, o.size());
    free(px);
    vp_reach(1);
}
