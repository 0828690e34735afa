// What is stored does not depend on the schedule or on the number of workers.
#include <compare.h>
#include <vpblosc.hpp>
using namespace h;
// args: version, rows, columns, tile chunk, append chunk, shard, bits (1 multiscale, 2 compressed, 4 S3), frames, what is explored (0: everything,
// k: the k-th append, 1000: creation, 1001: destruction), preemptions, workers
static bool run(Settings& s, const char* path, const unsigned char* px, uint64_t fb, uint64_t frames, unsigned only, int preempt, unsigned workers)
{
    s.s.store_path = path;
    vp_hw_threads = workers;
    const auto explore = [&](bool on) { vp_sched(workers > 1 && on, preempt, 0); };
    explore(!only || only == 1000);
    ZarrStream* st = ZarrStream_create(&s.s);
    bool ok = st != nullptr;
    explore(!only);
    for (uint64_t f = 0; st && f < frames; ++f) {
        if (only) explore(f + 1 == only);
        size_t out = 0;
        ok &= ZarrStream_append(st, px + f * fb, fb, &out) == ZarrStatusCode_Success && out == fb;
    }
    explore(!only || only == 1001);
    ZarrStream_destroy(st);
    vp_sched(0, 0, 0);
    return ok;
}
extern "C" void harness()
{
    world();
    vpblosc::verbatim = true;
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.arr[1] = vp_arg(1);
    g.arr[2] = vp_arg(2);
    uint64_t slots = 1;
    for (unsigned i = 0; i < 3; ++i) {
        g.chunk[i] = i ? vp_arg(3) : vp_arg(4);
        g.shard[i] = vp_arg(5);
        slots *= g.shard[i];
    }
    default_types(g);
    Settings s(g);
    const unsigned bits = vp_arg(6);
    s.s.multiscale = bits & 1;
    if (bits & 2) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscLZ4, 1, 1 };
        s.s.compression_settings = &s.comp;
    }
    if (bits & 4) {
        vps3::reset();
        vps3::buckets.push_back("bucket");
        s.s3 = { "http://s3", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
    }
    const uint64_t frames = vp_arg(7), fb = g.frame_bytes();
    unsigned char* px = sym_bytes("px", fb * frames);
    const bool s3 = bits & 4;
    vp_assert(run(s, s3 ? "one" : "/w/one", px, fb, frames, 0, 0, 1), "a stream with one worker succeeds");
    vp_assert(run(s, s3 ? "s" : "/w/s", px, fb, frames, vp_arg(8), vp_arg(9), vp_arg(10)), "the stream succeeds");
    const Contents want = s3 ? objects_of("one") : files_of("/w/one"), got = s3 ? objects_of("s") : files_of("/w/s");
    vp_assert(want.size() > 3, "there is something to compare");
    same_store(want, got, slots);
    vp_observe(1, got.size());
    free(px);
    vp_reach(1);
}
