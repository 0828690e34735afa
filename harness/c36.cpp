// What is finished is in the store while the stream is still open, and stays
// there whatever happens next: more frames, failures, a crash at any operation.
#include <compare.h>
using namespace h;
// args: version, bits (1 multiscale, 2 compressed, 4 S3), what happens (0: nothing, 1: a crash, else: the failures of this mask), frames, frames
// per call, number of dimensions, sizes as in choose_geo
static void expect(const Geo& g, bool s3, bool packed, const unsigned char* px, uint64_t frames)
{
    const bool v2 = g.version == ZarrVersion_2;
    std::string root = s3 ? "/m/s" : "/w/s";
    if (s3) {
        bool ok;
        vpenv::remove_all("/m", 2, ok);
        for (auto* o : vps3::objects) vpenv::write_record(vpenv::add_file("/m/" + o->key), 0, (unsigned char*)o->data.data(), o->data.size());
    }
    if (v2) expect_v2(root + "/0", g, px, frames, packed);
    else expect_v3(root + "/data/root/0", g, px, frames, packed);
}
extern "C" void harness()
{
    world();
    vps3::reset();
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.nd = vp_arg(5);
    choose_geo(g, 6);
    Settings s(g);
    const unsigned bits = vp_arg(1), what = vp_arg(2);
    s.s.multiscale = bits & 1;
    const bool packed = bits & 2, s3 = bits & 4;
    if (packed) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscZstd, 1, 1 };
        s.s.compression_settings = &s.comp;
    }
    if (s3) {
        vps3::buckets.push_back("bucket");
        s.s3 = { "http://s3", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
        s.s.store_path = "s";
    }
    const uint64_t frames = vp_arg(3), cut = vp_arg(4), fb = g.frame_bytes();
    const uint64_t period = g.chunk[0] * g.shard[0] * g.inner_frames();
    unsigned char* px = sym_bytes("px", fb * frames);
    ZarrStream* st = create(s);
    vp_assert(st != nullptr, "the stream is created");
    uint64_t done = 0;
    bool failed = false;
    for (uint64_t f = 0; f < frames; f += cut) {
        const uint64_t n = f + cut < frames ? cut : frames - f;
        size_t out = 0;
        const ZarrStatusCode rc = ZarrStream_append(st, px + f * fb, n * fb, &out);
        if (vpenv::crashed) break;
        if (rc != ZarrStatusCode_Success) {
            vp_assert(what > 1 && vpenv::faults_hit, "the stream succeeds if nothing fails");
            failed = true;
            break;
        }
        const uint64_t now = (f + n) / period * period;
        if (now > done) {
            done = now;
            if (what != 1) {
                // the crash is checked at the end, and no sooner than something is finished
                const unsigned mask = vpenv::fault_mask, budget = vpenv::fault_budget;
                vpenv::fault_mask = 0;
                expect(g, s3, packed, px, done);
                vpenv::fault_mask = mask;
                vpenv::fault_budget = budget;
            }
            if (what == 1) vpenv::crash_armed = true;
            if (what > 1) {
                vpenv::fault_mask = what;
                vpenv::fault_budget = 1;
            }
        }
    }
    if (failed && vp_choose("again", 0, 1)) { // what cannot be stored is passed once more
        size_t out = 0;
        (void)ZarrStream_append(st, px, fb, &out);
    }
    ZarrStream_destroy(st);
    vpenv::crash_armed = false;
    const bool crashed = vpenv::crashed;
    vpenv::crashed = false;
    vpenv::fault_mask = 0;
    if (what && done) expect(g, s3, packed, px, done);
    if (done) vp_reach(1);
    if (crashed) vp_reach(2);
    if (failed) vp_reach(3);
    free(px);
}
