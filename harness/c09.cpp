// A failed storage operation is never reported as success.
#include <stream.h>
#include <vps3.hpp>
using namespace h;
// args: version, rows, columns, tile chunk, append chunk, shard, multiscale, compressed, s3, frames, frames in each call, what may fail, how often,
//       the store exists, whether small writes are buffered, schedules
extern "C" void harness()
{
    world();
    const bool s3 = vp_arg(8);
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.arr[1] = vp_arg(1);
    g.arr[2] = vp_arg(2);
    g.chunk[0] = vp_arg(4);
    g.shard[0] = vp_arg(5);
    for (unsigned i = 1; i < 3; ++i) {
        g.chunk[i] = vp_arg(3) < g.arr[i] ? vp_arg(3) : g.arr[i];
        g.shard[i] = vp_arg(5) > 1 && g.chunks_along(i) > 1 ? 2 : 1;
    }
    default_types(g);
    Settings s(g, s3 ? "s" : "/w/s");
    s.s.multiscale = vp_arg(6);
    if (vp_arg(7)) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscLZ4, 1, 1 };
        s.s.compression_settings = &s.comp;
    }
    if (s3) {
        vps3::reset();
        vps3::buckets.push_back("bucket");
        s.s3 = { "http://localhost:9000", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
    }
    if (vp_arg(13)) {
        vpenv::add_dir("/w/s");
        vpenv::add_file("/w/s/old");
    }
    if (!vp_arg(14)) vpenv::direct_limit = 1; // every write goes straight to the operating system, as large ones do
    vpenv::fault_mask = vp_arg(11);
    vpenv::fault_budget = vp_arg(12);
    ZarrStream* st = ZarrStream_create(&s.s);
    const unsigned in_create = vpenv::faults_hit;
    bool pending = in_create;
    if (s3 && in_create && st) {
        // (connections that do not work are left out of the pool, as long as there are others)
        vp_assert(in_create <= vps3::invalid_connections, "a stream whose bucket cannot be reached is not created");
        pending = false;
    } else if (in_create) {
        // (a write that fails while it is still buffered shows later)
        if (!vp_arg(14)) vp_assert(st == nullptr, "a stream whose files or directories cannot be set up is not created");
        vp_reach(2);
    } else vp_assert(st != nullptr, "a stream is created when nothing fails");
    if (!st) return;
    const uint64_t frames = vp_arg(9), step = vp_arg(10), fb = g.frame_bytes();
    if (vp_arg(15)) vp_sched(1, (int)vp_arg(15) - 1, 0); // (appends on every schedule)
    unsigned char* px = (unsigned char*)calloc(fb, step);
    for (uint64_t f = 0;; f += step) {
        const unsigned before = vpenv::faults_hit;
        size_t out = 0;
        const ZarrStatusCode rc = ZarrStream_append(st, px, fb * step, &out);
        const bool failed = vpenv::faults_hit > before;
        if (rc == ZarrStatusCode_Success) {
            vp_assert(!pending, "after a failure the next append reports it at the latest");
            vp_assert(out == fb * step, "a successful append took everything");
            if (failed) pending = true;
        } else {
            vp_assert(failed || pending, "no failure is reported when nothing failed");
            vp_reach(3);
            break;
        }
        if (f >= frames && !pending) {
            vp_reach(1);
            break;
        }
    }
    vp_sched(0, 0, 0);
    ZarrStream_destroy(st);
    free(px);
}
