// What an open stream holds on to does not grow with what has been appended.
#include <compare.h>
#include <ctime>
using namespace h;
// args: version, bits (1 multiscale, 2 compressed, 4 S3), what fails again and again, rounds, number of dimensions, sizes as in choose_geo,
// frames per call (0: half a frame)
struct Held
{
    uint64_t heap, bytes, handles, uploads, clients;
};
static Held held()
{
    uint64_t open = 0;
    for (auto* u : vps3::uploads) open += !u->completes;
    if (!vp_symbolic()) { // the workers may still be tidying up
        uint64_t n = ~0ull;
        for (int quiet = 0, tries = 0; quiet < 3 && tries < 200; ++tries) {
            struct timespec t = { 0, 1000000 };
            nanosleep(&t, nullptr);
            const uint64_t now = vp_heap_count();
            quiet = now == n ? quiet + 1 : 0;
            n = now;
        }
    }
    return { vp_heap_count(), vp_heap_bytes(), vpenv::open_handles, open, vps3::live_clients };
}
extern "C" void harness()
{
    world();
    vps3::reset();
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.nd = vp_arg(4);
    choose_geo(g, 5);
    Settings s(g);
    const unsigned bits = vp_arg(1), what = vp_arg(2), rounds = vp_arg(3), cut = vp_arg(13);
    s.s.multiscale = bits & 1;
    if (bits & 2) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscZstd, 1, 1 };
        s.s.compression_settings = &s.comp;
    }
    if (bits & 4) {
        vps3::buckets.push_back("bucket");
        s.s3 = { "http://s3", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
        s.s.store_path = "s";
    }
    // a round finishes something at every level
    uint64_t round = g.chunk[0] * g.shard[0] * g.inner_frames();
    if (bits & 1) round *= 8; // at most three levels
    const uint64_t fb = g.frame_bytes();
    const uint64_t step = cut ? cut * fb : fb / 2 ? fb / 2 : 1, total = round * fb;
    unsigned char* px = (unsigned char*)malloc(total);
    memset(px, (int)vp_choose("px", 0, 1), total);
    vp_leak_mark();
    ZarrStream* st = create(s);
    vp_assert(st != nullptr, "the stream is created");
    std::vector<Held> at;
    at.reserve(rounds + 1);
    for (unsigned r = 0; r < rounds; ++r) {
        if (r == 1 && what) {
            vpenv::fault_mask = what | vpenv::F_ALWAYS;
            vpenv::fault_budget = 1u << 30;
        }
        for (uint64_t p = 0; p < total; p += step) {
            size_t out = 0;
            const uint64_t n = p + step < total ? step : total - p;
            const ZarrStatusCode rc = ZarrStream_append(st, px + p, n, &out);
            vp_assert(rc == ZarrStatusCode_Success || vpenv::faults_hit, "appending succeeds if nothing fails");
        }
        at.push_back(held());
    }
    vp_assert(!what || vpenv::faults_hit, "something has failed");
    // the first two rounds may still be settling in; of the heap a queue may have one block more or less
    for (unsigned r = 2; r < rounds; ++r) {
        vp_assert(at[r].handles <= at[1].handles, "no more files are open than before");
        vp_assert(at[r].uploads <= at[1].uploads, "no more uploads are under way than before");
        vp_assert(at[r].clients <= at[1].clients, "there are no more connections than before");
    }
    const uint64_t spare = vp_symbolic() ? 0 : 2;
    vp_assert(at[rounds - 1].heap <= at[1].heap + 2 + spare, "no more blocks of memory are held than before");
    vp_assert(at[rounds - 1].bytes <= at[1].bytes + 600 + 200 * spare, "no more memory is held than before");
    vpenv::fault_mask = 0;
    ZarrStream_destroy(st);
    free(px);
    vp_reach(1);
}
