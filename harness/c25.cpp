// Life cycles of streams and sinks: no memory errors, nothing left over.
#include <stream.h>
#include <vps3.hpp>
using namespace h;
// args: way 0 a stream of chosen sizes: version, dimensions, largest sizes (8, see choose_geo), frames, multiscale, bits
//       way 1 a stream of given sizes: version, rows, columns, tile chunk, append chunk, shard, bits (1 multiscale, 2 compressed, 4 S3, 8 the store
//             exists, 16 metadata written), frames, pieces, what may fail, how often, schedules, pixel type
//       way 2 two streams at a time: version, bits
//       way 3 settings that are no good: version
static void clean(const char* msg)
{
    if (vp_symbolic()) vp_assert(vp_threads() == 1, msg);
    vp_assert(vpenv::open_handles == 0, "every file that was opened is closed");
    vp_assert(vps3::live_clients == 0, "every connection that was made is closed");
}
static void options(Settings& s, unsigned bits)
{
    s.s.multiscale = bits & 1;
    if (bits & 2) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscZstd, 1, 2 };
        s.s.compression_settings = &s.comp;
    }
    if (bits & 4) {
        vps3::reset();
        vps3::buckets.push_back("bucket");
        s.s3 = { "http://s3", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
        s.s.store_path = "s";
    }
    if (bits & 8) {
        vpenv::add_dir("/w/s");
        vpenv::add_file("/w/s/old");
    }
    if (bits & 16) s.s.custom_metadata = "{\"a\": [1, 2.5, \"x\", null]}";
}
// exactly the bytes to append, so that reading beyond them shows
static ZarrStatusCode append(ZarrStream* st, uint64_t n, unsigned char& next)
{
    unsigned char* px = (unsigned char*)malloc(n ? n : 1);
    for (uint64_t i = 0; i < n; ++i) px[i] = next++ % 8 ? next : (unsigned char)vp_sym("px", 8);
    size_t out = 0;
    const ZarrStatusCode r = ZarrStream_append(st, px, n, &out);
    free(px); // nobody may keep it
    return r;
}
static void life(Settings& s, uint64_t bytes, unsigned pieces, unsigned mask, unsigned budget, unsigned sched)
{
    vpenv::direct_limit = sched ? 1024 : 1;
    vpenv::fault_mask = mask;
    vpenv::fault_budget = budget;
    if (sched) vp_sched(1, (int)sched - 1, 0);
    vp_leak_mark();
    ZarrStream* st = ZarrStream_create(&s.s);
    if (!st) {
        vp_assert(vpenv::faults_hit > 0, "valid settings are accepted when nothing fails");
        clean("a stream that could not be created leaves no thread behind");
        vp_reach(2);
    } else {
        unsigned char next = 1;
        for (unsigned k = 0; k < pieces; ++k) {
            const uint64_t n = k + 1 < pieces ? vp_choose("piece", 0, bytes) : bytes;
            if (append(st, n, next) != ZarrStatusCode_Success) vp_reach(3); // and go on
            bytes -= n;
        }
    }
    ZarrStream_destroy(st);
    vp_sched(0, 0, 0);
    vpenv::fault_mask = 0;
    clean("a stream that was destroyed leaves no thread behind");
    vp_leak_check();
}
static void chosen()
{
    Geo g;
    g.version = (ZarrVersion)vp_arg(1);
    g.nd = vp_arg(2);
    choose_geo(g, 3);
    Settings s(g);
    options(s, vp_arg(12));
    life(s, g.frame_bytes() * vp_arg(11), 1, 0, 0, 0);
}
static void given()
{
    Geo g;
    g.version = (ZarrVersion)vp_arg(1);
    g.dtype = (ZarrDataType)vp_arg(13);
    g.arr[1] = vp_arg(2);
    g.arr[2] = vp_arg(3);
    g.chunk[0] = vp_arg(5);
    g.shard[0] = vp_arg(6);
    for (unsigned i = 1; i < 3; ++i) {
        g.chunk[i] = vp_arg(4) < g.arr[i] ? vp_arg(4) : g.arr[i];
        g.shard[i] = vp_arg(6) > 1 && g.chunks_along(i) > 1 ? 2 : 1;
    }
    default_types(g);
    Settings s(g);
    options(s, vp_arg(7));
    life(s, g.frame_bytes() * vp_arg(8) + (vp_arg(9) > 1 ? 1 : 0), vp_arg(9), vp_arg(10), vp_arg(11), vp_arg(12));
}
static void two(uint64_t version, unsigned bits)
{
    Geo g;
    g.version = (ZarrVersion)version;
    g.arr[1] = g.arr[2] = 2;
    for (unsigned i = 0; i < 3; ++i) g.chunk[i] = i ? 2 : 1, g.shard[i] = i ? 1 : 2;
    default_types(g);
    {
        Settings a(g), b(g);
        options(b, bits);
        options(a, bits);
        vp_leak_mark();
        if (!(bits & 4)) b.s.store_path = "/w/b";
        else b.s.store_path = "b";
        ZarrStream* st[2] = {};
        unsigned char next = 1;
        for (unsigned k = 0; k < 5; ++k) {
            const unsigned which = vp_choose("which", 0, 1);
            ZarrStream*& x = st[which];
            switch (vp_choose("op", 0, 2)) {
                case 0:
                    ZarrStream_destroy(x);
                    x = ZarrStream_create(which ? &b.s : &a.s);
                    vp_assert(x != nullptr, "valid settings are accepted");
                    break;
                case 1:
                    if (x) vp_assert(append(x, 6, next) == ZarrStatusCode_Success, "append succeeds");
                    break;
                default:
                    ZarrStream_destroy(x);
                    x = nullptr;
                    break;
            }
        }
        ZarrStream_destroy(st[1]);
        ZarrStream_destroy(st[0]);
    }
    clean("streams that were destroyed leave no thread behind");
    vp_leak_check();
}
// settings that are refused: at every stage of checking and of creation
static void refused(uint64_t version)
{
    Geo g;
    g.version = (ZarrVersion)version;
    g.arr[1] = g.arr[2] = 2;
    for (unsigned i = 0; i < 3; ++i) g.chunk[i] = i ? 2 : 1, g.shard[i] = 1;
    default_types(g);
    Settings s(g);
    const unsigned what = vp_choose("what", 0, 15);
    if (what == 8 || what == 9) options(s, 4);
    switch (what) {
        case 0: s.s.store_path = nullptr; break;
        case 1: s.s.store_path = " "; break;
        case 2: s.s.store_path = "/nowhere/else/s"; break;
        case 3: s.s.dimensions = nullptr; break;
        case 4: s.s.dimension_count = vp_choose("count", 0, 2); break;
        case 5: s.d[vp_choose("dim", 0, 2)].name = vp_choose("null", 0, 1) ? nullptr : ""; break;
        case 6: s.d[vp_choose("dim", 0, 2)].chunk_size_px = 0; break;
        case 7: s.s.custom_metadata = "{\"a\": [1, {\"b\": 2"; break;
        case 8: s.s3.bucket_name = "another"; break;
        case 9: vps3::reachable = false; break;
        case 10:
            vpenv::add_dir("/w/s");
            vpenv::fault_mask = vpenv::F_REMOVE;
            vpenv::fault_budget = 1;
            break;
        case 11: {
            const uint32_t v = (uint32_t)vp_sym("version", 32);
            vp_assume(v != 2 && v != 3);
            memcpy(&s.s.version, &v, sizeof v);
            break;
        }
        case 12: {
            const uint32_t v = (uint32_t)vp_sym("type", 32);
            vp_assume(v >= 10);
            memcpy(&s.s.data_type, &v, sizeof v);
            break;
        }
        case 13:
            s.comp.level = (uint8_t)vp_sym("level", 8);
            s.comp.shuffle = (uint8_t)vp_sym("shuffle", 8);
            vp_assume(s.comp.level > 9 || s.comp.shuffle > 2);
            s.s.compression_settings = &s.comp;
            break;
        case 14: s.d[1].array_size_px = 0; break;
        default: s.s.store_path = "/w/file/s"; vpenv::add_file("/w/file"); break;
    }
    vp_leak_mark();
    ZarrStream* st = ZarrStream_create(&s.s);
    vp_assert(!st || (what == 10 && !vpenv::faults_hit), "settings that are no good are refused");
    ZarrStream_destroy(st);
    clean("a stream that could not be created leaves no thread behind");
    vp_leak_check();
}
extern "C" void harness()
{
    world();
    switch (vp_arg(0)) {
        case 0: chosen(); break;
        case 1: given(); break;
        case 2: two(vp_arg(1), vp_arg(2)); break;
        case 3: refused(vp_arg(1)); break;
    }
    vp_reach(1);
}
