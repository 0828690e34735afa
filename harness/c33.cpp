// Streams open at the same time do not influence each other, and a stream keeps nothing of what its caller passes to it.
#include <compare.h>
#include <vpblosc.hpp>
using namespace h;
// args: version of the first, of the second stream, bits of the first, of the second (1 multiscale, 2 compressed, 4 S3, 8 metadata), frames of each, mode, pieces a frame may be cut into
// mode 0: two streams in any interleaving, against each alone; 1: one stream whose settings and data are overwritten and released as soon as each call returns
namespace {
Geo geo(unsigned k)
{
    Geo g;
    g.version = (ZarrVersion)vp_arg(k);
    g.arr[1] = 2;
    g.arr[2] = 2 + k;
    g.chunk[0] = 1 + k;
    g.chunk[1] = 2;
    g.chunk[2] = 2;
    g.shard[0] = vp_arg(2 + k) & 1 ? 1 : 1 + !k; // levels have shards of one chunk along the append dimension
    g.shard[1] = g.shard[2] = 1;
    g.dtype = k ? ZarrDataType_uint16 : ZarrDataType_uint8;
    default_types(g);
    return g;
}
void fill(Settings& s, unsigned bits, unsigned k)
{
    s.s.multiscale = bits & 1;
    if (bits & 2) {
        s.comp = { ZarrCompressor_Blosc1, k ? ZarrCompressionCodec_BloscLZ4 : ZarrCompressionCodec_BloscZstd, (uint8_t)(1 + k), (uint8_t)(2 - k) };
        s.s.compression_settings = &s.comp;
    }
    if (bits & 4) {
        s.s3 = { "http://s3", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
    }
    if (bits & 8) s.s.custom_metadata = k ? "{\"b\": [1]}" : "{\"a\": 0}";
}
std::string where(unsigned bits, const char* name) { return bits & 4 ? std::string(name) : std::string("/w/") + name; }
Contents contents(unsigned bits, const char* name) { return bits & 4 ? objects_of(name) : files_of(where(bits, name)); }
// strings and structures that go away: overwritten, then released
struct Passing
{
    struct Block
    {
        char* p;
        size_t n;
    };
    std::vector<Block> b;
    char* hold(const void* from, size_t n)
    {
        char* p = (char*)malloc(n ? n : 1);
        memcpy(p, from, n);
        b.push_back({ p, n });
        return p;
    }
    const char* str(const char* s) { return s ? hold(s, strlen(s) + 1) : nullptr; }
    void go()
    {
        for (auto& x : b) {
            for (size_t i = 0; i < x.n; ++i) x.p[i] = (char)vp_sym("after", 8);
            free(x.p);
        }
        b.clear();
    }
};
void append_passing(ZarrStream* st, const unsigned char* px, size_t n)
{
    Passing p;
    size_t out = 0;
    vp_assert(ZarrStream_append(st, p.hold(px, n), n, &out) == ZarrStatusCode_Success && out == n, "append succeeds");
    p.go();
}
ZarrStream* create_passing(const Settings& s)
{
    Passing p;
    ZarrStreamSettings* t = (ZarrStreamSettings*)p.hold(&s.s, sizeof s.s);
    t->store_path = p.str(s.s.store_path);
    t->custom_metadata = p.str(s.s.custom_metadata);
    t->dimensions = (ZarrDimensionProperties*)p.hold(s.d, sizeof(s.d[0]) * s.s.dimension_count);
    for (unsigned i = 0; i < s.s.dimension_count; ++i) t->dimensions[i].name = p.str(s.d[i].name);
    if (s.s.compression_settings) t->compression_settings = (ZarrCompressionSettings*)p.hold(&s.comp, sizeof s.comp);
    if (s.s.s3_settings) {
        ZarrS3Settings* z = (ZarrS3Settings*)p.hold(&s.s3, sizeof s.s3);
        z->endpoint = p.str(s.s3.endpoint);
        z->bucket_name = p.str(s.s3.bucket_name);
        z->access_key_id = p.str(s.s3.access_key_id);
        z->secret_access_key = p.str(s.s3.secret_access_key);
        t->s3_settings = z;
    }
    ZarrStream* st = ZarrStream_create(t);
    p.go();
    return st;
}
}
extern "C" void harness()
{
    world();
    vpblosc::verbatim = true;
    vps3::reset();
    vps3::buckets.push_back("bucket");
    const unsigned frames = vp_arg(4), mode = vp_arg(5), pieces = vp_arg(6), streams = mode ? 1 : 2;
    unsigned char* px[2] = {};
    uint64_t fb[2], slots[2];
    for (unsigned k = 0; k < streams; ++k) {
        Geo g = geo(k);
        fb[k] = g.frame_bytes();
        slots[k] = g.shard[0];
        px[k] = sym_bytes("px", fb[k] * frames);
        Settings s(g);
        fill(s, vp_arg(2 + k), k);
        const std::string path = where(vp_arg(2 + k), k ? "b0" : "a0");
        s.s.store_path = path.c_str();
        ZarrStream* st = create(s);
        vp_assert(st != nullptr, "a valid stream is created");
        for (unsigned f = 0; f < frames; ++f) append_all(st, px[k] + f * fb[k], fb[k]);
        ZarrStream_destroy(st);
    }
    if (mode) {
        const unsigned bits = vp_arg(2);
        Settings s(geo(0));
        fill(s, bits, 0);
        const std::string path = where(bits, "s");
        s.s.store_path = path.c_str();
        ZarrStream* st = create_passing(s);
        vp_assert(st != nullptr, "a valid stream is created");
        const auto at = [&](unsigned i) { return i / pieces * fb[0] + i % pieces * fb[0] / pieces; };
        for (unsigned i = 0; i < frames * pieces;) {
            const unsigned n = (unsigned)vp_choose("pieces", 1, frames * pieces - i);
            append_passing(st, px[0] + at(i), at(i + n) - at(i));
            i += n;
        }
        ZarrStream_destroy(st);
        same_store(contents(bits, "a0"), contents(bits, "s"), slots[0]);
    } else {
        ZarrStream* st[2] = {};
        unsigned done[2] = {}; // created, appended frame by frame, destroyed
        const unsigned steps = frames * pieces + 2;
        while (done[0] < steps || done[1] < steps) {
            unsigned k = done[0] == steps ? 1 : 0;
            if (done[0] < steps && done[1] < steps) k = (unsigned)vp_choose("stream", 0, 1);
            if (done[k] == 0) {
                Settings s(geo(k));
                fill(s, vp_arg(2 + k), k);
                const std::string path = where(vp_arg(2 + k), k ? "b" : "a");
                s.s.store_path = path.c_str();
                st[k] = create(s);
                vp_assert(st[k] != nullptr, "a valid stream is created");
            } else if (done[k] == steps - 1)
                ZarrStream_destroy(st[k]);
            else
                append_all(st[k], px[k] + (done[k] - 1) * fb[k] / pieces, done[k] * fb[k] / pieces - (done[k] - 1) * fb[k] / pieces);
            ++done[k];
        }
        for (unsigned k = 0; k < 2; ++k) {
            const Contents want = contents(vp_arg(2 + k), k ? "b0" : "a0"), got = contents(vp_arg(2 + k), k ? "b" : "a");
            vp_assert(want.size() > 3, "there is something to compare");
            same_store(want, got, slots[k]);
        }
    }
    for (unsigned k = 0; k < streams; ++k) free(px[k]);
    vp_reach(1);
}
