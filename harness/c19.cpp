// Geometry of the lower resolution levels.
#include <array.writer.hh>
#include <vp.h>
using zarr::ArrayWriterConfig;
namespace {
struct Dim { uint64_t array, chunk, shard; unsigned type; };
std::string name(unsigned i) { return i % 2 ? std::string("a dimension with a long name ") + (char)('a' + i) : std::string(1, (char)('a' + i)); }
ArrayWriterConfig config(const Dim* d, unsigned nd, ZarrDataType t, int level, bool s3, bool compressed, uint64_t clevel, uint64_t shuffle)
{
    std::vector<ZarrDimension> v;
    for (unsigned i = 0; i < nd; ++i) v.emplace_back(name(i), (ZarrDimensionType)d[i].type, (uint32_t)d[i].array, (uint32_t)d[i].chunk, (uint32_t)d[i].shard);
    ArrayWriterConfig c;
    c.dimensions = std::make_shared<ArrayDimensions>(std::move(v), t);
    c.dtype = t;
    c.level_of_detail = level;
    c.store_path = "the/store path";
    if (s3) c.bucket_name = "bucket";
    if (compressed) c.compression_params = zarr::BloscCompressionParams("blosc-zstd", (uint8_t)clevel, (uint8_t)shuffle);
    return c;
}
// one level down; returns whether another one is possible
bool step(const ArrayWriterConfig& c, ArrayWriterConfig& o, Dim* d, unsigned nd)
{
    const ZarrDataType t = c.dtype;
    const bool more = zarr::downsample(c, o);
    vp_assert(o.level_of_detail == c.level_of_detail + 1, "the level of detail is one more");
    vp_assert(o.dtype == t, "the pixel type is kept");
    vp_assert(o.store_path == c.store_path && o.bucket_name == c.bucket_name, "the store is kept");
    vp_assert(o.compression_params.has_value() == c.compression_params.has_value(), "compression is kept");
    if (o.compression_params)
        vp_assert(o.compression_params->codec_id == c.compression_params->codec_id && o.compression_params->clevel == c.compression_params->clevel &&
                    o.compression_params->shuffle == c.compression_params->shuffle,
                  "the compression parameters are kept");
    vp_assert(o.dimensions && o.dimensions != c.dimensions && o.dimensions->ndims() == nd, "there are as many dimensions");
    bool shrank = false, halved = false;
    for (unsigned i = 0; i < nd; ++i) {
        const ZarrDimension &was = (*c.dimensions)[i], &is = (*o.dimensions)[i];
        vp_assert(was.array_size_px == d[i].array && was.chunk_size_px == d[i].chunk && was.shard_size_chunks == d[i].shard, "the given configuration is left alone");
        vp_assert(is.name == name(i), "names are kept");
        vp_assert((unsigned)is.type == d[i].type, "types are kept");
        const uint64_t a = is.array_size_px, k = is.chunk_size_px, s = is.shard_size_chunks;
        vp_observe(i, a << 32 ^ k << 16 ^ s);
        if (d[i].type == ZarrDimensionType_Channel) vp_assert(a == d[i].array && k == d[i].chunk && s == d[i].shard, "channels are kept");
        else {
            vp_assert(2 * a == d[i].array || 2 * a == d[i].array + 1, "a dimension is halved, rounding up");
            if (d[i].array == 0) {
                vp_assert(k == d[i].chunk, "the chunk size along the append dimension is kept");
                vp_assert(s == 1, "a shard of an append dimension without bounds is one chunk");
            } else {
                vp_assert(k == (a < d[i].chunk ? a : d[i].chunk), "a chunk is as large as before, or as the array where that is less");
                if (s == d[i].shard) vp_assert(s == 0 || (s - 1) * k < a, "a shard has no more chunks than the array");
                else {
                    vp_assert(s < d[i].shard, "shards do not grow");
                    vp_assert(s > 0 && s * k >= a && (s - 1) * k < a, "a shard that shrinks takes the whole array");
                }
            }
        }
        if (k < d[i].chunk) shrank = true;
        if (a < d[i].array) halved = true;
        d[i].array = a;
        d[i].chunk = k;
        d[i].shard = s;
    }
    vp_assert(more == (!shrank && halved), "another level is possible exactly when no chunk shrank and something was left to halve");
    return more;
}
}
// args: mode, dimensions, then
//  0: most array size, most chunk size, most shard size
//  1: dimension, array from, to, chunk from, to, shard from, to
//  2: array size in bits, most chunk size
extern "C" void harness()
{
    const unsigned mode = vp_arg(0), nd = vp_arg(1);
    Dim d[8];
    for (unsigned i = 0; i < nd; ++i) d[i] = { i ? 8u + i : 0u, 3, 2, ZarrDimensionType_Space };
    d[0].type = ZarrDimensionType_Time;
    ArrayWriterConfig o;
    if (mode == 0) {
        for (unsigned i = 0; i < nd; ++i) {
            d[i].array = vp_range("array", i ? 1 : 0, vp_arg(2));
            d[i].chunk = vp_range("chunk", 1, vp_arg(3));
            d[i].shard = vp_range("shard", 0, vp_arg(4));
            d[i].type = vp_range("type", 0, 3);
        }
        const ZarrDataType t = (ZarrDataType)vp_range("dtype", 0, 9);
        const int level = (int)vp_range("level", 0, 1000);
        const bool s3 = vp_choose("s3", 0, 1), comp = vp_choose("compressed", 0, 1);
        auto c = config(d, nd, t, level, s3, comp, vp_range("clevel", 0, 9), vp_range("shuffle", 0, 2));
        if (step(c, o, d, nd)) vp_reach(2);
        else vp_reach(1);
    } else if (mode == 1) {
        Dim& x = d[vp_arg(2)];
        x = { vp_range("array", vp_arg(3), vp_arg(4)), vp_range("chunk", vp_arg(5), vp_arg(6)), vp_range("shard", vp_arg(7), vp_arg(8)), ZarrDimensionType_Other };
        auto c = config(d, nd, ZarrDataType_uint16, 0, false, false, 0, 0);
        if (step(c, o, d, nd)) vp_reach(2);
        else vp_reach(1);
    } else {
        // the pyramid: every level down to the last
        const unsigned bits = vp_arg(2);
        for (unsigned i = 0; i < nd; ++i)
            if (i + 1 == nd) d[i] = { vp_range("array", 1, (1ull << bits) - 1), vp_range("chunk", 1, vp_arg(3)), 1, ZarrDimensionType_Space };
            else d[i] = { i, 1, 1, (unsigned)vp_range("type", 0, 3) };
        auto c = config(d, nd, ZarrDataType_uint8, 0, false, false, 0, 0);
        unsigned levels = 1;
        while (step(c, o, d, nd)) {
            c = o;
            ++levels;
            vp_assert(levels <= bits + 1, "the pyramid ends");
            if (levels > 2) vp_reach(2);
        }
        vp_reach(1);
    }
}
