// The metadata document of every array that received data.
#include <nlohmann/json.hpp>
#include <stream.h>
using namespace h;
using json = nlohmann::json;
static json doc(const std::string& path)
{
    vpenv::Node* f = file(path);
    vp_assert(f != nullptr, "the array's metadata document exists");
    json j = json::parse(vpenv::content(f), nullptr, false);
    vp_assert(!j.is_discarded(), "the metadata document is well-formed JSON");
    return j;
}
static bool shape_is(const json& j, const uint64_t* v, unsigned n)
{
    if (!j.is_array() || j.size() != n) return false;
    for (unsigned i = 0; i < n; ++i)
        if (!j[i].is_number() || j[i].get<uint64_t>() != v[i]) return false;
    return true;
}
static const json& at(const json& j, const char* k)
{
    static const json none = "(missing)";
    return j.is_object() && j.contains(k) ? j.at(k) : none;
}
static void check(const Geo& g, unsigned level, uint64_t frames, const Settings& s, const char* codec)
{
    uint64_t shape[8], chunk[8], shard[8];
    for (unsigned i = 0; i < g.nd; ++i) {
        shape[i] = i ? g.arr[i] : entries(g, frames);
        chunk[i] = g.chunk[i];
        shard[i] = g.shard[i];
    }
    if (g.version == ZarrVersion_2) {
        json j = doc("/w/s/" + num(level) + "/.zarray");
        static const char* t[] = { "<u1", "<u2", "<u4", "<u8", "<i1", "<i2", "<i4", "<i8", "<f4", "<f8" };
        vp_assert(at(j, "zarr_format") == 2, "the format is 2");
        vp_assert(shape_is(at(j, "shape"), shape, g.nd), "the shape is that of the data stored");
        vp_assert(shape_is(at(j, "chunks"), chunk, g.nd), "the chunk shape is the one used");
        vp_assert(at(j, "dtype") == t[g.dtype], "pixel type and byte order are those of the data");
        vp_assert(at(j, "fill_value").is_number() && at(j, "fill_value") == 0, "the fill value is zero");
        vp_assert(at(j, "order") == "C", "the order is row-major");
        vp_assert(at(j, "dimension_separator") == "/", "chunk names are separated by slashes");
        vp_assert(at(j, "filters").is_null(), "there are no filters");
        const json& c = at(j, "compressor");
        if (!codec) vp_assert(c.is_null(), "no compressor is named if none was used");
        else {
            vp_assert(at(c, "id") == "blosc" && at(c, "cname") == codec, "the codec is the one used");
            vp_assert(at(c, "clevel").is_number() && at(c, "clevel") == (int)s.comp.level, "the compression level is the one used");
            vp_assert(at(c, "shuffle").is_number() && at(c, "shuffle") == (int)s.comp.shuffle, "the shuffle mode is the one used");
        }
    } else {
        json j = doc("/w/s/meta/root/" + num(level) + ".array.json");
        static const char* t[] = { "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64" };
        vp_assert(shape_is(at(j, "shape"), shape, g.nd), "the shape is that of the data stored");
        vp_assert(shape_is(at(at(j, "chunk_grid"), "chunk_shape"), chunk, g.nd), "the chunk shape is the one used");
        vp_assert(at(at(j, "chunk_grid"), "separator") == "/", "chunk names are separated by slashes");
        vp_assert(at(j, "data_type") == t[g.dtype], "the pixel type is that of the data");
        vp_assert(at(j, "fill_value").is_number() && at(j, "fill_value") == 0, "the fill value is zero");
        vp_assert(at(j, "chunk_memory_layout") == "C", "the order is row-major");
        const json& st = at(j, "storage_transformers");
        vp_assert(st.is_array() && st.size() == 1, "there is one storage transformer");
        vp_assert(at(st[0], "type") == "indexed", "it is the indexed sharding transformer");
        vp_assert(shape_is(at(at(st[0], "configuration"), "chunks_per_shard"), shard, g.nd), "the shard shape is the one used");
        const json& c = at(j, "compressor");
        if (!codec) vp_assert(c.is_null(), "no compressor is named if none was used");
        else {
            const json& k = at(c, "configuration");
            vp_assert(at(k, "cname") == codec, "the codec is the one used");
            vp_assert(at(k, "clevel").is_number() && at(k, "clevel") == (int)s.comp.level, "the compression level is the one used");
            vp_assert(at(k, "shuffle").is_number() && at(k, "shuffle") == (int)s.comp.shuffle, "the shuffle mode is the one used");
        }
    }
}
// args: version, dimensions, 8 size limits, min frames, max frames, first type, last type, compression choices, multiscale,
//       frames appended in one call
extern "C" void harness()
{
    world();
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.nd = vp_arg(1);
    choose_geo(g, 2);
    g.dtype = (ZarrDataType)vp_choose("type", vp_arg(12), vp_arg(13));
    const bool multi = vp_arg(15);
    Settings s(g);
    const char* codec = nullptr;
    if (vp_arg(14)) {
        s.s.compression_settings = &s.comp;
        s.comp.compressor = (ZarrCompressor)vp_choose("compressor", 0, 1);
        s.comp.codec = (ZarrCompressionCodec)vp_choose("codec", s.comp.compressor ? 1 : 0, 2);
        s.comp.level = (uint8_t)vp_choose("level", 0, vp_arg(14));
        s.comp.shuffle = (uint8_t)vp_choose("shuffle", 0, 2);
        if (s.comp.compressor) codec = s.comp.codec == ZarrCompressionCodec_BloscLZ4 ? "lz4" : "zstd";
    }
    s.s.multiscale = multi;
    const uint64_t fb = g.frame_bytes(), step = vp_arg(16) ? vp_arg(16) : 1;
    unsigned char* px = (unsigned char*)calloc(1, step * fb + 1);
    ZarrStream* st = create(s);
    vp_assert(st != nullptr, "a valid stream is created");
    uint64_t frames = 0;
    for (; frames < vp_arg(11) && (frames < vp_arg(10) || vp_choose("another", 0, 1)); frames += step) append_all(st, px, step * fb);
    ZarrStream_destroy(st);
    if (frames) check(g, 0, frames, s, codec);
    if (multi) {
        Geo l = g;
        uint64_t n = frames;
        for (unsigned level = 1;; ++level) {
            // the levels in between are as C19 has them: stop where no frames can arrive
            n /= 2;
            if (!n) break;
            bool shrunk = false, halved = false;
            for (unsigned i = 0; i < l.nd; ++i) {
                if (l.type[i] == ZarrDimensionType_Channel) continue;
                uint32_t half = l.arr[i] / 2 + l.arr[i] % 2;
                if (half < l.arr[i]) halved = true;
                if (i) {
                    if (l.chunk[i] > half) {
                        l.chunk[i] = half;
                        shrunk = true;
                    }
                    uint32_t k = half / l.chunk[i] + (half % l.chunk[i] != 0);
                    if (l.shard[i] > k) l.shard[i] = k;
                } else
                    l.shard[i] = 1;
                l.arr[i] = half;
            }
            check(l, level, n, s, codec);
            if (shrunk || !halved) break;
        }
    }
    vp_observe(1, frames);
    if (frames) vp_reach(1);
    free(px);
}
