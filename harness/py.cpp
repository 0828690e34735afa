// The Python binding, with the harness as the Python program.
#include <acquire.zarr.h>
#include <compare.h>
#include <logger.hh>
#include <stream.h>
#include <vps3.hpp>
using namespace h;
// args: way, then what the way needs (see harness())
namespace {
// between the binding and the library: what the binding hands over
struct Seen {
    uint64_t creates = 0, appends = 0, destroys = 0;
    bool stub = false, refuse = false;
    std::string path, metadata, endpoint, bucket, id, key;
    bool has_metadata = false, has_s3 = false, has_comp = false;
    ZarrCompressionSettings comp{};
    std::vector<ZarrDimensionProperties> dims;
    std::vector<std::string> names;
    ZarrStreamSettings s{};
    const unsigned char* data = nullptr;
    std::vector<unsigned char> bytes;
    uint64_t status = 0, taken = ~0ull;
    ZarrStream* stream = nullptr;
    uint64_t level_status = 0;
};
Seen* seen;
std::string text(const char* p) { return p ? std::string(p) : std::string(); }
char one_stream[64];
} // namespace
static ZarrStream* seen_create(ZarrStreamSettings* s)
{
    ++seen->creates;
    seen->s = *s;
    seen->path = text(s->store_path);
    seen->has_metadata = s->custom_metadata != nullptr;
    seen->metadata = text(s->custom_metadata);
    if ((seen->has_s3 = s->s3_settings != nullptr)) {
        seen->endpoint = text(s->s3_settings->endpoint);
        seen->bucket = text(s->s3_settings->bucket_name);
        seen->id = text(s->s3_settings->access_key_id);
        seen->key = text(s->s3_settings->secret_access_key);
    }
    if ((seen->has_comp = s->compression_settings != nullptr)) seen->comp = *s->compression_settings;
    seen->dims.assign(s->dimensions, s->dimensions + s->dimension_count);
    seen->names.clear();
    for (auto& d : seen->dims) seen->names.push_back(text(d.name));
    if (seen->refuse) return nullptr;
    return seen->stream = seen->stub ? (ZarrStream*)one_stream : ZarrStream_create(s);
}
static void seen_destroy(ZarrStream* s)
{
    ++seen->destroys;
    vp_assert(s == seen->stream, "the stream that is destroyed is the one created");
    if (!seen->stub) ZarrStream_destroy(s);
}
static ZarrStatusCode seen_append(ZarrStream* s, const void* data, size_t n, size_t* out)
{
    ++seen->appends;
    vp_assert(s == seen->stream && seen->destroys == 0, "data goes to the stream created");
    if (!seen->stub) return ZarrStream_append(s, data, n, out);
    seen->bytes.insert(seen->bytes.end(), (const unsigned char*)data, (const unsigned char*)data + n);
    *out = seen->taken < n ? seen->taken : n;
    return (ZarrStatusCode)seen->status;
}
static ZarrStatusCode seen_level(ZarrLogLevel l)
{
    return seen->level_status ? (ZarrStatusCode)seen->level_status : Zarr_set_log_level(l);
}
#define ZarrStream_create seen_create
#define ZarrStream_destroy seen_destroy
#define ZarrStream_append seen_append
#define Zarr_set_log_level seen_level
#include <acquire-zarr-py.cpp>
#undef ZarrStream_create
#undef ZarrStream_destroy
#undef ZarrStream_append
#undef Zarr_set_log_level
namespace P = pybind11::program;
typedef pybind11::Kw Kw;
typedef pybind11::object O;
static pybind11::Ref I(long long v) { return pybind11::int_(v).p; }
static pybind11::Ref S(const std::string& s) { return pybind11::str(s).p; }
static pybind11::Ref B(bool b) { return pybind11::bool_(b).p; }
static pybind11::Ref N() { return pybind11::none().p; }
static O ok(const P::Value& v, const char* msg)
{
    vp_assert(!v.raised, msg);
    if (v.raised) vp_stop();
    return v;
}
static pybind11::Ref E(pybind11::module_& m, const char* e, const char* n) { return ok(P::enumerator(m, e, n), "the enumeration has its documented names").p; }
// enum values are compared as the C constants they stand for
template<class T>
static uint64_t code(const O& o)
{
    return (uint64_t)(T)pybind11::detail::conv<T>::load(o.p);
}
static pybind11::module_ import()
{
    pybind11::module_ m;
    vp_python_import(m);
    vp_assert(std::string(vp_python_module) == "acquire_zarr", "the module has its name");
    return m;
}
static std::string word(const char* name, unsigned most)
{
    const unsigned n = vp_choose("length", 0, most);
    std::string s(n, 0);
    for (auto& c : s) {
        c = (char)vp_sym(name, 8);
        vp_assume(c != 0);
    }
    return s;
}
static const char* const types[] = { "UINT8", "UINT16", "UINT32", "UINT64", "INT8", "INT16", "INT32", "INT64", "FLOAT32", "FLOAT64" };
static const ZarrDataType type_code[] = { ZarrDataType_uint8, ZarrDataType_uint16, ZarrDataType_uint32, ZarrDataType_uint64, ZarrDataType_int8,
    ZarrDataType_int16, ZarrDataType_int32, ZarrDataType_int64, ZarrDataType_float32, ZarrDataType_float64 };
static const char* const kinds[] = { "SPACE", "CHANNEL", "TIME", "OTHER" };
static const ZarrDimensionType kind_code[] = { ZarrDimensionType_Space, ZarrDimensionType_Channel, ZarrDimensionType_Time, ZarrDimensionType_Other };
static const char* const codecs[] = { "NONE", "BLOSC_LZ4", "BLOSC_ZSTD" };
static const ZarrCompressionCodec codec_code[] = { ZarrCompressionCodec_None, ZarrCompressionCodec_BloscLZ4, ZarrCompressionCodec_BloscZstd };
static const char* const levels[] = { "DEBUG", "INFO", "WARNING", "ERROR", "NONE" };
static const ZarrLogLevel level_code[] = { ZarrLogLevel_Debug, ZarrLogLevel_Info, ZarrLogLevel_Warning, ZarrLogLevel_Error, ZarrLogLevel_None };

// a Python object of a class, its settings given as keywords or one by one
static O build(pybind11::module_& m, const char* cls, const Kw& kw, bool by_keyword)
{
    if (by_keyword) return ok(P::make(m, cls, {}, kw), "settings in range are taken");
    O o = ok(P::make(m, cls), "a class needs no settings");
    for (auto& e : kw) ok(P::set(o, e.first.c_str(), O(e.second)), "settings in range are taken");
    return o;
}
static std::string s_of(const O& o, const char* n)
{
    O v = ok(P::get(o, n), "a setting can be read");
    vp_assert(v.p->kind == pybind11::Kind::Str, "a text is read as a text");
    return v.p->s;
}
static long long i_of(const O& o, const char* n)
{
    O v = ok(P::get(o, n), "a setting can be read");
    vp_assert(v.p->kind == pybind11::Kind::Int, "a number is read as a number");
    return v.p->i;
}
static void same(const std::string& a, const std::string& b, const char* msg)
{
    vp_assert(a.size() == b.size(), msg);
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) vp_assert(a[i] == b[i], msg);
}

// 0: one number, of any 64 bits: taken and read back, or refused
static void numbers(pybind11::module_& m)
{
    static const struct {
        const char *cls, *name;
        long long most;
    } f[] = { { "Dimension", "array_size_px", 0xffffffff }, { "Dimension", "chunk_size_px", 0xffffffff }, { "Dimension", "shard_size_chunks", 0xffffffff },
        { "CompressionSettings", "level", 255 }, { "CompressionSettings", "shuffle", 255 } };
    const auto& x = f[vp_choose("field", 0, 4)];
    const bool keyword = vp_choose("keyword", 0, 1);
    const long long v = (long long)vp_sym("value", 64);
    O o;
    bool raised;
    if (keyword) {
        auto r = P::make(m, x.cls, {}, Kw{ { x.name, I(v) } });
        raised = r.raised;
        o = r;
    } else {
        o = ok(P::make(m, x.cls), "a class needs no settings");
        raised = P::set(o, x.name, O(I(v))).raised;
    }
    vp_assert(raised == !(v >= 0 && v <= x.most), "a number is taken exactly when it fits the setting");
    if (!raised) vp_assert(i_of(o, x.name) == v, "a number is read back as it was given");
    else if (!keyword) vp_assert(i_of(o, x.name) == 0, "a number refused changes nothing");
    for (auto& y : f)
        if (y.cls == x.cls && y.name != x.name && o.p && !(raised && keyword)) vp_assert(i_of(o, y.name) == 0, "the other settings keep their values");
    vp_reach(1);
}
// 1: texts
static void texts(pybind11::module_& m, unsigned most)
{
    static const char* const s3[] = { "endpoint", "bucket_name", "access_key_id", "secret_access_key" };
    const unsigned which = vp_choose("field", 0, 6);
    const bool keyword = vp_choose("keyword", 0, 1);
    const std::string v = word("char", most);
    const char* const cls = which < 4 ? "S3Settings" : which == 4 ? "Dimension" : "StreamSettings";
    const char* const name = which < 4 ? s3[which] : which == 4 ? "name" : which == 5 ? "store_path" : "custom_metadata";
    O o = build(m, cls, Kw{ { name, S(v) } }, keyword);
    same(s_of(o, name), v, "a text is read back as it was given");
    if (which < 4)
        for (auto n : s3)
            if (n != s3[which]) vp_assert(s_of(o, n).empty(), "the other texts stay empty");
    if (which == 5) vp_assert(ok(P::get(o, "custom_metadata"), "a setting can be read").is_none(), "there is no custom metadata unless it is given");
    if (which == 6) {
        vp_assert(s_of(o, "store_path").empty(), "the other texts stay empty");
        ok(P::set(o, "custom_metadata", O(N())), "custom metadata can be taken back");
        vp_assert(ok(P::get(o, "custom_metadata"), "a setting can be read").is_none(), "custom metadata can be taken back");
    }
    vp_assert(P::set(o, name, O(I(3))).raised, "a number is no text");
    vp_reach(1);
}
// 2: every enumeration name stands for its constant; log levels
static void enums(pybind11::module_& m)
{
    for (unsigned i = 0; i < 10; ++i) vp_assert(code<ZarrDataType>(O(E(m, "DataType", types[i]))) == (uint64_t)type_code[i], "a data type is the one it is called");
    for (unsigned i = 0; i < 4; ++i) vp_assert(code<ZarrDimensionType>(O(E(m, "DimensionType", kinds[i]))) == (uint64_t)kind_code[i], "a kind of dimension is the one it is called");
    for (unsigned i = 0; i < 3; ++i) vp_assert(code<ZarrCompressionCodec>(O(E(m, "CompressionCodec", codecs[i]))) == (uint64_t)codec_code[i], "a codec is the one it is called");
    vp_assert(code<ZarrCompressor>(O(E(m, "Compressor", "NONE"))) == ZarrCompressor_None && code<ZarrCompressor>(O(E(m, "Compressor", "BLOSC1"))) == ZarrCompressor_Blosc1, "a compressor is the one it is called");
    vp_assert(code<ZarrVersion>(O(E(m, "ZarrVersion", "V2"))) == ZarrVersion_2 && code<ZarrVersion>(O(E(m, "ZarrVersion", "V3"))) == ZarrVersion_3, "a version is the one it is called");
    for (unsigned i = 0; i < 5; ++i) vp_assert(code<ZarrLogLevel>(O(E(m, "LogLevel", levels[i]))) == (uint64_t)level_code[i], "a log level is the one it is called");
    vp_assert(code<ZarrLogLevel>(ok(P::call(m, "get_log_level"), "the log level can be read")) == ZarrLogLevel_Info, "the level is Info at first");
    const unsigned l = vp_choose("level", 0, 4);
    const bool keyword = vp_choose("keyword", 0, 1);
    ok(keyword ? P::call(m, "set_log_level", {}, Kw{ { "level", E(m, "LogLevel", levels[l]) } }) : P::call(m, "set_log_level", { E(m, "LogLevel", levels[l]) }), "a log level can be set");
    vp_assert(Zarr_get_log_level() == level_code[l], "the level set is the library's");
    vp_assert(code<ZarrLogLevel>(ok(P::call(m, "get_log_level"), "the log level can be read")) == (uint64_t)level_code[l], "the level set is read back");
    seen->level_status = vp_sym("status", 8);
    vp_assume(seen->level_status != 0);
    vp_assert(P::call(m, "set_log_level", { E(m, "LogLevel", "ERROR") }).raised, "a level that cannot be set raises");
    vp_reach(1);
}
struct Want {
    std::string path, metadata, endpoint, bucket, id, key;
    bool has_metadata, has_s3, has_comp, multiscale;
    unsigned type, version, codec, compressor;
    uint8_t level, shuffle;
    std::vector<std::string> names;
    std::vector<unsigned> kind;
    std::vector<uint32_t> array, chunk, shard;
};
static O settings_of(pybind11::module_& m, const Want& w, bool by_keyword, int dims_way)
{
    Kw kw{ { "store_path", S(w.path) }, { "multiscale", B(w.multiscale) }, { "data_type", E(m, "DataType", types[w.type]) }, { "version", E(m, "ZarrVersion", w.version == 2 ? "V2" : "V3") } };
    if (w.has_metadata) kw["custom_metadata"] = S(w.metadata);
    if (w.has_s3)
        kw["s3"] = build(m, "S3Settings", Kw{ { "endpoint", S(w.endpoint) }, { "bucket_name", S(w.bucket) }, { "access_key_id", S(w.id) }, { "secret_access_key", S(w.key) } }, by_keyword).p;
    if (w.has_comp)
        kw["compression"] = build(m, "CompressionSettings",
            Kw{ { "compressor", E(m, "Compressor", w.compressor ? "BLOSC1" : "NONE") }, { "codec", E(m, "CompressionCodec", codecs[w.codec]) }, { "level", I(w.level) }, { "shuffle", I(w.shuffle) } }, by_keyword).p;
    O vec;
    if (dims_way == 0) {
        vec = ok(P::make(m, "VectorDimension"), "a list of dimensions can be made");
    }
    O st;
    auto add = [&](const O& v) {
        for (size_t i = 0; i < w.names.size(); ++i) {
            O d = build(m, "Dimension",
                Kw{ { "name", S(w.names[i]) }, { "kind", E(m, "DimensionType", kinds[w.kind[i]]) }, { "array_size_px", I(w.array[i]) }, { "chunk_size_px", I(w.chunk[i]) }, { "shard_size_chunks", I(w.shard[i]) } }, by_keyword);
            ok(P::call(v, "append", { d.p }), "a dimension can be appended");
        }
    };
    if (dims_way == 0) {
        add(vec);
        kw["dimensions"] = vec.p;
        return build(m, "StreamSettings", kw, by_keyword);
    }
    st = build(m, "StreamSettings", kw, by_keyword);
    add(ok(P::get(st, "dimensions"), "the dimensions can be read"));
    return st;
}
static void as_wanted(const Want& w)
{
    vp_assert(seen->creates == 1, "a stream is created");
    same(seen->path, w.path, "the store path is handed over");
    vp_assert(seen->has_metadata == w.has_metadata, "custom metadata is given exactly when it is set");
    if (w.has_metadata) same(seen->metadata, w.metadata, "custom metadata is handed over");
    vp_assert(seen->has_s3 == w.has_s3, "S3 settings are given exactly when they are set");
    if (w.has_s3) {
        same(seen->endpoint, w.endpoint, "the endpoint is handed over");
        same(seen->bucket, w.bucket, "the bucket is handed over");
        same(seen->id, w.id, "the access key is handed over");
        same(seen->key, w.key, "the secret is handed over");
    }
    vp_assert(seen->has_comp == w.has_comp, "compression is given exactly when it is set");
    if (w.has_comp) {
        vp_assert(seen->comp.compressor == (w.compressor ? ZarrCompressor_Blosc1 : ZarrCompressor_None) && seen->comp.codec == codec_code[w.codec], "compressor and codec are handed over");
        vp_assert(seen->comp.level == w.level && seen->comp.shuffle == w.shuffle, "level and shuffle are handed over");
    }
    vp_assert(seen->s.multiscale == w.multiscale, "the multiscale flag is handed over");
    vp_assert(seen->s.data_type == type_code[w.type], "the data type is handed over");
    vp_assert(seen->s.version == (w.version == 2 ? ZarrVersion_2 : ZarrVersion_3), "the version is handed over");
    vp_assert(seen->dims.size() == w.names.size() && seen->s.dimension_count == w.names.size(), "every dimension is handed over");
    for (size_t i = 0; i < w.names.size() && i < seen->dims.size(); ++i) {
        same(seen->names[i], w.names[i], "a dimension's name is handed over");
        vp_assert(seen->dims[i].type == kind_code[w.kind[i]], "a dimension's kind is handed over");
        vp_assert(seen->dims[i].array_size_px == w.array[i] && seen->dims[i].chunk_size_px == w.chunk[i] && seen->dims[i].shard_size_chunks == w.shard[i], "a dimension's sizes are handed over");
    }
}
static void read_back(const O& st, const Want& w)
{
    same(s_of(st, "store_path"), w.path, "making a stream leaves the settings alone");
    O cm = ok(P::get(st, "custom_metadata"), "a setting can be read"), s3 = ok(P::get(st, "s3"), "a setting can be read"), co = ok(P::get(st, "compression"), "a setting can be read");
    vp_assert(cm.is_none() != w.has_metadata && s3.is_none() != w.has_s3 && co.is_none() != w.has_comp, "what is not set is None");
    if (w.has_metadata) same(s_of(st, "custom_metadata"), w.metadata, "custom metadata is read back");
    if (w.has_s3) {
        same(s_of(s3, "endpoint"), w.endpoint, "the endpoint is read back");
        same(s_of(s3, "bucket_name"), w.bucket, "the bucket is read back");
        same(s_of(s3, "access_key_id"), w.id, "the access key is read back");
        same(s_of(s3, "secret_access_key"), w.key, "the secret is read back");
        ok(P::set(st, "s3", O(N())), "S3 settings can be taken back");
        vp_assert(ok(P::get(st, "s3"), "a setting can be read").is_none(), "S3 settings can be taken back");
    }
    if (w.has_comp) {
        vp_assert(code<ZarrCompressor>(ok(P::get(co, "compressor"), "a setting can be read")) == (uint64_t)(w.compressor ? ZarrCompressor_Blosc1 : ZarrCompressor_None), "the compressor is read back");
        vp_assert(code<ZarrCompressionCodec>(ok(P::get(co, "codec"), "a setting can be read")) == (uint64_t)codec_code[w.codec], "the codec is read back");
        vp_assert(i_of(co, "level") == w.level && i_of(co, "shuffle") == w.shuffle, "level and shuffle are read back");
        ok(P::set(st, "compression", O(N())), "compression can be taken back");
        vp_assert(ok(P::get(st, "compression"), "a setting can be read").is_none(), "compression can be taken back");
    }
    vp_assert((ok(P::get(st, "multiscale"), "a setting can be read").p->i != 0) == w.multiscale, "the multiscale flag is read back");
    vp_assert(code<ZarrDataType>(ok(P::get(st, "data_type"), "a setting can be read")) == (uint64_t)type_code[w.type], "the data type is read back");
    vp_assert(code<ZarrVersion>(ok(P::get(st, "version"), "a setting can be read")) == (uint64_t)(w.version == 2 ? ZarrVersion_2 : ZarrVersion_3), "the version is read back");
    O dims = ok(P::get(st, "dimensions"), "a setting can be read");
    vp_assert((uint64_t)ok(P::call(dims, "__len__"), "dimensions can be counted").p->i == w.names.size(), "every dimension is there");
    for (size_t i = 0; i < w.names.size(); ++i) {
        O d = ok(P::call(dims, "__getitem__", { I(i) }), "a dimension can be read");
        same(s_of(d, "name"), w.names[i], "a dimension's name is read back");
        vp_assert(code<ZarrDimensionType>(ok(P::get(d, "kind"), "a setting can be read")) == (uint64_t)kind_code[w.kind[i]], "a dimension's kind is read back");
        vp_assert(i_of(d, "array_size_px") == w.array[i] && i_of(d, "chunk_size_px") == w.chunk[i] && i_of(d, "shard_size_chunks") == w.shard[i], "a dimension's sizes are read back");
    }
}
// a stream made from settings nobody touched has the documented defaults
static void defaults(pybind11::module_& m)
{
    seen->stub = true;
    const bool none = vp_choose("none", 0, 1);
    O st = build(m, "StreamSettings", none ? Kw{ { "s3", N() }, { "compression", N() }, { "custom_metadata", N() } } : Kw{}, vp_choose("keyword", 0, 1));
    Want w{};
    w.version = 2;
    read_back(st, w);
    vp_assert(!P::make(m, "ZarrStream", { st.p }).raised, "a stream is made");
    as_wanted(w);
    O d = ok(P::make(m, "Dimension"), "a class needs no settings"), s3 = ok(P::make(m, "S3Settings"), "a class needs no settings"), c = ok(P::make(m, "CompressionSettings"), "a class needs no settings");
    vp_assert(s_of(d, "name").empty() && code<ZarrDimensionType>(ok(P::get(d, "kind"), "a setting can be read")) == ZarrDimensionType_Space, "a dimension is a nameless spatial one at first");
    vp_assert(i_of(d, "array_size_px") == 0 && i_of(d, "chunk_size_px") == 0 && i_of(d, "shard_size_chunks") == 0, "a dimension's sizes are zero at first");
    for (auto n : { "endpoint", "bucket_name", "access_key_id", "secret_access_key" }) vp_assert(s_of(s3, n).empty(), "S3 settings are empty at first");
    vp_assert(code<ZarrCompressor>(ok(P::get(c, "compressor"), "a setting can be read")) == ZarrCompressor_None && code<ZarrCompressionCodec>(ok(P::get(c, "codec"), "a setting can be read")) == ZarrCompressionCodec_None && i_of(c, "level") == 0 && i_of(c, "shuffle") == 0, "nothing is compressed at first");
    vp_reach(1);
}
// 3: whatever the settings are, the library is given them
static void handed(pybind11::module_& m, unsigned nd, unsigned most, unsigned group)
{
    seen->stub = true;
    Want w{};
    w.type = 3, w.version = 2, w.multiscale = false;
    w.path = "p";
    const bool keyword = vp_choose("keyword", 0, 1);
    int way = vp_choose("list", 0, 1);
    for (unsigned i = 0; i < nd; ++i) {
        w.names.push_back(group == 0 ? word("name", most) : std::string(1, 'a' + i));
        w.kind.push_back(group == 0 ? vp_choose("kind", 0, 3) : i % 4);
        w.array.push_back((uint32_t)vp_sym("array", 32));
        w.chunk.push_back((uint32_t)vp_sym("chunk", 32));
        w.shard.push_back((uint32_t)vp_sym("shard", 32));
    }
    if (group == 1) {
        w.path = word("path", most);
        w.has_metadata = vp_choose("metadata", 0, 1);
        if (w.has_metadata) w.metadata = word("metadata", most);
        w.multiscale = vp_choose("multiscale", 0, 1);
        w.type = vp_choose("type", 0, 9);
        w.version = vp_choose("version", 2, 3);
    }
    if (group == 2) {
        if ((w.has_s3 = vp_choose("s3", 0, 1))) {
            w.endpoint = word("endpoint", most);
            w.bucket = word("bucket", most);
            w.id = word("id", most);
            w.key = word("key", most);
        }
        if ((w.has_comp = vp_choose("compression", 0, 1))) {
            w.compressor = vp_choose("compressor", 0, 1);
            w.codec = vp_choose("codec", 0, 2);
            w.level = (uint8_t)vp_sym("level", 8);
            w.shuffle = (uint8_t)vp_sym("shuffle", 8);
        }
    }
    seen->refuse = vp_choose("refused", 0, 1);
    {
        O st = settings_of(m, w, keyword, way);
        auto r = P::make(m, "ZarrStream", { st.p });
        as_wanted(w);
        vp_assert(r.raised == seen->refuse, "making a stream raises exactly when the library refuses the settings");
        if (!r.raised) {
            vp_assert(ok(P::call(r, "is_active"), "a stream says whether it is active").p->i == 1, "a stream that was made is active");
            vp_assert(seen->destroys == 0, "a stream in use is not finished");
        } else vp_assert(r.error == "RuntimeError", "a failure is a RuntimeError");
        // the settings are still what they were
        read_back(st, w);
    }
    vp_assert(seen->destroys == (seen->refuse ? 0 : 1), "the stream is finished exactly once, when the object goes");
    vp_reach(1);
}
// 4: a secret is not shown
static void shown(pybind11::module_& m, unsigned most)
{
    const unsigned n = vp_choose("length", 0, most);
    std::string key(n, 'Z');
    for (unsigned i = 0; i < n && i < 5; ++i) {
        key[i] = (char)vp_sym("char", 8);
        vp_assume(key[i] > ' ' && key[i] < 127 && key[i] != 'Z');
    }
    Want w{};
    w.version = 2;
    w.path = "p";
    w.has_s3 = true;
    w.endpoint = "e", w.bucket = "b", w.id = "i", w.key = key;
    O st = settings_of(m, w, true, 0);
    O s3 = ok(P::get(st, "s3"), "a setting can be read");
    for (auto& o : { s3, st }) {
        O r = ok(P::call(o, "__repr__"), "an object can be shown");
        // (the class name ZarrVersion has the only capital Z)
        uint64_t z = 0;
        for (size_t i = 0; i < r.p->s.size(); ++i) z += r.p->s[i] == 'Z' && r.p->s.compare(i, 4, "Zarr") != 0;
        vp_assert(z == 0, "no more than five characters of a secret are shown");
    }
    same(s_of(s3, "secret_access_key"), key, "a secret is read back as it was given");
    vp_reach(1);
}
static pybind11::Ref array_over(unsigned char* at, unsigned itemsize, std::vector<ssize_t> shape, std::vector<ssize_t> strides)
{
    auto r = std::make_shared<pybind11::Cell>(pybind11::Kind::Array);
    r->data = at;
    r->itemsize = itemsize;
    r->shape = std::move(shape);
    r->strides = std::move(strides);
    return r;
}
// a view of a buffer: an extent and a stride for each axis, in elements, in any
// order, backwards, with gaps or repeating; and the bytes it stands for
static pybind11::Ref view(unsigned axes, unsigned extent, int reach, unsigned itemsize, std::vector<unsigned char>& logical, unsigned char*& buffer, uint64_t& size)
{
    std::vector<ssize_t> shape, strides;
    ssize_t low = 0, high = 0;
    for (unsigned k = 0; k < axes; ++k) {
        const ssize_t e = vp_choose("extent", 1, extent);
        const ssize_t s = ((ssize_t)vp_choose("stride", 0, 2 * reach) - reach) * (ssize_t)itemsize;
        shape.push_back(e);
        strides.push_back(s);
        (s < 0 ? low : high) += (e - 1) * s;
    }
    size = high - low + itemsize;
    buffer = sym_bytes("px", size);
    std::vector<ssize_t> at(axes, 0);
    for (;;) {
        const unsigned char* p = buffer - low;
        for (unsigned k = 0; k < axes; ++k) p += at[k] * strides[k];
        logical.insert(logical.end(), p, p + itemsize);
        unsigned k = axes;
        while (k-- > 0) {
            if (++at[k] < shape[k]) break;
            at[k] = 0;
        }
        if (k == ~0u) break;
    }
    return array_over(buffer - low, itemsize, shape, strides);
}
// 5: what the library is given is the logical contents of the array
static void appended(pybind11::module_& m, unsigned axes, unsigned extent, int reach, unsigned itemsize, bool fail)
{
    seen->stub = true;
    Want w{};
    w.version = 2;
    w.path = "p";
    O st = settings_of(m, w, true, 0);
    auto r = P::make(m, "ZarrStream", { st.p });
    ok(r, "a stream is made");
    std::vector<unsigned char> logical;
    unsigned char* buffer;
    uint64_t size;
    auto a = view(axes, extent, reach, itemsize, logical, buffer, size);
    if (fail) {
        seen->status = vp_sym("status", 32);
        seen->taken = vp_choose("taken", 0, logical.size());
    }
    auto v = P::call(r, "append", { a });
    if (!fail) {
        vp_assert(!v.raised, "an array can be appended");
        vp_assert(seen->bytes.size() == logical.size(), "as many bytes are appended as the array has");
        for (size_t i = 0; i < logical.size() && i < seen->bytes.size(); ++i) vp_assert(seen->bytes[i] == logical[i], "the bytes appended are the array's elements in row-major order");
    } else {
        vp_assert(v.raised || (seen->status == ZarrStatusCode_Success && seen->taken >= logical.size()), "an array that was not appended whole raises");
        vp_assert(!v.raised || seen->status != ZarrStatusCode_Success || seen->taken < logical.size(), "an array appended whole raises nothing");
    }
    free(buffer);
    vp_reach(1);
}
// 6: a store written from Python is the one written from C
static void stored(pybind11::module_& m)
{
    Geo g;
    g.version = (ZarrVersion)vp_arg(1);
    g.nd = 3;
    g.dtype = ZarrDataType_uint8;
    const bool multiscale = vp_arg(2) & 1;
    const uint64_t slots = g.version == ZarrVersion_3 && !multiscale ? 2 : 1;
    for (unsigned i = 0; i < 3; ++i) {
        static const uint32_t array[] = { 0, 2, 3 }, chunk[] = { 2, 1, 2 }, shard[] = { 1, 2, 1 };
        g.arr[i] = array[i], g.chunk[i] = chunk[i], g.shard[i] = g.version == ZarrVersion_2 ? 0 : multiscale ? 1 : shard[i];
    }
    default_types(g);
    const uint64_t fb = g.frame_bytes(), frames = 3;
    const bool s3 = vp_arg(2) & 2, comp = vp_arg(2) & 4;
    unsigned char* px = sym_bytes("px", frames * fb);
    // Python: the frames are a transposed view
    Want w{};
    w.path = s3 ? "p" : "/w/p";
    w.version = g.version == ZarrVersion_2 ? 2 : 3;
    w.multiscale = multiscale;
    w.has_metadata = true;
    w.metadata = "{\"a\":1}";
    if ((w.has_s3 = s3)) {
        w.endpoint = "http://e", w.bucket = "bucket", w.id = "i", w.key = "k";
    }
    if ((w.has_comp = comp)) w.compressor = 1, w.codec = 1, w.level = 3, w.shuffle = 2;
    Settings cs(g, s3 ? "c" : "/w/c");
    for (unsigned i = 0; i < g.nd; ++i) {
        w.names.push_back(cs.d[i].name);
        for (unsigned k = 0; k < 4; ++k)
            if (kind_code[k] == cs.d[i].type) w.kind.push_back(k);
        w.array.push_back(g.arr[i]), w.chunk.push_back(g.chunk[i]), w.shard.push_back(g.shard[i]);
    }
    {
        O st = settings_of(m, w, true, 1);
        auto r = P::make(m, "ZarrStream", { st.p });
        ok(r, "a stream is made");
        // columns first in memory
        unsigned char* t = (unsigned char*)malloc(frames * fb);
        const unsigned h = g.arr[1], c = g.arr[2];
        for (unsigned f = 0; f < frames; ++f)
            for (unsigned y = 0; y < h; ++y)
                for (unsigned x = 0; x < c; ++x) t[(f * c + x) * h + y] = px[f * fb + y * c + x];
        ok(P::call(r, "append", { array_over(t, 1, { (ssize_t)frames, (ssize_t)h, (ssize_t)c }, { (ssize_t)fb, 1, (ssize_t)h }) }), "an array can be appended");
        free(t);
        vp_assert(seen->destroys == 0, "a stream in use is not finished");
    }
    vp_assert(seen->destroys == 1, "the stream is finished when the object goes");
    cs.s.multiscale = multiscale;
    cs.s.custom_metadata = "{\"a\":1}";
    if (comp) {
        cs.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscLZ4, 3, 2 };
        cs.s.compression_settings = &cs.comp;
    }
    if (s3) {
        cs.s3 = { "http://e", "bucket", "i", "k" };
        cs.s.s3_settings = &cs.s3;
    }
    ZarrStream* s = create(cs);
    vp_assert(s != nullptr, "a valid stream is created");
    append_all(s, px, frames * fb);
    ZarrStream_destroy(s);
    if (s3) same_store(objects_of("p"), objects_of("c"), slots);
    else same_store(files_of("/w/p"), files_of("/w/c"), slots);
    vp_assert((s3 ? objects_of("p") : files_of("/w/p")).size() > 2, "there is something in the store");
    free(px);
    vp_reach(1);
}
extern "C" void harness()
{
    world();
    vps3::reset();
    vps3::buckets.push_back("bucket");
    seen = new Seen;
    pybind11::module_ m = import();
    switch (vp_arg(0)) {
        case 0: numbers(m); break;
        case 1: texts(m, vp_arg(1)); break;
        case 2: enums(m); break;
        case 3: handed(m, vp_arg(1), vp_arg(2), vp_arg(3)); break;
        case 4: shown(m, vp_arg(1)); break;
        case 5: appended(m, vp_arg(1), vp_arg(2), (int)vp_arg(3), vp_arg(4), vp_arg(5)); break;
        case 6: stored(m); break;
        case 7: defaults(m); break;
    }
    delete seen;
}
