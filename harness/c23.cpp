// The C API: arguments, statuses, no exceptions.
#include <new>
#include <stream.h>
#include <vps3.hpp>
using namespace h;
// args: group, ...
#define CALL(...)                                                                                                     \
    [&] {                                                                                                             \
        try {                                                                                                         \
            return __VA_ARGS__;                                                                                       \
        } catch (...) {                                                                                               \
            vp_assert(false, "no exception leaves the C API");                                                        \
            throw;                                                                                                    \
        }                                                                                                             \
    }()
template<typename E>
static E as(uint32_t v)
{
    E e;
    static_assert(sizeof e == sizeof v);
    memcpy(&e, &v, sizeof v);
    return e;
}
static bool same(const char* a, const char* b) { return strcmp(a, b) == 0; }
static void messages()
{
    const char* known[10];
    for (uint32_t i = 0; i < 10; ++i) {
        known[i] = CALL(Zarr_get_status_message(as<ZarrStatusCode>(i)));
        vp_assert(known[i] && *known[i], "every status code has a message");
        for (uint32_t j = 0; j < i; ++j) vp_assert(!same(known[i], known[j]), "every status code has a message of its own");
    }
    vp_assert(ZarrStatusCodeCount == 10, "there are ten status codes");
    const uint32_t c = (uint32_t)vp_sym("code", 32);
    const char* m = CALL(Zarr_get_status_message(as<ZarrStatusCode>(c)));
    vp_assert(m && *m, "every code has a message");
    if (c >= 10) {
        for (uint32_t j = 0; j < 10; ++j) vp_assert(!same(m, known[j]), "other codes do not have the message of a status code");
        vp_assert(same(m, "Unknown error"), "other codes are unknown");
        vp_reach(2);
    }
    const char* v = CALL(Zarr_get_api_version());
    vp_assert(v && *v, "the API has a version");
}
static void levels(unsigned n)
{
    uint32_t last = (uint32_t)CALL(Zarr_get_log_level());
    vp_assert(last == ZarrLogLevel_Info, "the log level is info in the beginning");
    for (unsigned i = 0; i < n; ++i) {
        const uint32_t l = (uint32_t)vp_sym("level", 32);
        const ZarrStatusCode r = CALL(Zarr_set_log_level(as<ZarrLogLevel>(l)));
        const bool ok = l <= 4; // debug, info, warning, error, none
        vp_assert(r == (ok ? ZarrStatusCode_Success : ZarrStatusCode_InvalidArgument), "exactly the five log levels are accepted, others are invalid arguments");
        const uint32_t now = (uint32_t)CALL(Zarr_get_log_level());
        if (ok) {
            vp_assert(now == l, "the log level is the one that was set");
            last = l;
            vp_reach(2);
        } else {
            vp_assert(now == last, "a refused log level leaves the level as it was");
            vp_reach(3);
        }
    }
    CALL(Zarr_set_log_level(ZarrLogLevel_Info));
}
static void dimension_arrays(unsigned ops)
{
    ZarrStreamSettings s;
    unsigned char raw[sizeof s];
    for (unsigned i = 0; i < sizeof s; ++i) raw[i] = (unsigned char)vp_sym("field", 8);
    memcpy(&s, raw, sizeof s);
    s.dimensions = nullptr;
    s.dimension_count = vp_sym("count", 8); // stale
    memcpy(raw, &s, sizeof s);
    // the padding aside, nothing but the two members may change
    const auto untouched = [&] {
        ZarrStreamSettings o;
        memcpy(&o, raw, sizeof o);
        vp_assert(o.store_path == s.store_path && o.custom_metadata == s.custom_metadata && o.s3_settings == s.s3_settings &&
                    o.compression_settings == s.compression_settings && memcmp(&o.data_type, &s.data_type, sizeof s.data_type) == 0 &&
                    memcmp(&o.version, &s.version, sizeof s.version) == 0 && memcmp(&o.multiscale, &s.multiscale, 1) == 0,
                  "other settings are not touched");
    };
    vp_leak_mark();
    uint64_t have = 0;
    for (unsigned k = 0; k < ops; ++k) {
        const unsigned op = vp_choose("op", 0, 3);
        ZarrDimensionProperties* const old = s.dimensions;
        const uint64_t old_count = s.dimension_count;
        if (op == 0) {
            CALL(ZarrStreamSettings_destroy_dimension_array(&s));
            vp_assert(s.dimensions == nullptr && s.dimension_count == 0, "destroying the dimension array resets it");
            have = 0;
        } else if (op == 1) { // any count that is too small, or too large for any machine
            const uint64_t n = vp_sym("count", 64);
            vp_assume(n < 3 || n >= (uint64_t)1 << 45);
            const ZarrStatusCode r = CALL(ZarrStreamSettings_create_dimension_array(&s, n));
            if (n < 3) vp_assert(r == ZarrStatusCode_InvalidArgument, "fewer than three dimensions are an invalid argument");
            else {
                vp_assert(r == ZarrStatusCode_OutOfMemory, "an array that cannot be allocated is reported so");
                vp_reach(4);
            }
            vp_assert(s.dimensions == old && s.dimension_count == old_count, "the dimension array is left alone on failure");
            vp_reach(2);
        } else if (op == 2) {
            const ZarrStatusCode r = CALL(ZarrStreamSettings_create_dimension_array(nullptr, vp_sym("count", 64)));
            vp_assert(r == ZarrStatusCode_InvalidArgument, "null settings are an invalid argument");
            CALL(ZarrStreamSettings_destroy_dimension_array(nullptr));
            vp_assert(s.dimensions == old && s.dimension_count == old_count, "the dimension array is left alone");
        } else {
            const uint64_t n = vp_choose("size", 3, 5);
            const ZarrStatusCode r = CALL(ZarrStreamSettings_create_dimension_array(&s, n));
            vp_assert(r == ZarrStatusCode_Success, "a dimension array can be made for any count of at least three");
            vp_assert(s.dimensions != nullptr && s.dimension_count == n, "the settings hold the new array and its size");
            have = n;
            for (uint64_t i = 0; i < n; ++i) {
                s.dimensions[i].name = "d";
                s.dimensions[i].type = ZarrDimensionType_Space;
                s.dimensions[i].array_size_px = (uint32_t)(7 * n + i);
                s.dimensions[i].chunk_size_px = 1;
                s.dimensions[i].shard_size_chunks = 1;
            }
            vp_reach(3);
        }
        untouched();
        for (uint64_t i = 0; i < have; ++i) vp_assert(s.dimensions[i].array_size_px == 7 * have + i, "the elements of the array are kept");
    }
    CALL(ZarrStreamSettings_destroy_dimension_array(&s));
    vp_assert(s.dimensions == nullptr && s.dimension_count == 0, "destroying the dimension array resets it");
    CALL(ZarrStreamSettings_destroy_dimension_array(&s));
    vp_leak_check(); // arrays that were replaced have been released, too
}
static void appending(uint64_t version)
{
    vp_assert(CALL(ZarrStream_create(nullptr)) == nullptr, "there is no stream without settings");
    CALL(ZarrStream_destroy(nullptr));
    Geo g;
    g.version = (ZarrVersion)version;
    g.arr[0] = 0, g.arr[1] = 2, g.arr[2] = 2;
    for (unsigned i = 0; i < 3; ++i) g.chunk[i] = i ? 2 : 1, g.shard[i] = 1;
    default_types(g);
    Settings S(g);
    ZarrStream* st = CALL(ZarrStream_create(&S.s));
    vp_assert(st, "valid settings are accepted");
    unsigned char* px = sym_bytes("px", 8);
    uint64_t stored = 0;
    for (unsigned k = 0; k < 3; ++k) {
        const unsigned null = vp_choose("null", 0, 8); // which arguments are null
        const uint64_t n = (null & 7) ? vp_sym("bytes", 64) : null == 8 ? 0 : 4;
        const uint64_t before = vp_sym("out", 64);
        size_t out = before;
        const ZarrStatusCode r = CALL(ZarrStream_append(null & 1 ? nullptr : st, null & 2 ? nullptr : px, n, null & 4 ? nullptr : &out));
        if (null & 7) {
            vp_assert(r == ZarrStatusCode_InvalidArgument, "null pointers are invalid arguments");
            vp_assert(out == before, "an append with invalid arguments does not touch the others");
            vp_reach(2);
        } else {
            vp_assert(r == ZarrStatusCode_Success && out == n, "the bytes appended are reported");
            stored += n;
        }
    }
    CALL(ZarrStream_destroy(st));
    for (uint64_t f = 0; f < 3; ++f) {
        const auto* c = file((version == 2 ? "/w/s/0/" : "/w/s/data/root/0/c") + num(f) + "/0/0");
        vp_assert((c != nullptr) == (f < stored / 4), "refused appends store nothing");
        for (unsigned i = 0; c && i < 4; ++i) vp_assert(vpenv::byte_at(c, i) == px[i], "refused appends change nothing");
    }
    free(px);
}
// whatever goes wrong outside, the API answers with a status
static void failing(uint64_t version, bool s3, bool multi, bool comp, unsigned mask, unsigned budget)
{
    Geo g;
    g.version = (ZarrVersion)version;
    g.arr[0] = 0, g.arr[1] = 2, g.arr[2] = 2;
    for (unsigned i = 0; i < 3; ++i) g.chunk[i] = i ? 2 : 1, g.shard[i] = i ? 1 : 2;
    default_types(g);
    Settings S(g);
    S.s.multiscale = multi;
    if (comp) {
        S.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscLZ4, 1, 1 };
        S.s.compression_settings = &S.comp;
    }
    if (s3) {
        vps3::reset();
        vps3::buckets.push_back("bucket");
        S.s3 = { "http://s3", "bucket", "id", "key" };
        S.s.s3_settings = &S.s3;
        S.s.store_path = "s";
    }
    vpenv::direct_limit = 1;
    vpenv::fault_mask = mask;
    vpenv::fault_budget = budget;
    ZarrStream* st = CALL(ZarrStream_create(&S.s));
    if (!st) {
        vp_assert(vpenv::faults_hit > 0, "valid settings are accepted when nothing fails");
        vp_reach(2);
    } else {
        unsigned char px[12];
        for (unsigned i = 0; i < 12; ++i) px[i] = i;
        // a part of a frame, and the rest and some, all that is left, or nothing
        const uint64_t cut[3][4] = { { 0, 4, 8, 12 }, { 0, 3, 12, 12 }, { 0, 12, 12, 12 } };
        const auto* at = cut[vp_choose("cut", 0, 2)];
        for (unsigned f = 0; f < 3; ++f) {
            size_t out = 99;
            const uint64_t n = at[f + 1] - at[f];
            const ZarrStatusCode r = CALL(ZarrStream_append(st, px + at[f], n, &out));
            vp_assert(r == ZarrStatusCode_Success || r == ZarrStatusCode_InternalError, "an append succeeds or reports an internal error");
            vp_assert(r == ZarrStatusCode_Success || vpenv::faults_hit > 0, "nothing is reported when nothing fails");
            vp_assert(r != ZarrStatusCode_Success || out == n, "the bytes appended are reported");
            if (r != ZarrStatusCode_Success) vp_reach(3);
        }
    }
    CALL(ZarrStream_destroy(st));
    vpenv::fault_mask = 0;
}
extern "C" void harness()
{
    world();
    switch (vp_arg(0)) {
        case 0: messages(); break;
        case 1: levels(vp_arg(1)); break;
        case 2: dimension_arrays(vp_arg(1)); break;
        case 3: appending(vp_arg(1)); break;
        case 4: failing(vp_arg(1), vp_arg(2), vp_arg(3), vp_arg(4), vp_arg(5), vp_arg(6)); break;
    }
    vp_reach(1);
}
