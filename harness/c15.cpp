// Data sinks: one per position, row-major, at the path of the position.
#include <sinks.h>
using namespace h;
static const char* const bases[] = { "/w/a", "file:///w/a", "/w/deep/er/a", "rel/a", "/w/a.zarr", "", "file://" };
// args: dimensions, most parts of the inner, the height and the width dimension, least parts, last base, S3
extern "C" void harness()
{
    world();
    vpenv::add_dir("rel");
    const unsigned nd = vp_arg(0);
    const bool s3 = vp_arg(6);
    auto dims = lattice_dims(nd);
    uint64_t parts[8] = { 77 }, total = 1;
    for (unsigned i = 1; i < nd; ++i) {
        parts[i] = vp_choose("parts", vp_arg(4), vp_arg(i + 2 < nd ? 1 : i + 2 == nd ? 2 : 3));
        total *= parts[i];
    }
    const char* given = bases[vp_choose("base", 0, vp_arg(5))];
    std::string base = given;
    if (base.rfind("file://", 0) == 0 && !s3) base = base.substr(7);
    auto fn = [&](const ZarrDimension& d) -> size_t { return parts[dim_no(d)]; };
    unsigned told = 0;
    auto pool = std::make_shared<zarr::ThreadPool>(2, [&](const std::string&) { ++told; });
    std::shared_ptr<zarr::S3ConnectionPool> conns;
    if (s3) {
        vps3::buckets.push_back("bucket");
        conns = std::make_shared<zarr::S3ConnectionPool>(1, "http://s3", "id", "key");
    }
    // the place may be in use already
    const bool dir = !s3 && total && !base.empty() && vp_choose("directory_there", 0, 1);
    const bool old = dir && vp_choose("file_there", 0, 1);
    if (dir) {
        std::string p = base;
        bool ok = vpenv::make_dirs(p.data(), p.size()) < 2;
        for (unsigned i = 1; i + 1 < nd; ++i) {
            p += "/0";
            ok = ok && vpenv::make_dirs(p.data(), p.size()) < 2;
        }
        vp_assert(ok, "(setting up)");
        if (old) {
            vpenv::Node* f = vpenv::add_file(p + "/0");
            unsigned char* junk = (unsigned char*)malloc(3);
            memset(junk, 0xee, 3);
            vpenv::write_record(f, 0, junk, 3);
        }
    }
    std::vector<std::unique_ptr<zarr::Sink>> sinks;
    if (vp_choose("used_vector", 0, 1)) sinks.resize(2);
    bool ok = false;
    {
        zarr::SinkCreator creator(pool, conns);
        try {
            ok = s3 ? creator.make_data_sinks("bucket", given, dims.get(), fn, sinks) : creator.make_data_sinks(given, dims.get(), fn, sinks);
        } catch (const std::exception&) {
            ok = false;
        }
    }
    if (base.empty() || !total) {
        vp_assert(!ok, "an empty base path or a dimension without parts is an error");
        if (base.empty()) vp_assert(vpenv::files_created == 0, "nothing is created under an empty base path");
        vp_reach(2);
        return;
    }
    vp_assert(ok, "creating the sinks succeeds");
    vp_assert(sinks.size() == total, "there is one sink per position");
    const uint64_t n0 = vpenv::files_created;
    unsigned char* px = sym_bytes("byte", total);
    for (uint64_t i = 0; i < total; ++i) {
        vp_assert(sinks[i] != nullptr, "every position has its sink");
        vp_assert(sinks[i]->write(0, std::span<const std::byte>((const std::byte*)px + i, 1)), "a sink can be written");
    }
    for (uint64_t i = 0; i < total; ++i) vp_assert(zarr::finalize_sink(std::move(sinks[i])), "a sink can be finalised");
    uint64_t at = 0;
    each(nd - 1, parts + 1, [&](const uint64_t* c) {
        uint64_t cc[8] = {};
        for (unsigned i = 1; i < nd; ++i) cc[i] = c[i - 1];
        const std::string p = join(base, cc, 1, nd);
        if (s3) {
            vps3::Object* o = vps3::find("bucket", p);
            vp_assert(o != nullptr, "the sink's object is named by the position");
            vp_assert(o->data.size() == 1 && (unsigned char)o->data[0] == px[at], "the sinks are in row-major order");
        } else {
            vpenv::Node* f = file(p);
            vp_assert(f != nullptr, "the sink's file is named by the position");
            vp_assert(f->size == 1 && vpenv::byte_at(f, 0) == px[at], "the sinks are in row-major order");
        }
        ++at;
    });
    vp_assert(at == total, "(all positions)");
    if (s3) vp_assert(vps3::objects.size() == total && vpenv::files_created == 0, "there is nothing else");
    else vp_assert(files_below(base) == total && n0 == total, "there is nothing else");
    vp_assert(told == 0, "no failure is reported to the error handler");
    vp_reach(1);
    free(px);
}
