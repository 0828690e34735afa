// A stream replaces the store in its place and touches nothing else.
#include <compare.h>
using namespace h;
// args: version, bits (1 multiscale, 2 compressed, 4 S3), what may fail, how often, frames, symbolic bytes in the path
struct Seen
{
    std::string path, data;
    bool dir;
    unsigned perm;
};
static bool inside(const std::string& path, const std::string& root)
{
    return path == root || (path.size() > root.size() && path.compare(0, root.size(), root) == 0 && path[root.size()] == '/');
}
static void put(const std::string& path, unsigned v)
{
    vpenv::Node* n = vpenv::add_file(path);
    char b[3] = { (char)v, (char)vp_sym("old", 8), 'x' };
    const int hd = vpenv::open_file(path.data(), path.size(), vpenv::O_write);
    vpenv::write_at(hd, 0, b, 3);
    vpenv::close_file(hd);
    (void)n;
}
extern "C" void harness()
{
    world();
    vps3::reset();
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.arr[1] = g.arr[2] = 3;
    for (unsigned i = 0; i < 3; ++i) {
        g.chunk[i] = i ? 2 : 1;
        g.shard[i] = g.version == ZarrVersion_3 ? 2 : 1;
    }
    default_types(g);
    Settings s(g);
    const unsigned bits = vp_arg(1);
    s.s.multiscale = bits & 1;
    if (bits & 2) {
        s.comp = { ZarrCompressor_Blosc1, ZarrCompressionCodec_BloscZstd, 1, 2 };
        s.s.compression_settings = &s.comp;
    }
    // neighbours with names like the store's
    static const char* const dirs[] = { "/w/s2", "/w/s.zarr", "/w/s2/0", "/w/t", "/w/t/s", "/data", "/meta", "/0", "/w/0", "/w/data", "/w/data/root", "/w/meta" };
    static const char* const files[] = { "/w/s2/0/0", "/w/s.zarr/.zgroup", "/w/.zgroup", "/w/.zattrs", "/w/zarr.json", "/w/acquire.json", "/w/t/s/0", "/w/0/.zarray", "/w/meta/acquire.json", "/w/data/root/c0", "/zarr.json", "/0/.zattrs" };
    for (const char* d : dirs) vpenv::add_dir(d);
    unsigned v = 0;
    for (const char* f : files) put(f, ++v);
    // what is in the place
    const unsigned was = vp_choose("was", 0, 3);
    if (was == 1 || was == 3) vpenv::add_dir("/w/s");
    if (was == 2) put("/w/s", 99);
    if (was == 3) {
        for (const char* d : { "/w/s/0", "/w/s/0/0", "/w/s/data", "/w/s/data/root", "/w/s/data/root/0", "/w/s/old" }) vpenv::add_dir(d);
        for (const char* f : { "/w/s/0/0/9", "/w/s/.zgroup", "/w/s/zarr.json", "/w/s/0/.zarray", "/w/s/data/root/0/c9", "/w/s/old/file", "/w/s/acquire.json" }) put(f, ++v);
    }
    // the same in the object store
    vps3::buckets.push_back("bucket");
    vps3::buckets.push_back("bucket2");
    static const char* const keys[] = { "s2/.zgroup", "s.zarr/zarr.json", ".zgroup", "0/.zarray", "zarr.json", "meta/acquire.json", "t/s/0" };
    for (const char* b : { "bucket", "bucket2" })
        for (const char* k : keys) vps3::objects.push_back(new vps3::Object{ b, k, "old", 1, 0 });
    vps3::objects.push_back(new vps3::Object{ "bucket2", "s/.zgroup", "old", 1, 0 });
    const size_t old_objects = vps3::objects.size();
    // the store, named in different ways
    static const char* const names[] = { "/w/s", "/w/s \t", "/w//s", "/w/s/" };
    s.s.store_path = bits & 4 ? "s" : names[vp_choose("name", 0, was == 1 || was == 3 ? 3 : 2)];
    if (bits & 4) {
        s.s3 = { "http://s3", "bucket", "id", "key" };
        s.s.s3_settings = &s.s3;
    }
    std::vector<Seen> before;
    for (auto* n : vpenv::nodes)
        if ((bits & 4) || !inside(n->path, "/w/s")) before.push_back({ n->path, n->dir ? "" : vpenv::content(n), n->dir, n->perm });
    vpenv::fault_mask = vp_arg(2);
    vpenv::fault_budget = vp_arg(3);
    const uint64_t frames = vp_arg(4), nb = g.frame_bytes() * frames;
    unsigned char* px = sym_bytes("px", nb);
    ZarrStream* st = ZarrStream_create(&s.s);
    bool ok = st != nullptr;
    size_t out = 0;
    if (st) ok = ZarrStream_append(st, px, nb, &out) == ZarrStatusCode_Success;
    ZarrStream_destroy(st);
    vpenv::fault_mask = 0;
    vp_assert(ok || vpenv::faults_hit, "the stream succeeds if nothing fails");
    size_t outside = 0;
    for (auto* n : vpenv::nodes)
        if ((bits & 4) || !inside(n->path, "/w/s")) ++outside;
    vp_assert(outside == before.size(), "nothing is added or removed outside the store");
    for (auto& b : before) {
        vpenv::Node* n = vpenv::find(b.path);
        if (b.path.empty()) continue; // the working directory itself
        vp_assert(n && n->dir == b.dir && n->perm == b.perm, "what was outside the store is still there");
        if (b.dir) continue;
        vp_assert(n->size == b.data.size(), "files outside the store keep their size");
        for (size_t i = 0; i < b.data.size(); ++i) vp_assert(vpenv::byte_at(n, i) == (unsigned char)b.data[i], "files outside the store keep their contents");
    }
    size_t kept = 0;
    for (auto* o : vps3::objects) {
        if (o->bucket == "bucket" && inside(o->key, "s")) {
            vp_assert(bits & 4, "nothing goes to the object store unasked");
            continue;
        }
        ++kept;
        vp_assert(o->data == "old" && o->puts == 1 && o->completes == 0, "objects outside the store are left alone");
    }
    vp_assert(kept == old_objects, "no object is added or removed outside the store");
    if (!(bits & 4) && ok && !vpenv::faults_hit) { // only the new store is in the place
        const Contents now = files_of("/w/s");
        for (const char* f : { "0/0/9", "data/root/0/c9", "old/file" }) vp_assert(now.count(f) == 0, "the store that was in the place is gone");
        vp_assert(now.count(g.version == 2 ? "zarr.json" : ".zgroup") == 0, "the store that was in the place is gone");
        vp_assert(vpenv::find("/w/s/old") == nullptr, "the store that was in the place is gone");
        for (auto& x : now) vp_assert(x.second.size() != 3 || x.second[2] != 'x', "no old file is in the store");
        vp_reach(2);
    }
    free(px);
    vp_reach(1);
}
