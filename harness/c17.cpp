// Exactly the valid settings are accepted, and rejecting others has no effect.
#include <nlohmann/json.hpp>
#include <stream.h>
#include <vps3.hpp>
using namespace h;
static Settings* S;
static bool s3;
static void use_s3()
{
    s3 = true;
    vps3::buckets.push_back("bucket");
    S->s3.endpoint = "http://s3";
    S->s3.bucket_name = "bucket";
    S->s3.access_key_id = "id";
    S->s3.secret_access_key = "key";
    S->s.s3_settings = &S->s3;
    S->s.store_path = "s";
}
// create the stream: it must be there exactly if the settings are valid
static ZarrStream* check(bool valid)
{
    const uint64_t nodes = vpenv::nodes.size();
    const unsigned fc = vpenv::files_created, dc = vpenv::dirs_created, rm = vpenv::removals;
    ZarrStream* st = ZarrStream_create(S ? &S->s : nullptr);
    if (st) {
        vp_assert(valid, "invalid settings are rejected");
        ZarrStream_destroy(st);
        vp_reach(1);
    } else {
        vp_assert(!valid, "valid settings are accepted");
        vp_assert(vpenv::nodes.size() == nodes && vpenv::files_created == fc && vpenv::dirs_created == dc && vpenv::removals == rm,
                  "rejected settings leave the file system as it was");
        vp_assert(vps3::requests == 0, "rejected settings cause no request to the object store");
        if (vp_symbolic()) vp_assert(vp_threads() == 1, "rejected settings leave no thread behind");
        vp_reach(2);
    }
    if (vpenv::Node* old = file("/w/s/old")) {
        vp_assert(!st || s3, "what was in the place of a new stream is replaced");
        vp_assert(old->size == 2 && vpenv::byte_at(old, 0) == 7 && vpenv::byte_at(old, 1) == 9, "rejected settings leave the files in the place as they were");
    } else
        vp_assert(st || s3, "rejected settings leave the files in the place");
    return st;
}
static uint32_t sym32(const char* n) { return (uint32_t)vp_sym(n, 32); }
template<typename E>
static void set(E& e, uint32_t v)
{
    static_assert(sizeof e == sizeof v);
    memcpy(&e, &v, sizeof v);
}
static bool blank(unsigned char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\v') | (c == '\f') | (c == '\r'); }
struct Text
{
    const char* p;
    bool ok;
};
static char text_buf[4][4];
// a text field that must not be blank
static Text text(const char* what, unsigned which)
{
    switch (vp_choose(what, 0, 6)) {
    case 0: return { nullptr, false };
    case 1: return { "", false };
    case 2: return { " \t\n\v\f\r ", false };
    case 3: return { "  x ", true };
    case 4: return { ".", true };
    case 5: { // any character
        char* b = text_buf[which];
        b[0] = (char)vp_sym("char", 8);
        b[1] = 0;
        return { b, bool((b[0] != 0) & !blank(b[0])) };
    }
    default: { // any two
        char* b = text_buf[which];
        b[0] = (char)vp_sym("char", 8);
        b[1] = (char)vp_sym("char", 8);
        b[2] = 0;
        return { b, bool((b[0] != 0) & (!blank(b[0]) | ((b[1] != 0) & !blank(b[1])))) };
    }
    }
}
static void ascii(const Text& t) // (names become part of JSON documents, bucket names of addresses)
{
    if (!t.p) return;
    for (const char* c = t.p; c < t.p + 2; ++c) {
        if (t.p != text_buf[0] && t.p != text_buf[1] && t.p != text_buf[2] && t.p != text_buf[3]) return;
        vp_assume((unsigned char)*c < 128);
    }
}
// args: group, version, group's own
extern "C" void harness()
{
    world();
    const int group = vp_arg(0);
    Geo g;
    g.version = (ZarrVersion)vp_arg(1);
    g.nd = group == 2 ? vp_arg(2) : 3;
    for (unsigned i = 0; i < g.nd; ++i) {
        g.arr[i] = i + 2 >= g.nd ? 2 : 1;
        g.chunk[i] = 2;
        g.shard[i] = 1;
    }
    default_types(g);
    Settings s(g);
    S = &s;
    vpenv::add_dir("/w/s");
    {
        unsigned char* old = (unsigned char*)malloc(2);
        old[0] = 7;
        old[1] = 9;
        vpenv::write_record(vpenv::add_file("/w/s/old"), 0, old, 2);
    }
    switch (group) {
    case 0: { // version, pixel type, number of dimensions; null pointers
        const uint32_t v = sym32("version"), t = sym32("type");
        set(s.s.version, v);
        set(s.s.data_type, t);
        s.s.dimension_count = vp_choose("count", 0, 5);
        const bool no_path = vp_choose("no_path", 0, 1), no_dims = vp_choose("no_dimensions", 0, 1);
        if (no_path) s.s.store_path = nullptr;
        if (no_dims) s.s.dimensions = nullptr;
        for (unsigned i = 3; i < 6; ++i) s.d[i] = s.d[2];
        s.s.multiscale = vp_choose("multiscale", 0, 1);
        check((v == 2 | v == 3) & (t < 10) & (s.s.dimension_count >= 3) & !no_path & !no_dims);
        break;
    }
    case 1: { // compression
        const uint32_t c = sym32("compressor"), k = sym32("codec");
        const uint8_t l = (uint8_t)vp_sym("level", 8), f = (uint8_t)vp_sym("shuffle", 8);
        set(s.comp.compressor, c);
        set(s.comp.codec, k);
        s.comp.level = l;
        s.comp.shuffle = f;
        s.s.compression_settings = &s.comp;
        check((c < 2) & (k < 3) & ((c == 0) | (k != 0)) & (l <= 9) & (f <= 2));
        break;
    }
    case 2: { // types and sizes of the dimensions
        bool ok = true;
        for (unsigned i = 0; i < g.nd; ++i) {
            const uint32_t t = sym32("type"), sh = sym32("shard");
            set(s.d[i].type, t);
            ok &= i + 2 >= g.nd ? t == 0 : t < 4;
            const bool here = vp_arg(3) == i;
            s.d[i].array_size_px = i ? (uint32_t)vp_choose("array", here ? 0 : 2, 2) : sym32("array");
            s.d[i].chunk_size_px = (uint32_t)vp_choose("chunk", here ? 0 : 2, 2);
            ok &= (i == 0 || s.d[i].array_size_px != 0) && s.d[i].chunk_size_px != 0;
            // the shard size means nothing in version 2
            s.d[i].shard_size_chunks = g.version == ZarrVersion_2 ? sh : (uint32_t)vp_choose("shard", here ? 0 : 1, 2);
            if (g.version == ZarrVersion_3) ok &= s.d[i].shard_size_chunks != 0;
        }
        check(ok);
        break;
    }
    case 3: { // names
        const unsigned i = vp_arg(2);
        Text t = text("name", 0);
        ascii(t);
        s.d[i].name = t.p;
        check(t.ok);
        break;
    }
    case 4: { // S3: text fields
        use_s3();
        const unsigned i = vp_arg(2);
        Text t = text("field", 0);
        ascii(t);
        (i == 0 ? s.s3.endpoint : i == 1 ? s.s3.access_key_id : s.s3.secret_access_key) = t.p;
        vpenv::Node* old = file("/w/s/old");
        vp_assert(old != nullptr, "(there)");
        check(t.ok);
        break;
    }
    case 5: { // S3: bucket name of every length, blanks around it
        use_s3();
        const unsigned n = vp_choose("length", 0, vp_arg(2)), before = vp_choose("before", 0, 1), after = vp_choose("after", 0, 2);
        std::string name(n, 'a');
        if (n > 3) name[2] = ' '; // inner blanks count
        std::string given = std::string(before, '\t') + name + std::string(after, ' ');
        vps3::buckets.push_back(name);
        s.s3.bucket_name = vp_choose("null", 0, 1) ? nullptr : given.c_str();
        check(s.s3.bucket_name && n >= 3 && n <= 63);
        break;
    }
    case 6: { // custom metadata
        static const struct { const char* t; bool ok; } docs[] = {
            { nullptr, true }, { "", true }, { "{}", true }, { "{", false }, { "}", false }, { "{\"a\":1,}", false }, { "{'a':1}", false }, { "{\"a\" 1}", false }, { "[1,2", false },
            { "[1 2]", false }, { "nul", false }, { "\"open", false }, { "\"\\x\"", false }, { "01", false }, { "1e", false }, { "{} {}", false }, { "{}x", false }, { " 12 ", true },
            { "{\"a\":1}//c", true }, { "/* c", false }, { "{\"a\":{\"b\":[]}}", true }, { "\"\xff\"", false }, { "NaN", false }, { "-", false }, { "[[[[[]]]]", false } };
        const unsigned k = vp_choose("document", 0, sizeof docs / sizeof *docs - 1);
        s.s.custom_metadata = docs[k].t;
        check(docs[k].ok);
        break;
    }
    case 7: { // custom metadata: any text of up to two characters
        char* b = text_buf[0];
        unsigned n = vp_arg(2);
        for (unsigned i = 0; i < n; ++i) {
            b[i] = (char)vp_sym("char", 8);
            vp_assume((unsigned char)b[i] < 128);
        }
        b[n] = 0;
        s.s.custom_metadata = b;
        // all JSON texts of up to two characters (comments need three)
        auto digit = [](char c) { return (c >= '0') & (c <= '9'); };
        auto ws = [](char c) { return (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r'); };
        bool ok;
        const bool one = digit(b[0]) & (b[1] == 0);
        if (n == 1) ok = (b[0] == 0) | one;
        else
            ok = (b[0] == 0) | one | ((b[0] == '{') & (b[1] == '}')) | ((b[0] == '[') & (b[1] == ']')) | ((b[0] == '"') & (b[1] == '"')) |
                 ((b[0] >= '1') & (b[0] <= '9') & digit(b[1])) | ((b[0] == '-') & digit(b[1])) | (digit(b[0]) & ws(b[1])) | (ws(b[0]) & digit(b[1])) |
                 (((b[0] == '/') & (b[1] == '/')) & false);
        check(ok);
        break;
    }
    case 8: { // the parent directory
        static const unsigned perms[] = { 0555, 0444, 0, 0111, 0755, 0700, 0777, 0300, 0020, 0002, 0200 };
        unsigned perm = 0755;
        bool ok = false;
        switch (vp_choose("place", 0, 9)) {
        case 0: s.s.store_path = "/nowhere/s"; break;
        case 1:
            vpenv::add_file("/w/f");
            s.s.store_path = "/w/f/s";
            break;
        case 2:
            perm = perms[vp_choose("perm", 0, 10)];
            vpenv::add_dir("/w/p", perm);
            s.s.store_path = "/w/p/s";
            ok = perm & 0222;
            break;
        case 3: s.s.store_path = ""; break;
        case 4:
            s.s.store_path = "rel";
            ok = true;
            break;
        case 5: // a permission bit is enough
            perm = vp_choose("bit", 0, 8);
            vpenv::add_dir("/w/q", 1u << perm);
            s.s.store_path = "/w/q/s";
            ok = perm == 1 || perm == 4 || perm == 7;
            break;
        case 6: s.s.store_path = "/w/missing/deep/s"; break;
        case 7:
            s.s.store_path = "/w/new";
            ok = true;
            break;
        case 8: s.s.store_path = "   "; break;
        default:
            vpenv::add_dir("/w/d", 0755);
            vpenv::add_dir("/w/d/e", 0555);
            s.s.store_path = vp_choose("inner", 0, 1) ? "/w/d/e/s" : "/w/d/s";
            ok = s.s.store_path[5] == 's';
            break;
        }
        // (the place that is in use is another one)
        const uint64_t nodes = vpenv::nodes.size();
        const unsigned fc = vpenv::files_created, dc = vpenv::dirs_created, rm = vpenv::removals;
        ZarrStream* st = ZarrStream_create(&s.s);
        vp_assert((st != nullptr) == ok, "a place whose parent is a writable directory is accepted, others are not");
        if (st) {
            ZarrStream_destroy(st);
            vp_reach(1);
        } else {
            vp_assert(vpenv::nodes.size() == nodes && vpenv::files_created == fc && vpenv::dirs_created == dc && vpenv::removals == rm, "rejected settings leave the file system as it was");
            vp_reach(2);
        }
        vp_assert(file("/w/s/old") != nullptr, "other places are left alone");
        break;
    }
    case 9: { // no settings at all
        S = nullptr;
        check(false);
        vp_reach(1);
        vp_reach(2);
        break;
    }
    case 10: { // one invalid thing after the other, everything else symbolic too
        const uint32_t v = sym32("version"), t = sym32("type"), c = sym32("compressor"), k = sym32("codec"), l = (uint8_t)vp_sym("level", 8), f = (uint8_t)vp_sym("shuffle", 8);
        set(s.s.version, v);
        set(s.s.data_type, t);
        set(s.comp.compressor, c);
        set(s.comp.codec, k);
        s.comp.level = l;
        s.comp.shuffle = f;
        s.s.compression_settings = &s.comp;
        bool ok = ((v == 2) | (v == 3)) & (t < 10) & (c < 2) & (k < 3) & ((c == 0) | (k != 0)) & (l <= 9) & (f <= 2);
        for (unsigned i = 0; i < 3; ++i) {
            const uint32_t ty = sym32("dimension"), ch = sym32("chunk"), sh = sym32("shard"), ar = sym32("array");
            vp_assume((ch < 3) & (sh < 3) & (ar < 3));
            set(s.d[i].type, ty);
            s.d[i].chunk_size_px = ch;
            s.d[i].shard_size_chunks = sh;
            s.d[i].array_size_px = ar;
            ok &= (i ? ty == 0 : ty < 4) & (ch != 0) & ((i == 0) | (ar != 0)) & ((v == 2) | (sh != 0));
        }
        vp_assume(!ok);
        check(false);
        vp_reach(1);
        break;
    }
    }
}
