// The group's documents.
#include <nlohmann/json.hpp>
#include <stream.h>
#include <vps3.hpp>
using namespace h;
using json = nlohmann::json;
static bool s3;
static std::string content_of(const std::string& name)
{
    if (s3) {
        vps3::Object* o = vps3::find("bucket", "s/" + name);
        vp_assert(o != nullptr, "the document is in the store");
        return o->data;
    }
    vpenv::Node* f = file("/w/s/" + name);
    vp_assert(f != nullptr, "the document is in the store");
    return vpenv::content(f);
}
static json doc(const std::string& name)
{
    json j = json::parse(content_of(name), nullptr, false);
    vp_assert(!j.is_discarded(), "the document is well-formed JSON");
    return j;
}
static const json& at(const json& j, const char* k)
{
    static const json none = "(missing)";
    return j.is_object() && j.contains(k) ? j.at(k) : none;
}
static const char* const customs[] = { nullptr, "", "{}", "{\"a\": 1, \"b\": [true, null, -7, 1.5e3], \"c\": {\"d\": \"e\\u00e9\\n\"}}", "[]", "null", "\"text\"",
    "18446744073709551615", "-9223372036854775808", " { \"k\" : 0.1 } ", "{\"x\": 1 /* remark */}", "{\"d\": {\"e\": {\"f\": []}}, \"\": \"\"}" };
// args: version, dimensions, 8 size limits, multiscale, frames, metadata (0 none, 1 choose from the list, 2 symbolic text), S3, symbolic names
extern "C" void harness()
{
    world();
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.nd = vp_arg(1);
    choose_geo(g, 2);
    s3 = vp_arg(13);
    const bool multi = vp_arg(10);
    for (unsigned i = 0; i + 2 < g.nd; ++i) g.type[i] = multi ? (i ? ZarrDimensionType_Channel : ZarrDimensionType_Time) : (ZarrDimensionType)vp_choose("type", 0, 3);
    Settings s(g, s3 ? "s" : "/w/s");
    if (s3) {
        vps3::buckets.push_back("bucket");
        s.s3 = { "http://s3", "bucket", "id", "key" };
        s.s3.endpoint = "http://s3";
        s.s3.bucket_name = "bucket";
        s.s3.access_key_id = "id";
        s.s3.secret_access_key = "key";
        s.s.s3_settings = &s.s3;
    }
    std::string names[6];
    for (unsigned i = 0; i < g.nd; ++i) {
        names[i] = dim_name(i);
        if (vp_arg(14) == i + 1) { // any characters JSON has to care about
            const unsigned char c = (unsigned char)vp_sym("name", 8);
            vp_assume((c >= 1) & (c < 128));
            names[i] += (char)c;
            names[i] += '"';
        }
        s.d[i].name = names[i].c_str();
    }
    std::string custom;
    const char* given = nullptr;
    if (vp_arg(12) == 1) given = customs[vp_choose("metadata", 0, 11)];
    if (vp_arg(12) == 2) {
        const unsigned char c = (unsigned char)vp_sym("text", 8);
        vp_assume((c >= 32) & (c < 128) & (c != '"') & (c != '\\'));
        custom = "{\"k";
        custom += (char)c;
        custom += "\": ";
        const unsigned char d = (unsigned char)vp_sym("digit", 8);
        vp_assume((d >= '0') & (d <= '9'));
        custom += '3';
        custom += (char)d;
        custom += "}";
        given = custom.c_str();
    }
    s.s.custom_metadata = given;
    s.s.multiscale = multi;
    const uint64_t n = vp_arg(11) * g.frame_bytes();
    unsigned char* px = (unsigned char*)calloc(1, n + 1);
    ZarrStream* st = create(s);
    vp_assert(st != nullptr, "a valid stream is created");
    if (n) append_all(st, px, n);
    ZarrStream_destroy(st);
    // the settings' strings were copied, if they were needed
    json ms, mine;
    if (g.version == ZarrVersion_2) {
        vp_assert(at(doc(".zgroup"), "zarr_format") == 2, "the version marker is 2");
        ms = at(doc(".zattrs"), "multiscales");
        vp_assert(doc("0/.zattrs").is_object(), "the array's attributes are an object");
        mine = doc("acquire.json");
    } else {
        json z = doc("zarr.json");
        vp_assert(at(z, "zarr_format") == "https://purl.org/zarr/spec/protocol/core/3.0", "the version marker is 3");
        vp_assert(at(z, "metadata_key_suffix") == ".json", "the documents' names end in .json");
        ms = at(at(doc("meta/root.group.json"), "attributes"), "multiscales");
        mine = doc("meta/acquire.json");
    }
    json want = !given || !*given ? json::object() : json::parse(given, nullptr, false, true);
    vp_assert(mine == want, "the custom metadata is stored unchanged in value");
    vp_assert(ms.is_array() && ms.size() == 1, "there is one multiscales entry");
    vp_assert(at(ms[0], "version") == "0.4", "it follows version 0.4");
    const json& axes = at(ms[0], "axes");
    vp_assert(axes.is_array() && axes.size() == g.nd, "there is one axis per dimension");
    static const char* types[] = { "space", "channel", "time", "other" };
    for (unsigned i = 0; i < g.nd; ++i) {
        vp_assert(at(axes[i], "name") == names[i], "the axes have the dimensions' names, in order");
        vp_assert(at(axes[i], "type") == types[g.type[i]], "the axes have the dimensions' types");
        if (i + 2 < g.nd) vp_assert(!axes[i].contains("unit"), "only the tile axes have a unit");
        else vp_assert(at(axes[i], "unit") == "micrometer", "the tile axes are in micrometres");
    }
    // the levels that are there (enough frames were appended for all of them)
    unsigned levels = 0;
    for (;; ++levels) {
        std::string p = g.version == ZarrVersion_2 ? num(levels) + "/.zarray" : "meta/root/" + num(levels) + ".array.json";
        if (s3 ? !vps3::find("bucket", "s/" + p) : !file("/w/s/" + p)) break;
    }
    const json& ds = at(ms[0], "datasets");
    if (!vp_arg(11)) levels = 1;
    if (!multi) vp_assert(levels == 1, "(one level)");
    vp_assert(ds.is_array() && ds.size() == levels, "there is one dataset per resolution level");
    for (unsigned l = 0; l < levels; ++l) {
        vp_assert(at(ds[l], "path") == num(l), "the datasets are named by level");
        const json& ct = at(ds[l], "coordinateTransformations");
        vp_assert(ct.is_array() && ct.size() == 1 && at(ct[0], "type") == "scale", "there is one scale per dataset");
        const json& sc = at(ct[0], "scale");
        vp_assert(sc.is_array() && sc.size() == g.nd, "the scale has one factor per dimension");
        for (unsigned i = 0; i < g.nd; ++i) {
            const double f = i == 0 || i + 2 >= g.nd ? (double)(1u << l) : 1.0;
            vp_assert(sc[i].is_number() && sc[i].get<double>() == f, "the factors are two to the power of the level along the append and the tile dimensions");
        }
    }
    // nothing that looks like a document is malformed
    if (!s3)
        for (auto* f : vpenv::nodes) {
            if (f->dir) continue;
            const std::string& p = f->path;
            const bool d = (p.size() > 5 && p.compare(p.size() - 5, 5, ".json") == 0) || p.find("/.z") != std::string::npos;
            if (d) vp_assert(!json::parse(vpenv::content(f), nullptr, false).is_discarded(), "every document is well-formed JSON");
        }
    vp_reach(1);
    if (levels > 2) vp_reach(2);
    free(px);
}
