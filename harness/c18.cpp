// Lower resolution levels hold the local means of the appended frames.
#include <limits>
#include <nlohmann/json.hpp>
#include <stream.h>
using namespace h;
using json = nlohmann::json;
static unsigned long long read_px(const Geo& g, unsigned level, const uint64_t* c)
{
    const unsigned b = g.bpp();
    uint64_t at = 0, cc[8];
    for (unsigned i = 0; i < g.nd; ++i) {
        cc[i] = c[i] / g.chunk[i];
        at = at * g.chunk[i] + c[i] % g.chunk[i];
    }
    at *= b;
    vpenv::Node* f;
    if (g.version == ZarrVersion_2) {
        f = file(join("/w/s/" + num(level), cc, 0, g.nd));
        vp_assert(f != nullptr, "the chunk of every pixel of the level is there");
    } else {
        uint64_t sc[8], slot = 0, slots = 1;
        for (unsigned i = 0; i < g.nd; ++i) {
            sc[i] = cc[i] / g.shard[i];
            slot = slot * g.shard[i] + cc[i] % g.shard[i];
            slots *= g.shard[i];
        }
        f = file(join("/w/s/data/root/" + num(level) + "/c" + num(sc[0]), sc, 1, g.nd));
        vp_assert(f && f->size >= slots * 16, "the shard of every pixel of the level is there");
        const uint64_t off = u64_at(f, f->size - slots * 16 + slot * 16), len = u64_at(f, f->size - slots * 16 + slot * 16 + 8);
        vp_assert(off < f->size && len == g.chunk_bytes(), "the shard has the chunk of every pixel of the level");
        at += off;
    }
    vp_assert(at + b <= f->size, "the chunk of every pixel is complete");
    unsigned long long v = 0;
    for (unsigned i = b; i-- > 0;) v = v << 8 | vpenv::byte_at(f, at + i);
    return v;
}
static json parse(const std::string& p)
{
    vpenv::Node* f = file(p);
    vp_assert(f != nullptr, "the level has its metadata document");
    json j = json::parse(vpenv::content(f), nullptr, false);
    vp_assert(!j.is_discarded(), "the level's metadata is well-formed");
    return j;
}
template<typename T>
static T of_bits(unsigned long long v)
{
    T t;
    memcpy(&t, &v, sizeof t);
    return t;
}
template<typename T>
static unsigned long long bits_of(T t)
{
    unsigned long long v = 0;
    memcpy(&v, &t, sizeof t);
    return v;
}
template<typename T>
static T any()
{
    const unsigned w = 8 * sizeof(T), low = vp_arg(12);
    if (!low) return (T)vp_sym("pixel", w);
    unsigned long long v = vp_sym("pixel", w - low - 1) << low | vp_choose("low", 0, (1u << low) - 1);
    return (T)(v | vp_choose("high", 0, 1) << (w - 1));
}
// wide enough for a sum of four
template<typename T> struct Wide { typedef __int128 type; };
template<> struct Wide<uint64_t> { typedef unsigned __int128 type; };
template<> struct Wide<uint8_t> { typedef int type; };
template<> struct Wide<int8_t> { typedef int type; };
template<> struct Wide<uint16_t> { typedef int type; };
template<> struct Wide<int16_t> { typedef int type; };
template<> struct Wide<uint32_t> { typedef long long type; };
template<> struct Wide<int32_t> { typedef long long type; };
template<> struct Wide<float> { typedef double type; };
template<> struct Wide<double> { typedef double type; };
// s / 2^n, rounded toward zero
template<typename W>
static W part(W s, unsigned n)
{
    if constexpr (std::is_floating_point_v<W>) return s / (1 << n);
    else return (s + (s < 0 ? (1 << n) - 1 : 0)) >> n;
}
template<typename T>
static T mean2(T a, T b)
{
    typedef typename Wide<T>::type W;
    return (T)part<W>((W)a + (W)b, 1);
}
template<typename T>
static T mean4(T a, T b, T c, T d)
{
    typedef typename Wide<T>::type W;
    return (T)part<W>((W)a + (W)b + (W)c + (W)d, 2);
}
// args: version, pixel type, most rows, most columns, tile chunk, append chunk, shard, most frames, pixels that are symbolic (every n-th), scale of floating-point pixels,
//       frames in each call (0: one), 1: the greatest size only, low bits of a symbolic pixel that are chosen rather than symbolic (so is the sign then)
template<typename T>
static void run()
{
    Geo g;
    g.version = (ZarrVersion)vp_arg(0);
    g.dtype = (ZarrDataType)vp_arg(1);
    g.nd = 3;
    g.arr[1] = (uint32_t)vp_choose("rows", vp_arg(11) ? vp_arg(2) : 1, vp_arg(2));
    g.arr[2] = (uint32_t)vp_choose("columns", vp_arg(11) ? vp_arg(3) : 1, vp_arg(3));
    g.chunk[0] = vp_arg(5);
    g.shard[0] = vp_arg(6);
    for (unsigned i = 1; i < 3; ++i) {
        g.chunk[i] = vp_arg(4) < g.arr[i] ? vp_arg(4) : g.arr[i];
        g.shard[i] = g.version == ZarrVersion_3 && vp_arg(6) > 1 && g.chunks_along(i) > 1 ? 2 : 1;
    }
    if (g.version == ZarrVersion_2) g.shard[0] = 1;
    default_types(g);
    const uint64_t frames = vp_choose("frames", vp_arg(11) ? vp_arg(7) : 1, vp_arg(7)), rows = g.arr[1], cols = g.arr[2], every = vp_arg(8);
    const uint64_t first = every > 1 ? vp_choose("first", 0, every - 1) : 0;
    const uint64_t n = frames * rows * cols;
    std::vector<T> px(n);
    for (uint64_t i = 0; i < n; ++i) {
        if constexpr (std::is_floating_point_v<T>) {
            // small integers times a power of two, so that every way to compute the mean is exact
            const signed char k = (signed char)((i % every != first ? i * 7 % 15 : vp_range("pixel", 0, 15)) - 7); // (narrow: exact sums)
            T scale = 1;
            for (uint64_t e = 0; e < vp_arg(9); ++e) scale *= 2;
            px[i] = (T)k * scale;
        } else
            // (the others: extreme values and some in between)
            px[i] = i % every == first  ? any<T>()
                    : i * 7 % 5 < 2 ? std::numeric_limits<T>::max()
                    : i * 7 % 5 < 4 ? std::numeric_limits<T>::min()
                                    : (T)(i * 0x9e3779b97f4a7c15ull >> 7);
    }
    Settings s(g);
    s.s.multiscale = true;
    ZarrStream* st = create(s);
    vp_assert(st != nullptr, "a valid stream is created");
    const uint64_t fb = g.frame_bytes(), step = vp_arg(10) ? vp_arg(10) : frames;
    for (uint64_t f = 0; f < frames; f += step) append_all(st, (const unsigned char*)px.data() + f * fb, (frames - f < step ? frames - f : step) * fb);
    ZarrStream_destroy(st);
    // level by level
    std::vector<T> up = px;
    uint64_t nf = frames, r = rows, c = cols;
    unsigned level = 1;
    for (;; ++level) {
        const std::string doc = g.version == ZarrVersion_2 ? "/w/s/" + num(level) + "/.zarray" : "/w/s/meta/root/" + num(level) + ".array.json";
        if (!file(doc)) break;
        json j = parse(doc);
        Geo l = g;
        const json& shape = j.at("shape");
        const json& chunks = g.version == ZarrVersion_2 ? j.at("chunks") : j.at("chunk_grid").at("chunk_shape");
        for (unsigned i = 0; i < 3; ++i) {
            l.arr[i] = shape.at(i).get<uint32_t>();
            l.chunk[i] = chunks.at(i).get<uint32_t>();
            l.shard[i] = g.version == ZarrVersion_2 ? 1 : j.at("storage_transformers").at(0).at("configuration").at("chunks_per_shard").at(i).get<uint32_t>();
        }
        const uint64_t lf = nf / 2, lr = (r + 1) / 2, lc = (c + 1) / 2;
        vp_assert(l.arr[0] == lf, "a level has one frame per two frames of the level above");
        vp_assert(l.arr[1] == lr && l.arr[2] == lc, "a level has half the rows and columns, rounded up");
        std::vector<T> mine(lf * lr * lc);
        for (uint64_t f = 0; f < lf; ++f)
            for (uint64_t y = 0; y < lr; ++y)
                for (uint64_t x = 0; x < lc; ++x) {
                    T m[2];
                    for (unsigned k = 0; k < 2; ++k) {
                        auto p = [&](uint64_t yy, uint64_t xx) { return up[((2 * f + k) * r + (yy < r ? yy : r - 1)) * c + (xx < c ? xx : c - 1)]; };
                        m[k] = mean4<T>(p(2 * y, 2 * x), p(2 * y, 2 * x + 1), p(2 * y + 1, 2 * x), p(2 * y + 1, 2 * x + 1));
                    }
                    const uint64_t at[3] = { f, y, x };
                    const unsigned long long got = read_px(l, level, at);
                    const T want = mean2<T>(m[0], m[1]);
                    if constexpr (std::is_floating_point_v<T>) vp_assert(of_bits<T>(got) == want, "a pixel of a level is the mean of its block in two frames of the level above");
                    else vp_assert(got == bits_of(want), "a pixel of a level is the mean of its block in two frames of the level above");
                    mine[(f * lr + y) * lc + x] = of_bits<T>(got);
                }
        up = mine;
        nf = lf;
        r = lr;
        c = lc;
        if (level == 1 && lf) vp_reach(1);
        if (level == 2 && lf) vp_reach(2);
    }
    vp_assert(frames < 2 || (rows < 2 && cols < 2) || level > 1, "there is a lower level");
}
extern "C" void harness()
{
    world();
    switch (vp_arg(1)) {
    case ZarrDataType_uint8: return run<uint8_t>();
    case ZarrDataType_uint16: return run<uint16_t>();
    case ZarrDataType_uint32: return run<uint32_t>();
    case ZarrDataType_uint64: return run<uint64_t>();
    case ZarrDataType_int8: return run<int8_t>();
    case ZarrDataType_int16: return run<int16_t>();
    case ZarrDataType_int32: return run<int32_t>();
    case ZarrDataType_int64: return run<int64_t>();
    case ZarrDataType_float32: return run<float>();
    default: return run<double>();
    }
}
