// The log: what is emitted, where, and what the caller gets back.
#include <logger.hh>
#include <stdexcept>
#include <thread>
#include <stream.h>
#include <vpcon.hpp>
#include <vps3.hpp>
using namespace h;
// args: way 0 one thread: number of steps, longest text, 1: any 32-bit levels are set
//       way 1 several threads: threads, messages each, preemptions, level
//       way 2 a stream: version, log level, fault mask, multiscale, s3
static std::string console(int which)
{
    std::string s;
    for (auto& p : *vpcon::pieces)
        if (p.which == which) s += p.text;
    return s;
}
static const char* const tag[] = { "[DEBUG] ", "[INFO] ", "[WARNING] ", "[ERROR] " };
static std::string log_at(uint32_t level, const std::string& text, unsigned kind)
{
    const LogLevel l = (LogLevel)level;
    switch (kind) {
        case 0: return Logger::log(l, "/dir/file.cpp", 42, "func", text);
        case 1: return Logger::log(l, "/dir/file.cpp", 42, "func", "<", text, ">", std::string_view("#"), 17, -1, (size_t)1 << 33, 'c');
        case 2: return Logger::log(l, "file.cpp", 4000000, "f", text.c_str());
        default: return Logger::log(l, "file.cpp", 1, "");
    }
}
static std::string body(const std::string& text, unsigned kind)
{
    switch (kind) {
        case 0: return "file.cpp:42 func: " + text;
        case 1: return "file.cpp:42 func: <" + text + ">#17-18589934592c";
        case 2: return "file.cpp:4000000 f: " + text;
        default: return "file.cpp:1 : ";
    }
}
static bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
static void one_thread(unsigned steps, unsigned longest)
{
    uint32_t level = LogLevel_Info;
    vp_assert(Logger::get_log_level() == LogLevel_Info, "the log level is info in the beginning");
    for (unsigned k = 0; k < steps; ++k) {
        if (vp_choose("op", 0, 1) == 0) {
            const uint32_t l = (uint32_t)vp_sym("level", 32);
            LogLevel e;
            memcpy(&e, &l, sizeof e);
            bool threw = false;
            try {
                Logger::set_log_level(e);
            } catch (const std::invalid_argument&) {
                threw = true;
            }
            if (l <= 4) {
                vp_assert(!threw, "the five levels can be set");
                level = l;
            } else {
                vp_assert(threw, "other levels are refused");
                vp_reach(2);
            }
            vp_assert((uint32_t)Logger::get_log_level() == level, "the level is the last one that was set; failing to set one changes nothing");
            continue;
        }
        const uint32_t l = vp_choose("mlevel", 0, 3);
        const unsigned kind = vp_choose("kind", 0, 3);
        std::string text(kind == 2 ? 1500 : 0, 'x');
        for (unsigned n = vp_choose("length", 0, longest); n; --n) text += (char)vp_range("char", 1, 255);
        const std::string out = console(1), err = console(2);
        vpcon::pieces->clear();
        const std::string got = log_at(l, text, kind);
        const std::string o2 = console(1), e2 = console(2);
        if (l < level) {
            vp_assert(o2.empty() && e2.empty(), "messages below the level are not emitted");
            vp_assert(got.empty(), "the caller gets nothing back when nothing is emitted");
            vp_reach(3);
        } else {
            const std::string& line = l == 3 ? e2 : o2;
            vp_assert((l == 3 ? o2 : e2).empty(), "errors go to the error stream and nothing else does");
            vp_assert(!line.empty() && line.back() == '\n', "a message is a line");
            vp_assert(line.compare(0, line.size() - 1, got) == 0 && got.size() + 1 == line.size(), "what is emitted, once, is what the caller gets back");
            vp_assert(ends(got, tag[l] + body(text, kind)), "the message is complete");
            vp_reach(4);
        }
    }
}
static void several_threads(unsigned threads, unsigned each, int preempt, uint32_t level)
{
    Logger::set_log_level((LogLevel)level);
    std::string got[3][2];
    {
        vp_sched(1, preempt, 1);
        std::thread th[3];
        for (unsigned t = 0; t < threads; ++t)
            th[t] = std::thread([&, t] {
                for (unsigned i = 0; i < each; ++i) {
                    std::string text = "thread ";
                    text += (char)('0' + t);
                    text += (char)('a' + i);
                    got[t][i] = log_at((t + i) % 2 ? 3 : 1, text, (t + i) % 2 ? 2 : 0);
                }
            });
        for (unsigned t = 0; t < threads; ++t) th[t].join();
        vp_sched(0, 0, 0);
    }
    unsigned lines = 0;
    for (int which = 1; which <= 2; ++which) {
        std::string all = console(which);
        while (!all.empty()) {
            const auto nl = all.find('\n');
            vp_assert(nl != std::string::npos, "messages are whole lines");
            const std::string line = all.substr(0, nl);
            all.erase(0, nl + 1);
            unsigned found = 0;
            for (unsigned t = 0; t < threads; ++t)
                for (unsigned i = 0; i < each; ++i)
                    if (got[t][i] == line) {
                        ++found;
                        vp_assert(((t + i) % 2 ? 2 : 1) == which, "errors go to the error stream and nothing else does");
                        got[t][i] += "\n"; // emitted
                    }
            vp_assert(found == 1, "messages of different threads are not mixed up");
            ++lines;
        }
    }
    unsigned want = 0;
    for (unsigned t = 0; t < threads; ++t)
        for (unsigned i = 0; i < each; ++i) want += ((t + i) % 2 ? 3u : 1u) >= level;
    vp_assert(lines == want, "every message at or above the level is emitted exactly once");
}
static void stream(uint64_t version, uint32_t level, unsigned mask, bool multi, bool s3)
{
    Geo g;
    g.version = (ZarrVersion)version;
    g.arr[0] = 0, g.arr[1] = 2, g.arr[2] = 2;
    for (unsigned i = 0; i < 3; ++i) g.chunk[i] = i ? 2 : 1, g.shard[i] = i ? 1 : 2;
    default_types(g);
    Settings S(g);
    S.s.multiscale = multi;
    if (s3) {
        vps3::reset();
        vps3::buckets.push_back("bucket");
        S.s3 = { "http://s3", "bucket", "id", "key" };
        S.s.s3_settings = &S.s3;
        S.s.store_path = "s";
    }
    vp_assert(Zarr_set_log_level((ZarrLogLevel)level) == ZarrStatusCode_Success, "the five levels can be set");
    vpenv::direct_limit = 1;
    vpenv::fault_mask = mask;
    vpenv::fault_budget = 1;
    bool failed = false;
    ZarrStream* st = ZarrStream_create(&S.s);
    if (st) {
        const unsigned char px[4] = { 1, 2, 3, 4 };
        for (unsigned f = 0; f < 3; ++f) {
            size_t out;
            failed |= ZarrStream_append(st, px, 4, &out) != ZarrStatusCode_Success;
        }
    } else
        failed = true;
    ZarrStream_destroy(st);
    vpenv::fault_mask = 0;
    for (auto& p : *vpcon::pieces) {
        vp_assert(level < 4, "nothing is emitted at level none");
        vp_assert(p.which == 2 || level < 3, "only errors are emitted at level error");
    }
    if (failed) {
        vp_assert(level == 4 || !console(2).empty(), "failures are logged as errors");
        vp_reach(2);
    } else
        vp_assert(vpenv::faults_hit || console(2).empty(), "no errors are logged when nothing fails");
    for (int which = 1; which <= 2; ++which) {
        const std::string c = console(which);
        vp_assert(c.empty() || c.back() == '\n', "messages are whole lines");
    }
}
extern "C" void harness()
{
    world();
    switch (vp_arg(0)) {
        case 0: one_thread(vp_arg(1), vp_arg(2)); break;
        case 1: several_threads(vp_arg(1), vp_arg(2), vp_arg(3), vp_arg(4)); break;
        case 2: stream(vp_arg(1), vp_arg(2), vp_arg(3), vp_arg(4), vp_arg(5)); break;
    }
    vp_reach(1);
}
