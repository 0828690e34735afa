// Native side of the harness interface: the same harness, the same environment
// model and the real code compiled to machine code, run on fixed inputs.
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>
#include <string>
#include <vector>
#include <vp.h>
#include <vpenv.hpp>
#include <vpcon.hpp>
#include <iostream>

namespace {
std::recursive_mutex& mx()
{
    static auto* m = new std::recursive_mutex;
    return *m;
}
std::map<std::string, std::deque<uint64_t>> ins;
std::vector<uint64_t> args_;
bool exhausted = false;
// the heap blocks in use, but for the model's own
thread_local int env_depth = 0;
bool watching = false;
uint64_t live_blocks = 0, live_bytes = 0;
struct Block
{
    uintptr_t p; // 0: never used, 1: given back
    size_t n;
};
Block blocks[1u << 18];
std::atomic_flag busy;
size_t slot(uintptr_t p) { return (p >> 4) * 0x9e3779b97f4a7c15ull >> 46; }
void on_malloc(const volatile void* q, size_t n)
{
    if (!watching || env_depth || !q) return;
    while (busy.test_and_set()) {}
    const uintptr_t p = (uintptr_t)q;
    for (size_t k = 0, i = slot(p); k < 1000; ++k, i = (i + 1) & ((1u << 18) - 1))
        if (blocks[i].p < 2) {
            blocks[i] = { p, n };
            ++live_blocks;
            live_bytes += n;
            break;
        }
    busy.clear();
}
void on_free(const volatile void* q)
{
    if (!watching || !q) return;
    while (busy.test_and_set()) {}
    const uintptr_t p = (uintptr_t)q;
    for (size_t k = 0, i = slot(p); k < 1000 && blocks[i].p; ++k, i = (i + 1) & ((1u << 18) - 1))
        if (blocks[i].p == p) {
            blocks[i].p = 1;
            --live_blocks;
            live_bytes -= blocks[i].n;
            break;
        }
    busy.clear();
}
[[noreturn]] void finish(int rc)
{
    fflush(stdout);
    _Exit(rc);
}
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" {
unsigned vp_hw_threads = 2;
unsigned vp_native_hw() __asm__("vp_os__ZNSt6thread20hardware_concurrencyEv");
unsigned vp_native_hw() { return vp_hw_threads; }
void vp_env_enter()
{
    mx().lock();
    ++env_depth;
}
void vp_env_leave()
{
    --env_depth;
    mx().unlock();
}
uint64_t vp_sym(const char* name, unsigned bits)
{
    std::lock_guard<std::recursive_mutex> g(mx());
    auto& q = ins[name];
    if (q.empty()) {
        exhausted = true;
        return 0;
    }
    uint64_t v = q.front();
    q.pop_front();
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vp_assume(bool c)
{
    if (!c) {
        printf("ASSUME\n");
        finish(11);
    }
}
void vp_assert_(bool c, const char* msg)
{
    if (!c) {
        printf("ASSERT %s\n", msg);
        finish(10);
    }
}
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_observe(uint64_t tag, uint64_t v)
{
    std::lock_guard<std::recursive_mutex> g(mx());
    printf("OBS %llu %llu\n", (unsigned long long)tag, (unsigned long long)v);
}
uint64_t vp_arg(int i) { return (size_t)i < args_.size() ? args_[i] : 0; }
void vp_reach(uint64_t l) { printf("REACH %llu\n", (unsigned long long)l); }
void vp_sched(int, int, int) {}
uint64_t vp_threads() { return 1; }
void vp_leak_mark()
{
    static const int on = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    (void)on;
    watching = true;
}
void vp_leak_check() {}
uint64_t vp_heap_count() { return live_blocks; }
uint64_t vp_heap_bytes() { return live_bytes; }
int vp_symbolic() { return 0; }
void vp_print(const char* s, uint64_t v) { fprintf(stderr, "[print] %s %llu\n", s, (unsigned long long)v); }
void vp_print_s(const char* s, uint64_t n) { fprintf(stderr, "[print] %.*s\n", (int)n, s); }
void vp_model_error(const char* m)
{
    printf("MODEL %s\n", m);
    finish(12);
}
void vp_stop() { finish(0); }
void harness();
}
namespace vpcon {
std::vector<Piece>* pieces = new std::vector<Piece>;
}
namespace {
struct Console : std::streambuf
{
    int which;
    explicit Console(int w) : which(w) {}
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        vpenv::Guard g;
        vpcon::pieces->push_back({ which, std::string(s, n) });
        return n;
    }
    int overflow(int c) override
    {
        char ch = (char)c;
        xsputn(&ch, 1);
        return c;
    }
};
}
int main(int argc, char** argv)
{
    // inputs file: lines "name value"; further arguments: case parameters
    FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr;
    if (!f) return 3;
    char nm[256];
    unsigned long long v;
    while (fscanf(f, "%255s %llu", nm, &v) == 2) ins[nm].push_back(v);
    fclose(f);
    for (int i = 2; i < argc; ++i) args_.push_back(strtoull(argv[i], nullptr, 0));
    static Console c1(1), c2(2);
    std::cout.rdbuf(&c1);
    std::cerr.rdbuf(&c2);
    harness();
    if (exhausted) printf("EXHAUSTED\n");
    printf("DONE\n");
    finish(0);
}
