// Interface between harnesses and the symbolic executor; the native replay
// build provides the same functions over a fixed list of inputs.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vp_sym(const char* name, unsigned bits);   // fresh symbolic input
void vp_assume(bool c);
void vp_assert_(bool c, const char* msg);
uint64_t vp_concretize(uint64_t v);                 // fork over all feasible values
void vp_observe(uint64_t tag, uint64_t v);          // compared between engine and native replay
uint64_t vp_arg(int i);                             // harness case parameter
void vp_reach(uint64_t label);                      // reachability witness
void vp_sched(int explore, int preemptions, int race);
uint64_t vp_threads();
void vp_leak_mark();
void vp_leak_check();
uint64_t vp_heap_count();
uint64_t vp_heap_bytes();
int vp_symbolic();                                  // 1 in the engine, 0 natively
void vp_print(const char* s, uint64_t v);
void vp_print_s(const char* s, uint64_t n);
void vp_model_error(const char* msg);
void vp_stop();
}
#define vp_assert(c, msg) vp_assert_((c), msg)

static inline uint64_t vp_range(const char* n, uint64_t lo, uint64_t hi)
{
    unsigned bits = 1;
    while (bits < 64 && ((hi - lo) >> bits)) ++bits;
    uint64_t v = vp_sym(n, bits);
    if (bits == 64 || (hi - lo) != (((uint64_t)1 << bits) - 1)) vp_assume(v <= hi - lo);
    return lo + v;
}
// like vp_range, but one path per value
static inline uint64_t vp_choose(const char* n, uint64_t lo, uint64_t hi)
{
    return vp_concretize(vp_range(n, lo, hi));
}
