// Trimming.
#include <string>
#include <vp.h>
#include <zarr.common.hh>
static bool blank(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
// args: length
extern "C" void harness()
{
    const uint64_t n = vp_choose("length", 0, vp_arg(0));
    char* s = new char[n ? n : 1];
    for (uint64_t i = 0; i < n; ++i) s[i] = (char)vp_sym("char", 8);
    std::string_view in(s, n);
    std::string t = zarr::trim(in);
    const uint64_t m = t.size();
    vp_observe(1, m);
    // reference: first and last non-blank
    uint64_t b = 0, e = n;
    while (b < n && blank(s[b])) ++b;
    while (e > b && blank(s[e - 1])) --e;
    vp_assert(m == e - b, "what is left runs from the first to the last non-blank character");
    for (uint64_t i = 0; i < m; ++i) vp_assert(t[i] == s[b + i], "inner characters are kept as they are");
    vp_assert(zarr::is_empty_string(in, "empty") == (b == e), "a string counts as empty exactly when trimming leaves nothing");
    if (m) vp_reach(1);
    else vp_reach(2);
    delete[] s;
}
