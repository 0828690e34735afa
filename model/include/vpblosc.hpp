// Calls made to the fake compressor.
#pragma once
#include <string>
#include <vector>
#include <vpenv.hpp>
namespace vpblosc {
struct Call
{
    int clevel, shuffle;
    uint64_t typesize, nbytes, out_len;
    std::string codec;
    unsigned char* src;
};
extern std::vector<Call*> calls;
const Call* decode(const unsigned char* p, uint64_t n);
extern unsigned lengths; // if set, the compressor chooses among so many lengths
extern bool verbatim;    // what is written depends on nothing but the call's arguments
void reset();
}
