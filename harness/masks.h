// sets of masks: all for N <= 8 (12 thorough); otherwise all of weight <= 2 or >= N-2, all prefixes/suffixes, patterns
#ifndef MASKS_H
#define MASKS_H
#include "mc.h"
namespace mc
{
static std::vector<uint64_t> maskSet(size_t N)
{
    const uint64_t Full = (1ull << N) - 1;
    std::set<uint64_t> q = {0, Full};
    if (N <= (g_thorough ? 12 : 8)) for (uint64_t m = 0; m <= Full; ++m) q.insert(m);
    for (size_t i = 0; i < N; ++i) {
        q.insert(1ull << i); q.insert(Full ^ (1ull << i)); q.insert((1ull << i) - 1); q.insert(Full ^ ((1ull << i) - 1));
        for (size_t j = 0; j < i; ++j) { q.insert((1ull << i) | (1ull << j)); q.insert(Full ^ ((1ull << i) | (1ull << j))); }
    }
    for (uint64_t p : {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x3333333333333333ull, 0xccccccccccccccccull, 0x0f0f0f0f0f0f0f0full, 0x6969696969696969ull, 0xdeadbeefcafe1234ull}) q.insert(p & Full);
    return std::vector<uint64_t>(q.begin(), q.end());
}
}
#endif
