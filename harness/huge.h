// A sparse table that covers the whole range of the index types (pages are materialised on first access).
#ifndef HUGE_H
#define HUGE_H
#include "mc.h"
#include <sys/mman.h>
namespace mc
{
// one large sparse table for the whole range of the index types
struct Huge {
    char *zero; int bits;  // indexes of up to `bits` bits (of at most 8 bytes each) in both directions are mapped
    static Huge &i() { static Huge h; return h; }
    Huge()
    {
        for (bits = 32; bits > 16; --bits) {
            const size_t up = size_t(8) << bits, down = up / 2;
            void *p = mmap(nullptr, up + down, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p != MAP_FAILED) { zero = static_cast<char *>(p) + down; return; }
        }
        std::abort();
    }
    std::vector<long long> indexes(int kind)
    {
        std::set<long long> q;
        for (long long x : {0ll, 1ll, 127ll, 128ll, 255ll, 256ll, 257ll, 1ll << 14, 1ll << 20, (1ll << 24) + 1, (1ll << 27) - 1, 1ll << 28, 1ll << 29, (1ll << 29) + 1, 1ll << 30, (1ll << 31) - 2}) { q.insert(x); q.insert(-x); }
        for (int b : {15, 16, 31, 32}) for (int d = -1; d < 2; ++d) { q.insert((1ll << b) + d); q.insert(-(1ll << b) + d); }
        const long long hi = (1ll << std::min(bits, kind & 1 ? 16 : 32)), lo = kind & 2 ? 0 : -hi / 2, up = kind & 2 ? hi - 1 : hi / 2 - 1;
        std::vector<long long> r;
        for (long long x : q) if (x >= lo && x <= up) r.push_back(x);
        return r;
    }
};
}
#endif
