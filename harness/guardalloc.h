// Replaces posix_memalign()/free() of this program: every aligned allocation lives on pages of its own, ends as close to
// an inaccessible page as its alignment allows, and is unmapped when freed. All live blocks are known.
#ifndef GUARDALLOC_H
#define GUARDALLOC_H
#include "mc.h"
#include <cerrno>
extern "C" void __libc_free(void *);
namespace mc
{
struct Blk { char *map; size_t len; char *p; size_t size, align; };
struct Heap {
    enum { Max = 65536 };
    Blk b[Max];
    int n;
    uint64_t allocs, frees, unknown;
    bool large;  // allow blocks of many GB (not filled, pages are materialised on first access)
    Blk *find(const void *p) { for (int i = 0; i < n; ++i) if (b[i].p == p) return &b[i]; return nullptr; }
    Blk *covering(const void *p, size_t bytes) { for (int i = 0; i < n; ++i) if (b[i].p <= (const char *)p && (const char *)p + bytes <= b[i].p + b[i].size) return &b[i]; return nullptr; }
};
static Heap g_heap;
}
extern "C" int posix_memalign(void **out, size_t al, size_t n) noexcept
{
    using namespace mc;
    if (al == 0 || (al & (al - 1)) || al % sizeof(void *)) return EINVAL;
    if (n > (g_heap.large ? size_t(1) << 36 : size_t(1) << 28) || g_heap.n >= Heap::Max) return ENOMEM;
    const size_t P = 4096, extra = al > P ? al : 0;
    const size_t body = (n + al + P - 1) / P * P + extra + P, len = body + 2 * P;
    char *m = static_cast<char *>(mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (n > (1u << 28) ? MAP_NORESERVE : 0), -1, 0));
    if (m == MAP_FAILED) return ENOMEM;
    mprotect(m, P, PROT_NONE);
    mprotect(m + len - P, P, PROT_NONE);
    char *end = m + len - P;
    char *p = reinterpret_cast<char *>(reinterpret_cast<uintptr_t>(end - n) / al * al);
    if (n <= (1u << 28)) std::memset(m + P, 0xa5, len - 2 * P);
    g_heap.b[g_heap.n++] = {m, len, p, n, al};
    ++g_heap.allocs;
    *out = p;
    return 0;
}
extern "C" void free(void *p) noexcept
{
    using namespace mc;
    if (p)
        if (Blk *b = g_heap.find(p)) {
            ++g_heap.frees;
            char *m = b->map;
            const size_t l = b->len;
            *b = g_heap.b[--g_heap.n];
            munmap(m, l);
            return;
        }
    __libc_free(p);
}
#endif
