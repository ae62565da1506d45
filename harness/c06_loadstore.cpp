// C06: loads and stores move exactly the addressed elements with exact conversion.
#include "mc.h"
using namespace mc;

static const int GUARDPAGES = 2;
struct LCase { const char *name; bool aligned; void (*f)(const void *mem, void *out); };

// ---- loads: generic over element types only; the vector type is behind function pointers
template <class T, class U> struct LoadCore {
    static std::vector<U> values()
    {
        std::vector<U> r;
        gen(r, std::integral_constant<int, sizeof(U) <= 2 && std::is_integral<U>::value ? 0 : std::is_integral<U>::value ? 1 : 2>());
        return r;
    }
    static void gen(std::vector<U> &r, std::integral_constant<int, 0>) { for (int i = 0; i < (sizeof(U) == 1 ? 256 : 65536); ++i) r.push_back(U(i)); }
    static void gen(std::vector<U> &r, std::integral_constant<int, 1>) { r = alphabet<U>(g_thorough ? 3 : 2); }
    static void gen(std::vector<U> &r, std::integral_constant<int, 2>)
    {
        for (U x : alphabet<U>(g_thorough ? 3 : 2)) if (std::is_floating_point<T>::value || (x >= U(std::numeric_limits<T>::min()) && x <= U(std::numeric_limits<T>::max()) && std::fabs(x) < U(2147483648.))) r.push_back(x);
    }
    static void run(const std::string &vn, size_t N, size_t align, const std::vector<LCase> &cases)
    {
        const std::vector<U> A = values();
        const size_t n = A.size();
        std::vector<T> got(N), want(N);
        // every value in every lane: buffer = A followed by its first N elements; every element offset is loaded
        const size_t bytes = (n + 2 * N) * sizeof(U) + 256;
        std::vector<char> raw(bytes);
        U *buf = reinterpret_cast<U *>((reinterpret_cast<uintptr_t>(&raw[0]) + 127) & ~uintptr_t(127));
        std::vector<T> conv(n + N);
        for (size_t i = 0; i < n + N; ++i) { buf[i] = A[i % n]; conv[i] = static_cast<T>(A[i % n]); }
        Guarded g(4096 * GUARDPAGES);
        for (auto &c : cases) {
            Site s(vn + " load from " + TN<U>::n() + " " + c.name);
            if (!s.active()) continue;
            const size_t step = c.aligned ? std::max<size_t>(1, align / sizeof(U)) : 1;
            auto one = [&](const U *p, const T *w, const char *where, size_t i) {
                ++C.states; ++C.transitions; C.checks += N;
                std::memset(&got[0], 0xcc, N * sizeof(T));
                c.f(p, &got[0]);
                uint64_t h = s.h;
                for (size_t k = 0; k < N; ++k) {
                    h = mix(h, bits(got[k]));
                    if (!same(got[k], w[k])) {
                        s.fail(std::string(where) + " element " + std::to_string(i) + " mem=" + str(std::vector<U>(p, p + N)), "lane " + std::to_string(k) + " got " + str(got[k]) + " want " + str(w[k]));
                        return;
                    }
                }
                outcome(h);
            };
            for (size_t i = 0; i < n; i += step) { s.at(0, i); one(buf + i, &conv[i], "array", i); }
            // at both edges of accessible memory, at every element distance
            for (int d = 0; d < int(3 * N); ++d) {
                for (int edge = 0; edge < 2; ++edge) {
                    U *p = edge ? g.atBegin<U>() + d : g.atEnd<U>(N) - d;
                    if (c.aligned && reinterpret_cast<uintptr_t>(p) % align) continue;
                    for (size_t k = 0; k < N; ++k) { p[k] = A[(d * 7 + k * 3 + 1) % n]; want[k] = static_cast<T>(p[k]); }
                    s.at(1 + edge, d);
                    one(p, &want[0], edge ? "page begin +" : "page end -", d);
                }
            }
            s.sample(vn + " " + c.name + " [" + TN<U>::n() + "] " + str(A[n / 2]) + " -> " + str(static_cast<T>(A[n / 2])));
        }
    }
};
struct SCase { const char *name; bool aligned, masked; void (*f)(void *mem, const void *in, uint64_t mask); };
template <class T> struct StoreCore {
    template <class U> static void run(const std::string &vn, size_t N, size_t align, bool splitOk, const std::vector<SCase> &cases)
    {
        std::vector<T> A = alphabet<T>(g_thorough ? 2 : 1), in(N), in2(N);
        const size_t n = A.size();
        std::vector<uint64_t> masks;
        const uint64_t Full = N >= 64 ? ~0ull : (1ull << N) - 1;
        if (N <= 10) for (uint64_t m = 0; m <= Full; ++m) masks.push_back(m);
        else {
            std::set<uint64_t> q = {0, Full};
            for (size_t i = 0; i < N; ++i) { q.insert(1ull << i); q.insert(Full ^ (1ull << i)); for (size_t j = 0; j < i; ++j) { q.insert((1ull << i) | (1ull << j)); q.insert(((1ull << i) - 1) & ~((1ull << j) - 1)); q.insert(Full ^ ((1ull << i) | (1ull << j))); } }
            for (uint64_t p : {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0xdeadbeefcafe1234ull}) q.insert(p & Full);
            if (g_thorough && N <= 16) for (uint64_t m = 0; m <= Full; ++m) q.insert(m);
            masks.assign(q.begin(), q.end());
        }
        Guarded g(4096 * GUARDPAGES);
        const size_t W = 3 * N * sizeof(T) + 128;  // window compared byte for byte
        std::vector<char> ref(W);
        for (auto &c : cases) {
            Site s(vn + " store to " + TN<U>::n() + " " + c.name);
            if (!s.active()) continue;
            auto one = [&](U *p, char *w0, const std::vector<T> &v, uint64_t m, const char *where, int d) {
                ++C.states; ++C.transitions; C.checks += W;
                for (size_t i = 0; i < W; ++i) ref[i] = w0[i] = char(0xa5 + i * 37);
                for (size_t k = 0; k < N; ++k) if ((m >> k) & 1) { U x = static_cast<U>(v[k]); std::memcpy(&ref[(char *)p - w0 + k * sizeof(U)], &x, sizeof(U)); }
                c.f(p, &v[0], m);
                asm volatile("" ::: "memory");
                if (std::memcmp(w0, &ref[0], W)) {
                    size_t i = 0;
                    while (w0[i] == ref[i]) ++i;
                    const long off = long(i) - ((char *)p - w0);
                    const bool inside = off >= 0 && off < long(N * sizeof(U));
                    // a NaN may change its payload only if it was selected; compare as values then
                    bool ok = true;
                    for (size_t k = 0; k < N && ok; ++k) { U a, b; std::memcpy(&a, (char *)p + k * sizeof(U), sizeof(U)); std::memcpy(&b, &ref[(char *)p - w0 + k * sizeof(U)], sizeof(U)); ok = ((m >> k) & 1) ? same(a, b) : bitsame(a, b); }
                    for (size_t b = 0; b < W && ok; ++b) { long o = long(b) - ((char *)p - w0); if (o < 0 || o >= long(N * sizeof(U))) ok = w0[b] == ref[b]; }
                    if (!ok) { s.fail(std::string(where) + std::to_string(d) + " mask=" + std::to_string(m) + " v=" + str(v), inside ? "wrong byte at offset " + std::to_string(off) : "byte at offset " + std::to_string(off) + " outside the vector changed"); return; }
                }
                uint64_t h = s.h;
                for (size_t k = 0; k < N; ++k) h = mix(h, bits(p[k]));
                outcome(h);
            };
            // every element distance from both page edges; masks x distances
            for (int edge = 0; edge < 2; ++edge)
                for (int d = 0; d < int(2 * N); ++d) {
                    U *p = edge ? g.atBegin<U>() + d : g.atEnd<U>(N) - d;
                    if (c.aligned && reinterpret_cast<uintptr_t>(p) % align) continue;
                    char *w0 = edge ? g.lo() : g.hi() - W;
                    if (c.masked) {
                        for (size_t q = 0; q < masks.size(); ++q) {
                            if (d > 2 && !c.aligned && (q + d) % 3) continue;
                            for (size_t k = 0; k < N; ++k) in[k] = A[(d * 5 + q * 3 + k) % n];
                            s.at(edge, d, masks[q]);
                            one(p, w0, in, masks[q], edge ? "page begin +" : "page end -", d);
                        }
                    } else
                        for (size_t i = 0; i < n; i += (d ? N : 1)) {
                            for (size_t k = 0; k < N; ++k) in[k] = A[(i + k) % n];
                            s.at(edge, d, i);
                            one(p, w0, in, Full, edge ? "page begin +" : "page end -", d);
                        }
                }
            // a masked store must not write unselected elements, not even their old value (C++ memory
            // model): the elements on the other side of the page boundary are read-only.
            // (Only where Vc uses a fault-suppressing masked store: maskmovdqu may fault for unselected bytes.)
            if (c.masked && !c.aligned && splitOk && !std::strstr(c.name, "Streaming")) {
                char *mid = g.lo() + 4096;
                for (size_t split = 1; split < N; ++split)
                    for (int side = 0; side < 2; ++side) {
                        U *p = reinterpret_cast<U *>(mid) - split;  // lanes < split on the first page
                        const uint64_t sel = side ? Full & ~((1ull << split) - 1) : (1ull << split) - 1;
                        std::memset(g.lo(), 0x3c, 8192);
                        mprotect(side ? g.lo() : mid, 4096, PROT_READ);
                        std::set<uint64_t> ms;
                        for (uint64_t m : masks) ms.insert(m & sel);
                        ms.erase(0);
                        for (uint64_t m : ms) {
                            for (size_t k = 0; k < N; ++k) in[k] = A[(split * 5 + k) % n];
                            ++C.states; ++C.transitions; C.checks += N;
                            s.at(2 + side, split, m);
                            c.f(p, &in[0], m);
                            for (size_t k = 0; k < N; ++k) if (((m >> k) & 1) && !same(p[k], static_cast<U>(in[k]))) { s.fail("split " + std::to_string(split) + " mask " + std::to_string(m), "lane " + std::to_string(k) + " got " + str(p[k])); break; }
                        }
                        mprotect(side ? g.lo() : mid, 4096, PROT_READ | PROT_WRITE);
                    }
            }
        }
    }
};

typedef decltype(Vc::Aligned | Vc::Streaming) AS;
typedef decltype(Vc::Unaligned | Vc::Streaming) US;
typedef decltype(Vc::Unaligned | Vc::PrefetchDefault) UP;
typedef decltype(Vc::Aligned | Vc::PrefetchDefault) AP;
typedef decltype(Vc::Unaligned | Vc::LoadStoreFlags::LoadStoreFlags<Vc::PrefetchFlag<64, 4096, Vc::Exclusive>>()) UE;
typedef decltype(Vc::Streaming | Vc::Aligned | Vc::PrefetchDefault) SP;

template <class V, class U> struct L {
    typedef typename V::EntryType T;
    static void out(const V &v, void *o) { v.store(static_cast<T *>(o), Vc::Unaligned); }
    template <class F> static void ctor(const void *m, void *o) { V v(static_cast<const U *>(m), F()); out(v, o); }
    template <class F> static void member(const void *m, void *o) { V v(T(7)); v.load(static_cast<const U *>(m), F()); out(v, o); }
    static void ctor0(const void *m, void *o) { V v(static_cast<const U *>(m)); out(v, o); }
    static void member0(const void *m, void *o) { V v(T(7)); v.load(static_cast<const U *>(m)); out(v, o); }
    static void run()
    {
        size_t al = V::Size * sizeof(U);
        while (al & (al - 1)) al += al & -al;
        if (al < alignof(U)) al = alignof(U);
        if (Vc::Traits::isSimdArray<V>::value) al = std::max<size_t>(al, 64);
        LoadCore<T, U>::run(vn<V>(), V::Size, al, {
            {"ctor()", false, ctor0}, {"load()", false, member0},
            {"ctor Unaligned", false, ctor<Vc::UnalignedTag>}, {"load Unaligned", false, member<Vc::UnalignedTag>},
            {"ctor Aligned", true, ctor<Vc::AlignedTag>}, {"load Aligned", true, member<Vc::AlignedTag>},
            {"load Aligned|Streaming", true, member<AS>}, {"load Unaligned|Streaming", false, member<US>}, {"load Streaming", true, member<Vc::StreamingTag>},
            {"load Unaligned|Prefetch", false, member<UP>}, {"ctor Aligned|Prefetch", true, ctor<AP>},
            {"load Unaligned|Prefetch<64,4096,Exclusive>", false, member<UE>}});
    }
};
template <class V, class U> struct S {
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    static V in(const void *i) { return V(static_cast<const T *>(i), Vc::Unaligned); }
    template <class F> static void full(void *m, const void *i, uint64_t) { in(i).store(static_cast<U *>(m), F()); }
    static void full0(void *m, const void *i, uint64_t) { in(i).store(static_cast<U *>(m)); }
    template <class F> static void masked(void *m, const void *i, uint64_t k) { in(i).store(static_cast<U *>(m), makem<M>(k), F()); }
    static void masked0(void *m, const void *i, uint64_t k) { in(i).store(static_cast<U *>(m), makem<M>(k)); }
    static void run()
    {
        size_t al = V::Size * sizeof(U);
        while (al & (al - 1)) al += al & -al;
        if (Vc::Traits::isSimdArray<V>::value) al = std::max<size_t>(al, 64);
        StoreCore<T>::template run<U>(vn<V>(), V::Size, al, VN<V>::n().find("AVX") == 0 && sizeof(T) >= 4, {
            {"store()", false, false, full0}, {"Unaligned", false, false, full<Vc::UnalignedTag>}, {"Aligned", true, false, full<Vc::AlignedTag>},
            {"Aligned|Streaming", true, false, full<AS>}, {"Unaligned|Streaming", false, false, full<US>},
            {"Unaligned|Prefetch", false, false, full<UP>}, {"Streaming|Aligned|Prefetch", true, false, full<SP>},
            {"masked", false, true, masked0}, {"masked Unaligned", false, true, masked<Vc::UnalignedTag>}, {"masked Aligned", true, true, masked<Vc::AlignedTag>},
            {"masked Aligned|Streaming", true, true, masked<AS>}, {"masked Unaligned|Streaming", false, true, masked<US>}, {"masked Aligned|Prefetch", true, true, masked<AP>}});
    }
};
template <class V> void loads(double) { L<V, double>::run(); L<V, float>::run(); L<V, int>::run(); L<V, Vc::uint>::run(); L<V, short>::run(); L<V, Vc::ushort>::run(); L<V, schar>::run(); L<V, uchar>::run(); S<V, double>::run(); }
template <class V> void loads(float) { L<V, float>::run(); L<V, double>::run(); L<V, int>::run(); L<V, Vc::uint>::run(); L<V, short>::run(); L<V, Vc::ushort>::run(); L<V, schar>::run(); L<V, uchar>::run(); S<V, float>::run(); }
template <class V> void loads(int) { L<V, int>::run(); L<V, Vc::uint>::run(); L<V, short>::run(); L<V, Vc::ushort>::run(); L<V, schar>::run(); L<V, uchar>::run(); S<V, int>::run(); }
template <class V> void loads(Vc::uint) { L<V, Vc::uint>::run(); L<V, Vc::ushort>::run(); L<V, uchar>::run(); S<V, Vc::uint>::run(); }
template <class V> void loads(short) { L<V, short>::run(); L<V, Vc::ushort>::run(); L<V, schar>::run(); L<V, uchar>::run(); S<V, short>::run(); }
template <class V> void loads(Vc::ushort) { L<V, Vc::ushort>::run(); L<V, uchar>::run(); S<V, Vc::ushort>::run(); }
template <class T> void types() { forAbis<T>([](auto t) { typedef typename decltype(t)::type V; loads<V>(T()); }); }
template <class V> void one() { loads<V>(typename V::EntryType()); }
void explore()
{
#if PART == 0
    types<double>(); types<float>();
#elif PART == 1
    types<int>(); types<Vc::uint>(); types<short>(); types<Vc::ushort>();
#else
    one<Vc::SimdArray<float, 3>>(); one<Vc::SimdArray<int, 5>>(); one<Vc::SimdArray<double, 7>>(); one<Vc::SimdArray<short, 11>>(); one<Vc::SimdArray<Vc::uint, 12>>(); one<Vc::SimdArray<Vc::ushort, 16>>();
#endif
}
