// C07: gathers and scatters access exactly the selected addresses.
#include "mc.h"
#include "masks.h"
#include "huge.h"
using namespace mc;

// kind of index type: bit 0: 16 bit (invalid indexes must fit), bit 1: unsigned
template <class T> struct Ix { enum { value = (sizeof(T) < 4 ? 1 : 0) | (std::is_unsigned<T>::value ? 2 : 0) }; };
struct GCase {
    const char *name;
    bool masked, ctor; int small;  // small: kind of index type (see Ix)
    void (*f)(const void *mem, const int *idx, uint64_t mask, const void *old, void *out);
};
struct XCase {
    const char *name;
    bool masked; int small;
    void (*f)(void *mem, const int *idx, uint64_t mask, const void *v);
};

// index vectors over [0, K): for N <= 2 all; otherwise every (lane, index) pair in several contexts
static std::vector<std::vector<int>> indexSet(size_t N, int K)
{
    std::set<std::vector<int>> q;
    if (N <= 2) {
        for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) q.insert(N == 1 ? std::vector<int>{a} : std::vector<int>{a, b});
    } else {
        for (int s = 0; s < K; ++s) {
            std::vector<int> id, rev, same, st2, st3, x1, hop;
            for (size_t i = 0; i < N; ++i) {
                const int n = int(i);
                id.push_back((n + s) % K); rev.push_back((K - 1 - n + s) % K < 0 ? (K * 4 - 1 - n + s) % K : (K - 1 - n + s) % K); same.push_back(s);
                st2.push_back((n * 2 + s) % K); st3.push_back((n * 3 + s) % K); x1.push_back(((n ^ 1) + s) % K); hop.push_back(n % 2 ? K - 1 - s : s);
            }
            for (auto &v : {id, rev, same, st2, st3, x1, hop}) q.insert(v);
            for (size_t l = 0; l < N; ++l) { std::vector<int> one(N, 0); one[l] = s; q.insert(one); std::vector<int> o2(N, K - 1); o2[l] = s; q.insert(o2); }
        }
        if (N == 4) { const int k = 4; for (int i = 0; i < k * k * k * k; ++i) q.insert({i % k, i / k % k, i / k / k % k, i / k / k / k}); }
    }
    return std::vector<std::vector<int>>(q.begin(), q.end());
}
template <class T, class MT> struct Core {
    // table contents: distinct small values, with boundary values representable in both types
    static std::vector<MT> table(int K)
    {
        std::vector<MT> b;
        for (MT x : alphabet<MT>(1)) {
            const long double v = x;
            if (!(v == v) || v < (long double)std::numeric_limits<T>::lowest() || v > (long double)std::numeric_limits<T>::max() || (std::is_integral<T>::value != std::is_integral<MT>::value && std::fabs(v) >= 2147483648.L)) {
                if (std::is_floating_point<T>::value && std::is_floating_point<MT>::value) b.push_back(x);
                continue;
            }
            b.push_back(x);
        }
        std::vector<MT> r;
        for (int i = 0; i < K; ++i) r.push_back(i % 3 == 2 ? b[(i * 29 + 5) % b.size()] : MT(i + 1));
        return r;
    }
    static const std::vector<int> &invalid(bool small)
    {
        static const std::vector<int> big = {INT_MAX, INT_MIN, 0x10000000, -0x10000000, 0x3fffffff}, sm = {32767, -32768, 32000, -30000, 20000};
        return small ? sm : big;
    }
    static std::string show(const std::vector<int> &idx, uint64_t m, int edge) { return "idx=" + str(idx) + " mask=" + std::to_string(m) + (edge == 1 ? " table at page begin" : edge == 0 ? " table at page end" : edge == 2 ? " negative indexes" : ""); }
    static void gathers(const std::string &vn, size_t N, const std::vector<GCase> &cases)
    {
        const int K = int(N) + 3;
        const auto tab = table(K);
        const auto masks = maskSet(N);
        const auto idxs = indexSet(N, K);
        Guarded g(4096);
        std::vector<T> old(N), out(N), want(N);
        for (size_t k = 0; k < N; ++k) old[k] = T(100 + k);
        for (auto &c : cases) {
            Site s(vn + " " + c.name + " from " + TN<MT>::n());
            if (!s.active()) continue;
            for (int edge = 0; edge < (c.small & 2 ? 2 : 3); ++edge) {
                MT *mem = edge == 1 ? g.atBegin<MT>() : g.atEnd<MT>(K);
                std::memcpy(mem, &tab[0], K * sizeof(MT));
                const int bias = edge == 2 ? K : 0;  // base pointer past the table, all indexes negative
                for (size_t q = 0; q < idxs.size(); ++q) {
                    const auto &idx = idxs[q];
                    for (size_t r = 0; r < (c.masked ? masks.size() : 1); ++r) {
                        const uint64_t m = c.masked ? masks[r] : (1ull << N) - 1;
                        if (c.masked && N > 4 && (r + q) % (g_thorough ? 2 : 5) && q > 4) continue;  // each index vector with every 5th mask; the first 5 with all
                        std::vector<int> ii(idx);
                        for (size_t k = 0; k < N; ++k) ii[k] = (m >> k) & 1 ? idx[k] - bias : invalid(c.small & 1)[(k + q + r) % 5];
                        for (size_t k = 0; k < N; ++k) want[k] = (m >> k) & 1 ? static_cast<T>(tab[idx[k]]) : c.ctor ? T(0) : old[k];
                        ++C.states; ++C.transitions; C.checks += N;
                        s.at(edge, q, m);
                        std::memset(&out[0], 0x77, N * sizeof(T));
                        c.f(mem + bias, &ii[0], m, &old[0], &out[0]);
                        uint64_t h = s.h;
                        for (size_t k = 0; k < N; ++k) {
                            h = mix(h, bits(out[k]));
                            if (!same(out[k], want[k])) { s.fail(show(ii, m, edge), "lane " + std::to_string(k) + " got " + str(out[k]) + " want " + str(want[k])); break; }
                        }
                        outcome(h);
                    }
                }
            }
        }
    }
    // the whole range of the index type: every lane x every boundary index
    static std::vector<uint64_t> wideMasks(size_t N, size_t l, bool masked)
    {
        const uint64_t F = (1ull << N) - 1;
        if (!masked) return {F};
        return {F, 1ull << l, F ^ (1ull << l)};
    }
    static void wide(const std::string &vn, size_t N, const std::vector<GCase> &gs, const std::vector<XCase> &xs)
    {
        Huge &h = Huge::i();
        MT *mem = reinterpret_cast<MT *>(h.zero);
        std::vector<T> old(N), out(N), want(N);
        for (size_t k = 0; k < N; ++k) old[k] = T(100 + k);
        for (auto &c : gs) {
            Site s(vn + " " + c.name + " from " + TN<MT>::n() + ", whole range of the index type");
            if (!s.active()) continue;
            const auto ix = h.indexes(c.small);
            const size_t K = ix.size();
            for (size_t q = 0; q < K; ++q) mem[ix[q]] = MT(q + 1);
            for (size_t l = 0; l < N; ++l) for (size_t q = 0; q < K; ++q) for (uint64_t m : wideMasks(N, l, c.masked)) for (int step : {0, 1, 7}) {
                std::vector<int> ii(N);
                std::vector<size_t> p(N);
                for (size_t k = 0; k < N; ++k) { p[k] = k == l ? q : step ? (q + (k + N - l) * step) % K : 3; ii[k] = int(ix[p[k]]); }
                for (size_t k = 0; k < N; ++k) want[k] = (m >> k) & 1 ? T(MT(p[k] + 1)) : c.ctor ? T(0) : old[k];
                ++C.states; ++C.transitions; C.checks += N;
                s.at(l, q, m);
                c.f(mem, &ii[0], m, &old[0], &out[0]);
                uint64_t o = s.h;
                for (size_t k = 0; k < N; ++k) {
                    o = mix(o, bits(out[k]));
                    if (!same(out[k], want[k])) { s.fail(show(ii, m, 3), "lane " + std::to_string(k) + " got " + str(out[k]) + " want " + str(want[k])); break; }
                }
                outcome(o);
            }
        }
        for (auto &c : xs) {
            Site s(vn + " " + c.name + " to " + TN<MT>::n() + ", whole range of the index type");
            if (!s.active()) continue;
            const auto ix = h.indexes(c.small);
            const size_t K = ix.size();
            std::vector<T> v(N);
            for (size_t q = 0; q < K; ++q) mem[ix[q]] = MT(q + 1);
            for (size_t l = 0; l < N; ++l) for (size_t q = 0; q < K; ++q) for (uint64_t m : wideMasks(N, l, c.masked)) {
                std::vector<int> ii(N);
                std::vector<size_t> p(N);
                for (size_t k = 0; k < N; ++k) { p[k] = (q + (k + N - l)) % K; ii[k] = int(ix[p[k]]); v[k] = T(64 + k); }
                ++C.states; ++C.transitions; C.checks += K;
                s.at(l, q, m);
                c.f(mem, &ii[0], m, &v[0]);
                asm volatile("" ::: "memory");
                uint64_t o = s.h;
                for (size_t k = 0; k < K; ++k) {
                    bool hit = false, ok = false;
                    for (size_t e = 0; e < N; ++e) if (((m >> e) & 1) && p[e] == k) { hit = true; ok = ok || same(mem[ix[k]], MT(v[e])); }
                    if (!hit) ok = same(mem[ix[k]], MT(k + 1));
                    o = mix(o, bits(mem[ix[k]]));
                    if (!ok) s.fail(show(ii, m, 3), "mem[" + std::to_string(ix[k]) + "] = " + str(mem[ix[k]]) + (hit ? " (addressed)" : " (not addressed)"));
                    mem[ix[k]] = MT(k + 1);
                }
                outcome(o);
            }
        }
    }
    static void scatters(const std::string &vn, size_t N, const std::vector<XCase> &cases)
    {
        const int K = int(N) + 3;
        const auto masks = maskSet(N);
        const auto idxs = indexSet(N, K);
        Guarded g(4096);
        std::vector<T> v(N);
        // values representable in both types
        std::vector<T> b;
        for (T x : alphabet<T>(1)) {
            const long double w = x;
            if (w == w && w >= (long double)std::numeric_limits<MT>::lowest() && w <= (long double)std::numeric_limits<MT>::max() && (std::is_integral<T>::value == std::is_integral<MT>::value || std::fabs(w) < 2147483648.L)) b.push_back(x);
        }
        for (auto &c : cases) {
            Site s(vn + " " + c.name + " to " + TN<MT>::n());
            if (!s.active()) continue;
            const size_t W = (K + 16) * sizeof(MT);
            std::vector<char> init(W);
            for (size_t i = 0; i < W; ++i) init[i] = char(0x41 + i * 11);
            for (int edge = 0; edge < 2; ++edge) {
                char *w0 = edge ? g.lo() : g.hi() - W;
                MT *mem = edge ? g.atBegin<MT>() : g.atEnd<MT>(K);
                for (size_t q = 0; q < idxs.size(); ++q) {
                    const auto &idx = idxs[q];
                    for (size_t r = 0; r < (c.masked ? masks.size() : 1); ++r) {
                        const uint64_t m = c.masked ? masks[r] : (1ull << N) - 1;
                        if (c.masked && N > 4 && (r + q) % (g_thorough ? 2 : 5) && q > 4) continue;
                        std::vector<int> ii(idx);
                        for (size_t k = 0; k < N; ++k) if (!((m >> k) & 1)) ii[k] = invalid(c.small & 1)[(k + q + r) % 5];
                        for (size_t k = 0; k < N; ++k) v[k] = (k + q) % 3 == 2 ? b[(k * 7 + q + r) % b.size()] : T(10 + k);
                        std::memcpy(w0, &init[0], W);
                        ++C.states; ++C.transitions; C.checks += K + 1;
                        s.at(edge, q, m);
                        c.f(mem, &ii[0], m, &v[0]);
                        asm volatile("" ::: "memory");
                        uint64_t h = s.h;
                        for (int e = 0; e < K; ++e) {
                            bool hit = false, ok = false;  // duplicates: any of the selected lanes may win
                            for (size_t k = 0; k < N; ++k) if (((m >> k) & 1) && idx[k] == e) { hit = true; ok = ok || same(mem[e], static_cast<MT>(v[k])); }
                            MT o; std::memcpy(&o, &init[(char *)(mem + e) - w0], sizeof o);
                            if (!hit) ok = bitsame(mem[e], o);
                            h = mix(h, bits(mem[e]));
                            if (!ok) { s.fail(show(ii, m, edge) + " v=" + str(v), "mem[" + std::to_string(e) + "] = " + str(mem[e]) + (hit ? " (addressed)" : " (not addressed) was " + str(o))); break; }
                        }
                        const size_t lo = (char *)mem - w0, hi = lo + K * sizeof(MT);
                        if (std::memcmp(w0, &init[0], lo) || (hi < W && std::memcmp(w0 + hi, &init[hi], W - hi))) s.fail(show(ii, m, edge), "memory outside the table changed");
                        outcome(h);
                    }
                }
            }
        }
    }
};
// ---- index argument kinds
template <class I> struct IxVec;
template <class I> struct IsVec : std::false_type {};
template <class I> struct IsVec<IxVec<I>> : std::true_type {};
template <class I> struct IxVec { enum { small = Ix<typename I::EntryType>::value }; typedef I type; static I mk(const int *p) { typename I::EntryType t[I::Size]; for (size_t k = 0; k < I::Size; ++k) t[k] = 0; for (size_t k = 0; k < cnt(); ++k) t[k] = p[k]; return I(&t[0], Vc::Unaligned); } static size_t &cnt() { static size_t n; return n; } };
template <class T, size_t N> struct IxArr { enum { small = Ix<T>::value }; static std::array<T, N> mk(const int *p) { std::array<T, N> t; for (size_t k = 0; k < N; ++k) t[k] = p[k]; return t; } };
template <class T, size_t N> struct IxVcArr { enum { small = Ix<T>::value }; static Vc::array<T, N> mk(const int *p) { Vc::array<T, N> t; for (size_t k = 0; k < N; ++k) t[k] = p[k]; return t; } };
template <class T, size_t N> struct IxStd { enum { small = Ix<T>::value }; static std::vector<T> mk(const int *p) { return std::vector<T>(p, p + N); } };
template <class T, size_t N> struct CArr { T a[N]; };

template <class V, class MT> struct G {
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    static V in(const void *p) { return V(static_cast<const T *>(p), Vc::Unaligned); }
    static void out(const V &v, void *p) { v.store(static_cast<T *>(p), Vc::Unaligned); }
    template <class I> static void ctor(const void *m, const int *i, uint64_t, const void *, void *o) { V v(static_cast<const MT *>(m), I::mk(i)); out(v, o); }
    template <class I> static void member(const void *m, const int *i, uint64_t, const void *old, void *o) { V v = in(old); v.gather(static_cast<const MT *>(m), I::mk(i)); out(v, o); }
    template <class I> static void ctorM(const void *m, const int *i, uint64_t k, const void *, void *o) { V v(static_cast<const MT *>(m), I::mk(i), makem<M>(k)); out(v, o); }
    template <class I> static void memberM(const void *m, const int *i, uint64_t k, const void *old, void *o) { V v = in(old); v.gather(static_cast<const MT *>(m), I::mk(i), makem<M>(k)); out(v, o); }
    template <class I> static void scat(void *m, const int *i, uint64_t, const void *v) { in(v).scatter(static_cast<MT *>(m), I::mk(i)); }
    template <class I> static void scatM(void *m, const int *i, uint64_t k, const void *v) { in(v).scatter(static_cast<MT *>(m), I::mk(i), makem<M>(k)); }
    static void ctorC(const void *m, const int *i, uint64_t, const void *, void *o) { int c[V::Size]; for (size_t k = 0; k < V::Size; ++k) c[k] = i[k]; V v(static_cast<const MT *>(m), c); out(v, o); }
    static void memberCM(const void *m, const int *i, uint64_t k, const void *old, void *o) { int c[V::Size]; for (size_t j = 0; j < V::Size; ++j) c[j] = i[j]; V v = in(old); v.gather(static_cast<const MT *>(m), c, makem<M>(k)); out(v, o); }
    static void scatCM(void *m, const int *i, uint64_t k, const void *v) { int c[V::Size]; for (size_t j = 0; j < V::Size; ++j) c[j] = i[j]; in(v).scatter(static_cast<MT *>(m), c, makem<M>(k)); }
    template <class I> static void kinds(const char *n, std::vector<GCase> &g, std::vector<XCase> &x, bool all)
    {
        static std::vector<std::string> names;
        names.reserve(100);
        auto nm = [&](const char *f) { names.push_back(std::string(f) + n + ")"); return names.back().c_str(); };
        g.push_back({nm("ctor("), false, true, int(I::small), ctor<I>});
        g.push_back({nm("gather("), false, false, int(I::small), member<I>});
        addScatter<I>(nm("scatter("), nm("masked scatter("), x, std::integral_constant<bool, (IsVec<I>::value || !Vc::Traits::isSimdArray<V>::value)>());
        masked<I>(nm, n, g, x, std::integral_constant<bool, true>());
    }
    // SimdArray::scatter takes index vectors only
    template <class I> static void addScatter(const char *a, const char *b, std::vector<XCase> &x, std::true_type) { x.push_back({a, false, int(I::small), scat<I>}); x.push_back({b, true, int(I::small), scatM<I>}); }
    template <class I> static void addScatter(const char *, const char *, std::vector<XCase> &, std::false_type) {}
    template <class I> static void addScatter1(const char *a, std::vector<XCase> &x, std::true_type) { x.push_back({a, false, int(I::small), scat<I>}); }
    template <class I> static void addScatter1(const char *, std::vector<XCase> &, std::false_type) {}
    template <class I, class F> static void masked(F nm, const char *, std::vector<GCase> &g, std::vector<XCase> &x, std::true_type)
    {
        g.push_back({nm("masked ctor("), true, true, int(I::small), ctorM<I>});
        g.push_back({nm("masked gather("), true, false, int(I::small), memberM<I>});
    }
    template <class I> static void unmasked(const char *n, std::vector<GCase> &g, std::vector<XCase> &x)
    {
        static std::vector<std::string> names;
        names.reserve(100);
        auto nm = [&](const char *f) { names.push_back(std::string(f) + n + ")"); return names.back().c_str(); };
        g.push_back({nm("ctor("), false, true, int(I::small), ctor<I>});
        g.push_back({nm("gather("), false, false, int(I::small), member<I>});
        addScatter1<I>(nm("scatter("), x, std::integral_constant<bool, !Vc::Traits::isSimdArray<V>::value>());
    }
    static void addC(std::vector<XCase> &x, std::true_type) { x.push_back({"masked scatter(int[N])", true, 0, scatCM}); }
    static void addC(std::vector<XCase> &, std::false_type) {}
    static void run(bool allKinds)
    {
        std::vector<GCase> g;
        std::vector<XCase> x;
        typedef typename V::IndexType IX;
        IxVec<IX>::cnt() = V::Size;
        kinds<IxVec<IX>>("IndexType", g, x, true);
        more(g, x, std::is_same<T, MT>());
        Core<T, MT>::gathers(vn<V>(), V::Size, g);
        Core<T, MT>::scatters(vn<V>(), V::Size, x);
        Core<T, MT>::wide(vn<V>(), V::Size, g, x);
    }
    static void more(std::vector<GCase> &, std::vector<XCase> &, std::false_type) {}
    static void more(std::vector<GCase> &g, std::vector<XCase> &x, std::true_type)
    {
        typedef Vc::SimdArray<int, V::Size + 3> Large;
        IxVec<Large>::cnt() = V::Size;
        kinds<IxVec<Large>>("SimdArray<int,N+3>", g, x, true);
        typedef Vc::SimdArray<short, V::Size> Short;
        IxVec<Short>::cnt() = V::Size;
        kinds<IxVec<Short>>("SimdArray<short,N>", g, x, true);
        typedef Vc::SimdArray<Vc::ushort, V::Size> UShort;
        IxVec<UShort>::cnt() = V::Size;
        kinds<IxVec<UShort>>("SimdArray<ushort,N>", g, x, true);
        typedef Vc::SimdArray<Vc::uint, V::Size> UInt;
        IxVec<UInt>::cnt() = V::Size;
        kinds<IxVec<UInt>>("SimdArray<uint,N>", g, x, true);
        kinds<IxArr<int, V::Size>>("std::array<int>", g, x, true);
        kinds<IxVcArr<int, V::Size>>("Vc::array<int>", g, x, true);
        kinds<IxArr<short, V::Size>>("std::array<short>", g, x, true);
        kinds<IxArr<Vc::ushort, V::Size>>("std::array<ushort>", g, x, true);
        unmasked<IxStd<int, V::Size>>("std::vector<int>", g, x);
        g.push_back({"ctor(int[N])", false, true, 0, ctorC});
        g.push_back({"masked gather(int[N])", true, false, 0, memberCM});
        addC(x, std::integral_constant<bool, !Vc::Traits::isSimdArray<V>::value>());
    }
};
template <class V> void all()
{
    G<V, double>::run(true); G<V, float>::run(true); G<V, int>::run(true); G<V, Vc::uint>::run(true);
    G<V, short>::run(true); G<V, Vc::ushort>::run(true); G<V, schar>::run(true); G<V, uchar>::run(true);
}
template <class T> void types() { forAbis<T>([](auto t) { all<typename decltype(t)::type>(); }); }
void explore()
{
#if PART == 0
    types<double>();
#elif PART == 1
    types<float>();
#elif PART == 2
    types<int>();
#elif PART == 3
    types<Vc::uint>();
#elif PART == 4
    types<short>();
#elif PART == 5
    types<Vc::ushort>();
#elif PART == 6
    G<Vc::SimdArray<float, 3>, float>::run(true); G<Vc::SimdArray<int, 5>, int>::run(true); G<Vc::SimdArray<int, 5>, schar>::run(true);
#elif PART == 7
    G<Vc::SimdArray<double, 7>, double>::run(true); G<Vc::SimdArray<double, 7>, float>::run(true); G<Vc::SimdArray<short, 9>, short>::run(true); G<Vc::SimdArray<short, 9>, uchar>::run(true);
#elif PART == 8
    G<Vc::SimdArray<float, 12>, float>::run(true); G<Vc::SimdArray<Vc::ushort, 17>, Vc::ushort>::run(true);
#endif
}
