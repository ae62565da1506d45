// C28: operations on memory write exactly the addressed elements - at every instruction boundary, under every
// schedule of a second thread that writes all the other bytes. (No read-modify-write of neighbours, unselected
// lanes, padding or other struct members; operations that only read do not write at all.)
#include "interleave.h"
#include "masks.h"
#include <Vc/Memory>
#include <Vc/array>
#include <Vc/simdize>
#include <Vc/algorithm>
#include <tuple>
using namespace mc;

template <class T, int S> struct Str { T m[S]; };
template <class T> struct Three { T a, b, c; };
#define OFF 512

template <class V> struct Run {
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    typedef typename V::IndexType IX;
    enum { N = V::Size };
    typedef Lanes<V> L;
    const std::string n = vn<V>();
    Sched &S = Sched::i();
    L x;
    Run() { for (int i = 0; i < N; ++i) x[i] = T(100 + i * 3); }
    std::vector<uint64_t> masks()
    {
        if (N <= 4 || g_thorough) return maskSet(N);
        std::vector<uint64_t> r; const uint64_t F = (1ull << N) - 1;
        std::set<uint64_t> q = {0, F, F & 0x5555555555555555ull, F & 0xaaaaaaaaaaaaaaaaull, F & 0x3333333333333333ull, F & 0x6666666666666666ull, F & 0x0f0f0f0f0f0f0f0full, F & 0x6969};
        for (int i = 0; i < N; ++i) { q.insert(1ull << i); q.insert(F ^ (1ull << i)); q.insert((1ull << i) - 1); q.insert(F ^ ((1ull << i) - 1)); }
        return {q.begin(), q.end()};
    }
    static std::string ms(uint64_t m) { char b[32]; snprintf(b, sizeof b, "mask=0x%llx", (unsigned long long)m); return b; }
    T *at(size_t o) { return reinterpret_cast<T *>(S.bytes() + o); }
    std::vector<Sched::Write> lanes(size_t o, uint64_t m) { std::vector<Sched::Write> w; for (int i = 0; i < N; ++i) if ((m >> i) & 1) w.push_back({o + i * sizeof(T), sizeof(T), &x[i]}); return w; }

    template <class F> void stores(const char *fn, bool aligned)
    {
        Site s(n + " store(mem, " + fn + ")"), s2(n + " store(mem, mask, " + fn + ")");
        const V v = make<V>(x);
        const uint64_t Full = (1ull << N) - 1;
        for (size_t o : {size_t(OFF), size_t(OFF) + sizeof(T), size_t(OFF) + 5 * sizeof(T)}) {
            if (aligned && o != OFF) continue;
            T *p = at(o);
            s.at(o);
            if (s.active()) S.explore(s, OFF, 256, lanes(o, Full), true, [&] { v.store(p, F()); }, [&] { return "offset " + std::to_string((o - OFF) / sizeof(T)); });
            if (!s2.active()) continue;
            size_t c = 0;
            for (uint64_t m : masks()) {
                const M k = makem<M>(m);
                s2.at(o, m);
                S.explore(s2, OFF, 256, lanes(o, m), c++ % 7 == 3 || g_thorough, [&] { v.store(p, k, F()); }, [&] { return ms(m) + " offset " + std::to_string((o - OFF) / sizeof(T)); });
            }
        }
    }
    template <class F> void loads(const char *fn)
    {
        Site s(n + " load(mem, " + fn + ")");
        if (!s.active()) return;
        V v;
        const T *p = at(OFF);
        S.explore(s, OFF, 256, {}, false, [&] { v.load(p, F()); }, [&] { return std::string("load"); });
        S.explore(s, OFF, 256, {}, false, [&] { v = V(p, F()); }, [&] { return std::string("constructor"); });
    }
    void maskIO()
    {
        Site s(n + "::Mask store(bool *), load(bool *)");
        if (!s.active()) return;
        bool *p = reinterpret_cast<bool *>(S.bytes() + OFF);
        for (uint64_t m : masks()) {
            const M k = makem<M>(m);
            bool b[N]; std::vector<Sched::Write> w;
            for (size_t o : {0, 1}) {
                w.clear();
                for (int i = 0; i < N; ++i) { b[i] = (m >> i) & 1; w.push_back({OFF + o * N + i, 1, &b[i]}); }
                s.at(m, o);
                S.explore(s, OFF, 64, w, m == 1, [&] { k.store(p + o * N); }, [&] { return ms(m) + " offset " + std::to_string(o * N); });
            }
        }
    }
    static IX mkIdx(const std::vector<int> &p) { typename IX::EntryType t[N]; for (int k = 0; k < N; ++k) t[k] = p[k]; return IX(&t[0], Vc::Unaligned); }
    std::vector<std::vector<int>> perms(int K)
    {
        std::set<std::vector<int>> q;
        std::vector<int> id, rev, st, sw;
        for (int i = 0; i < N; ++i) { id.push_back(i); rev.push_back(N - 1 - i); st.push_back((3 * i + 1) % K); sw.push_back((i ^ 1) < K ? (i ^ 1) : i); }
        q.insert(id); q.insert(rev); q.insert(st); q.insert(sw);
        return {q.begin(), q.end()};
    }
    static constexpr int Kidx() { return (N + 3) % 3 == 0 ? N + 4 : N + 3; }
    void scatters()
    {
        const int K = Kidx();
        typedef Vc::array<T, Kidx()> Arr;
        typedef Vc::array<Three<T>, Kidx()> Arr3;
        Site s(n + " scatter"), s2(n + " scatter(mask)"), s3(n + " array[indexes] = v"), s4(n + " where(mask) | array[indexes] = v"), s5(n + " array[indexes][&S::b] = v"), s6(n + " where(mask) | array[indexes][&S::b] = v"), g1(n + " gathers do not write");
        const V v = make<V>(x);
        Arr &a = *reinterpret_cast<Arr *>(S.bytes() + OFF);
        Arr3 &a3 = *reinterpret_cast<Arr3 *>(S.bytes() + OFF);
        for (auto &p : perms(K)) {
            const IX ix = mkIdx(p);
            auto in = [&] { return "indexes " + str(p); };
            auto wr = [&](uint64_t m, size_t stride, size_t off) { std::vector<Sched::Write> w; for (int i = 0; i < N; ++i) if ((m >> i) & 1) w.push_back({OFF + (p[i] * stride + off) * sizeof(T), sizeof(T), &x[i]}); return w; };
            const uint64_t Full = (1ull << N) - 1;
            const size_t E = (K * 3 + 8) * sizeof(T);
            s.at(p[0], p[N - 1]);
            S.explore(s, OFF, E, wr(Full, 1, 0), true, [&] { v.scatter(at(OFF), ix); }, in);
            S.explore(s, OFF, E, wr(Full, 1, 0), false, [&] { v.scatter(at(OFF), &p[0]); }, [&] { return in() + " int array"; });
            S.explore(s3, OFF, E, wr(Full, 1, 0), false, [&] { a[ix] = v; }, in);
            S.explore(s5, OFF, E, wr(Full, 3, 1), false, [&] { a3[ix][&Three<T>::b] = v; }, in);
            V t;
            S.explore(g1, OFF, E, {}, false, [&] { t.gather(at(OFF), ix); }, in);
            S.explore(g1, OFF, E, {}, false, [&] { t = a[ix]; }, in);
            size_t c = 0;
            for (uint64_t m : masks()) {
                const M k = makem<M>(m);
                auto in2 = [&] { return in() + " " + ms(m); };
                s2.at(p[0], p[N - 1], m);
                const bool some = c++ % 16 == 3;
                S.explore(s2, OFF, E, wr(m, 1, 0), some, [&] { v.scatter(at(OFF), ix, k); }, in2);
                S.explore(s2, OFF, E, wr(m, 1, 0), false, [&] { v.scatter(at(OFF), &p[0], k); }, [&] { return in2() + " int array"; });
                S.explore(s4, OFF, E, wr(m, 1, 0), false, [&] { Vc::where(k) | a[ix] = v; }, in2);
                S.explore(s6, OFF, E, wr(m, 3, 1), false, [&] { Vc::where(k) | a3[ix][&Three<T>::b] = v; }, in2);
                S.explore(g1, OFF, E, {}, false, [&] { t.gather(at(OFF), ix, k); }, in2);
            }
        }
    }
    template <int SS, size_t k, size_t... J> void inter(Vc::index_sequence<J...>)
    {
        typedef Str<T, SS> St;
        Site s(n + " interleaved[indexes] = tie, S=" + std::to_string(SS) + " k=" + std::to_string(k)), s2(n + " interleaved[first] = tie, S=" + std::to_string(SS) + " k=" + std::to_string(k));
        const int K = Kidx();
        V v[k]; L xs[k];
        for (size_t j = 0; j < k; ++j) { for (int i = 0; i < N; ++i) xs[j][i] = T(7 + 40 * j + i); v[j] = make<V>(xs[j]); }
        Vc::InterleavedMemoryWrapper<St, V> w(reinterpret_cast<St *>(S.bytes() + OFF));
        const size_t E = K * sizeof(St);
        auto wr = [&](const std::vector<int> &p) { std::vector<Sched::Write> q; for (int i = 0; i < N; ++i) for (size_t j = 0; j < k; ++j) q.push_back({OFF + (p[i] * SS + j) * sizeof(T), sizeof(T), &xs[j][i]}); return q; };
        for (auto &p : perms(K)) {
            if (!s.active()) break;
            const IX ix = mkIdx(p);
            s.at(p[0], p[N - 1]);
            S.explore(s, OFF, E, wr(p), g_thorough, [&] { w[ix] = Vc::tie(v[J]...); }, [&] { return "indexes " + str(p); });
            V r[k];
            S.explore(s, OFF, E, {}, false, [&] { Vc::tie(r[J]...) = w[ix]; }, [&] { return "read indexes " + str(p); });
        }
        if (s2.active()) for (size_t f : {0, 1, 3}) {
            std::vector<int> p; for (int i = 0; i < N; ++i) p.push_back(int(f) + i);
            s2.at(f);
            S.explore(s2, OFF, E, wr(p), g_thorough, [&] { w[f] = Vc::tie(v[J]...); }, [&] { return "first=" + std::to_string(f); });
        }
    }
    template <int SS> void interS()
    {
        inter<SS, 2>(Vc::make_index_sequence<2>());
        inter<(SS < 3 ? 3 : SS), 3>(Vc::make_index_sequence<3>());
        inter<(SS < 4 ? 4 : SS), 4>(Vc::make_index_sequence<4>());
        inter<(SS < 5 ? 5 : SS), 5>(Vc::make_index_sequence<5>());
        inter<(SS < 6 ? 6 : SS), 6>(Vc::make_index_sequence<6>());
        inter<(SS < 7 ? 7 : SS), 7>(Vc::make_index_sequence<7>());
        inter<(SS < 8 ? 8 : SS), 8>(Vc::make_index_sequence<8>());
    }
    void memory()
    {
        typedef Vc::Memory<V, 2 * N + 1> Mem;
        Site s(n + " Memory element and vector assignment");
        if (!s.active()) return;
        Mem *m = reinterpret_cast<Mem *>(S.bytes() + OFF);
        const V v = make<V>(x);
        const T e = T(77);
        const uint64_t Full = (1ull << N) - 1;
        const size_t E = sizeof(Mem), b = reinterpret_cast<char *>(&(*m)[0]) - S.bytes();
        for (size_t i = 0; i < 2 * N + 1; ++i) {
            s.at(i, 0);
            S.explore(s, OFF, E, {{b + i * sizeof(T), sizeof(T), &e}}, i < 2, [&] { (*m)[i] = e; }, [&] { return "mem[" + std::to_string(i) + "] = x"; });
            S.explore(s, OFF, E, {{b + i * sizeof(T), sizeof(T), &e}}, false, [&] { m->scalar(i) = e; }, [&] { return "mem.scalar(" + std::to_string(i) + ") = x"; });
        }
        for (size_t i = 0; i < m->vectorsCount(); ++i) {
            s.at(i, 1);
            S.explore(s, OFF, E, lanes(b + i * N * sizeof(T), Full), i == 0, [&] { m->vector(i) = v; }, [&] { return "mem.vector(" + std::to_string(i) + ") = v"; });
            S.explore(s, OFF, E, lanes(b + i * N * sizeof(T), Full), i == 0, [&] { m->vector(i, Vc::Streaming) = v; }, [&] { return "mem.vector(" + std::to_string(i) + ", Streaming) = v"; });
        }
        for (size_t i = 0; i + N <= 2 * N + 1; ++i) {
            s.at(i, 2);
            S.explore(s, OFF, E, lanes(b + i * sizeof(T), Full), false, [&] { m->vectorAt(i, Vc::Unaligned) = v; }, [&] { return "mem.vectorAt(" + std::to_string(i) + ") = v"; });
            if (i < N) S.explore(s, OFF, E, lanes(b + i * sizeof(T), Full), false, [&] { m->vector(size_t(0), int(i)) = v; }, [&] { return "mem.vector(0, " + std::to_string(i) + ") = v"; });
            V r;
            S.explore(s, OFF, E, {}, false, [&] { r = m->vectorAt(i, Vc::Unaligned); }, [&] { return "v = mem.vectorAt(" + std::to_string(i) + ")"; });
        }
    }
    void interAll(std::true_type) { interS<2>(); interS<9>(); }
    void interAll(std::false_type) {}  // SimdArray: no interleaved memory with tie of SimdArrays
    template <bool Inter> void all()
    {
        stores<Vc::UnalignedTag>("Unaligned", false);
        stores<Vc::AlignedTag>("Aligned", true);
        stores<decltype(Vc::Streaming)>("Streaming", true);
        stores<decltype(Vc::Streaming | Vc::Unaligned)>("Streaming | Unaligned", false);
        stores<decltype(Vc::PrefetchDefault)>("PrefetchDefault", true);
        loads<Vc::UnalignedTag>("Unaligned"); loads<Vc::AlignedTag>("Aligned"); loads<decltype(Vc::Streaming)>("Streaming"); loads<decltype(Vc::PrefetchDefault)>("PrefetchDefault");
        maskIO(); scatters();
        interAll(std::integral_constant<bool, Inter>());
    }
};
template <class T> struct Alg {
    Sched &S = Sched::i();
    struct Set { template <class X> void operator()(X &v) const { v = X(T(9)); } };
    struct Look { T *out; template <class X> void operator()(X v) const { *out = T(*out + v[0]); } };
    void run()
    {
        Site s(std::string("simd_for_each<") + TN<T>::n() + ">"), s2(std::string("simd_for_each_n<") + TN<T>::n() + ">");
        T *p = reinterpret_cast<T *>(S.bytes() + OFF);
        const T nine = T(9);
        const int Z = Vc::Vector<T>::Size;
        for (int a : {0, 1})
            for (int n = 0; n <= 2 * Z + 1 && n <= 20; ++n) {
                std::vector<Sched::Write> w; for (int i = 0; i < n; ++i) w.push_back({OFF + (a + i) * sizeof(T), sizeof(T), &nine});
                auto in = [&] { return "[" + std::to_string(a) + ", " + std::to_string(a + n) + ")"; };
                s.at(a, n); s2.at(a, n);
                S.explore(s, OFF, 192, w, n == Z + 1, [&] { Vc::simd_for_each(p + a, p + a + n, Set()); }, in);
                S.explore(s2, OFF, 192, w, n == Z + 1, [&] { Vc::simd_for_each_n(p + a, n, Set()); }, in);
                T sum = 0;
                S.explore(s, OFF, 192, {}, false, [&] { Vc::simd_for_each(p + a, p + a + n, Look{&sum}); }, [&] { return "read-only " + in(); });
                S.explore(s2, OFF, 192, {}, false, [&] { Vc::simd_for_each_n(p + a, n, Look{&sum}); }, [&] { return "read-only " + in(); });
            }
    }
};
// prefetches read nothing and write nothing, whatever the address
inline void prefetches()
{
    Sched &S = Sched::i();
    static char *const none = static_cast<char *>(mmap(nullptr, 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    struct F { const char *n; void (*f)(const void *); };
    static const F fs[] = {{"prefetchForOneRead", [](const void *p) { Vc::prefetchForOneRead(p); }}, {"prefetchForModify", [](const void *p) { Vc::prefetchForModify(p); }}, {"prefetchClose", [](const void *p) { Vc::prefetchClose(p); }},
                           {"prefetchMid", [](const void *p) { Vc::prefetchMid(p); }}, {"prefetchFar", [](const void *p) { Vc::prefetchFar(p); }}};
    for (const F &f : fs) {
        Site s(f.n);
        if (!s.active()) continue;
        for (size_t o = 0; o < 128; ++o) {
            s.at(o);
            S.explore(s, OFF, 128, {}, o < 2, [&] { f.f(S.bytes() + OFF + o); }, [&] { return "offset " + std::to_string(o); });
        }
        for (const char *p : {static_cast<const char *>(nullptr), static_cast<const char *>(none), static_cast<const char *>(none) + 4095, reinterpret_cast<const char *>(~uintptr_t(0)), reinterpret_cast<const char *>(uintptr_t(1) << 62)}) {
            s.at(uintptr_t(p) == 0 ? 1000 : 1001, uintptr_t(p) >> 60);
            S.explore(s, OFF, 128, {}, false, [&] { f.f(p); }, [&] { return "an address that is not mapped"; });
        }
    }
}
template <class Tup> struct Sz {
    typedef Vc::simdize<Tup> ST;
    void run(const char *nm)
    {
        Sched &S = Sched::i();
        Site s(std::string("simdize<") + nm + "> store_interleaved, load_interleaved");
        if (!s.active()) return;
        Tup *p = reinterpret_cast<Tup *>(S.bytes() + OFF);
        const int Z = ST::size();
        std::vector<Tup> v(Z);
        for (int i = 0; i < Z; ++i) fill(v[i], i, std::integral_constant<size_t, std::tuple_size<Tup>::value>());
        for (int f : {0, 1, 2}) {
            std::vector<Sched::Write> w;
            for (int i = 0; i < Z; ++i) members(w, OFF + (f + i) * sizeof(Tup), v[i], std::integral_constant<size_t, std::tuple_size<Tup>::value>());
            ST x; load_interleaved(x, &v[0]);
            s.at(f);
            S.explore(s, OFF, (Z + 3) * sizeof(Tup), w, f == 0, [&] { store_interleaved(x, p + f); }, [&] { return "store at " + std::to_string(f); });
            S.explore(s, OFF, (Z + 3) * sizeof(Tup), {}, false, [&] { load_interleaved(x, p + f); }, [&] { return "load at " + std::to_string(f); });
        }
    }
    static void fill(Tup &, int, std::integral_constant<size_t, 0>) {}
    template <size_t I> static void fill(Tup &t, int i, std::integral_constant<size_t, I>) { std::get<I - 1>(t) = typename std::tuple_element<I - 1, Tup>::type(3 + i * 5 + I); fill(t, i, std::integral_constant<size_t, I - 1>()); }
    static void members(std::vector<Sched::Write> &, size_t, Tup &, std::integral_constant<size_t, 0>) {}
    template <size_t I> static void members(std::vector<Sched::Write> &w, size_t o, Tup &t, std::integral_constant<size_t, I>)
    {
        auto &e = std::get<I - 1>(t);
        w.push_back({o + size_t(reinterpret_cast<char *>(&e) - reinterpret_cast<char *>(&t)), sizeof e, &e});
        members(w, o, t, std::integral_constant<size_t, I - 1>());
    }
};
template <class T> struct PerAbi { template <class X> void operator()(X) const { Run<typename X::type> r; r.template all<true>(); r.memory(); } };
template <class T> void types() { forAbis<T>(PerAbi<T>()); 
#ifndef Vc_IMPL_Scalar
    forAbisScalar<T>(PerAbi<T>());
#endif
}
template <class T, size_t N> void arr() { Run<Vc::SimdArray<T, N>> r; r.template all<false>(); }
void explore()
{
#if PART == 0
    types<double>(); Alg<double>().run(); prefetches();
#elif PART == 1
    types<float>(); Alg<float>().run();
#elif PART == 2
    types<int>(); Alg<int>().run();
#elif PART == 3
    types<Vc::uint>(); Alg<Vc::uint>().run();
#elif PART == 4
    types<short>(); Alg<short>().run();
#elif PART == 5
    types<Vc::ushort>(); Alg<Vc::ushort>().run();
#elif PART == 6
    arr<float, 1>(); arr<float, 3>(); arr<float, 7>(); arr<double, 3>(); arr<double, 5>(); arr<float, 12>();
    Sz<std::tuple<float, float, float>>().run("tuple<float,float,float>"); Sz<std::tuple<double, double>>().run("tuple<double,double>");
#elif PART == 7
    arr<int, 3>(); arr<int, 9>(); arr<short, 3>(); arr<short, 5>(); arr<short, 11>(); arr<Vc::ushort, 9>(); arr<Vc::uint, 5>();
    Sz<std::tuple<short, short, short>>().run("tuple<short,short,short>"); Sz<std::tuple<int, int>>().run("tuple<int,int>");
#endif
}
