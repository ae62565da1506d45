// C08: interleaved memory access and deinterleave move every member to/from exactly its place.
#include "mc.h"
#include "huge.h"
using namespace mc;

// maskmovdqu (opt-in Vc_USE_MASKMOV_SCATTER) may fault for masked-off bytes on this CPU: keep 16 bytes (checked to stay unchanged) behind the array
#ifdef Vc_USE_MASKMOV_SCATTER
enum { Slack = 16 };
#else
enum { Slack = 0 };
#endif
struct Case {
    std::string name;
    int S, k;       // struct size (in entries), number of vectors
    bool write, succ;
    void (*f)(void *mem, const int *idx, void *vecs);  // vecs: k*N entries, in (write) or out (read)
};
template <class T, int S> struct Str { T m[S]; };

template <class T> T raw(uint64_t u) { T x; std::memcpy(&x, &u, sizeof x); return x; }
// distinct raw bit patterns (integers: all distinct; floats: includes NaN payloads, denormals, infinities)
template <class T> T pattern(unsigned n)
{
    if (sizeof(T) == 2) return raw<T>(0x8101 + n * 0x0123 + (n % 5) * 0x1000);
    const uint64_t special[] = {0x7fa00001, 0xff812345, 1, 0x80000000, 0x7f800000, 0x7fc0dead};
    if (sizeof(T) == 4) return raw<T>(n % 7 == 3 ? special[n / 7 % 6] ^ (n << 8 & 0xff00) : 0x3f000000u + n * 0x10203u + (n % 3) * 0x80000000u);
    return raw<T>(n % 7 == 3 ? 0x7ff4000000000000ull + n : 0x3ff0000012345678ull * (n % 2 + 1) + n * 0x0001020304050607ull);
}

template <class T> struct Core {
    static std::string show(const Case &c, const std::vector<int> &idx, int edge) { return std::string(c.succ ? "first=" : "idx=") + (c.succ ? std::to_string(idx[0]) : str(idx)) + (edge == 0 ? " array at page end" : edge == 1 ? " array at page begin" : edge == 2 ? " negative indexes" : " in a large array"); }
    static std::vector<std::vector<int>> indexes(size_t N, int K, bool succ, bool unique)
    {
        std::set<std::vector<int>> q;
        if (succ) { for (int f = 0; f + int(N) <= K; ++f) q.insert({f}); return {q.begin(), q.end()}; }
        if (N == 1) for (int a = 0; a < K; ++a) q.insert({a});
        if (N == 2) for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) if (!unique || a != b) q.insert({a, b});
        if (N >= 4) {
            for (int s = 0; s < K; ++s) {
                std::vector<int> id, rev, x1, x4;
                for (size_t i = 0; i < N; ++i) { const int n = int(i); id.push_back((n + s) % K); rev.push_back((2 * K - 1 - n + s) % K); x1.push_back(((n ^ 1) + s) % K); x4.push_back(((n ^ int(N / 2)) + s) % K); }
                for (auto &v : {id, rev, x1, x4}) q.insert(v);
                // stride 3 (K chosen coprime to 3): a permutation without fixed neighbours
                std::vector<int> st; for (size_t i = 0; i < N; ++i) st.push_back(int(i * 3 + s) % K); q.insert(st);
                if (!unique) { q.insert(std::vector<int>(N, s)); for (size_t l = 0; l < N; ++l) { std::vector<int> one(N, 0); one[l] = s; q.insert(one); } }
            }
            std::vector<int> p; for (size_t i = 0; i < N; ++i) p.push_back(int(i));
            if (N == 4) do q.insert(p); while (std::next_permutation(p.begin(), p.end()));
            else for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < a; ++b) { auto r = p; std::swap(r[a], r[b]); q.insert(r); }
        }
        return {q.begin(), q.end()};
    }
    // far apart structs: element offsets up to 2^31 (index vectors of int) and 2^32 (first index)
    static void wide(Site &s, size_t N, const Case &c)
    {
        T *mem = reinterpret_cast<T *>(Huge::i().zero);
        const long long top = (1ll << std::min(Huge::i().bits, c.succ ? 32 : 31)) / c.S - (long long)N - 1;
        std::set<long long> q = {0, 4095, 32767, 32768, 65535, 65536, (1 << 24) + 1, top / 2 - 1, top / 2 + 1, top};
        for (long long b : {1ll << 15, 1ll << 16, 1ll << 31}) for (int d = -2; d < 2; ++d) q.insert(b / c.S + d);
        std::vector<long long> bases;
        for (long long b : q) if (b <= top && b < (1ll << 31) - 40) bases.push_back(b);
        const size_t B = bases.size();
        std::vector<long long> at(N);
        std::vector<int> ii(N);
        std::vector<T> v(c.k * N), want(c.k * N);
        for (size_t x = 0; x < B; ++x) {
            for (size_t i = 0; i < N; ++i) { at[i] = (c.succ ? bases[x] : bases[(x + i) % B]) + (long long)i; ii[i] = int(at[i]); }
            for (size_t i = 0; i < N; ++i) for (int m = 0; m < c.S; ++m) { const T t = pattern<T>(x + i * c.S + m); std::memcpy(mem + at[i] * c.S + m, &t, sizeof t); }
            for (size_t e = 0; e < v.size(); ++e) v[e] = pattern<T>(300 + e + x);
            if (!c.write) { for (int j = 0; j < c.k; ++j) for (size_t i = 0; i < N; ++i) want[j * N + i] = pattern<T>(x + i * c.S + j); std::memset(&v[0], 0x5a, v.size() * sizeof(T)); }
            ++C.states; ++C.transitions; C.checks += c.k * N;
            s.at(3, x);
            c.f(mem, &ii[0], &v[0]);
            asm volatile("" ::: "memory");
            uint64_t h = s.h;
            if (!c.write) for (size_t e = 0; e < v.size(); ++e) {
                h = mix(h, bits(v[e]));
                if (!bitsame(v[e], want[e])) { s.fail(show(c, ii, 3), "vector " + std::to_string(e / N) + " lane " + std::to_string(e % N) + " got " + str(v[e]) + " want " + str(want[e])); break; }
            }
            for (size_t i = 0; i < N; ++i) for (int m = 0; m < c.S; ++m) {
                const T t = c.write && m < c.k ? v[m * N + i] : pattern<T>(x + i * c.S + m);
                if (!bitsame(mem[at[i] * c.S + m], t)) s.fail(show(c, ii, 3), "memory differs at struct " + std::to_string(at[i]) + " member " + std::to_string(m));
            }
            outcome(mix(h, x));
        }
    }
    static void run(const std::string &vn, size_t N, const std::vector<Case> &cases)
    {
        int K = int(N) + 3;
        if (K % 3 == 0) ++K;
        Guarded g(2 * 4096);
        for (auto &c : cases) {
            Site s(vn + " " + c.name + " S=" + std::to_string(c.S) + " k=" + std::to_string(c.k));
            if (!s.active()) continue;
            const auto idxs = indexes(N, K, c.succ, c.write);
            const size_t E = size_t(K) * c.S;
            wide(s, N, c);
            for (int edge = 0; edge < (c.succ ? 2 : 3); ++edge) {
                T *mem = edge == 1 ? g.atBegin<T>() : g.atEnd<T>(E + Slack / sizeof(T));
                const size_t W = (E + 32) * sizeof(T);
                char *w0 = edge == 1 ? g.lo() : g.hi() - W;
                std::vector<char> init(W), now(W);
                for (size_t i = 0; i < W; ++i) init[i] = char(0x35 + i * 13);
                for (size_t e = 0; e < E; ++e) { T t = pattern<T>(e); std::memcpy(&init[0] + ((char *)(mem + e) - w0), &t, sizeof t); }
                const int bias = edge == 2 ? K : 0;
                for (size_t q = 0; q < idxs.size(); ++q) {
                    const auto &idx = idxs[q];
                    std::vector<int> ii(N);
                    for (size_t i = 0; i < N; ++i) ii[i] = (c.succ ? idx[0] + (int)i : idx[i]) - bias;
                    std::memcpy(w0, &init[0], W);
                    std::vector<T> v(c.k * N), want(c.k * N);
                    for (size_t e = 0; e < v.size(); ++e) v[e] = pattern<T>(300 + e + q);
                    std::vector<char> wmem(init);
                    for (int j = 0; j < c.k; ++j) for (size_t i = 0; i < N; ++i) {
                        char *a = &wmem[0] + ((char *)(mem + (ii[i] + bias) * c.S + j) - w0);
                        if (c.write) std::memcpy(a, &v[j * N + i], sizeof(T)); else std::memcpy(&want[j * N + i], a, sizeof(T));
                    }
                    if (!c.write) std::memset(&v[0], 0x5a, v.size() * sizeof(T));
                    ++C.states; ++C.transitions; C.checks += c.k * N + 1;
                    s.at(edge, q);
                    c.f(mem + bias * c.S, &ii[0], &v[0]);
                    asm volatile("" ::: "memory");
                    uint64_t h = s.h;
                    if (!c.write) for (size_t e = 0; e < v.size(); ++e) {
                        h = mix(h, bits(v[e]));
                        if (!bitsame(v[e], want[e])) { s.fail(show(c, ii, edge), "vector " + std::to_string(e / N) + " lane " + std::to_string(e % N) + " got " + str(v[e]) + " want " + str(want[e])); break; }
                    }
                    if (std::memcmp(w0, &wmem[0], W)) {
                        size_t b = 0; while (w0[b] == wmem[b]) ++b;
                        const long off = w0 + b - (char *)mem;
                        s.fail(show(c, ii, edge), "memory differs at struct " + std::to_string(off / (long)(sizeof(T) * c.S)) + " member " + std::to_string(off / (long)sizeof(T) % c.S));
                    }
                    outcome(mix(h, q));
                }
            }
        }
    }
};

template <class V> struct Ops {
    typedef typename V::EntryType T;
    typedef typename V::IndexType IX;
    static IX mkIdx(const int *p) { typename IX::EntryType t[V::Size]; for (size_t k = 0; k < V::Size; ++k) t[k] = p[k]; return IX(&t[0], Vc::Unaligned); }
    template <size_t k> static void in(V (&v)[k], const void *p) { for (size_t j = 0; j < k; ++j) v[j].load(static_cast<const T *>(p) + j * V::Size, Vc::Unaligned); }
    template <size_t k> static void out(const V (&v)[k], void *p) { for (size_t j = 0; j < k; ++j) v[j].store(static_cast<T *>(p) + j * V::Size, Vc::Unaligned); }
    template <int S, size_t k, size_t... J> struct Seq {
        typedef Str<T, S> St;
        typedef Vc::InterleavedMemoryWrapper<St, V> W;
        typedef Vc::InterleavedMemoryWrapper<const St, V> CW;
        static void readI(void *m, const int *i, void *o) { V v[k]; W w(static_cast<St *>(m)); Vc::tie(v[J]...) = w[mkIdx(i)]; out(v, o); }
        static void readCI(void *m, const int *i, void *o) { V v[k]; const W w(static_cast<St *>(m)); Vc::tie(v[J]...) = w[mkIdx(i)]; out(v, o); }
        static void readG(void *m, const int *i, void *o) { V v[k]; W w(static_cast<St *>(m)); Vc::tie(v[J]...) = w.gather(mkIdx(i)); out(v, o); }
        static void readS(void *m, const int *i, void *o) { V v[k]; auto w = Vc::make_interleave_wrapper<V>(static_cast<St *>(m)); Vc::tie(v[J]...) = w[size_t(i[0])]; out(v, o); }
        static void readCS(void *m, const int *i, void *o) { V v[k]; const CW w(static_cast<const St *>(m)); Vc::tie(v[J]...) = w[size_t(i[0])]; out(v, o); }
        static void readCCI(void *m, const int *i, void *o) { V v[k]; const CW w(static_cast<const St *>(m)); Vc::tie(v[J]...) = w[mkIdx(i)]; out(v, o); }
        static void arrI(void *m, const int *i, void *o) { W w(static_cast<St *>(m)); std::array<V, k> a = w[mkIdx(i)]; V v[k] = {a[J]...}; out(v, o); }
        static void arrS(void *m, const int *i, void *o) { W w(static_cast<St *>(m)); std::array<V, k> a = w[size_t(i[0])]; V v[k] = {a[J]...}; out(v, o); }
        static void writeI(void *m, const int *i, void *o) { V v[k]; in(v, o); W w(static_cast<St *>(m)); w[mkIdx(i)] = Vc::tie(v[J]...); }
        static void writeS(void *m, const int *i, void *o) { V v[k]; in(v, o); W w(static_cast<St *>(m)); w[size_t(i[0])] = Vc::tie(v[J]...); }
        static void writeCV(void *m, const int *i, void *o) { V v[k]; in(v, o); const V(&cv)[k] = v; W w(static_cast<St *>(m)); w[mkIdx(i)] = Vc::tie(cv[J]...); }
        static void writeCVS(void *m, const int *i, void *o) { V v[k]; in(v, o); const V(&cv)[k] = v; W w(static_cast<St *>(m)); w[size_t(i[0])] = Vc::tie(cv[J]...); }
        static void add(std::vector<Case> &c, bool extra)
        {
            c.push_back({"read[index]", S, k, false, false, readI});
            c.push_back({"read[first]", S, k, false, true, readS});
            c.push_back({"write[index]", S, k, true, false, writeI});
            c.push_back({"write[first]", S, k, true, true, writeS});
            more(c, std::integral_constant<bool, (S == int(k) || S == 7)>());
        }
        static void more(std::vector<Case> &, std::false_type) {}
        static void more(std::vector<Case> &c, std::true_type)
        {
            c.push_back({"const wrapper read[index]", S, k, false, false, readCI});
            c.push_back({"const struct read[index]", S, k, false, false, readCCI});
            c.push_back({"const struct read[first]", S, k, false, true, readCS});
            c.push_back({"gather(index)", S, k, false, false, readG});
            c.push_back({"array = [index]", S, k, false, false, arrI});
            c.push_back({"array = [first]", S, k, false, true, arrS});
            c.push_back({"write const vectors [index]", S, k, true, false, writeCV});
            c.push_back({"write const vectors [first]", S, k, true, true, writeCVS});
        }
    };
    template <int S> static void sub(std::vector<Case> &c)
    {
        if (S >= 2) Seq<(S < 2 ? 2 : S), 2, 0, 1>::add(c, false);
        if (S >= 3) Seq<(S < 3 ? 3 : S), 3, 0, 1, 2>::add(c, false);
        if (S >= 4) Seq<(S < 4 ? 4 : S), 4, 0, 1, 2, 3>::add(c, false);
        if (S >= 5) Seq<(S < 5 ? 5 : S), 5, 0, 1, 2, 3, 4>::add(c, false);
        if (S >= 6) Seq<(S < 6 ? 6 : S), 6, 0, 1, 2, 3, 4, 5>::add(c, false);
        if (S >= 7) Seq<(S < 7 ? 7 : S), 7, 0, 1, 2, 3, 4, 5, 6>::add(c, false);
        if (S >= 8) Seq<(S < 8 ? 8 : S), 8, 0, 1, 2, 3, 4, 5, 6, 7>::add(c, false);
    }
    static void commaR(void *m, const int *i, void *o) { V v[3]; Vc::InterleavedMemoryWrapper<Str<T, 3>, V> w(static_cast<Str<T, 3> *>(m)); comma(v, w[mkIdx(i)], Vc::Traits::is_simd_vector<V>()); out(v, o); }
    template <class A> static void comma(V (&v)[3], A &&a, std::true_type) { (v[0], v[1], v[2]) = a; }
    static void commaW(void *m, const int *i, void *o) { V v[3]; in(v, o); Vc::InterleavedMemoryWrapper<Str<T, 3>, V> w(static_cast<Str<T, 3> *>(m)); w[mkIdx(i)] = (v[0], v[1], v[2]); }
    static void native(std::vector<Case> &c, std::true_type) {}
    static void native(std::vector<Case> &c, std::false_type)
    {
        c.push_back({"(a, b, c) = [index]", 3, 3, false, false, commaR});
        c.push_back({"[index] = (a, b, c)", 3, 3, true, false, commaW});
    }
    static void run()
    {
        std::vector<Case> c;
        sub<2>(c); sub<3>(c); sub<4>(c); sub<5>(c); sub<6>(c); sub<7>(c); sub<8>(c); sub<11>(c); sub<16>(c);
        native(c, std::integral_constant<bool, Vc::Traits::isSimdArray<V>::value>());
        Core<T>::run(vn<V>(), V::Size, c);
    }
};
template <class T> void types() { forAbis<T>([](auto t) { Ops<typename decltype(t)::type>::run(); }); }

// ---- deinterleave(V*, V*, const M*, align)
template <class V, class M, class F> void deint(const char *fn, bool aligned)
{
    typedef typename V::EntryType T;
    const size_t N = V::Size, n = 2 * N;
    Site s("deinterleave " + vn<V>() + " from " + TN<M>::n() + " " + fn);
    if (!s.active()) return;
    Guarded g(4096);
    std::vector<M> vals;
    if (sizeof(M) == 2) for (int x = 0; x < 65536; ++x) vals.push_back(raw<M>(x));
    else { vals = alphabet<M>(1); for (unsigned i = 0; i < 64; ++i) vals.push_back(pattern<M>(i)); }
    const bool conv = !std::is_same<T, M>::value;
    for (int edge = 0; edge < 3; ++edge) {
        M *mem = edge == 1 ? g.atBegin<M>() : g.atEnd<M>(n);
        if (edge == 2) { if (aligned) continue; mem = g.atBegin<M>() + 1; }
        // alignment of the vector loads
        if (aligned && reinterpret_cast<uintptr_t>(mem) % (n * sizeof(M)) % 32) { char *p = g.hi() - (n * sizeof(M) + 31) / 32 * 32; mem = reinterpret_cast<M *>(p); }
        for (size_t off = 0; off < vals.size(); ++off) {
            if (sizeof(M) == 2 && off % n && off > 512) continue;  // every 16-bit value in some position; the first 512 in every position
            for (size_t e = 0; e < n; ++e) mem[e] = vals[(off + e) % vals.size()];
            V a, b;
            ++C.states; ++C.transitions; C.checks += n;
            s.at(edge, off);
            F::call(&a, &b, mem);
            uint64_t h = s.h;
            const Lanes<V> la = get(a), lb = get(b);
            for (size_t e = 0; e < n; ++e) {
                const T got = (e % 2 ? lb : la)[e / 2], want = static_cast<T>(mem[e]);
                h = mix(h, bits(got));
                if (conv ? !same(got, want) : !bitsame(got, want)) { s.fail("offset=" + std::to_string(off) + " mem[" + std::to_string(e) + "]=" + str(mem[e]), "lane " + std::to_string(e / 2) + " of " + (e % 2 ? "b" : "a") + " got " + str(got) + " want " + str(want)); break; }
            }
            outcome(h);
        }
    }
}
struct Al { template <class V, class M> static MC_NOINLINE void call(V *a, V *b, const M *m) { Vc::deinterleave(a, b, m, Vc::Aligned); } };
struct Un { template <class V, class M> static MC_NOINLINE void call(V *a, V *b, const M *m) { Vc::deinterleave(a, b, m, Vc::Unaligned); } };
struct De { template <class V, class M> static MC_NOINLINE void call(V *a, V *b, const M *m) { Vc::deinterleave(a, b, m); } };
struct St { template <class V, class M> static MC_NOINLINE void call(V *a, V *b, const M *m) { Vc::deinterleave(a, b, m, Vc::Streaming); } };
template <class V, class M> void deints() { deint<V, M, Al>("Aligned", true); deint<V, M, Un>("Unaligned", false); deint<V, M, De>("default", true); }
template <class A> void allDeint(bool = true)
{
    deints<Vc::Vector<float, A>, float>(); deints<Vc::Vector<float, A>, short>(); deints<Vc::Vector<float, A>, Vc::ushort>();
    deints<Vc::Vector<double, A>, double>();
}
template <class A> void allDeintI()
{
    deints<Vc::Vector<int, A>, int>(); deints<Vc::Vector<int, A>, short>();
    deints<Vc::Vector<Vc::uint, A>, Vc::uint>(); deints<Vc::Vector<Vc::uint, A>, Vc::ushort>();
    deints<Vc::Vector<short, A>, short>(); deints<Vc::Vector<Vc::ushort, A>, Vc::ushort>();
}
void explore()
{
#if PART == 0
    types<double>();
#elif PART == 1
    types<float>();
#elif PART == 2
    types<int>();
#elif PART == 3
    types<Vc::uint>();
#elif PART == 4
    types<short>();
#elif PART == 5
    types<Vc::ushort>();
#elif PART == 6
#ifndef Vc_IMPL_Scalar
    allDeint<Vc::VectorAbi::Sse>(); allDeintI<Vc::VectorAbi::Sse>();
#ifdef Vc_IMPL_AVX
    allDeint<Vc::VectorAbi::Avx>();
#ifdef Vc_IMPL_AVX2
    allDeintI<Vc::VectorAbi::Avx>();
#endif
#endif
#endif
#endif
}
