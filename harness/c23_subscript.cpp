// C23: subscripting containers with index vectors accesses exactly those elements.
#include "mc.h"
#include "masks.h"
using namespace mc;
using Vc::uint;
using Vc::ushort;
#ifndef TYPE
#define TYPE 0
#endif
#ifndef KIND
#define KIND 0
#endif
typedef std::tuple_element<TYPE, std::tuple<double, float, int, uint, short, ushort>>::type T;

// ------------------------------------------------------------------ element types of the containers
template <class M> struct A { char p; M a; M b[3]; short q; M c; };                // odd offsets, C array member
template <class M> struct B { short s; A<M> x; A<M> arr[2]; char z; };              // struct in struct
template <class M> struct P2 { M a, b; };                                           // scale 2
template <class M> struct P3 { M a, b, c; };                                        // scale 3
template <class M> struct D { B<M> l; float pad; B<M> r[2]; };                      // three levels
template <class M> union Un { M a; M b[2]; char c[3 * sizeof(M)]; };
enum { N1 = 19, N2 = 5, N3 = 3 };

// ------------------------------------------------------------------ one access chain, type erased
struct Chain {
    std::string name;
    char *mem;
    size_t bytes, N;
    int n1, n2, n3;  // extents of the index vectors (1 = not used)
    size_t msize;
    std::function<char *(int, int, int)> addr;   // plain C++ access to the same element
    T (*rd)(const char *);
    void (*wr)(char *, T);
    void (*wrSmall)(char *, int);
    // idx: 3 arrays of N ints
    std::function<void(const int *const *, T *)> gather, cgather;
    std::function<void(const int *const *, uint64_t, int, T *)> mgather;
    std::function<void(const int *const *, const T *)> scatter;
    std::function<void(const int *const *, uint64_t, int, const T *)> mscatter;
};
static const char *const mopName[] = {"=", "+=", "-=", "*=", "/="};
static T mop(int op, T l, T r) { return op == 0 ? r : op == 1 ? T(l + r) : op == 2 ? T(l - r) : op == 3 ? T(l * r) : T(l / r); }

static void fill(Chain &c)
{
    for (size_t i = 0; i < c.bytes; ++i) c.mem[i] = char((i * 37 + 11) & 0x7f);
    int v = 1;
    for (int i = 0; i < c.n1; ++i)
        for (int j = 0; j < c.n2; ++j)
            for (int k = 0; k < c.n3; ++k) c.wrSmall(c.addr(i, j, k), v = v % 113 + 1);
}
typedef std::vector<std::array<std::vector<int>, 3>> Sets;
// index vectors: progressions from every start (every stride), and every index in every lane
static Sets indexSets(const Chain &c, bool unique, int level)
{
    const size_t N = c.N;
    const int n[3] = {c.n1, c.n2, c.n3};
    Sets r;
    auto add = [&](std::array<std::vector<int>, 3> &s) {
        if (unique) {
            std::set<std::tuple<int, int, int>> u;
            for (size_t k = 0; k < N; ++k)
                if (!u.insert(std::make_tuple(s[0][k], s[1][k], s[2][k])).second) return;
        }
        r.push_back(s);
    };
    std::array<std::vector<int>, 3> s;
    for (auto &e : s) e.assign(N, 0);
    for (int b0 = 0; b0 < n[0]; ++b0)
        for (int st = 0; st < n[0]; ++st)
            for (int b1 = 0; b1 < (level ? n[1] : 1); ++b1)
                for (int st1 = 0; st1 < (n[1] > 1 ? 2 : 1); ++st1) {
                    for (size_t k = 0; k < N; ++k) {
                        s[0][k] = int((b0 + st * k) % n[0]);
                        s[1][k] = int((b1 + b0 + st1 * k) % n[1]);
                        s[2][k] = int((b1 + st + k / 2) % n[2]);
                    }
                    add(s);
                }
    for (size_t l = 0; l < N; ++l)
        for (int i = 0; i < n[0]; ++i)
            for (int j = 0; j < n[1]; ++j)
                for (int q = 0; q < n[2]; ++q) {
                    for (size_t k = 0; k < N; ++k) {
                        s[0][k] = int((i + (k + N - l)) % n[0]);
                        s[1][k] = int((j + 2 * (k + N - l)) % n[1]);
                        s[2][k] = int((q + (k + N - l)) % n[2]);
                    }
                    s[0][l] = i; s[1][l] = j; s[2][l] = q;
                    add(s);
                }
    // all index vectors over {0, 1, last} for small N
    if (N <= 4 && level) {
        int e = 1;
        for (size_t k = 0; k < N; ++k) e *= 5;
        for (int x = 0; x < e; ++x) {
            const int v[5] = {0, 1, n[0] / 2, n[0] - 2, n[0] - 1};
            int y = x;
            for (size_t k = 0; k < N; ++k, y /= 5) { s[0][k] = v[y % 5]; s[1][k] = (y / 5 + int(k)) % n[1]; s[2][k] = (y / 7) % n[2]; }
            add(s);
        }
    }
    return r;
}
static std::string show(const std::array<std::vector<int>, 3> &s, const Chain &c)
{
    return "indexes " + str(s[0]) + (c.n2 > 1 ? str(s[1]) : "") + (c.n3 > 1 ? str(s[2]) : "");
}
static bool cmpMem(Site &s, Chain &c, const std::vector<char> &want, const std::string &in)
{
    ++C.transitions;
    C.checks += c.bytes;
    if (!memcmp(c.mem, want.data(), c.bytes)) { outcome(mix(s.h, std::hash<std::string>()(std::string(want.begin(), want.end())))); return true; }
    size_t i = 0;
    while (c.mem[i] == want[i]) ++i;
    std::string w;
    for (int a = 0; a < c.n1; ++a)
        for (int b = 0; b < c.n2; ++b)
            for (int d = 0; d < c.n3; ++d)
                if (size_t(c.addr(a, b, d) - c.mem) / 1 <= i && i < size_t(c.addr(a, b, d) - c.mem) + c.msize) w = " = element (" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d) + ")";
    s.fail(in, "memory differs at byte " + std::to_string(i) + w);
    return false;
}
static void runChain(Chain &c)
{
    const size_t N = c.N;
    fill(c);
    std::vector<char> image(c.mem, c.mem + c.bytes), want;
    const int lvl = g_thorough ? 1 : 0;
    {
        Site s(c.name + " gather");
        if (s.active()) {
            size_t id = 0;
            for (auto &x : indexSets(c, false, 1)) {
                const int *p[3] = {x[0].data(), x[1].data(), x[2].data()};
                ++C.states;
                s.at(id++);
                for (int k = 0; k < 2; ++k) {
                    std::vector<T> r(N), w(N);
                    (k ? c.cgather : c.gather)(p, r.data());
                    for (size_t l = 0; l < N; ++l) w[l] = c.rd(c.addr(p[0][l], p[1][l], p[2][l]));
                    ++C.transitions;
                    C.checks += N;
                    if (r != w) s.fail(show(x, c), std::string(k ? "const " : "") + "got " + str(r) + " want " + str(w));
                }
                cmpMem(s, c, image, show(x, c) + " (memory after the read)");
            }
        }
    }
    auto reset = [&] { memcpy(c.mem, image.data(), c.bytes); };
    std::vector<uint64_t> masks = maskSet(N);
    if (c.mgather) {
        Site s(c.name + " masked gather");
        if (s.active()) {
            size_t id = 0;
            auto sets = indexSets(c, false, 0);
            // every mask with a fixed pair of index sets, every index set with a fixed few masks
            auto one = [&](std::array<std::vector<int>, 3> x, uint64_t m, int form) {
                ++C.states;
                s.at(id++, m, form);
                for (size_t l = 0; l < N; ++l)
                    if (!((m >> l) & 1)) x[0][l] = 1 << 20;  // must not be accessed
                const int *p[3] = {x[0].data(), x[1].data(), x[2].data()};
                std::vector<T> r(N), w(N);
                for (size_t l = 0; l < N; ++l) r[l] = T(114 + l % 13);
                for (size_t l = 0; l < N; ++l) w[l] = (m >> l) & 1 ? c.rd(c.addr(p[0][l], p[1][l], p[2][l])) : r[l];
                c.mgather(p, m, form, r.data());
                ++C.transitions;
                C.checks += N;
                if (r != w) s.fail(show(x, c) + " mask " + std::to_string(m) + " form " + std::to_string(form), "got " + str(r) + " want " + str(w));
                else outcome(mix(s.h, m * 64 + form));
                cmpMem(s, c, image, show(x, c) + " mask " + std::to_string(m) + " (memory after the read)");
            };
            for (int form = 0; form < 2; ++form) {
                for (uint64_t m : masks)
                    for (size_t q : {sets.size() / 3, sets.size() - 1}) one(sets[q], m, form);
                for (auto &x : sets)
                    for (uint64_t m : {masks[masks.size() / 3], masks[masks.size() / 2], masks.back()}) one(x, m, form);
            }
        }
    }
    std::vector<T> v(N);
    auto u = indexSets(c, true, lvl);
    if (u.empty() && N > size_t(c.n1 * c.n2 * c.n3)) return;
    {
        Site s(c.name + " scatter");
        if (s.active()) {
            size_t id = 0;
            for (auto &x : u) {
                const int *p[3] = {x[0].data(), x[1].data(), x[2].data()};
                ++C.states;
                s.at(id++);
                reset();
                for (size_t l = 0; l < N; ++l) { v[l] = T((id + l) % 113 + 3); c.wr(c.addr(p[0][l], p[1][l], p[2][l]), v[l]); }
                want.assign(c.mem, c.mem + c.bytes);
                reset();
                c.scatter(p, v.data());
                cmpMem(s, c, want, show(x, c));
            }
            // duplicate indexes: all lanes carry the same value
            for (auto &x : indexSets(c, false, 0)) {
                const int *p[3] = {x[0].data(), x[1].data(), x[2].data()};
                ++C.states;
                s.at(id++, 1);
                reset();
                for (size_t l = 0; l < N; ++l) { v[l] = T(id % 113 + 3); c.wr(c.addr(p[0][l], p[1][l], p[2][l]), v[l]); }
                want.assign(c.mem, c.mem + c.bytes);
                reset();
                c.scatter(p, v.data());
                cmpMem(s, c, want, show(x, c) + " same value in all lanes");
            }
        }
    }
    if (c.mscatter) {
        for (int op = 0; op < 1; ++op) {
            Site s(c.name + " masked " + mopName[op]);
            if (!s.active()) continue;
            size_t id = 0;
            auto one = [&](std::array<std::vector<int>, 3> x, uint64_t m) {
                ++C.states;
                s.at(id++, m, op);
                for (size_t l = 0; l < N; ++l)
                    if (!((m >> l) & 1)) x[0][l] = 1 << 20;  // must not be accessed
                const int *p[3] = {x[0].data(), x[1].data(), x[2].data()};
                reset();
                for (size_t l = 0; l < N; ++l) {
                    v[l] = T((id + l) % 5 + 1);
                    if ((m >> l) & 1) { char *a = c.addr(p[0][l], p[1][l], p[2][l]); c.wr(a, mop(op, c.rd(a), v[l])); }
                }
                want.assign(c.mem, c.mem + c.bytes);
                reset();
                c.mscatter(p, m, op, v.data());
                cmpMem(s, c, want, show(x, c) + " mask " + std::to_string(m));
            };
            for (uint64_t m : masks)
                for (size_t q : {u.size() / 3, u.size() - 1}) one(u[q], m);
            for (auto &x : u)
                for (uint64_t m : {masks[masks.size() / 3], masks[masks.size() / 2], masks.back()}) one(x, m);
        }
    }
    reset();
}
// ------------------------------------------------------------------ index vector kinds
template <class IV> struct MakeIV { static IV f(const int *p) { typename IV::EntryType t[IV::Size]; for (size_t i = 0; i < IV::Size; ++i) t[i] = typename IV::EntryType(p[i]); return IV(&t[0], Vc::Unaligned); } };
template <class I, size_t N> struct MakeIV<std::array<I, N>> { static std::array<I, N> f(const int *p) { std::array<I, N> r; for (size_t i = 0; i < N; ++i) r[i] = I(p[i]); return r; } };
template <class I, size_t N> struct MakeIV<Vc::array<I, N>> { static Vc::array<I, N> f(const int *p) { Vc::array<I, N> r; for (size_t i = 0; i < N; ++i) r[i] = I(p[i]); return r; } };
template <class I> struct MakeIV<std::vector<I>> { static thread_local size_t n; static std::vector<I> f(const int *p) { std::vector<I> r(n); for (size_t i = 0; i < n; ++i) r[i] = I(p[i]); return r; } };
template <class I> thread_local size_t MakeIV<std::vector<I>>::n;

// a masked gather with a runtime-sized index vector does not compile in Vc
template <class IV> struct HasMaskedGather : std::true_type {};
template <class I> struct HasMaskedGather<std::vector<I>> : std::false_type {};
template <class V, class K, class F> void maskedGather(V &v, const K &k, int form, F f, std::true_type)
{
    if (form == 0) v(k) = f();
    else Vc::where(k) | v = f();
}
template <class V, class K, class F> void maskedGather(V &v, const K &k, int, F f, std::false_type) {}
template <class V, class IV> struct Runner {
    enum { N = V::Size };
    typedef typename V::Mask K;
    // Cont: container type; acc(container, i, j, k) forms the proxy; ad(container, i, j, k) the plain reference
    template <class M, bool Wild, class Cont, class Acc, class Ad>
    static MC_NOINLINE void chain(const std::string &nm, Cont &cont, char *mem, size_t bytes, int n1, int n2, int n3, Acc acc, Ad ad)
    {
        Chain c;
        c.name = vn<V>() + " " + nm;
        c.mem = mem;
        c.bytes = bytes;
        c.N = N;
        c.n1 = n1; c.n2 = n2; c.n3 = n3;
        c.msize = sizeof(M);
        c.addr = [&cont, ad](int i, int j, int k) { return reinterpret_cast<char *>(&ad(cont, i, j, k)); };
        c.rd = [](const char *p) { M m; memcpy(&m, p, sizeof m); return T(m); };
        c.wr = [](char *p, T x) { M m = M(x); memcpy(p, &m, sizeof m); };
        c.wrSmall = [](char *p, int x) { M m = M(x); memcpy(p, &m, sizeof m); };
        c.gather = [&cont, acc](const int *const *p, T *out) {
            const V v = acc(cont, MakeIV<IV>::f(p[0]), MakeIV<IV>::f(p[1]), MakeIV<IV>::f(p[2]));
            v.store(out, Vc::Unaligned);
        };
        c.cgather = [&cont, acc](const int *const *p, T *out) {
            const Cont &cc = cont;
            V v(Vc::Zero);
            v = acc(cc, MakeIV<IV>::f(p[0]), MakeIV<IV>::f(p[1]), MakeIV<IV>::f(p[2]));
            v.store(out, Vc::Unaligned);
        };
        if (HasMaskedGather<IV>::value) c.mgather = [&cont, acc](const int *const *p, uint64_t m, int form, T *out) {
            V v(out, Vc::Unaligned);
            const K k = makem<K>(m);
            maskedGather(v, k, form, [&] { return acc(cont, MakeIV<IV>::f(p[0]), MakeIV<IV>::f(p[1]), MakeIV<IV>::f(p[2])); }, HasMaskedGather<IV>());
            v.store(out, Vc::Unaligned);
        };
        c.scatter = [&cont, acc](const int *const *p, const T *in) {
            acc(cont, MakeIV<IV>::f(p[0]), MakeIV<IV>::f(p[1]), MakeIV<IV>::f(p[2])) = V(in, Vc::Unaligned);
        };
        c.mscatter = [&cont, acc](const int *const *p, uint64_t m, int op, const T *in) {
            const K k = makem<K>(m);
            const V v(in, Vc::Unaligned);
            Vc::where(k) | acc(cont, MakeIV<IV>::f(p[0]), MakeIV<IV>::f(p[1]), MakeIV<IV>::f(p[2])) = v;
        };
        runChain(c);
    }
};
// containers with their data right before an inaccessible page
template <class X> struct Vec : Vc::vector<X> { Vec(size_t n) : Vc::vector<X>(n) {} };
template <class X> std::string cn();

#define ACC(e) [](auto &&d, const auto &i, const auto &j, const auto &k) { return e; }
#define REF(e) [](auto &&d, int i, int j, int k) -> auto & { return e; }
// depth 1 and 2: used with every kind of index vector
template <class V, class IV, class M> MC_NOINLINE void basic(const std::string &iv)
{
    MakeIV<std::vector<int>>::n = V::Size;
    typedef Runner<V, IV> R;
    const std::string s = std::string(TN<M>::n()) + " " + iv;
    {
        static Vc::array<M, N1> d;
        R::template chain<M, true>("array<" + s + ">[i]", d, (char *)&d[0], sizeof(d), N1, 1, 1, ACC(d[i]), REF(d[i]));
    }
    {
        Vc::vector<M> d(N1);
        R::template chain<M, true>("vector<" + s + ">[i]", d, (char *)&d[0], N1 * sizeof(M), N1, 1, 1, ACC(d[i]), REF(d[i]));
    }
    {
        static Vc::array<P3<M>, N1> d;
        R::template chain<M, true>("array<P3 " + s + ">[i][&b]", d, (char *)&d[0], sizeof(d), N1, 1, 1, ACC(d[i][&P3<M>::b]), REF(d[i].b));
    }
    {
        Vc::vector<A<M>> d(N1);
        R::template chain<M, true>("vector<A " + s + ">[i][&c]", d, (char *)&d[0], N1 * sizeof(A<M>), N1, 1, 1, ACC(d[i][&A<M>::c]), REF(d[i].c));
    }
}
template <class V, class IV, class M> MC_NOINLINE void nested(const std::string &iv)
{
    typedef Runner<V, IV> R;
    const std::string s = std::string(TN<M>::n()) + " " + iv;
    {
        static M storage[N1];
        Vc::span<M> d(storage, N1);
        R::template chain<M, true>("span<" + s + ">[i]", d, (char *)storage, sizeof(storage), N1, 1, 1, ACC(d[i]), REF(d[i]));
    }
    {
        static Vc::array<P2<M>, N1> d;
        R::template chain<M, true>("array<P2 " + s + ">[i][&b]", d, (char *)&d[0], sizeof(d), N1, 1, 1, ACC(d[i][&P2<M>::b]), REF(d[i].b));
    }
    {
        static Vc::array<Un<M>, N1> d;
        R::template chain<M, true>("array<union " + s + ">[i][&b][1]", d, (char *)&d[0], sizeof(d), N1, 1, 1, ACC(d[i][&Un<M>::b][1]), REF(d[i].b[1]));
    }
    {
        static Vc::array<A<M>, N1> d;
        R::template chain<M, true>("array<A " + s + ">[i][&a]", d, (char *)&d[0], sizeof(d), N1, 1, 1, ACC(d[i][&A<M>::a]), REF(d[i].a));
        R::template chain<M, true>("array<A " + s + ">[i][&b][2]", d, (char *)&d[0], sizeof(d), N1, 1, 1, ACC(d[i][&A<M>::b][2]), REF(d[i].b[2]));
        R::template chain<M, true>("array<A " + s + ">[i][&b][j]", d, (char *)&d[0], sizeof(d), N1, 3, 1, ACC(d[i][&A<M>::b][j]), REF(d[i].b[j]));
    }
    {
        static Vc::array<Vc::array<M, N2>, N1> d;
        R::template chain<M, true>("array<array " + s + ">[i][3]", d, (char *)&d[0][0], sizeof(d), N1, 1, 1, ACC(d[i][3]), REF(d[i][3]));
        R::template chain<M, true>("array<array " + s + ">[i][j]", d, (char *)&d[0][0], sizeof(d), N1, N2, 1, ACC(d[i][j]), REF(d[i][j]));
    }
    {
        Vc::vector<std::array<P3<M>, 2>> d(N1);
        R::template chain<M, true>("vector<std::array<P3> " + s + ">[i][1][&c]", d, (char *)&d[0][0], N1 * 2 * sizeof(P3<M>), N1, 1, 1, ACC(d[i][1][&P3<M>::c]), REF(d[i][1].c));
        R::template chain<M, true>("vector<std::array<P3> " + s + ">[i][j][&a]", d, (char *)&d[0][0], N1 * 2 * sizeof(P3<M>), N1, 2, 1, ACC(d[i][j][&P3<M>::a]), REF(d[i][j].a));
    }
}
template <class V, class IV, class M> MC_NOINLINE void deep(const std::string &iv)
{
    typedef Runner<V, IV> R;
    const std::string s = std::string(TN<M>::n()) + " " + iv;
    {
        static Vc::array<B<M>, N1> d;
        R::template chain<M, true>("array<B " + s + ">[i][&x][&c]", d, (char *)&d[0], sizeof(d), N1, 1, 1, ACC(d[i][&B<M>::x][&A<M>::c]), REF(d[i].x.c));
        R::template chain<M, true>("array<B " + s + ">[i][&arr][1][&b][2]", d, (char *)&d[0], sizeof(d), N1, 1, 1, ACC(d[i][&B<M>::arr][1][&A<M>::b][2]), REF(d[i].arr[1].b[2]));
        R::template chain<M, true>("array<B " + s + ">[i][&arr][j][&a]", d, (char *)&d[0], sizeof(d), N1, 2, 1, ACC(d[i][&B<M>::arr][j][&A<M>::a]), REF(d[i].arr[j].a));
        R::template chain<M, true>("array<B " + s + ">[i][&arr][j][&b][k]", d, (char *)&d[0], sizeof(d), N1, 2, 3, ACC(d[i][&B<M>::arr][j][&A<M>::b][k]), REF(d[i].arr[j].b[k]));
        R::template chain<M, true>("array<B " + s + ">[i][&arr][1][&b][j]", d, (char *)&d[0], sizeof(d), N1, 3, 1, ACC(d[i][&B<M>::arr][1][&A<M>::b][j]), REF(d[i].arr[1].b[j]));
    }
    {
        Vc::vector<D<M>> d(N1);
        R::template chain<M, true>("vector<D " + s + ">[i][&l][&x][&a]", d, (char *)&d[0], N1 * sizeof(D<M>), N1, 1, 1, ACC(d[i][&D<M>::l][&B<M>::x][&A<M>::a]), REF(d[i].l.x.a));
        R::template chain<M, true>("vector<D " + s + ">[i][&r][1][&arr][j][&c]", d, (char *)&d[0], N1 * sizeof(D<M>), N1, 2, 1, ACC(d[i][&D<M>::r][1][&B<M>::arr][j][&A<M>::c]), REF(d[i].r[1].arr[j].c));
    }
    {
        static Vc::array<Vc::array<Vc::array<M, N3>, N2>, N1> d;
        R::template chain<M, true>("array<array<array " + s + ">[i][j][k]", d, (char *)&d[0][0][0], sizeof(d), N1, N2, N3, ACC(d[i][j][k]), REF(d[i][j][k]));
        R::template chain<M, true>("array<array<array " + s + ">[i][4][2]", d, (char *)&d[0][0][0], sizeof(d), N1, 1, 1, ACC(d[i][4][2]), REF(d[i][4][2]));
        R::template chain<M, true>("array<array<array " + s + ">[i][2][j]", d, (char *)&d[0][0][0], sizeof(d), N1, 3, 1, ACC(d[i][2][j]), REF(d[i][2][j]));
        R::template chain<M, true>("array<array<array " + s + ">[i][j][1]", d, (char *)&d[0][0][0], sizeof(d), N1, N2, 1, ACC(d[i][j][1]), REF(d[i][j][1]));
        R::template chain<M, true>("array<array<array " + s + ">[7][i][j]", d, (char *)&d[0][0][0], sizeof(d), N2, N3, 1, ACC(d[7][i][j]), REF(d[7][i][j]));
    }
    {
        typedef M CA[2][3];
        struct S { char x; CA a; };
        static Vc::array<S, N1> d;
        R::template chain<M, true>("array<M[2][3] " + s + ">[i][&a][1][j]", d, (char *)&d[0], sizeof(d), N1, 3, 1, ACC(d[i][&S::a][1][j]), REF(d[i].a[1][j]));
        R::template chain<M, true>("array<M[2][3] " + s + ">[i][&a][j][k]", d, (char *)&d[0], sizeof(d), N1, 2, 3, ACC(d[i][&S::a][j][k]), REF(d[i].a[j][k]));
    }
}
// C-array and initializer_list indexes
template <size_t N> struct CArr { int a[N]; };
template <size_t N> struct MakeIV<CArr<N>> { static CArr<N> f(const int *p) { CArr<N> r; for (size_t i = 0; i < N; ++i) r.a[i] = p[i]; return r; } };
template <class V> MC_NOINLINE void carray()
{
    enum { N = V::Size };
    typedef T M;
    typedef Runner<V, CArr<N>> R;
    {
        static Vc::array<M, N1> d;
        R::template chain<M, true>("array[C-array]", d, (char *)&d[0], sizeof(d), N1, 1, 1, [](auto &&d, const auto &i, const auto &, const auto &) { return d[i.a]; }, REF(d[i]));
    }
    {
        static Vc::array<P3<M>, N1> d;
        R::template chain<M, true>("array<P3>[C-array][&b]", d, (char *)&d[0], sizeof(d), N1, 1, 1, [](auto &&d, const auto &i, const auto &, const auto &) { return d[i.a][&P3<M>::b]; }, REF(d[i].b));
    }
}
template <class V> MC_NOINLINE void initList(std::false_type) {}
template <class V> MC_NOINLINE void initList(std::true_type)
{
    Site s(vn<V>() + " gather and scatter, initializer_list indexes");
    if (!s.active()) return;
    enum { n = 7 };
    for (int x = 0; x < n * n * n * n; ++x) {
        const int i[4] = {x % n, x / n % n, x / n / n % n, x / n / n / n};
        s.at(x);
        ++C.states;
        Vc::array<T, n> d;
        Vc::vector<T> e(n);
        for (int k = 0; k < n; ++k) { d[k] = T(k * 3 + 1); e[k] = T(k * 5 + 2); }
        const std::initializer_list<int> l = {i[0], i[1], i[2], i[3]};
        const std::initializer_list<short> ls = {short(i[0]), short(i[1]), short(i[2]), short(i[3])};
        Lanes<V> w, w2;
        for (int k = 0; k < 4; ++k) { w[k] = d[i[k]]; w2[k] = e[i[k]]; }
        auto in = [&] { return "indexes " + std::to_string(i[0]) + " " + std::to_string(i[1]) + " " + std::to_string(i[2]) + " " + std::to_string(i[3]); };
        const V a = d[l], b = e[l], c = d[ls];
        expect(s, get(a), w, in);
        expect(s, get(b), w2, in);
        expect(s, get(c), w, in);
    }
}
// large indexes: index * (structure size / member size) exceeds the range of the index type
template <class M> struct Big { M a; M b[14]; M c; };
template <class IV> struct IndexOf { typedef typename IV::EntryType type; };
template <class I, size_t N> struct IndexOf<std::array<I, N>> { typedef I type; };
template <class I, size_t N> struct IndexOf<Vc::array<I, N>> { typedef I type; };
template <class I> struct IndexOf<std::vector<I>> { typedef I type; };
template <class V, class IV, class M> MC_NOINLINE void large(const std::string &iv)
{
    enum { N = V::Size };
    typedef typename IndexOf<IV>::type I;
    MakeIV<std::vector<I>>::n = N;
    const int top = int(std::min<long long>(std::numeric_limits<I>::max(), 66000));
    std::vector<int> vals;
    for (int x : {0, 1, 2, 100, 127, 128, 129, 255, 256, 257, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32766, 32767, 32768, 40000, 65534, 65535, 65536, 65999}) if (x <= top) vals.push_back(x);
    Site s(vn<V>() + " vector<Big " + TN<M>::n() + "> large indexes of type " + iv);
    if (!s.active()) return;
    const size_t total = size_t(top) + 1;
    // room on both sides: a wrong address is likely to stay inside
    std::unique_ptr<Big<M>[]> whole(new Big<M>[total * 2]());
    Vc::span<Big<M>> d(whole.get() + total / 2, total);
    auto refA = [&](int i) -> M & { return d[i].a; };
    auto refC = [&](int i) -> M & { return d[i].c; };
    auto refB = [&](int i, int j) -> M & { return d[i].b[j]; };
    for (size_t x = 0; x < vals.size(); ++x)
        for (size_t l = 0; l < N; ++l)
            for (int member = 0; member < 3; ++member) {
                s.at(x, l, member);
                int idx[N];
                for (size_t k = 0; k < N; ++k) idx[k] = vals[(x + (k + N - l) * 3) % vals.size()];
                std::set<int> u(idx, idx + N);
                if (u.size() != N) for (size_t k = 0; k < N; ++k) idx[k] = (vals[x] + int((k + N - l) % N)) % int(total);
                auto ref = [&](int i) -> M & { return member == 0 ? refA(i) : member == 1 ? refC(i) : refB(i, 5); };
                Lanes<V> w;
                for (size_t k = 0; k < N; ++k) { ref(idx[k]) = M(k + 3); w[k] = T(k + 3); }
                const IV i = MakeIV<IV>::f(idx);
                ++C.states;
                ++C.transitions;
                auto in = [&] { return std::string(member == 0 ? "[i][&a]" : member == 1 ? "[i][&c]" : "[i][&b][5]") + " indexes " + str(std::vector<int>(idx, idx + N)); };
                V v = V::Zero();
                if (member == 0) v = d[i][&Big<M>::a];
                else if (member == 1) v = d[i][&Big<M>::c];
                else v = d[i][&Big<M>::b][5];
                expect(s, get(v), w, in);
                for (size_t k = 0; k < N; ++k) ref(idx[k]) = M(0);
                const V o = make<V>(w);
                if (member == 0) d[i][&Big<M>::a] = o;
                else if (member == 1) d[i][&Big<M>::c] = o;
                else d[i][&Big<M>::b][5] = o;
                Lanes<V> g;
                for (size_t k = 0; k < N; ++k) { g[k] = T(ref(idx[k])); ref(idx[k]) = M(0); }
                expect(s, g, w, [&] { return in() + " written"; });
            }
    size_t stray = 0;
    for (size_t i = 0; i < total * 2 * sizeof(Big<M>); ++i) stray += reinterpret_cast<char *>(whole.get())[i] != 0;
    ++C.checks;
    if (stray) s.fail("all writes", std::to_string(stray) + " bytes of other elements were changed");
}
// the deprecated member functions and constructors taking pointers to members
template <class V, class IV> struct Deprecated {
    enum { N = V::Size };
    typedef typename V::Mask K;
    static void ctorMasked(const V &g, uint64_t m, T *out)
    {
        // the constructor leaves zero in the lanes that are not selected
        const Lanes<V> l = get(g);
        for (size_t i = 0; i < N; ++i) if (((m >> i) & 1) || l[i] != T(0)) out[i] = l[i];
    }
    template <class S, class Mem, class Ad, class... Ms> static MC_NOINLINE void chain(const std::string &nm, S *d, char *mem, size_t bytes, int n1, Ad ad, Ms... ms)
    {
        Chain c;
        c.name = vn<V>() + " " + nm;
        c.mem = mem;
        c.bytes = bytes;
        c.N = N;
        c.n1 = n1; c.n2 = c.n3 = 1;
        c.msize = sizeof(T);
        c.addr = [d, ad](int i, int, int) { return reinterpret_cast<char *>(&ad(d[i])); };
        c.rd = [](const char *p) { T m; memcpy(&m, p, sizeof m); return m; };
        c.wr = [](char *p, T x) { memcpy(p, &x, sizeof x); };
        c.wrSmall = [](char *p, int x) { T m = T(x); memcpy(p, &m, sizeof m); };
        c.gather = [d, ms...](const int *const *p, T *out) {
            V v(Vc::Zero);
            v.gather(d, ms..., MakeIV<IV>::f(p[0]));
            v.store(out, Vc::Unaligned);
        };
        c.cgather = [d, ms...](const int *const *p, T *out) {
            const V v(static_cast<const S *>(d), ms..., MakeIV<IV>::f(p[0]));
            v.store(out, Vc::Unaligned);
        };
        c.mgather = [d, ms...](const int *const *p, uint64_t m, int form, T *out) {
            V v(out, Vc::Unaligned);
            const K k = makem<K>(m);
            if (form == 0) {
                v.gather(d, ms..., MakeIV<IV>::f(p[0]), k);
                v.store(out, Vc::Unaligned);
            } else ctorMasked(V(d, ms..., MakeIV<IV>::f(p[0]), k), m, out);
        };
        c.scatter = [d, ms...](const int *const *p, const T *in) { V(in, Vc::Unaligned).scatter(d, ms..., MakeIV<IV>::f(p[0])); };
        c.mscatter = [d, ms...](const int *const *p, uint64_t m, int op, const T *in) { V(in, Vc::Unaligned).scatter(d, ms..., MakeIV<IV>::f(p[0]), makem<K>(m)); };
        runChain(c);
    }
    static void all(const std::string &iv)
    {
        {
            static A<T> d[N1];
            chain<A<T>, T>("gather(A *, &c, " + iv + ")", d, (char *)d, sizeof(d), N1, [](A<T> &x) -> T & { return x.c; }, &A<T>::c);
        }
        {
            static P3<T> d[N1];
            chain<P3<T>, T>("gather(P3 *, &b, " + iv + ")", d, (char *)d, sizeof(d), N1, [](P3<T> &x) -> T & { return x.b; }, &P3<T>::b);
        }
        {
            static B<T> d[N1];
            chain<B<T>, T>("gather(B *, &x, &a, " + iv + ")", d, (char *)d, sizeof(d), N1, [](B<T> &x) -> T & { return x.x.a; }, &B<T>::x, &A<T>::a);
        }
    }
};
template <class V> void kinds()
{
    enum { N = V::Size };
    typedef typename V::IndexType IT;
#if KIND == 0
    basic<V, IT, T>("IndexType");
    nested<V, IT, T>("IndexType");
    large<V, IT, T>("IndexType");
#elif KIND == 1
    deep<V, IT, T>("IndexType");
#elif KIND == 2
    basic<V, std::array<int, N>, T>("std::array");
    basic<V, Vc::array<short, N>, T>("Vc::array<short>");
    basic<V, std::array<uchar, N>, T>("std::array<uchar>");
    basic<V, std::vector<int>, T>("std::vector");
    basic<V, std::array<uint, N>, T>("std::array<uint>");
    large<V, std::array<int, N>, T>("std::array<int>");
    large<V, Vc::array<short, N>, T>("Vc::array<short>");
    large<V, std::array<ushort, N>, T>("std::array<ushort>");
    large<V, std::array<uchar, N>, T>("std::array<uchar>");
    large<V, std::vector<int>, T>("std::vector<int>");
    large<V, std::vector<short>, T>("std::vector<short>");
    large<V, std::vector<ushort>, T>("std::vector<ushort>");
    nested<V, std::vector<int>, T>("std::vector<int>");
    carray<V>();
    initList<V>(std::integral_constant<bool, N == 4>());
#elif KIND == 5
    Deprecated<V, IT>::all("IndexType");
    Deprecated<V, Vc::array<short, N>>::all("Vc::array<short>");
    Deprecated<V, std::array<int, N>>::all("std::array<int>");
#elif KIND == 3
    basic<V, Vc::SimdArray<short, N>, T>("SimdArray<short>");
    basic<V, Vc::SimdArray<int, N>, T>("SimdArray<int>");
    basic<V, Vc::SimdArray<uint, N>, T>("SimdArray<uint>");
    basic<V, Vc::SimdArray<ushort, N>, T>("SimdArray<ushort>");
    nested<V, Vc::SimdArray<ushort, N>, T>("SimdArray<ushort>");
    large<V, Vc::SimdArray<ushort, N>, T>("SimdArray<ushort>");
    large<V, Vc::SimdArray<short, N>, T>("SimdArray<short>");
    large<V, Vc::SimdArray<uint, N>, T>("SimdArray<uint>");
#else
    basic<V, IT, schar>("IndexType");
    basic<V, IT, ushort>("IndexType");
    basic<V, IT, int>("IndexType");
    basic<V, IT, float>("IndexType");
    basic<V, IT, double>("IndexType");
    large<V, IT, schar>("IndexType");
    large<V, IT, double>("IndexType");
#endif
}
void explore()
{
#ifndef SIMDARRAY
    forAbis<T>([](auto t) { kinds<typename decltype(t)::type>(); });
#else
    kinds<Vc::SimdArray<T, 4>>();
    kinds<Vc::SimdArray<T, Vc::Vector<T>::Size + 1>>();
#endif
}
