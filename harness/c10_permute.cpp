// C10: permutations move values to exactly the specified lanes.
#include "mc.h"
#include "masks.h"
using namespace mc;

// kinds of lane movement; arg n
enum Kind { Shift, ShiftIn, Rotate, Reverse, IlLow, IlHigh, Bcast };
template <class T> struct Fn {
    std::string name;
    Kind kind;
    bool fixed;  // amount is a compile time constant: only n
    int n;
    void (*f)(const T *a, const T *b, int n, T *out);
};
template <class T> struct Core {
    typedef std::vector<T> X;
    typedef std::vector<Fn<T>> Fns;
    static T raw(uint64_t u) { T r; std::memcpy(&r, &u, sizeof(T)); return r; }
    static T tag(size_t i)
    {
        uint64_t u = 0;
        for (size_t k = 0; k < sizeof(T); ++k) u |= uint64_t((i * 7 + 3 + k * 61) & 0xff) << (8 * k);
        if (std::is_floating_point<T>::value && sizeof(T) == 4 && (u & 0x7f800000u) == 0x7f800000u) u ^= 0x01000000u;
        if (std::is_floating_point<T>::value && sizeof(T) == 8 && (u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull) u ^= 0x0100000000000000ull;
        return raw(u);
    }
    // operand pairs: lane tags; one lane all ones / one lane zero; sign bit only
    static std::vector<std::pair<X, X>> operands(size_t N)
    {
        std::vector<std::pair<X, X>> r;
        for (int s = 0; s < 2; ++s) {
            X a(N), b(N);
            for (size_t i = 0; i < N; ++i) { a[i] = tag(i + s * 64); b[i] = tag(N + i + s * 64); }
            r.push_back({a, b});
        }
        const uint64_t ones = ~0ull, sign = 1ull << (sizeof(T) * 8 - 1);
        // integer lanes all ones; floating point: a quiet NaN with full payload is all ones as well
        for (int v = 0; v < 3; ++v)
            for (size_t l = 0; l < 2 * N; ++l) {
                X a(N, raw(v == 1 ? ones : 0)), b = a;
                (l < N ? a[l] : b[l - N]) = raw(v == 0 ? ones : v == 1 ? 0 : sign);
                r.push_back({a, b});
            }
        return r;
    }
    static T zero() { return T(0); }
    static T ref(Kind k, const X &a, const X &b, int n, size_t i)
    {
        const long N = long(a.size()), p = long(i) + n;
        switch (k) {
        case Shift: return p >= 0 && p < N ? a[p] : zero();
        case ShiftIn: return p >= 0 && p < N ? a[p] : n > 0 ? (p < 2 * N ? b[p - N] : zero()) : (p >= -N ? b[p + N] : zero());
        case Rotate: return a[((p % N) + N) % N];
        case Reverse: return a[N - 1 - i];
        case IlLow: return i & 1 ? b[i / 2] : a[i / 2];
        case IlHigh: return (i + N) & 1 ? b[(i + N) / 2] : a[(i + N) / 2];
        case Bcast: return a[n];
        }
        return zero();
    }
    static std::vector<int> amounts(Kind k, size_t N_)
    {
        const int N = int(N_);
        std::vector<int> r;
        if (k == Reverse || k == IlLow || k == IlHigh) return {0};
        const int lim = k == ShiftIn ? 2 * N - 1 : 3 * N + 1;
        for (int i = -lim; i <= lim; ++i) r.push_back(i);
        if (k != ShiftIn) for (int i : {100, 255, 256, 257, 1000, 65536, (1 << 30), (1 << 30) + 3}) { r.push_back(i); r.push_back(-i); }
        return r;
    }
    static void run(const std::string &vn, size_t N, const Fns &fns)
    {
        const auto ops = operands(N);
        X out(N);
        for (auto &c : fns) {
            Site s(vn + " " + c.name);
            if (!s.active()) continue;
            for (int n : c.fixed ? std::vector<int>{c.n} : amounts(c.kind, N))
                for (size_t q = 0; q < ops.size(); ++q) {
                    s.at(q, n);
                    ++C.states; ++C.transitions; C.checks += N;
                    for (auto &o : out) o = tag(200);
                    c.f(&ops[q].first[0], &ops[q].second[0], n, &out[0]);
                    uint64_t h = s.h;
                    for (size_t i = 0; i < N; ++i) {
                        h = mix(h, bits(out[i]));
                        const T w = ref(c.kind, ops[q].first, ops[q].second, n, i);
                        if (!bitsame(out[i], w)) {
                            s.fail("n=" + std::to_string(n) + " a=" + str(ops[q].first) + " b=" + str(ops[q].second), "lane " + std::to_string(i) + " got " + str(out[i]) + " want " + str(w));
                            break;
                        }
                    }
                    outcome(h);
                }
        }
    }
    // ------------------------------------------------------------------ sorted
    static void sortOne(Site &s, const X &x, void (*f)(const T *, T *), X &out)
    {
        ++C.states; ++C.transitions; C.checks += x.size();
        X w = x;
        std::sort(w.begin(), w.end());
        f(&x[0], &out[0]);
        for (size_t i = 0; i < x.size(); ++i)
            if (!(out[i] == w[i])) { s.fail("x=" + str(x), "got " + str(out) + " want " + str(w)); return; }
    }
    static void sort(const std::string &vn, size_t N, void (*f)(const T *, T *))
    {
        Site s(vn + " sorted()");
        if (!s.active()) return;
        const bool FP = std::is_floating_point<T>::value;
        const T hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::lowest(), inf = FP ? std::numeric_limits<T>::infinity() : hi;
        X out(N), x(N);
        const std::vector<std::pair<T, T>> P = {{T(0), T(1)}, {lo, hi}, {T(-1), T(1)}, {FP ? T(-inf) : lo, inf}, {T(hi / 2 + 1), T(hi / 2)}, {T(127), T(128)}, {FP ? -std::numeric_limits<T>::denorm_min() : T(-1), FP ? std::numeric_limits<T>::denorm_min() : T(0)}};
        // 0/1 principle: all two-valued inputs
        for (auto &p : P) {
            if (N <= 16) {
                const bool all = N <= 12 || g_thorough || &p == &P[1] || &p == &P[0];
                std::vector<uint64_t> sel;
                if (all) for (uint64_t b = 0; b < (1ull << N); ++b) sel.push_back(b);
                else sel = maskSet(N);
                for (uint64_t b : sel) {
                    for (size_t i = 0; i < N; ++i) x[i] = (b >> i) & 1 ? p.second : p.first;
                    s.at(b);
                    sortOne(s, x, f, out);
                }
            } else for (uint64_t b : maskSet(N)) { for (size_t i = 0; i < N; ++i) x[i] = (b >> i) & 1 ? p.second : p.first; s.at(b); sortOne(s, x, f, out); }
        }
        // all permutations of distinct values (N <= 8); N <= 4: all sequences over an 8 letter alphabet
        if (N <= 8) {
            std::vector<int> p;
            for (size_t i = 0; i < N; ++i) p.push_back(int(i));
            const T vals[8] = {lo, T(lo + 1), T(-7), T(0), T(1), T(hi / 2), T(hi / 2 + 1), hi};
            const T vals2[8] = {T(-100), T(-2), T(-1), T(3), T(4), T(90), T(1000), T(32000)};
            uint64_t k = 0;
            do { for (size_t i = 0; i < N; ++i) x[i] = vals[p[i]]; s.at(++k); sortOne(s, x, f, out); for (size_t i = 0; i < N; ++i) x[i] = vals2[p[i]]; sortOne(s, x, f, out); } while (std::next_permutation(p.begin(), p.end()));
        }
        if (N <= 4) {
            const T S[8] = {T(0), T(1), lo, hi, T(-1), inf, T(2), T(-3)};
            for (int q = 0; q < (1 << 3 * N); ++q) { for (size_t i = 0; i < N; ++i) x[i] = S[(q >> 3 * i) & 7]; s.at(q); sortOne(s, x, f, out); }
        }
        // all rotations/reflections/transpositions of the ascending sequence, and each lane through the alphabet
        X asc(N);
        for (size_t i = 0; i < N; ++i) asc[i] = T(int(i) * 11 - 20);
        for (size_t a = 0; a < N; ++a)
            for (size_t b = 0; b < N; ++b) {
                x = asc; std::swap(x[a], x[b]); s.at(a, b); sortOne(s, x, f, out);
                std::reverse(x.begin(), x.end()); sortOne(s, x, f, out);
                x = asc; std::rotate(x.begin(), x.begin() + a, x.end()); std::reverse(x.begin(), x.begin() + b); sortOne(s, x, f, out);
                x = asc; x[a] = x[b]; sortOne(s, x, f, out);
            }
        for (size_t l = 0; l < N; ++l)
            for (T a : alphabet<T>(1)) if (a == a) { x = asc; x[l] = a; s.at(l); sortOne(s, x, f, out); x.assign(N, a); x[l] = T(5); sortOne(s, x, f, out); }
    }
};
template <class V> struct R {
    typedef typename V::EntryType T;
    static V in(const T *p) { return V(p, Vc::Unaligned); }
    static void st(const V &v, T *o) { v.store(o, Vc::Unaligned); }
    static void shift(const T *a, const T *, int n, T *o) { st(in(a).shifted(launder(n)), o); }
    static void shiftIn(const T *a, const T *b, int n, T *o) { st(in(a).shifted(launder(n), in(b)), o); }
    static void rot(const T *a, const T *, int n, T *o) { st(in(a).rotated(launder(n)), o); }
    static void rev(const T *a, const T *, int, T *o) { st(in(a).reversed(), o); }
    static void il(const T *a, const T *b, int, T *o) { st(in(a).interleaveLow(in(b)), o); }
    static void ih(const T *a, const T *b, int, T *o) { st(in(a).interleaveHigh(in(b)), o); }
    static void pl(const T *a, const T *b, int, T *o) { st(Vc::interleave(in(a), in(b)).first, o); }
    static void ph(const T *a, const T *b, int, T *o) { st(Vc::interleave(in(a), in(b)).second, o); }
    static void sorted(const T *a, T *o) { st(in(a).sorted(), o); }
    // constant amounts: the always-inlined code takes other paths when the amount is known
    template <int N> static void shiftC(const T *a, const T *, int, T *o) { st(in(a).shifted(N), o); }
    template <int N> static void shiftInC(const T *a, const T *b, int, T *o) { st(in(a).shifted(N, in(b)), o); }
    template <int N> static void rotC(const T *a, const T *, int, T *o) { st(in(a).rotated(N), o); }
    template <int I> static void bcast(const T *a, const T *, int, T *o) { st(in(a).template broadcast<I>(), o); }
    static void bscalar(const T *a, const T *, int n, T *o) { st(V(a[n]), o); }
    static void bassign(const T *a, const T *, int n, T *o) { V v(T(1)); v = a[n]; st(v, o); }

    static void run()
    {
        typename Core<T>::Fns f = {{"shifted(n)", Shift, false, 0, shift}, {"shifted(n, shiftIn)", ShiftIn, false, 0, shiftIn}, {"rotated(n)", Rotate, false, 0, rot}, {"reversed()", Reverse, false, 0, rev}};
        for (int i = 0; i < int(V::Size); ++i) { f.push_back({"broadcast constructor from entry " + std::to_string(i), Bcast, true, i, bscalar}); f.push_back({"broadcast assignment from entry " + std::to_string(i), Bcast, true, i, bassign}); }
        Core<T>::run(vn<V>(), V::Size, f);
    }
    static void interleaves()
    {
        Core<T>::run(vn<V>(), V::Size, {{"interleaveLow(b)", IlLow, false, 0, il}, {"interleaveHigh(b)", IlHigh, false, 0, ih}, {"interleave(a,b).first", IlLow, false, 0, pl}, {"interleave(a,b).second", IlHigh, false, 0, ph}});
    }
    static void sorts() { Core<T>::sort(vn<V>(), V::Size, sorted); }
    template <int... I> static void constants(std::integer_sequence<int, I...>)
    {
        const int S = V::Size;
        typename Core<T>::Fns f;
        const int unused[] = {(f.push_back({"shifted(" + std::to_string(I - S - 1) + ") constant", Shift, true, I - S - 1, shiftC<I - S - 1>}),
                               f.push_back({"rotated(" + std::to_string(I - S - 1) + ") constant", Rotate, true, I - S - 1, rotC<I - S - 1>}),
                               f.push_back({"shifted(" + std::to_string(clamp(I - S - 1)) + ", shiftIn) constant", ShiftIn, true, clamp(I - S - 1), shiftInC<clamp(I - S - 1)>}), 0)...};
        (void)unused;
        Core<T>::run(vn<V>(), V::Size, f);
    }
    static constexpr int clamp(int x) { return x < -int(V::Size) ? -int(V::Size) : x > int(V::Size) ? int(V::Size) : x; }
    static void constants() { constants(std::make_integer_sequence<int, 2 * V::Size + 3>()); }
    template <int... I> static void bcasts(std::integer_sequence<int, I...>)
    {
        typename Core<T>::Fns f;
        const int unused[] = {(f.push_back({"broadcast<" + std::to_string(I) + ">()", Bcast, true, I, bcast<I>}), 0)...};
        (void)unused;
        Core<T>::run(vn<V>(), V::Size, f);
    }
};
template <class V> void fpOnly(std::true_type)
{
#ifndef Vc_IMPL_Scalar
    R<V>::bcasts(std::make_integer_sequence<int, V::Size>());
#endif
}
template <class V> void fpOnly(std::false_type) {}
template <class T> void types(bool)
{
    forAbis<T>([](auto t) {
        typedef typename decltype(t)::type V;
        R<V>::run();
        R<V>::interleaves();
        R<V>::sorts();
        fpOnly<V>(std::is_floating_point<T>());
        R<V>::constants();
    });
}
// transpose: all lanes of 4 (1) vectors
template <class V> void transpose4()
{
    typedef typename V::EntryType T;
    Site s(vn<V>() + " tie(r0..r3) = transpose(a0..a3)");
    if (!s.active()) return;
    for (int q = 0; q < 1 + 2 * 16; ++q) {
        T m[4][4];
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m[i][j] = q == 0 ? Core<T>::tag(4 * i + j) : (q <= 16) == (q % 16 == 4 * i + j) ? Core<T>::raw(~0ull) : T(0);
        ++C.states; ++C.transitions; C.checks += 16;
        s.at(q);
        const V a0(m[0], Vc::Unaligned), a1(m[1], Vc::Unaligned), a2(m[2], Vc::Unaligned), a3(m[3], Vc::Unaligned);
        V r0, r1, r2, r3;
        Vc::tie(r0, r1, r2, r3) = Vc::transpose(a0, a1, a2, a3);
        T o[4][4];
        r0.store(o[0], Vc::Unaligned); r1.store(o[1], Vc::Unaligned); r2.store(o[2], Vc::Unaligned); r3.store(o[3], Vc::Unaligned);
        uint64_t h = s.h;
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { h = mix(h, bits(o[i][j])); if (!bitsame(o[i][j], m[j][i])) s.fail("matrix " + std::to_string(q), "row " + std::to_string(i) + " lane " + std::to_string(j) + " got " + str(o[i][j]) + " want " + str(m[j][i])); }
        outcome(h);
        // in place
        V b0 = a0, b1 = a1, b2 = a2, b3 = a3;
        Vc::tie(b0, b1, b2, b3) = Vc::transpose(b0, b1, b2, b3);
        b0.store(o[0], Vc::Unaligned); b1.store(o[1], Vc::Unaligned); b2.store(o[2], Vc::Unaligned); b3.store(o[3], Vc::Unaligned);
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (!bitsame(o[i][j], m[j][i])) s.fail("in place, matrix " + std::to_string(q), "row " + std::to_string(i) + " lane " + std::to_string(j) + " got " + str(o[i][j]) + " want " + str(m[j][i]));
    }
}
template <class... Vs> void each(int) { const int u[] = {(R<Vs>::run(), 0)...}; (void)u; }
template <class... Vs> void eachSort(int) { const int u[] = {(R<Vs>::sorts(), 0)...}; (void)u; }
template <class... Vs> void eachIl(int) { const int u[] = {(R<Vs>::interleaves(), 0)...}; (void)u; }
template <class T, size_t N> using SA = Vc::SimdArray<T, N>;
using Vc::uint;
using Vc::ushort;
void explore()
{
#if PART == 0
    types<double>(0);
    types<float>(0);
#ifdef Vc_IMPL_Scalar
    {
        Site s("Scalar::float_v tie(r) = transpose(a)");
        for (float x : {0.f, 1.f, -3.f}) { Vc::Scalar::float_v a(x), r(9.f); ++C.states; ++C.transitions; ++C.checks; Vc::tie(r) = Vc::transpose(a); if (r[0] != x) s.fail(str(x), str(r[0])); }
    }
#else
    transpose4<Vc::SSE::float_v>();
#endif
    transpose4<SA<float, 4>>();
#elif PART == 1
    types<int>(0);
    types<uint>(0);
#elif PART == 2
    types<short>(0);
#elif PART == 3
    types<ushort>(0);
#elif PART == 4
    each<SA<float, 3>, SA<float, 4>, SA<float, 6>, SA<float, 8>, SA<float, 12>, SA<float, 16>, SA<float, 20>>(0);
#elif PART == 5
    each<SA<double, 2>, SA<double, 5>, SA<double, 7>, SA<double, 8>, SA<double, 12>>(0);
#elif PART == 6
    each<SA<int, 4>, SA<int, 7>, SA<int, 12>, SA<int, 16>, SA<uint, 11>, SA<uint, 24>>(0);
#elif PART == 7
    each<SA<short, 9>, SA<short, 16>, SA<short, 24>, SA<ushort, 17>, SA<ushort, 32>>(0);
#elif PART == 8
    eachSort<SA<float, 3>, SA<float, 8>, SA<float, 13>, SA<float, 16>, SA<double, 5>, SA<double, 8>, SA<int, 6>, SA<int, 16>>(0);
    eachSort<SA<uint, 8>, SA<short, 8>, SA<short, 16>, SA<short, 11>, SA<ushort, 16>, SA<ushort, 5>, SA<ushort, 32>>(0);
    eachIl<SA<float, 4>, SA<float, 8>, SA<float, 16>, SA<double, 4>, SA<double, 8>, SA<int, 8>, SA<uint, 16>, SA<short, 16>, SA<ushort, 32>>(0);
    eachIl<SA<float, 6>, SA<int, 12>, SA<double, 6>, SA<short, 12>, SA<float, 24>>(0);
#endif
}
