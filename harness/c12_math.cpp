// C12: the exact math functions equal the scalar C library functions in every lane.
#include "fpvalues.h"
using namespace mc;
using Vc::uint;
using Vc::ushort;

template <class T> static T ulpOf(T x)  // distance to the next representable number away from zero
{
    x = std::fabs(x);
    return std::nextafter(x, std::numeric_limits<T>::infinity()) - x;
}
#define REF(name_, expr_) \
    template <class T, class R> struct Ref_##name_ { \
        static bool ok(T x, R got, std::string *why) { const R want = expr_; if (same(got, want)) return true; *why = "want " + str(want); return false; } \
    };
inline bool same(bool a, bool b) { return a == b; }
REF(abs, std::fabs(x))
REF(sqrt, std::sqrt(launder(x)))
REF(floor, std::floor(x))
REF(ceil, std::ceil(x))
REF(trunc, std::trunc(x))
REF(round, std::nearbyint(launder(x)))
REF(isnan, std::isnan(x))
REF(isinf, std::isinf(x))
REF(isfinite, std::isfinite(x))
REF(isnegative, std::signbit(x))
REF(fpclassify, std::fpclassify(x))
template <class T, class R> struct Ref_exponent {
    static bool ok(T x, R got, std::string *why)
    {
        const T want = x == 0 ? -T(FP<T>::Bias) : T(std::ilogb(x));
        if (same(got, want)) return true;
        *why = "want " + str(want);
        return false;
    }
    static bool domain(T x) { return !std::signbit(x) && (x == 0 || std::fpclassify(x) == FP_NORMAL); }
};
static const long double ApproxTol = 1.5L / 4096;  // rsqrtps / rcpps
template <class T, class R> struct Ref_rsqrt {
    static bool ok(T x, R got, std::string *why)
    {
        if (!(x > 0) || std::isinf(x)) {
            const T want = T(1) / std::sqrt(launder(x));
            if (same(got, want)) return true;
            *why = "want " + str(want);
            return false;
        }
        const long double e = 1.L / std::sqrt((long double)x);
        const long double tol = sizeof(T) == 4 ? ApproxTol : 3.L / (1ull << 53);
        if (std::fabs(got - e) <= tol * e) return true;
        *why = "want " + str(T(e)) + " within " + std::to_string(double(tol)) + " relative";
        return false;
    }
    static bool domain(T x) { return std::fpclassify(x) != FP_SUBNORMAL; }
};
template <class T, class R> struct Ref_reciprocal {
    static bool ok(T x, R got, std::string *why)
    {
        if (x == 0 || std::isinf(x) || std::isnan(x)) {
            const T want = T(1) / launder(x);
            if (same(got, want)) return true;
            *why = "want " + str(want);
            return false;
        }
        const long double e = 1.L / (long double)x;
        const long double tol = sizeof(T) == 4 ? ApproxTol : 1.L / (1ull << 53);
        if (std::fabs(got - e) <= tol * std::fabs(e)) return true;
        *why = "want " + str(T(e)) + " within " + std::to_string(double(tol)) + " relative";
        return false;
    }
    static bool domain(T x)  // argument and result normal (rcpps flushes denormals)
    {
        if (std::fpclassify(x) != FP_NORMAL) return std::fpclassify(x) != FP_SUBNORMAL;
        return std::fabs(x) < T(1) / std::numeric_limits<T>::min() * T(.999);
    }
};

template <class V> using E = typename V::EntryType;
template <class R, class V> inline typename std::enable_if<std::is_same<R, bool>::value>::type put(const V &v, R *o) { v.store(o); }  // masks
template <class R, class V> inline typename std::enable_if<!std::is_same<R, bool>::value>::type put(const V &v, R *o) { v.store(o, Vc::Unaligned); }
#define UNARY(fn_, R_, dom_) \
    UnCore<T, R_>::run(std::string(#fn_ "(") + vn<V>() + ")", V::Size, [](const T *w, R_ *o) { put<R_>(Vc::fn_(make<V>(w)), o); }, &Ref_##fn_<T, R_>::ok, dom_);

template <class V> struct NativeOnly {
    template <class T> static void run()
    {
        UNARY(exponent, T, (&Ref_exponent<T, T>::domain))
    }
};
template <class V> void unary()
{
    typedef E<V> T;
    UNARY(abs, T, nullptr)
    UNARY(sqrt, T, nullptr)
    UNARY(floor, T, nullptr)
    UNARY(ceil, T, nullptr)
    UNARY(trunc, T, nullptr)
    UNARY(round, T, nullptr)
    UNARY(isnan, bool, nullptr)
    UNARY(isinf, bool, nullptr)
    UNARY(isfinite, bool, nullptr)
    UNARY(isnegative, bool, nullptr)
    UNARY(rsqrt, T, (&Ref_rsqrt<T, T>::domain))
    UNARY(reciprocal, T, (&Ref_reciprocal<T, T>::domain))
    NativeOnly<V>::template run<T>();
    UnCore<T, int>::run("fpclassify(" + vn<V>() + ")", V::Size, [](const T *w, int *o) { put<int>(Vc::fpclassify(make<V>(w)), o); }, &Ref_fpclassify<T, int>::ok, nullptr, false);
}

// ---------------------------------------------------------------- frexp / ldexp
template <class T> struct FrexpOut { T f; int e; };
template <class T> std::string str(const FrexpOut<T> &x) { return "{" + mc::str(x.f) + ", " + mc::str(x.e) + "}"; }
template <class T> bool okFrexp(T x, FrexpOut<T> got, std::string *why)
{
    int e = 0;
    const T f = std::frexp(x, &e);
    if (same(f, got.f) && (!std::isfinite(x) || e == got.e)) return true;
    *why = "want {" + mc::str(f) + ", " + mc::str(e) + "}";
    return false;
}
template <class T> bool normalOrSpecial(T x) { return std::fpclassify(x) != FP_SUBNORMAL; }
template <class T> bool subnormal(T x) { return std::fpclassify(x) == FP_SUBNORMAL; }

template <class T> struct Bin { T x, y; };
// binary operations: two arrays, reference function
template <class A, class B, class R> struct BinCore {
    typedef void (*Fn)(const A *, const B *, R *);
    typedef bool (*Ok)(A, B, R, std::string *);
    static void run(const std::string &name, size_t N, const std::vector<A> &as, const std::vector<B> &bs, Fn f, Ok ok, bool (*domain)(A, B) = nullptr)
    {
        Site s(name);
        if (!s.active()) return;
        std::vector<A> pa;
        std::vector<B> pb;
        A x[64];
        B y[64];
        R got[64];
        size_t fill = 0;
        auto flush = [&](size_t at) {
            s.at(at, fill);
            f(x, y, got);
            ++C.states; ++C.transitions; C.checks += N;
            uint64_t h = s.h;
            for (size_t i = 0; i < N; ++i) {
                std::string why;
                if (!ok(x[i], y[i], got[i], &why)) { s.fail("lane " + std::to_string(i) + ": (" + mc::str(x[i]) + ", " + mc::str(y[i]) + ")", "got " + mc::str(got[i]) + " " + why); return false; }
                h = mix(h, bits(got[i]));
            }
            outcome(h);
            return true;
        };
        // every pair, packed into lanes; two passes so that every pair has been in different lanes
        for (int pass = 0; pass < 2; ++pass) {
            fill = 0;
            size_t n = 0, skip = pass;
            for (size_t i = 0; i < as.size(); ++i)
                for (size_t j = 0; j < bs.size(); ++j) {
                    const A a = as[i];
                    const B b = bs[(j + i) % bs.size()];
                    if (domain && !domain(a, b)) continue;
                    if (skip) { --skip; continue; }
                    x[fill] = a; y[fill] = b;
                    ++n;
                    if (++fill == N) { if (!flush(n)) return; fill = 0; }
                }
            if (fill) { for (size_t k = fill; k < N; ++k) { x[k] = x[0]; y[k] = y[0]; } if (!flush(n)) return; }
            if (N == 1) break;
        }
    }
};
template <class T> bool okCopysign(T a, T b, T got, std::string *why) { const T w = std::copysign(a, b); if (same(got, w) && (w == w || std::signbit(got) == std::signbit(w))) return true; *why = "want " + mc::str(w); return false; }
template <class T> bool eqNum(T a, T b) { return a == b; }
template <class T> bool okMin(T a, T b, T got, std::string *why) { const T w = b < a ? b : a; if (eqNum(got, w)) return true; *why = "want " + mc::str(w); return false; }
template <class T> bool okMax(T a, T b, T got, std::string *why) { const T w = a < b ? b : a; if (eqNum(got, w)) return true; *why = "want " + mc::str(w); return false; }
template <class T> bool noNan(T a, T b) { return a == a && b == b; }
template <class T> bool okLdexp(T x, int e, T got, std::string *why) { const T w = std::ldexp(x, e); if (same(got, w)) return true; *why = "want " + mc::str(w); return false; }
template <class T> bool ldexpNormal(T x, int e)
{
    const int c = std::fpclassify(x);
    if (c == FP_ZERO || c == FP_NAN || c == FP_INFINITE) return true;
    const T r = std::ldexp(x, e);
    return c == FP_NORMAL && std::fpclassify(r) == FP_NORMAL && std::ldexp(r, -e) == x;
}
template <class T> bool ldexpRange(T x, int e) { return !ldexpNormal(x, e); }
inline std::vector<int> exponents(int lim)
{
    std::set<int> r;
    for (int i = -40; i <= 40; ++i) r.insert(i);
    for (int i : {64, 100, 125, 126, 127, 128, 129, 148, 149, 150, 200, 252, 253, 254, 255, 256, 257, 500, 1000, 1021, 1022, 1023, 1024, 1025, 1073, 1074, 1075, 2044, 2045, 2046, 2047, 2048, 2049, 2097, 2098, 2099})
        if (i <= lim) { r.insert(i); r.insert(-i); }
    return std::vector<int>(r.begin(), r.end());
}
template <class T> const std::vector<T> &mid()
{
    static std::vector<T> v;
    if (v.empty()) {
        typedef typename FP<T>::U U;
        const int Em = (1 << FP<T>::E) - 1, B = FP<T>::Bias;
        for (int e : {0, 1, 2, 3, 24, 53, B - 60, B - 53, B - 24, B - 2, B - 1, B, B + 1, B + 2, B + 22, B + 23, B + 24, B + 30, B + 31, B + 51, B + 52, B + 53, Em - 54, Em - 25, Em - 2, Em - 1, Em})
            for (U m : FpValues<T>::mantissas(0))
                for (int sg = 0; sg < 2; ++sg) v.push_back(fromBits<T>((U(sg) << (FP<T>::M + FP<T>::E)) | (U(e) << FP<T>::M) | m));
    }
    return v;
}
template <class V> void binary()
{
    typedef E<V> T;
    typedef typename V::IndexType I;
    typedef FrexpOut<T> F;
    auto fr = [](const T *w, F *o) {
        I e(12345);
        int ei[V::Size];
        const V r = Vc::frexp(make<V>(w), &e);
        T f[V::Size];
        r.store(f, Vc::Unaligned);
        e.store(ei, Vc::Unaligned);
        for (size_t i = 0; i < V::Size; ++i) { o[i].f = f[i]; o[i].e = ei[i]; }
    };
    UnCore<T, F>::run("frexp(" + vn<V>() + ")", V::Size, fr, &okFrexp<T>, &normalOrSpecial<T>);
    UnCore<T, F>::run("frexp(" + vn<V>() + ") of denormals", V::Size, fr, &okFrexp<T>, &subnormal<T>, false);
    auto ld = [](const T *w, const int *e, T *o) {
        I x(e, Vc::Unaligned);
        put<T>(Vc::ldexp(make<V>(w), x), o);
    };
    const int lim = sizeof(T) == 4 ? 300 : 3000;
    BinCore<T, int, T>::run("ldexp(" + vn<V>() + ")", V::Size, mid<T>(), exponents(lim), ld, &okLdexp<T>, &ldexpNormal<T>);
    BinCore<T, int, T>::run("ldexp(" + vn<V>() + ") denormal argument or result outside the normal range", V::Size, mid<T>(), exponents(lim), ld, &okLdexp<T>, &ldexpRange<T>);
    BinCore<T, T, T>::run("copysign(" + vn<V>() + ")", V::Size, mid<T>(), mid<T>(), [](const T *a, const T *b, T *o) { put<T>(Vc::copysign(make<V>(a), make<V>(b)), o); }, &okCopysign<T>);
}
template <class V> void minmax(const std::vector<E<V>> &vals)
{
    typedef E<V> T;
    BinCore<T, T, T>::run("min(" + vn<V>() + ")", V::Size, vals, vals, [](const T *a, const T *b, T *o) { put<T>(Vc::min(make<V>(a), make<V>(b)), o); }, &okMin<T>, &noNan<T>);
    BinCore<T, T, T>::run("max(" + vn<V>() + ")", V::Size, vals, vals, [](const T *a, const T *b, T *o) { put<T>(Vc::max(make<V>(a), make<V>(b)), o); }, &okMax<T>, &noNan<T>);
}
template <class V> void intAbs()
{
    typedef E<V> T;
    Site s("abs(" + vn<V>() + ")");
    if (!s.active()) return;
    std::vector<T> v;
    if (sizeof(T) == 2) for (int i = -32767; i <= 32767; ++i) v.push_back(T(i));
    else for (T x : alphabet<T>(3)) if (x != std::numeric_limits<T>::min()) v.push_back(x);
    forOnes<V>(s, v, [&](const Lanes<V> &a) {
        Lanes<V> w;
        for (size_t i = 0; i < V::Size; ++i) w[i] = T(a[i] < 0 ? -a[i] : a[i]);
        return expect(s, get(Vc::abs(make<V>(a))), w, [&] { return str(a); });
    });
}

// ---------------------------------------------------------------- fma
template <class T> struct Triple { T a, b, c; };
template <class T> std::vector<Triple<T>> triples()
{
    std::vector<Triple<T>> r;
    std::vector<T> v;
    typedef typename FP<T>::U U;
    const int B = FP<T>::Bias;
    const U all = (U(1) << FP<T>::M) - 1;
    for (int e : {B - 30, B - 1, B, B + 1, B + 20})
        for (U m : std::vector<U>{0, 1, 2, all, all - 1, all / 3, all / 3 * 2, all / 7, U(1) << (FP<T>::M / 2), (U(1) << (FP<T>::M / 2)) + 1, (U(1) << (FP<T>::M / 2 + 1)) - 1})
            for (int sg = 0; sg < 2; ++sg) v.push_back(fromBits<T>((U(sg) << (FP<T>::M + FP<T>::E)) | (U(e) << FP<T>::M) | m));
    v.push_back(0);
    v.push_back(T(-0.));
    for (T a : v)
        for (T b : v) {
            const T p = a * b;
            // cancelling, nearly cancelling, half-way and far apart summands
            const T u = ulpOf(p);
            for (T c : {T(0), p, T(-p), T(-p + u), T(-p - u), T(u / 2), T(-u / 2), T(u / 4), T(u * 3 / 2), T(1), T(-1), T(p * T(1e-9)), T(p * T(-1e9)), T(a), T(-b), T(std::ldexp(T(1), FP<T>::M)), T(p / 3)}) r.push_back({a, b, c});
        }
    // factors whose product does not fit: the error of p is the exact result
    return r;
}
template <class T> T fmaRef(T a, T b, T c) { return std::fma(launder(a), launder(b), launder(c)); }
// property of every implementation: no intermediate rounding of the product beyond the working precision
template <class T> bool fmaBound(T a, T b, T c, T got, long double *err)
{
    const __float128 exact = (__float128)a * b + c;
    __float128 d = (__float128)got - exact;
    if (d < 0) d = -d;
    __float128 p = (__float128)a * b;
    if (p < 0) p = -p;
    const T rounded = T(exact);
    // half an ulp of the result (+ what the documented extra precision of the emulation leaves)
    __float128 tol = (__float128)ulpOf(rounded) * (sizeof(T) == 4 ? .5000001 : 1.);
    if (sizeof(T) == 8) tol += p * (__float128)std::ldexp(1.L, -76);
    *err = (long double)d;
    return d <= tol;
}
template <class V, bool Exact> void fmaSite(const std::string &name)
{
    typedef E<V> T;
    Site s(name);
    if (!s.active()) return;
    static const std::vector<Triple<T>> tr = triples<T>();
    Lanes<V> a, b, c;
    for (size_t i = 0; i < tr.size(); ++i) {
        for (size_t k = 0; k < V::Size; ++k) { const Triple<T> &t = tr[(i + k * 1009) % tr.size()]; a[k] = t.a; b[k] = t.b; c[k] = t.c; }
        s.at(i);
        ++C.states; ++C.transitions; C.checks += V::Size;
        const Lanes<V> g = get(Vc::fma(make<V>(a), make<V>(b), make<V>(c)));
        for (size_t k = 0; k < V::Size; ++k) {
            const T w = fmaRef(a[k], b[k], c[k]);
            long double err = 0;
            if (same(g[k], w) || (w == 0 && g[k] == 0) || (!Exact && fmaBound(a[k], b[k], c[k], g[k], &err))) continue;
            s.fail("lane " + std::to_string(k) + ": fma(" + str(a[k]) + ", " + str(b[k]) + ", " + str(c[k]) + ")", "got " + str(g[k]) + " correctly rounded: " + str(w));
            return;
        }
        outcome(hashLanes(s.h, g));
    }
}
template <class V> void fmaFloat()
{
    fmaSite<V, false>("fma(" + vn<V>() + ")");
    fmaSite<V, true>("fma(" + vn<V>() + ") rounded exactly once");
}
template <class V> void fmaInt()
{
    typedef E<V> T;
    typedef typename std::make_unsigned<T>::type U;
    Site s("fma(" + vn<V>() + ")");
    if (!s.active()) return;
    const std::vector<T> A = alphabet<T>(0);
    Lanes<V> a, b, c, w;
    for (size_t i = 0; i < A.size(); ++i)
        for (size_t j = 0; j < A.size(); ++j)
            for (size_t k = 0; k < A.size(); ++k) {
                for (size_t l = 0; l < V::Size; ++l) {
                    a[l] = A[(i + l) % A.size()]; b[l] = A[(j + 2 * l) % A.size()]; c[l] = A[(k + 3 * l) % A.size()];
                    if (std::is_signed<T>::value && V::Size == 1) { a[l] = T(a[l] % 181); b[l] = T(b[l] % 181); c[l] = T(c[l] / 4); }  // no signed overflow in the scalar implementation
                    w[l] = T(U(unsigned(U(a[l])) * unsigned(U(b[l])) + unsigned(U(c[l]))));
                }
                s.at(i, j, k);
                if (!expect(s, get(Vc::fma(make<V>(a), make<V>(b), make<V>(c))), w, [&] { return str(a) + " " + str(b) + " " + str(c); })) return;
            }
}
template <class T, size_t N> using SA = Vc::SimdArray<T, N>;
template <class T, size_t N, class W, size_t M> struct NativeOnly<Vc::SimdArray<T, N, W, M>> {
    template <class> static void run() {}
};
// the deprecated member functions of Vector (those of SimdArray do not compile)
template <class V> void deprecated()
{
    typedef E<V> T;
    UnCore<T, T>::run("v.exponent() (" + vn<V>() + ")", V::Size, [](const T *w, T *o) { put<T>(make<V>(w).exponent(), o); }, &Ref_exponent<T, T>::ok, &Ref_exponent<T, T>::domain);
    UnCore<T, bool>::run("v.isNegative() (" + vn<V>() + ")", V::Size, [](const T *w, bool *o) { put<bool>(make<V>(w).isNegative(), o); }, &Ref_isnegative<T, bool>::ok, nullptr);
    BinCore<T, T, T>::run("v.copySign (" + vn<V>() + ")", V::Size, mid<T>(), mid<T>(), [](const T *a, const T *b, T *o) { put<T>(make<V>(a).copySign(make<V>(b)), o); }, &okCopysign<T>);
}
template <class T> void nativeUnary() { forAbis<T>([](auto tag) { unary<typename decltype(tag)::type>(); deprecated<typename decltype(tag)::type>(); }); }
template <class T> void nativeBinary()
{
    forAbis<T>([](auto tag) {
        typedef typename decltype(tag)::type V;
        binary<V>();
        fmaFloat<V>();
        minmax<V>(mid<T>());
    });
}
template <class V> void saAll() { unary<V>(); binary<V>(); fmaFloat<V>(); minmax<V>(mid<E<V>>()); }
template <class T> void intAll()
{
    forAbis<T>([](auto tag) {
        typedef typename decltype(tag)::type V;
        minmax<V>(alphabet<T>(2));
        fmaInt<V>();
    });
    minmax<SA<T, 7>>(alphabet<T>(1));
    minmax<SA<T, 16>>(alphabet<T>(1));
    fmaInt<SA<T, 7>>();
}
template <class T> void absAll()
{
    forAbis<T>([](auto tag) { intAbs<typename decltype(tag)::type>(); });
    intAbs<SA<T, 7>>();
    intAbs<SA<T, 16>>();
}
void explore()
{
#if PART == 0
    nativeUnary<float>();
#elif PART == 1
    nativeUnary<double>();
#elif PART == 2
    nativeBinary<float>();
#elif PART == 3
    nativeBinary<double>();
#elif PART == 4
    saAll<SA<float, 3>>();
    saAll<SA<float, 13>>();
    saAll<SA<float, 16>>();
#elif PART == 5
    saAll<SA<double, 3>>();
    saAll<SA<double, 8>>();
    saAll<SA<double, 5>>();
#elif PART == 6
    intAll<int>();
    intAll<uint>();
    intAll<short>();
    intAll<ushort>();
    absAll<int>();
    absAll<short>();
#endif
}
