// C13: the transcendental functions are accurate in every lane, whatever the other lanes hold.
//
// Oracle: the C library in a wider type (double for float, 80-bit long double for double).  An
// error is measured in units in the last place of the exact result; the documented bounds are
// distances to the rounded reference, hence the additional half ulp.
#include "fpvalues.h"
using namespace mc;

template <class T> struct Wide;
template <> struct Wide<float> { typedef double type; };
template <> struct Wide<double> { typedef long double type; };

template <class T, class R> double ulpError(T got, R ref)
{
    // (always a power of two: the spacing of T at the magnitude of the exact result)
    typedef typename FP<T>::U U;
    const T a = T(ref < 0 ? -ref : ref);
    U u;
    std::memcpy(&u, &a, sizeof u);
    U e = u >> FP<T>::M;
    // rounding to T may have crossed a power of two
    if (R(a) > (ref < 0 ? -ref : ref) && (u & ((U(1) << FP<T>::M) - 1)) == 0 && e > 1) --e;
    // multiply with 2^(Bias + M - e): the inverse of the spacing, in two steps that cannot overflow
    static R inv[1 << FP<T>::E];
    if (inv[1] == 0)
        for (int i = 0; i < (1 << FP<T>::E); ++i) inv[i] = std::ldexp(R(1), int(FP<T>::Bias) + int(FP<T>::M) - std::max(i, 1));
    const R d = R(got) - ref;
    return double((d < 0 ? -d : d) * inv[e]);
}

// the domains ------------------------------------------------------------------------------
enum Need { Ulp, Skip };
template <class T> T lim() { return T(8192); }

struct Ident { template <class T> static T sub(T x) { return x; } };
#define FUN(name_, wide_, tolf_, told_) \
    struct F_##name_ { \
        typedef F_##name_ Ref; \
        static const char *name() { return #name_; } \
        template <class V> static V eval(const V &x) { return Vc::name_(x); } \
        template <class R> static R ref(R x) { return wide_; } \
        static double tol(float) { return tolf_; } \
        static double tol(double) { return told_; } \
    };
#define TRIG 1
#ifdef Vc_HAVE_LIBMVEC  // the C library's vector functions are used; their documented bound is 4 ulp
FUN(sin, std::sin(x), 4.5, 4.5)
FUN(cos, std::cos(x), 4.5, 4.5)
#else
FUN(sin, std::sin(x), 2.5, 3.5)
FUN(cos, std::cos(x), 2.5, 3.5)
#endif
struct F_sincos_sin : F_sin { static const char *name() { return "sincos.sin"; } template <class V> static V eval(const V &x) { V s, c; Vc::sincos(x, &s, &c); return s; } };
struct F_sincos_cos : F_cos { static const char *name() { return "sincos.cos"; } template <class V> static V eval(const V &x) { V s, c; Vc::sincos(x, &s, &c); return c; } };
FUN(exp, std::exp(x), 3.5, 3.5)
FUN(log, std::log(x), 1.5, 1.5)
FUN(log2, std::log2(x), 2.5, 1.5)
FUN(log10, std::log10(x), 2.5, 2.5)
FUN(asin, std::asin(x), 2.5, 36.5)
FUN(atan, std::atan(x), 3.5, 2.5)

template <class F> struct IsTrig { enum { value = std::is_base_of<F_sin, F>::value || std::is_base_of<F_cos, F>::value }; };
template <class F> struct IsExp { enum { value = std::is_same<F, F_exp>::value }; };

static const double Far = 1073741824.;
struct Worst { double e = 0; double x = 0; };
// is got an acceptable result for F(x), given the reference value?
template <class F, class T, class R> bool accept(T x, T got, R ref, double *err, Worst *w)
{
    *err = 0;
    if (ref != ref) return got != got;
    if (std::isinf(ref)) return got == T(ref);
    const R maxT = std::numeric_limits<T>::max();
    if ((ref < 0 ? -ref : ref) > maxT) return std::isinf(got) && (got > 0) == (ref > 0);
    if (ref == 0) return got == 0 && std::signbit(got) == std::signbit(ref);
    if (IsExp<F>::value && ref < R(std::numeric_limits<T>::min())) { if (got == 0) return true; }  // denormal results may be flushed
    *err = ulpError<T, R>(got, ref);
    if (IsTrig<F>::value && !((x < 0 ? -x : x) <= lim<T>())) {
        // larger arguments: no bound in ulp is documented, but up to 2^30 the absolute error is that of the working precision
        if (!std::isinf(x)) { const double a = *err = double(got - ref) / std::numeric_limits<T>::epsilon(); return (x < -Far || x > Far) || (a <= 2 && a >= -2); }
        return true;
    }
    static const bool measure = getenv("MC_ULP") != nullptr;
    if (measure) { if (*err > w->e) { w->e = *err; w->x = x; } return true; }
    if (*err > w->e) { w->e = *err; w->x = x; }
    return *err <= F::tol(T());
}

template <class T> std::vector<T> grid(int top)
{
    typedef typename FP<T>::U U;
    std::vector<T> r;
    const int M = FP<T>::M, E = FP<T>::E;
    const U low = (U(1) << (M - top)) - 1;
    const U emax = (U(1) << E) - 1;
    for (U s = 0; s < 2; ++s)
        for (U e = 0; e <= emax; ++e)
            for (U m = 0; m < (U(1) << top); ++m)
                for (U l : {U(0), U(low / 3), low}) r.push_back(fromBits<T>((s << (M + E)) | (e << M) | (m << (M - top)) | l));
    return r;
}
// values around x: n representable neighbours on both sides, both signs
template <class T> void around(std::vector<T> &r, T x, int n)
{
    T a = x, b = x;
    r.push_back(x); r.push_back(-x);
    for (int i = 0; i < n; ++i) {
        a = std::nextafter(a, std::numeric_limits<T>::infinity());
        b = std::nextafter(b, -std::numeric_limits<T>::infinity());
        for (T v : {a, b}) { r.push_back(v); r.push_back(-v); }
    }
}
template <class T> std::vector<T> edges(int multiples, bool all = true)
{
    std::vector<T> r;
    const long double pi4 = 0.785398163397448309615660845819875721L;
    for (int k = 0; k <= multiples; ++k) around(r, T(k * pi4), 3);
    for (double x : {527449., 393382., 1048576., 1073741824., 2147483648., 1686629713., .5, 1., .625, 1e-4, 1e-5, 1e-8, .975, 2.414213562373095, .4142135623730950, .66, .70710678118654752, 1.41421356237309505,
                     88.72283905206835, 88.722831726074219, 88.029685974121094, 87.336544750553102, 87.33654, 103.2789299, 709.782712893383973096, 708.396418532264106, 709.089565712824, 744.4400719213812, 745.13321910194122, 8192., 1000., 2., 4., 8., 10., 100., 1e10, 1e-10})
        around(r, T(x), 8);
    if (all) for (int k = 1; k < 1100; ++k) around(r, T(k * 0.693147180559945309417232121458176568L / 2), 1);  // exp: changes of the exponent
    return r;
}
template <class T> std::vector<T> classes()
{
    typedef std::numeric_limits<T> L;
    return {T(0), T(1), T(-.25), T(20), T(-5000), T(1e6), T(-1e30), L::max(), L::infinity(), -L::infinity(), L::quiet_NaN(), L::denorm_min(), -L::min()};
}

template <class F, class T> struct Cases {
    typedef typename Wide<T>::type R;
    // no accuracy is documented for larger arguments of the trigonometric functions
    static bool keep(T x) { return !IsTrig<F>::value || !(x < -Far || x > Far) || std::isinf(x); }
    std::vector<T> x;
    std::vector<R> ref;
    size_t gridSize = 0;
    void add(const std::vector<T> &v) { for (T a : v) if (keep(a)) { x.push_back(a); ref.push_back(F::template ref<R>(launder(R(a)))); } }
    static const Cases &wide()
    {
        static Cases c;
        if (c.x.empty()) {
            c.add(grid<T>(g_thorough ? (sizeof(T) == 4 ? 10 : 10) : (sizeof(T) == 4 ? 10 : 7)));
            c.gridSize = c.x.size();
            c.add(edges<T>(10432));
        }
        return c;
    }
    static const Cases &narrow()
    {
        static Cases c;
        if (c.x.empty()) { c.add(grid<T>(sizeof(T) == 4 ? 3 : 0)); c.add(edges<T>(80, false)); }
        return c;
    }
    static const Cases &neighbours()
    {
        static Cases c;
        if (c.x.empty()) for (T a : classes<T>()) { c.x.push_back(a); c.ref.push_back(F::template ref<R>(launder(R(a)))); }
        return c;
    }
};

template <class T> struct Core {
    typedef typename Wide<T>::type R;
    typedef void (*Fn)(const T *, T *);
    template <class F> static bool check(Site &s, size_t N, const T *x, const R *ref, Fn f, Worst &w)
    {
        T got[64];
        f(x, got);
        ++C.states; ++C.transitions; C.checks += N;
        uint64_t h = s.h;
        for (size_t i = 0; i < N; ++i) {
            double err;
            if (!accept<F, T, R>(x[i], got[i], ref[i], &err, &w)) {
                s.fail("x = " + str(std::vector<T>(x, x + N)), "lane " + std::to_string(i) + " (" + str(x[i]) + ") got " + str(got[i]) + " want " + str(T(ref[i])) + " error " + std::to_string(err) + " ulp");
                return false;
            }
            h = mix(h, bits(got[i]));
        }
        outcome(h);
        return true;
    }
    template <class F> static void run(const std::string &vn_, size_t N, Fn f)
    {
        const std::string n = F::name() + ("(" + vn_ + ")");
        T x[64];
        R ref[64];
        {
            Site s(n);
            if (s.active()) {
                const Cases<typename F::Ref, T> &c = Cases<typename F::Ref, T>::wide();
                Worst w;
                for (size_t i = 0; i < c.x.size(); i += N) {
                    for (size_t k = 0; k < N; ++k) { const size_t j = std::min(i + k, c.x.size() - 1); x[k] = c.x[j]; ref[k] = c.ref[j]; }
                    s.at(i);
                    if (!check<F>(s, N, x, ref, f, w)) break;
                }
                s.sample("largest error " + std::to_string(w.e) + " ulp for x = " + str(T(w.x)));
                if (getenv("MC_ULP")) fprintf(stderr, "%s: %.2f at %s\n", n.c_str(), w.e, str(T(w.x)).c_str());
            }
        }
        if (n.compare(0, 10, "documented") == 0) return;
        if (N > 1) {
            Site s(n + " with other values in the other lanes");
            if (!s.active()) return;
            const Cases<typename F::Ref, T> &c = Cases<typename F::Ref, T>::narrow(), &nb = Cases<typename F::Ref, T>::neighbours();
            Worst w;
            for (size_t i = 0; i < c.x.size(); ++i)
                for (size_t j = 0; j < nb.x.size(); ++j)
                    for (size_t l = 0; l < N; ++l) {
                        if (N > 8 && l != 0 && l != 7 && l != N - 1) continue;  // composed of native vectors
                        for (int one = 0; one < (N > 8 ? 1 : 2); ++one) {  // all other lanes / only one other lane
                            for (size_t k = 0; k < N; ++k) {
                                const bool other = one ? k == (l + 1) % N : k != l;
                                x[k] = other ? nb.x[j] : c.x[i];
                                ref[k] = other ? nb.ref[j] : c.ref[i];
                            }
                            s.at(i, j, l * 2 + one);
                            if (!check<F>(s, N, x, ref, f, w)) return;
                        }
                    }
            if (IsTrig<F>::value && N <= 8) {
                // the range reduction is selected by all lanes together: all multiples of pi/4 next to
                // a lane that forces another branch
                const Cases<typename F::Ref, T> &m = Cases<typename F::Ref, T>::wide();
                for (T o : {T(20), T(1e30), std::numeric_limits<T>::quiet_NaN()}) {
                    const R r = F::template ref<R>(launder(R(o)));
                    for (size_t i = m.gridSize; i < m.x.size(); ++i)
                        for (size_t l : {size_t(0), N - 1}) {
                            for (size_t k = 0; k < N; ++k) { x[k] = k == l ? o : m.x[i]; ref[k] = k == l ? r : m.ref[i]; }
                            s.at(i, 99, l);
                            if (!check<F>(s, N, x, ref, f, w)) return;
                        }
                }
            }
            s.sample("largest error " + std::to_string(w.e) + " ulp for x = " + str(T(w.x)));
        }
        if (g_thorough && sizeof(T) == 4) {
            Site s(n + " of every float");
            if (!s.active()) return;
            Worst w;
            size_t k = 0;
            for (uint64_t i = 0; i < (1ull << 32); ++i) {
                x[k] = fromBits<T>(uint32_t(i));
                ref[k] = F::template ref<R>(launder(R(x[k])));
                if (++k == N) { s.at(i); if (!check<F>(s, N, x, ref, f, w)) return; k = 0; }
            }
            s.sample("largest error " + std::to_string(w.e) + " ulp for x = " + str(T(w.x)));
            if (getenv("MC_ULP")) fprintf(stderr, "%s: %.2f at %s\n", s.name.c_str(), w.e, str(T(w.x)).c_str());
        }
    }
};
template <class F, class V> void one()
{
    typedef typename V::EntryType T;
    Core<T>::template run<F>(vn<V>(), V::Size, [](const T *x, T *o) { F::eval(make<V>(x)).store(o, Vc::Unaligned); });
}
template <class F, class T> void all()
{
    forAbis<T>([](auto tag) { one<F, typename decltype(tag)::type>(); });
#ifndef Vc_IMPL_Scalar
    forAbisScalar<T>([](auto tag) { one<F, typename decltype(tag)::type>(); });
#endif
    one<F, Vc::SimdArray<T, 3>>();
    one<F, Vc::SimdArray<T, 16>>();
}

// the single precision base 2 logarithm exceeds its documented bound (see known_findings.txt)
struct F_log2_doc : F_log2 { typedef F_log2 Ref; static const char *name() { return "documented accuracy of log2"; } static double tol(float) { return 1.5; } static double tol(double) { return 1.5; } };

#if PART == 6
// implementations of the library that are compiled for other instruction sets than the selected one
template <Vc::Implementation I> using Impl = Vc::Common::Trigonometric<Vc::ImplementationT<I>>;
#define DIRECT(name_) \
    template <Vc::Implementation I> struct D_##name_ : F_##name_ { \
        typedef F_##name_ Ref; \
        static const char *name() { static const std::string n = "Trigonometric<" + std::to_string(int(I)) + ">::" #name_; return n.c_str(); } \
        template <class V> static V eval(const V &x) { return Impl<I>::template name_<V>(x); } \
    };
DIRECT(sin)
DIRECT(cos)
DIRECT(asin)
DIRECT(atan)
template <Vc::Implementation I> struct D_sincos_sin : F_sin { typedef F_sin Ref; static const char *name() { static const std::string n = "Trigonometric<" + std::to_string(int(I)) + ">::sincos.sin"; return n.c_str(); } template <class V> static V eval(const V &x) { V s, c; Impl<I>::template sincos<V>(x, &s, &c); return s; } };
template <Vc::Implementation I> struct D_sincos_cos : F_cos { typedef F_cos Ref; static const char *name() { static const std::string n = "Trigonometric<" + std::to_string(int(I)) + ">::sincos.cos"; return n.c_str(); } template <class V> static V eval(const V &x) { V s, c; Impl<I>::template sincos<V>(x, &s, &c); return c; } };
template <Vc::Implementation I, class Abi> void direct()
{
    typedef Vc::Vector<float, Abi> F;
    typedef Vc::Vector<double, Abi> D;
    one<D_sin<I>, F>(); one<D_cos<I>, F>(); one<D_asin<I>, F>(); one<D_atan<I>, F>(); one<D_sincos_sin<I>, F>(); one<D_sincos_cos<I>, F>();
    one<D_sin<I>, D>(); one<D_cos<I>, D>(); one<D_asin<I>, D>(); one<D_atan<I>, D>(); one<D_sincos_sin<I>, D>(); one<D_sincos_cos<I>, D>();
}

#endif
// ------------------------------------------------------------------------------------------ atan2
template <class T> std::vector<T> legs()
{
    typedef typename FP<T>::U U;
    typedef std::numeric_limits<T> L;
    std::vector<T> r;
    const int M = FP<T>::M, B = FP<T>::Bias, Em = 2 * B + 1;
    std::vector<int> es;
    for (int e = 0; e <= Em; ++e) {
        const int d = e - B;
        if (e < 3 || e > Em - 3 || std::abs(d) <= 6 || std::abs(d) == M - 1 || std::abs(d) == M || std::abs(d) == M + 1 || std::abs(d) == B - M || std::abs(d) == B / 2) es.push_back(e);
    }
    const U all = (U(1) << M) - 1;
    for (U s = 0; s < 2; ++s)
        for (int e : es)
            for (U m : {U(0), U(1), U(all / 3), U(all / 2), U(all / 7 * 5), all}) r.push_back(fromBits<T>((s << (M + FP<T>::E)) | (U(e) << M) | m));
    (void)sizeof(L);
    return r;
}
template <class V> void two()
{
    typedef typename V::EntryType T;
    typedef typename Wide<T>::type R;
    const size_t N = V::Size;
    const std::vector<T> A = legs<T>();
    static std::vector<R> refs;
    auto good = [](T y, T x, T got, R ref, double *err, Worst *w) {
        *err = 0;
        if (ref != ref) return got != got;
        if (ref == 0) return got == 0 && std::signbit(got) == std::signbit(ref);
        *err = ulpError<T, R>(got, ref);
        // y / x is rounded once more when it is denormal
        if (std::fabs(ref) < R(std::numeric_limits<T>::min()) * 2) return *err <= 2 && std::signbit(got) == std::signbit(ref);
        if (*err > w->e) { w->e = *err; w->x = y / x; }
        return *err <= 4.5;
    };
    if (refs.empty()) for (T y : A) for (T x : A) refs.push_back(std::atan2(launder(R(y)), launder(R(x))));
    auto check = [&](Site &s, const Lanes<V> &y, const Lanes<V> &x, const R *ref, Worst &w) {
        ++C.states; ++C.transitions; C.checks += N;
        const Lanes<V> g = get(Vc::atan2(make<V>(y), make<V>(x)));
        for (size_t k = 0; k < N; ++k) {
            double err;
            if (!good(y[k], x[k], g[k], ref[k], &err, &w)) {
                s.fail("y = " + str(y) + " x = " + str(x), "lane " + std::to_string(k) + ": atan2(" + str(y[k]) + ", " + str(x[k]) + ") got " + str(g[k]) + " want " + str(T(ref[k])) + " error " + std::to_string(err) + " ulp");
                return false;
            }
        }
        outcome(hashLanes(s.h, g));
        return true;
    };
    const size_t n = A.size();
    Lanes<V> y, x;
    R ref[64];
    {
        Site s("atan2(" + vn<V>() + ")");
        if (s.active()) {
            Worst w;
            // every pair; the lanes hold different pairs, every pair is in lane 0 once
            for (size_t i = 0; i < n * n; ++i) {
                for (size_t k = 0; k < N; ++k) { const size_t j = (i + k * 7) % (n * n); y[k] = A[j / n]; x[k] = A[j % n]; ref[k] = refs[j]; }
                s.at(i);
                if (!check(s, y, x, ref, w)) break;
            }
            s.sample("largest error " + std::to_string(w.e) + " ulp for y / x = " + str(T(w.x)));
            if (getenv("MC_ULP")) fprintf(stderr, "%s: %.2f at %s\n", s.name.c_str(), w.e, str(T(w.x)).c_str());
        }
    }
    if (N > 1) {
        Site s("atan2(" + vn<V>() + ") with special values in the other lanes");
        if (!s.active()) return;
        Worst w;
        typedef std::numeric_limits<T> L;
        const std::vector<T> S = {T(0), T(-0.), T(1), T(-1), L::infinity(), -L::infinity(), L::quiet_NaN(), L::max(), L::denorm_min(), T(.3), T(-7)};
        for (T a : S) for (T b : S) for (T c : S) for (T d : S) {
            for (size_t l = 0; l < N; ++l) {
                for (size_t k = 0; k < N; ++k) { y[k] = k == l ? a : c; x[k] = k == l ? b : d; }
                const R r0 = std::atan2(R(launder(a)), R(launder(b))), r1 = std::atan2(R(launder(c)), R(launder(d)));
                for (size_t k = 0; k < N; ++k) ref[k] = k == l ? r0 : r1;
                s.at(l);
                if (!check(s, y, x, ref, w)) return;
            }
        }
    }
}
template <class T> void atan2All()
{
    forAbis<T>([](auto tag) { two<typename decltype(tag)::type>(); });
    two<Vc::SimdArray<T, 3>>();
    two<Vc::SimdArray<T, 16>>();
}

void explore()
{
#if PART == 0
    all<F_sin, float>(); all<F_cos, float>(); all<F_sincos_sin, float>(); all<F_sincos_cos, float>();
#elif PART == 1
    all<F_sin, double>(); all<F_cos, double>(); all<F_sincos_sin, double>(); all<F_sincos_cos, double>();
#elif PART == 2
    all<F_exp, float>(); all<F_log, float>(); all<F_log2, float>(); forAbis<float>([](auto tag) { one<F_log2_doc, typename decltype(tag)::type>(); }); all<F_log10, float>();
#elif PART == 3
    all<F_exp, double>(); all<F_log, double>(); all<F_log2, double>(); all<F_log10, double>();
#elif PART == 4
    all<F_asin, float>(); all<F_atan, float>(); all<F_asin, double>(); all<F_atan, double>();
#elif PART == 6
#ifdef Vc_IMPL_AVX2
    direct<Vc::AVX2Impl, Vc::VectorAbi::Avx>();
#elif !defined Vc_IMPL_Scalar
    direct<Vc::SSE2Impl, Vc::VectorAbi::Sse>(); direct<Vc::SSE3Impl, Vc::VectorAbi::Sse>(); direct<Vc::SSSE3Impl, Vc::VectorAbi::Sse>();
#endif
#else
    atan2All<float>(); atan2All<double>();
#endif
}
