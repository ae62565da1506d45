// Casts between all vector (mask) types of a configuration: single argument, several arguments
// (concatenation) and offset (splitting).  castMatrix<true>() explores mask casts, <false> vectors.
#ifndef CASTS_H
#define CASTS_H
#include "mc.h"
namespace mc {
template <class... Vs> struct TList {};
#if defined Vc_IMPL_Scalar
#define ABIS(T) Vc::Vector<T, Vc::VectorAbi::Scalar>
#elif defined Vc_IMPL_AVX2
#define ABIS(T) Vc::Vector<T, Vc::VectorAbi::Scalar>, Vc::Vector<T, Vc::VectorAbi::Sse>, Vc::Vector<T, Vc::VectorAbi::Avx>
#else
#define ABIS(T) Vc::Vector<T, Vc::VectorAbi::Scalar>, Vc::Vector<T, Vc::VectorAbi::Sse>
#endif
#if defined Vc_IMPL_AVX && !defined Vc_IMPL_AVX2
#define ABISF(T) Vc::Vector<T, Vc::VectorAbi::Scalar>, Vc::Vector<T, Vc::VectorAbi::Sse>, Vc::Vector<T, Vc::VectorAbi::Avx>
#else
#define ABISF(T) ABIS(T)
#endif
typedef TList<ABISF(double), ABISF(float), ABIS(int), ABIS(Vc::uint), ABIS(short), ABIS(Vc::ushort)> NativeTypes;

// value alphabet for casts From -> To: only values whose conversion is defined and the same on every path
template <class F, class T> inline bool castable(F x)
{
    if (std::is_integral<F>::value || std::is_floating_point<T>::value) {
        if (std::is_same<F, double>::value && std::is_same<T, float>::value) return true;
        return true;
    }
    // float -> integer: truncated value must fit
    if (!(x == x)) return false;
    long double t = x, lo = (long double)std::numeric_limits<T>::min(), hi = (long double)std::numeric_limits<T>::max();
    return t > lo - 1 && t < hi + 1;
}
template <class F> inline std::vector<F> castAlphabet()
{
    std::vector<F> a;
    if (sizeof(F) == 2) {
        for (int i = 0; i < 65536; ++i) a.push_back(F(i));
        return a;
    }
    a = alphabet<F>(2);
    if (std::is_floating_point<F>::value) {
        for (int e = 0; e < 34; ++e)
            for (int s = -1; s <= 1; s += 2)
                for (double d : {-1.5, -1., -.75, -.5, -.25, 0., .25, .5, .75, 1., 1.5}) a.push_back(F(s * (std::ldexp(1., e) + d)));
        for (int i = -300; i < 300; ++i) a.push_back(F(i) + F(.5));
        for (int i = 0; i < 65536; i += 37) { a.push_back(F(i)); a.push_back(F(i) - F(32768)); }
    } else
        for (int i = -70000; i < 70000; i += 97) a.push_back(F(i));
    return a;
}
template <bool Mask, class V> struct CTy { typedef V type; typedef typename V::EntryType E; };
template <class V> struct CTy<true, V> { typedef typename V::Mask type; typedef bool E; };

// set of operand lanes to explore
template <class F, class T> const std::vector<F> &castValues()
{
    static std::vector<F> r;
    if (r.empty()) for (F x : castAlphabet<F>()) if (castable<F, T>(x)) r.push_back(x);
    return r;
}
// one cast operation over all source states; S: source element (bool for masks), T: target element
template <class S, class T> struct CastCore {
    typedef void (*Fn)(const S *, T *);
    static std::string show(const std::vector<S> &w) { std::string r = "["; for (size_t i = 0; i < w.size() && i < 40; ++i) r += (i ? " " : "") + str(S(w[i])); return r + "]"; }
    static void check(Site &s, const S *w, size_t L, size_t NT, size_t first, size_t avail, Fn f)
    {
        T got[64];
        f(w, got);
        ++C.states; ++C.transitions; C.checks += NT;
        for (size_t i = 0; i < NT; ++i) {
            const T e = i < avail ? static_cast<T>(w[first + i]) : T(0);
            if (!same(got[i], e)) { s.fail("source " + show(std::vector<S>(w, w + L)), "lane " + std::to_string(i) + " got " + str(got[i]) + " want " + str(e)); return; }
        }
        outcome(mix(s.h, bits(got[0]) + 77 * bits(got[NT - 1])));
    }
    static void run(const std::string &name, size_t L, size_t NT, size_t first, size_t avail, Fn f)
    {
        Site s(name);
        if (!s.active()) return;
        run2(s, L, NT, first, avail, f, std::is_same<S, bool>());
    }
    static void run2(Site &s, size_t L, size_t NT, size_t first, size_t avail, Fn f, std::true_type)
    {
        bool w[64];
        auto put = [&](uint64_t b, int rot) { for (size_t i = 0; i < L; ++i) w[(i + rot) % L] = (b >> (i % 64)) & 1; s.at(b, rot); check(s, reinterpret_cast<const S *>(w), L, NT, first, avail, f); };
        if (L <= 16 && (L <= 10 || g_thorough)) for (uint64_t b = 0; b < (1ull << L); ++b) put(b, 0);
        else
            for (size_t i = 0; i < L; ++i) {
                for (uint64_t p : {0xdeadbeefcafe1234ull, 0x0f0f33335555ff00ull, 0x8d3a6c915be2704full, 1ull, ~1ull, 0ull, ~0ull, 0x00ff00ff00ff00ffull}) put(p, i);
                for (size_t j = 0; j < i; ++j) { put(1ull | (1ull << (i - j)), i); put(~(1ull | (1ull << (i - j))), i); }
            }
    }
    static void run2(Site &s, size_t L, size_t NT, size_t first, size_t avail, Fn f, std::false_type)
    {
        const std::vector<S> &vals = castValues<S, T>();
        S w[64];
        const size_t n = vals.size();
        for (size_t i = 0; i < n; ++i) {  // sliding window: every value in every lane
            for (size_t k = 0; k < L; ++k) w[k] = vals[(i + k) % n];
            s.at(i);
            check(s, w, L, NT, first, avail, f);
        }
        std::vector<S> far;  // the boundary values (thorough: all of them) with neighbours of very different magnitude
        if (g_thorough || n <= 2000) far = vals;
        else for (S x : alphabet<S>(1)) if (castable<S, T>(x)) far.push_back(x);
        const size_t m = far.size();
        for (size_t i = 0; i < m; ++i) {
            for (size_t k = 0; k < L; ++k) w[k] = far[(i + k * (m / 3 + 1)) % m];
            s.at(i, 1);
            check(s, w, L, NT, first, avail, f);
        }
    }
};
template <class V> inline V fromLanes(const typename V::EntryType *x, std::false_type) { return make<V>(x); }
template <class M> inline M fromLanes(const bool *x, std::true_type) { return M(x, Vc::Unaligned); }
template <class V, class T> inline void toLanes(const V &v, T *o) { for (size_t i = 0; i < V::Size; ++i) o[i] = v[i]; }

template <bool B, class To, class From> struct OneCast {
    typedef typename CTy<B, To>::type A;
    typedef typename CTy<B, From>::type F;
    typedef typename CTy<B, To>::E T;
    typedef typename CTy<B, From>::E S;
    typedef std::integral_constant<bool, B> IsMask;
    typedef CastCore<S, T> Core;
    enum { NT = To::Size, NF = From::Size };
    static std::string pre() { return std::string(B ? "mask " : "") + "simd_cast<" + vn<To>(); }

    template <int K, size_t... I> static auto multi(const S *v, std::index_sequence<I...>) -> decltype(Vc::simd_cast<A>((void(I), std::declval<F>())...)) { return Vc::simd_cast<A>(fromLanes<F>(v + I * NF, IsMask())...); }
    template <int K> static void multiArg(...) { static_assert(K > 1, "single-argument casts must exist"); }  // no such overload: not part of the API
    template <int K> static auto multiArg(int) -> decltype(multi<K>(nullptr, std::make_index_sequence<K>()), void())
    {
        Core::run(pre() + ">(" + std::to_string(K) + " x " + vn<From>() + ")", K * NF, NT, 0, K * NF, [](const S *w, T *o) { toLanes(multi<K>(w, std::make_index_sequence<K>()), o); });
    }
    template <int O> static void off() { Core::run(pre() + ", " + std::to_string(O) + ">(" + vn<From>() + ")", NF, NT, O * NT, NF - O * NT, [](const S *w, T *o) { toLanes(Vc::simd_cast<A, O>(fromLanes<F>(w, IsMask())), o); }); }
    template <int O> static void offsets(std::false_type) {}
    template <int O> static void offsets(std::true_type)
    {
        off<O>();
        offsets<O + 1>(std::integral_constant<bool, ((O + 2) * NT <= NF)>());
    }
    template <int K> static void multis(std::true_type)
    {
        multiArg<K>(0);
        multis<K * 2>(std::integral_constant<bool, (K * 2 * NF <= NT && K < 16)>());
    }
    template <int K> static void multis(std::false_type) {}
    static void run()
    {
        multiArg<1>(0);
        multis<2>(std::integral_constant<bool, (2 * NF <= NT)>());
        off<0>();
        offsets<1>(std::integral_constant<bool, (2 * NT <= NF)>());
    }
};
template <bool B, class To, class... F> void castTo(TList<F...>)
{
    int q[] = {(OneCast<B, To, F>::run(), 0)...};
    (void)q;
}
template <bool B, class L, class... T> void castAll(TList<T...>, L)
{
    int q[] = {(castTo<B, T>(L()), 0)...};
    (void)q;
}
template <bool B> void castMatrix() { castAll<B>(NativeTypes(), NativeTypes()); }
}  // namespace mc
#endif
