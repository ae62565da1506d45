// Value alphabets for the math properties and the lane-window exploration of unary functions.
#ifndef FPVALUES_H
#define FPVALUES_H
#include "mc.h"
#include <cmath>
namespace mc {
// Exponent-complete alphabet: every sign, every biased exponent (including 0 and the all-ones
// exponent: zero, denormals, infinities, NaN) with a set of mantissa patterns.  Ordered so that
// neighbours (which end up in neighbouring lanes) differ in exponent and sign.
template <class T> struct FpValues {
    typedef typename FP<T>::U U;
    enum { M = FP<T>::M, E = FP<T>::E, Bias = FP<T>::Bias };
    static std::vector<U> mantissas(int level)
    {
        const U all = (U(1) << M) - 1;
        std::vector<U> m = {0, 1, all, all - 1, U(1) << (M - 1), (U(1) << (M - 1)) - 1, (U(1) << (M - 1)) + 1, all / 3, all / 3 * 2};
        if (level > 0)
            for (int i = 0; i < M; ++i) {
                m.push_back(U(1) << i);                              // single bit
                m.push_back((U(1) << i) - 1);                        // trailing ones
                m.push_back(all & ~((U(1) << i) - 1));               // leading ones
                m.push_back(all & ~(U(1) << i));                     // single zero
                if (i) m.push_back((U(1) << i) | (U(1) << (i - 1))); // two bits
                m.push_back((all / 5 * 4 + i * (all / 61)) & all);
            }
        std::sort(m.begin(), m.end());
        m.erase(std::unique(m.begin(), m.end()), m.end());
        return m;
    }
    static const std::vector<T> &get()
    {
        static std::vector<T> r;
        if (!r.empty()) return r;
        const U emax = (U(1) << E) - 1;
        const std::vector<U> few = mantissas(0), many = mantissas(1);
        for (U mant : many) {
            const bool common = std::binary_search(few.begin(), few.end(), mant);
            for (U e = 0; e <= emax; ++e) {
                const int d = int(e) - int(Bias);
                const bool near = sizeof(T) == 4 || (d > -70 && d < 70) || e < 3 || e + 3 > emax || d > 1000 || g_thorough;
                if (!common && !near) continue;
                for (U s = 0; s < 2; ++s) r.push_back(fromBits<T>((s << (M + E)) | (e << M) | mant));
            }
        }
        // integers and halves
        for (int i = 0; i <= 1100; ++i) { const T h = T(i) / 2; r.push_back(h); r.push_back(-h); r.push_back(std::nextafter(h, T(1e9))); r.push_back(-std::nextafter(h, T(-1e9))); }
        for (int e = 8; e < M + 12; ++e)
            for (T o : {T(-1.5), T(-1), T(-.5), T(.5), T(1), T(1.5)}) { r.push_back(std::ldexp(T(1), e) + o); r.push_back(-std::ldexp(T(1), e) + o); }
        return r;
    }
};
// the source of values of a unary exploration: the alphabet in every lane; with the thorough tier
// also all 2^32 floats (each once, all lanes in use)
template <class T, class R> struct UnCore {
    typedef void (*Fn)(const T *, R *);
    typedef bool (*Ok)(T x, R got, std::string *why);
    static bool check(Site &s, const T *w, size_t N, Fn f, Ok ok)
    {
        R got[64];
        f(w, got);
        ++C.states; ++C.transitions; C.checks += N;
        uint64_t h = s.h;
        for (size_t i = 0; i < N; ++i) {
            std::string why;
            if (!ok(w[i], got[i], &why)) {
                s.fail("x = " + str(std::vector<T>(w, w + N)), "lane " + std::to_string(i) + " (" + str(w[i]) + ") got " + str(got[i]) + " " + why);
                return false;
            }
            h = mix(h, bits(got[i]));
        }
        outcome(h);
        return true;
    }
    static void run(const std::string &name, size_t N, Fn f, Ok ok, bool (*domain)(T) = nullptr, bool full = true)
    {
        Site s(name);
        if (!s.active()) return;
        std::vector<T> v;
        for (T x : FpValues<T>::get()) if (!domain || domain(x)) v.push_back(x);
        if (v.empty()) return;
        T w[64];
        for (size_t i = 0; i < v.size(); ++i) {
            for (size_t k = 0; k < N; ++k) w[k] = v[(i + k) % v.size()];
            s.at(i);
            if (!check(s, w, N, f, ok)) return;
        }
        if (g_thorough && full && sizeof(T) == 4) {
            const uint64_t n = 1ull << 32;
            size_t k = 0;
            uint64_t first = 0;
            for (uint64_t i = 0; i < n; ++i) {
                // the low bits select sign and exponent, so that the lanes hold different magnitudes
                const uint32_t u = uint32_t(((i & 0x1ff) << 23) | (i >> 9));
                const T x = fromBits<float>(u);
                if (domain && !domain(x)) continue;
                if (!k) first = i;
                w[k++] = x;
                if (k == N) { s.at(i, 1); if (!check(s, w, N, f, ok)) return; k = 0; }
            }
            (void)first;
        }
    }
};
template <class V> struct MathList;
}  // namespace mc
#endif
