// C09: horizontal reductions combine all and only the selected lanes.
#include "mc.h"
#include "masks.h"
using namespace mc;

struct Op { const char *name; int kind; bool masked; };  // kind 0 min 1 max 2 sum 3 product
template <class T> struct Fn { Op op; T (*f)(const void *v, uint64_t mask); };

template <class T> struct Core {
    typedef std::vector<T> X;
    static const bool FP = std::is_floating_point<T>::value;
    // input vectors. small: fewer (for the masked forms)
    static std::vector<X> inputs(size_t N, bool small)
    {
        std::set<std::vector<uint64_t>> seen;
        std::vector<X> r;
        auto add = [&](const X &x) { std::vector<uint64_t> k; for (T e : x) k.push_back(bits(e)); if (seen.insert(k).second) r.push_back(x); };
        const T hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::lowest(), inf = FP ? std::numeric_limits<T>::infinity() : hi, tiny = FP ? std::numeric_limits<T>::min() : T(1);
        const std::vector<std::pair<T, T>> P = {{T(0), T(1)}, {T(1), T(2)}, {lo, hi}, {T(lo + 1), T(hi - 1)}, {FP ? -inf : lo, inf}, {T(5), T(-7)}, {T(-3), T(-2)}, {T(hi / 2), T(hi / 2 + 1)}, {tiny, T(0)}, {FP ? T(-tiny) : T(0), T(0)}, {T(128), T(127)}, {T(3), T(0)}};
        const bool tiny_ = small && N > 4 && !g_thorough;  // masked forms of wide vectors: fewer inputs, all masks of maskSet
        for (size_t p = 0; p < (tiny_ ? 6 : P.size()); ++p) {
            const uint64_t Full = (1ull << N) - 1;
            if (N <= (small ? 4 : 8)) for (uint64_t b = 0; b <= Full; ++b) { X x(N); for (size_t i = 0; i < N; ++i) x[i] = (b >> i) & 1 ? P[p].second : P[p].first; add(x); }
            else for (uint64_t b : maskSet(N)) { if (small && __builtin_popcountll(b) > 1 && N - __builtin_popcountll(b) > 1) continue; X x(N); for (size_t i = 0; i < N; ++i) x[i] = (b >> i) & 1 ? P[p].second : P[p].first; add(x); }
        }
        X asc(N), pw(N), pr(N), neg(N);
        for (size_t i = 0; i < N; ++i) { asc[i] = T(i + 1); pw[i] = T(1ull << (i % (sizeof(T) * 8 - 1))); const int pp[] = {3, 5, 7, 11, 13, 17, 19, 23, 29}; pr[i] = T(pp[i % 9]); neg[i] = T(-int(i) - 2); }
        for (size_t s = 0; s < N; ++s)
            for (X x : {asc, pw, pr, neg}) { std::rotate(x.begin(), x.begin() + s, x.end()); add(x); std::reverse(x.begin(), x.end()); add(x); }
        // one lane walks through the alphabet in several contexts
        std::vector<T> A;
        for (T a : alphabet<T>(small ? 0 : 1)) if (a == a) A.push_back(a);
        for (size_t l = 0; l < N; ++l)
            for (T a : A) for (int c = tiny_ ? 2 : 0; c < (tiny_ ? 3 : 4); ++c) { X x = c == 0 ? X(N, T(0)) : c == 1 ? X(N, T(1)) : c == 2 ? asc : neg; x[l] = a; add(x); }
        if (!small) {
            if (N <= 2) for (T a : A) for (T b : A) add(N == 1 ? X{a} : X{a, b});
            if (N == 3 || N == 4) {
                const T S[] = {T(0), T(1), lo, hi, T(-1), T(2), T(hi / 2), T(-5)};
                for (int q = 0; q < (N == 4 ? 4096 : 512); ++q) { X x(N); for (size_t i = 0; i < N; ++i) x[i] = S[(q >> 3 * i) & 7]; add(x); }
            }
            if (N <= 8) { std::vector<int> p; for (size_t i = 0; i < N; ++i) p.push_back(int(i)); if (N <= 7 || g_thorough || FP) do { X x; for (int e : p) x.push_back(T(e * 3 - 8)); add(x); } while (std::next_permutation(p.begin(), p.end())); }
        }
        return r;
    }
    static bool wantExt(const X &x, uint64_t m, bool mx, T &w)
    {
        bool any = false;
        for (size_t i = 0; i < x.size(); ++i) if ((m >> i) & 1) { if (!any || (mx ? x[i] > w : x[i] < w)) w = x[i]; any = true; }
        return any;
    }
    // exact (mod 2^n) for integers; for floating point the result must lie within the error bound of any summation order
    static bool okSum(const X &x, uint64_t m, T got, std::string &why, bool mul, std::integral_constant<bool, false>)
    {
        typedef typename std::make_unsigned<T>::type U;
        uint64_t w = mul ? 1 : 0;
        for (size_t i = 0; i < x.size(); ++i) if ((m >> i) & 1) w = mul ? w * uint64_t(x[i]) : w + uint64_t(x[i]);
        why = str(T(U(w)));
        return got == T(U(w));
    }
    static bool okSum(const X &x, uint64_t m, T got, std::string &why, bool mul, std::integral_constant<bool, true>)
    {
        const long double eps = std::numeric_limits<T>::epsilon(), mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
        size_t n = 0, pinf = 0, ninf = 0, zero = 0;
        long double w = mul ? 1 : 0, mag = mul ? 1 : 0, sm = 1;
        bool ints = true;
        for (size_t i = 0; i < x.size(); ++i) if ((m >> i) & 1) {
            const long double e = x[i];
            ++n;
            if (std::isinf(e)) { (e > 0 ? pinf : ninf)++; continue; }
            if (e == 0) ++zero;
            ints = ints && std::floor(e) == e;
            if (mul) { w *= e; if (e != 0) { mag *= std::max(std::fabs(e), 1.L); sm *= std::min(std::fabs(e), 1.L); } }
            else { w += e; mag += std::fabs(e); }
        }
        if (!mul) {
            if (pinf && ninf) return true;
            if (pinf + ninf) { if (mag > mx) return true; why = pinf ? "inf" : "-inf"; return std::isinf(got) && (got > 0) == (pinf > 0); }
            if (mag > mx) return true;  // overflow depends on the order
            why = str(T(w));
            if (ints && mag <= 1 / eps) return got == T(w);
            return std::fabs((long double)got - w) <= (n + 1) * eps * mag + n * (long double)std::numeric_limits<T>::denorm_min();
        }
        if (mag > mx || sm < mn * 2) return true;  // overflow / underflow depends on the order
        if (pinf + ninf) return true;
        why = str(T(w));
        if (ints && mag <= 1 / eps) return got == T(w);
        return std::fabs((long double)got - w) <= (n + 1) * eps * std::fabs(w);
    }
    static void run(const std::string &vn, size_t N, const std::vector<Fn<T>> &fns)
    {
        const auto full = inputs(N, false), few = inputs(N, true);
        const auto masks = maskSet(N);
        for (auto &c : fns) {
            Site s(vn + " " + c.op.name);
            if (!s.active()) continue;
            const auto &in = c.op.masked ? few : full;
            for (size_t q = 0; q < in.size(); ++q) {
                for (size_t r = 0; r < (c.op.masked ? masks.size() : 1); ++r) {
                    const uint64_t m = c.op.masked ? masks[r] : (1ull << N) - 1;
                    ++C.states; ++C.transitions; ++C.checks;
                    s.at(q, m);
                    T want = T();
                    if (c.op.kind < 2 && !wantExt(in[q], m, c.op.kind == 1, want)) continue;  // extremum of nothing: unspecified
                    const T got = c.f(&in[q][0], m);
                    std::string why = str(want);
                    const bool ok = c.op.kind < 2 ? got == want : okSum(in[q], m, got, why, c.op.kind == 3, std::integral_constant<bool, FP>());
                    outcome(mix(mix(s.h, bits(got)), m));
                    if (!ok) s.fail("x=" + str(in[q]) + (c.op.masked ? " mask=" + std::to_string(m) : ""), "got " + str(got) + " want " + why);
                }
            }
        }
    }
};
template <class V> struct R {
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    static V in(const void *p) { return V(static_cast<const T *>(p), Vc::Unaligned); }
    static T mn(const void *v, uint64_t) { return in(v).min(); }
    static T mx(const void *v, uint64_t) { return in(v).max(); }
    static T sm(const void *v, uint64_t) { return in(v).sum(); }
    static T pd(const void *v, uint64_t) { return in(v).product(); }
    static T mnm(const void *v, uint64_t m) { return in(v).min(makem<M>(m)); }
    static T mxm(const void *v, uint64_t m) { return in(v).max(makem<M>(m)); }
    static T smm(const void *v, uint64_t m) { return in(v).sum(makem<M>(m)); }
    static T pdm(const void *v, uint64_t m) { return in(v).product(makem<M>(m)); }
    static void run()
    {
        Core<T>::run(vn<V>(), V::Size, {{{"min()", 0, false}, mn}, {{"max()", 1, false}, mx}, {{"sum()", 2, false}, sm}, {{"product()", 3, false}, pd},
                                        {{"min(mask)", 0, true}, mnm}, {{"max(mask)", 1, true}, mxm}, {{"sum(mask)", 2, true}, smm}, {{"product(mask)", 3, true}, pdm}});
        psum();
    }
    static void psum()
    {
        Site s(vn<V>() + " partialSum()");
        if (!s.active()) return;
        const auto inp = Core<T>::inputs(V::Size, false);
        for (size_t q = 0; q < inp.size(); ++q) {
            ++C.states; ++C.transitions; C.checks += V::Size;
            s.at(q);
            const Lanes<V> got = get(in(&inp[q][0]).partialSum());
            outcome(hashLanes(s.h, got));
            for (size_t i = 0; i < V::Size; ++i) {
                std::string why;
                bool ok = Core<T>::okSum(inp[q], (2ull << i) - 1, got[i], why, false, std::integral_constant<bool, std::is_floating_point<T>::value>());
                // a NaN/inf from a later lane must not leak into an earlier one; shifted-in zeros cannot turn finite sums into NaN
                if (!ok) { s.fail("x=" + str(inp[q]), "lane " + std::to_string(i) + " got " + str(got[i]) + " want " + why); break; }
            }
        }
    }
};
template <class V> void indexOps()
{
    typedef typename V::EntryType T;
    for (int mx = 0; mx < 2; ++mx) {
        Site s(vn<V>() + (mx ? " maxIndex()" : " minIndex()"));
        if (!s.active()) continue;
        const auto inp = Core<T>::inputs(V::Size, false);
        for (size_t q = 0; q < inp.size(); ++q) {
            ++C.states; ++C.transitions; C.checks += V::Size + 1;
            s.at(q);
            const V x(&inp[q][0], Vc::Unaligned);
            const std::pair<V, int> r = mx ? x.maxIndex() : x.minIndex();
            T want;
            Core<T>::wantExt(inp[q], ~0ull, mx, want);
            const Lanes<V> got = get(r.first);
            bool ok = r.second >= 0 && r.second < int(V::Size) && inp[q][r.second] == want;
            for (T g : got) ok = ok && g == want;
            outcome(mix(hashLanes(s.h, got), r.second));
            if (!ok) s.fail("x=" + str(inp[q]), "got " + str(got) + " index " + std::to_string(r.second) + " want " + str(want));
        }
    }
}
template <class V> void maybeIndex(std::true_type) { indexOps<V>(); }
template <class V> void maybeIndex(std::false_type) {}
template <class T> void types()
{
    forAbis<T>([](auto t) {
        typedef typename decltype(t)::type V;
        R<V>::run();
        maybeIndex<V>(std::integral_constant<bool, std::is_same<typename V::abi, Vc::VectorAbi::Avx>::value>());
    });
}
void explore()
{
#if PART == 0
    types<double>(); types<float>();
#elif PART == 1
    types<int>(); types<Vc::uint>();
#elif PART == 2
    types<short>(); types<Vc::ushort>();
#elif PART == 3
    R<Vc::SimdArray<float, 3>>::run(); R<Vc::SimdArray<float, 5>>::run(); R<Vc::SimdArray<double, 6>>::run(); R<Vc::SimdArray<float, 7>>::run(); R<Vc::SimdArray<double, 3>>::run();
#elif PART == 4
    R<Vc::SimdArray<int, 5>>::run(); R<Vc::SimdArray<int, 8>>::run(); R<Vc::SimdArray<Vc::uint, 11>>::run(); R<Vc::SimdArray<short, 9>>::run(); R<Vc::SimdArray<Vc::ushort, 20>>::run(); R<Vc::SimdArray<float, 16>>::run();
#endif
}
