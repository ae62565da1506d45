// Bounded exhaustive exploration of the real Vc code against scalar reference models.
// Vocabulary used for the counters (all measured at run time):
//   state       a distinct operand/memory/history configuration generated by an enumerator
//   transition  one operation applied in one state on the implementation AND on the reference model
//   trace       one complete run (root-to-leaf) through an enumerator: a site of independent
//               operations explored to its bound, or one op sequence of a history exploration
//   checks      single lane / byte / scalar comparisons made
#ifndef MC_H
#define MC_H
#ifndef MC_NO_VC
#include <Vc/Vc>
#endif
#include <array>
#include <cfloat>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <utility>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#ifndef MC_CFG
#define MC_CFG "?"
#endif
#define MC_NOINLINE __attribute__((noinline, noclone))

namespace mc
{
using std::size_t;
typedef unsigned int uint;
typedef unsigned short ushort;
typedef signed char schar;
typedef unsigned char uchar;

// --------------------------------------------------------------------------- counters / report
struct Counters {
    uint64_t states = 0, transitions = 0, traces = 0, checks = 0, fails = 0, sites = 0;
};
extern Counters C;
extern bool g_thorough;
extern std::string g_filter;
struct Site;
extern Site *volatile g_cur;
extern volatile uint64_t g_a, g_b, g_c, g_tick;
extern std::vector<uint64_t> g_outcomes;  // bitmap: lower bound on distinct (site, result) pairs

inline uint64_t mix(uint64_t h, uint64_t x)
{
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}
inline void outcome(uint64_t h)
{
    h = mix(h, 0x1234567);
    g_outcomes[(h >> 6) & (g_outcomes.size() - 1)] |= 1ull << (h & 63);
}

// A site is one operation of the API on one type: the unit of reporting and of replay.
struct Site {
    std::string name;
    uint64_t fails = 0, h;
    bool on;
    explicit Site(const std::string &n) : name(n)
    {
        on = g_filter.empty() || n == g_filter;
        h = std::hash<std::string>()(n);
        g_cur = this;
        g_a = g_b = g_c = 0;
        if (on) { ++C.sites; ++C.traces; }
    }
    ~Site();
    bool active() const { return on; }
    void at(uint64_t a, uint64_t b = 0, uint64_t c = 0)
    {
        g_cur = this;
        g_a = a;
        g_b = b;
        g_c = c;
        g_tick = g_tick + 1;
    }
    void fail(const std::string &input, const std::string &detail);
    void sample(const std::string &s);
    int samples = 0;
};
int finish();
void start(int argc, char **argv);

// --------------------------------------------------------------------------- printing
template <class T> inline std::string str(T x, typename std::enable_if<std::is_integral<T>::value>::type * = 0)
{
    return std::to_string(static_cast<long long>(x));
}
inline std::string str(unsigned long long x) { return std::to_string(x); }
inline std::string str(float x)
{
    uint32_t u;
    std::memcpy(&u, &x, 4);
    char b[64];
    snprintf(b, sizeof b, "%.9g(0x%08x)", double(x), u);
    return b;
}
inline std::string str(double x)
{
    uint64_t u;
    std::memcpy(&u, &x, 8);
    char b[64];
    snprintf(b, sizeof b, "%.17g(0x%016" PRIx64 ")", x, u);
    return b;
}
inline std::string str(const std::string &x) { return x; }
inline std::string str(const char *x) { return x; }
template <class T, size_t N> std::string str(const std::array<T, N> &a)
{
    std::string r = "[";
    for (size_t i = 0; i < N; ++i) r += (i ? " " : "") + str(a[i]);
    return r + "]";
}
template <class T> std::string str(const std::vector<T> &a)
{
    std::string r = "[";
    for (size_t i = 0; i < a.size(); ++i) r += (i ? " " : "") + str(T(a[i]));
    return r + "]";
}

// --------------------------------------------------------------------------- values
template <class T> inline typename std::enable_if<std::is_integral<T>::value, bool>::type same(T a, T b) { return a == b; }
inline bool same(float a, float b)
{
    uint32_t x, y;
    std::memcpy(&x, &a, 4);
    std::memcpy(&y, &b, 4);
    return x == y || (a != a && b != b);
}
inline bool same(double a, double b)
{
    uint64_t x, y;
    std::memcpy(&x, &a, 8);
    std::memcpy(&y, &b, 8);
    return x == y || (a != a && b != b);
}
template <class T> inline bool bitsame(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> inline uint64_t bits(T a)
{
    uint64_t r = 0;
    std::memcpy(&r, &a, sizeof(T) < 8 ? sizeof(T) : 8);
    return r;
}

template <class T> struct TN;
#define MC_TN(T_) template <> struct TN<T_> { static const char *n() { return #T_; } };
MC_TN(float) MC_TN(double) MC_TN(int) MC_TN(short) MC_TN(long) MC_TN(char) MC_TN(bool)
template <> struct TN<uint> { static const char *n() { return "uint"; } };
template <> struct TN<ushort> { static const char *n() { return "ushort"; } };
template <> struct TN<schar> { static const char *n() { return "schar"; } };
template <> struct TN<uchar> { static const char *n() { return "uchar"; } };
template <> struct TN<unsigned long> { static const char *n() { return "ulong"; } };
template <> struct TN<long long> { static const char *n() { return "llong"; } };
template <> struct TN<unsigned long long> { static const char *n() { return "ullong"; } };
#ifndef MC_NO_VC
template <class V> struct VN;
template <class T> struct VN<Vc::Vector<T, Vc::VectorAbi::Scalar>> { static std::string n() { return std::string("Scalar::") + TN<T>::n() + "_v"; } };
template <class T> struct VN<Vc::Vector<T, Vc::VectorAbi::Sse>> { static std::string n() { return std::string("SSE::") + TN<T>::n() + "_v"; } };
template <class T> struct VN<Vc::Vector<T, Vc::VectorAbi::Avx>> { static std::string n() { return std::string("AVX::") + TN<T>::n() + "_v"; } };
template <class T, size_t N, class V, size_t M> struct VN<Vc::SimdArray<T, N, V, M>> { static std::string n() { return std::string("SimdArray<") + TN<T>::n() + "," + std::to_string(N) + ">"; } };
template <class V> std::string vn() { return VN<V>::n(); }

template <class V> using Lanes = std::array<typename V::EntryType, V::Size>;
template <class V> inline Lanes<V> get(const V &v)
{
    Lanes<V> r;
    v.store(&r[0], Vc::Unaligned);
    return r;
}
template <class V> inline V make(const Lanes<V> &a) { return V(&a[0], Vc::Unaligned); }
template <class V> inline V make(const typename V::EntryType *a) { return V(a, Vc::Unaligned); }
template <class M> inline std::array<bool, M::Size> getm(const M &m)
{
    std::array<bool, M::Size> r;
    for (size_t i = 0; i < M::Size; ++i) r[i] = m[i];
    return r;
}
template <class M> inline M makem(unsigned long bits)
{
    M m(false);
    for (size_t i = 0; i < M::Size; ++i) m[i] = ((bits >> i) & 1) != 0;
    return m;
}
#endif
#ifndef MC_NO_VC
template <class V> struct Tag { typedef V type; };
// calls f(Tag<V>()) for the vector types of every ABI available in this configuration
template <class T, class F> void forAbisScalar(F &&f) { f(Tag<Vc::Vector<T, Vc::VectorAbi::Scalar>>()); }
#if defined Vc_IMPL_Scalar
template <class T, class F> void forAbis(F &&f) { f(Tag<Vc::Vector<T, Vc::VectorAbi::Scalar>>()); }
#elif !defined Vc_IMPL_AVX
template <class T, class F> void forAbis(F &&f) { f(Tag<Vc::Vector<T, Vc::VectorAbi::Sse>>()); }
#elif defined Vc_IMPL_AVX2
template <class T, class F> void forAbis(F &&f)
{
    f(Tag<Vc::Vector<T, Vc::VectorAbi::Sse>>());
    f(Tag<Vc::Vector<T, Vc::VectorAbi::Avx>>());
}
#else
template <class T, class F, class = typename std::enable_if<std::is_floating_point<T>::value>::type> void forAbis(F &&f)
{
    f(Tag<Vc::Vector<T, Vc::VectorAbi::Sse>>());
    f(Tag<Vc::Vector<T, Vc::VectorAbi::Avx>>());
}
template <class T, class F, class = typename std::enable_if<!std::is_floating_point<T>::value>::type, class = void> void forAbis(F &&f)
{
    f(Tag<Vc::Vector<T, Vc::VectorAbi::Sse>>());
}
#endif
#endif
// hide a value from the optimizer (no constant folding across this)
template <class T> inline T launder(T x)
{
    asm volatile("" : "+m"(x)::"memory");
    return x;
}

// --------------------------------------------------------------------------- alphabets
// Boundary alphabet for integers: powers of two, their neighbours, sums of two powers, complements.
template <class T>
typename std::enable_if<std::is_integral<T>::value, std::vector<T>>::type alphabet(int level)
{
    typedef typename std::make_unsigned<T>::type U;
    std::set<U> s;
    const int B = sizeof(T) * 8;
    auto add = [&](U x) {
        s.insert(x);
        if (level >= 1) { s.insert(U(~x)); s.insert(U(0 - x)); }
    };
    for (int i = 0; i <= (level >= 2 ? 40 : 9); ++i) add(U(i));
    for (int i = 0; i < B; ++i) {
        U p = U(U(1) << i);
        add(p);
        if (level >= 1) { add(U(p - 1)); add(U(p + 1)); }
        if (level >= 2)
            for (int j = 0; j < i; ++j) { add(U(p + (U(1) << j))); if (level >= 3) add(U(p - (U(1) << j))); }
    }
    add(U(std::numeric_limits<T>::max()));
    add(U(std::numeric_limits<T>::min()));
    const uint64_t pats[] = {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull, 0xff00ff00ff00ff00ull, 0x123456789abcdef1ull, 0xdeadbeefcafebabeull, 0x0000ffff0000ffffull, 0x8000800080008000ull, 0x7fff7fff7fff7fffull};
    for (uint64_t p : pats) add(U(p));
    std::vector<T> r;
    for (U x : s) r.push_back(T(x));
    return r;
}
template <class T> struct FP;
template <> struct FP<float> { typedef uint32_t U; enum { M = 23, E = 8, Bias = 127 }; };
template <> struct FP<double> { typedef uint64_t U; enum { M = 52, E = 11, Bias = 1023 }; };
template <class T> inline T fromBits(typename FP<T>::U u)
{
    T x;
    std::memcpy(&x, &u, sizeof x);
    return x;
}
// Boundary alphabet for floating point: exponent set x mantissa set x sign, incl. 0, denormals, inf, NaN.
template <class T>
typename std::enable_if<std::is_floating_point<T>::value, std::vector<T>>::type alphabet(int level)
{
    typedef typename FP<T>::U U;
    const int M = FP<T>::M, E = FP<T>::E, B = FP<T>::Bias;
    std::set<U> es, ms;
    const int maxe = (1 << E) - 1;
    for (int e : {0, 1, 2, maxe - 1, maxe, B, B - 1, B + 1}) es.insert(U(e));
    if (level >= 1)
        for (int e : {B - 2, B + 2, B + 3, B + 7, B + 8, B + 14, B + 15, B + 16, B + 22, B + 23, B + 24, B + 30, B + 31, B + 32, B - 10, B - 23, B - 24, maxe - 2, M, M + 1, B + M - 1, B + M, B + M + 1, B - M, B / 2, B + B / 2}) es.insert(U(e));
    if (level >= 2)
        for (int e = 0; e <= maxe; e += (E == 8 ? 3 : 31)) es.insert(U(e));
    if (level >= 3)
        for (int e = 0; e <= maxe; e += (E == 8 ? 1 : 7)) es.insert(U(e));
    const U full = (U(1) << M) - 1;
    for (U m : {U(0), U(1), full, U(1) << (M - 1)}) ms.insert(m);
    if (level >= 1)
        for (U m : {full - 1, (U(1) << (M - 1)) - 1, (U(1) << (M - 1)) + 1, full / 3, U(1) << (M - 2), U(0x3243f6) & full}) ms.insert(m);
    if (level >= 2)
        for (int i = 0; i < M; ++i) { ms.insert(U(1) << i); if (level >= 3) ms.insert(full ^ (U(1) << i)); }
    std::vector<T> r;
    for (U s = 0; s < 2; ++s)
        for (U e : es)
            for (U m : ms) {
                if (e == U(maxe) && m != 0 && m != (U(1) << (M - 1)) && m != full) continue;  // quiet NaNs only
                r.push_back(fromBits<T>((s << (M + E)) | (e << M) | m));
            }
    for (int i = -4; i <= 17; ++i) { r.push_back(T(i)); r.push_back(T(i) + T(0.5)); r.push_back(T(i) / T(10)); }
    std::set<U> seen;
    std::vector<T> q;
    for (T x : r) { U u; std::memcpy(&u, &x, sizeof u); if (seen.insert(u).second) q.push_back(x); }
    return q;
}

// --------------------------------------------------------------------------- comparing
template <class T, size_t N> inline uint64_t hashLanes(uint64_t h, const std::array<T, N> &a)
{
    for (size_t i = 0; i < N; ++i) h = mix(h, bits(a[i]));
    return h;
}
template <class A> inline bool expect(Site &s, const A &got, const A &want, const std::function<std::string()> &in)
{
    ++C.transitions;
    C.checks += got.size();
    for (size_t i = 0; i < got.size(); ++i)
        if (!same(got[i], want[i])) {
            s.fail(in(), "lane " + std::to_string(i) + " got " + str(got) + " want " + str(want));
            return false;
        }
    outcome(hashLanes(s.h, got));
    return true;
}
template <class T> inline bool expect1(Site &s, T got, T want, const std::function<std::string()> &in)
{
    ++C.transitions;
    ++C.checks;
    if (!same(got, want)) {
        s.fail(in(), "got " + str(got) + " want " + str(want));
        return false;
    }
    outcome(mix(s.h, bits(got)));
    return true;
}

#ifndef MC_NO_VC
// All ordered pairs (A[i], A[j]) with i-j over every shift, every pair occurring in every lane.
// f(x lanes, y lanes)
template <class V, class F> void forPairs(Site &s, const std::vector<typename V::EntryType> &A, const std::vector<typename V::EntryType> &B, F &&f)
{
    const size_t N = V::Size, n = A.size(), m = B.size();
    Lanes<V> x, y;
    // block start i runs over all of A (so that every element reaches every lane)
    for (size_t j = 0; j < m; ++j)
        for (size_t i = 0; i < n; ++i) {
            for (size_t k = 0; k < N; ++k) {
                x[k] = A[(i + k) % n];
                y[k] = B[(j + k) % m];
            }
            ++C.states;
            s.at(i, j);
            f(x, y);
        }
}
// every element in every lane
template <class V, class F> void forOnes(Site &s, const std::vector<typename V::EntryType> &A, F &&f)
{
    const size_t N = V::Size, n = A.size();
    Lanes<V> x;
    for (size_t i = 0; i < n; ++i) {
        for (size_t k = 0; k < N; ++k) x[k] = A[(i + k) % n];
        ++C.states;
        s.at(i);
        f(x);
    }
}

#endif
// --------------------------------------------------------------------------- guarded memory
// n bytes whose end (or start) touches an inaccessible page
struct Guarded {
    char *base;
    size_t len, pages;
    explicit Guarded(size_t bytes)
    {
        const size_t P = 4096;
        pages = (bytes + P - 1) / P;
        len = (pages + 2) * P;
        base = static_cast<char *>(mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (base == MAP_FAILED) abort();
        mprotect(base, P, PROT_NONE);
        mprotect(base + len - P, P, PROT_NONE);
    }
    ~Guarded() { munmap(base, len); }
    Guarded(const Guarded &) = delete;
    char *lo() { return base + 4096; }
    char *hi() { return base + len - 4096; }  // one past the end
    template <class T> T *atEnd(size_t n) { return reinterpret_cast<T *>(hi()) - n; }
    template <class T> T *atBegin() { return reinterpret_cast<T *>(lo()); }
};
}  // namespace mc

// every harness defines: void explore();
void explore();
#endif
