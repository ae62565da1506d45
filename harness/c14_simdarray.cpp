// C14: SimdArray<T, N> behaves as N independent scalars for every N.
#include "mc.h"
#include "masks.h"
#include "ref.h"
using namespace mc;

template <class T> struct In { const T *a, *b; uint64_t m; int k; const int *idx; char *mem; };
enum Kind { NONE, GEN, SMALL, POW2, NZ, SHIFT, DIST, UNIT, NONNEG, ORD };
enum { MASK = 1, KS = 2, APPROX = 4, IDX = 8, MEMU = 16, MEMA = 32, KBITS = 64, UNIQ = 128 };
enum { X = 8 };  // extra outputs after the N lanes
template <class T> struct Op {
    const char *name;
    Kind ka, kb;
    int flags;
    void (*f)(const In<T> &, T *);
    void (*r)(size_t, const In<T> &, T *);
};

template <class T> struct Core {
    static const bool FP_ = std::is_floating_point<T>::value, SG = std::is_signed<T>::value;
    static std::vector<T> values(Kind k)
    {
        const T hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::lowest();
        std::vector<T> r;
        switch (k) {
        case NONE: r = {T(0)}; break;
        case GEN:
            r = {T(1), T(2), T(3), T(7), T(100), T(0), hi, lo, T(hi / 2), T(lo + 1), T(hi / 3), T(-5), T(-1)};
            if (FP_) for (T x : {T(std::numeric_limits<T>::infinity()), T(-std::numeric_limits<T>::infinity()), T(std::numeric_limits<T>::quiet_NaN()), T(-0.), T(1.5), T(-2.75), T(std::numeric_limits<T>::min())}) r.push_back(x);
            else for (int i = 4; i < 9; ++i) r.push_back(T(hi / i + i));
            break;
        case SMALL: for (int i = 0; i < 11; ++i) r.push_back(T(SG ? i - 4 : i)); break;
        case NONNEG: for (int i = 0; i < 13; ++i) r.push_back(T(i * 7)); break;
        case POW2: r = {T(1), T(2), T(1), T(4), T(-1), T(1), T(2), T(FP_ ? 0.5 : 1), T(1), T(FP_ ? 0.25 : 4), T(1)}; break;
        case NZ: r = {T(1), T(3), T(7), T(100), hi, T(hi / 2), T(13), T(2), T(SG ? -3 : 3), T(SG ? -100 : 100), T(255)}; break;
        case SHIFT: for (size_t i = 0; i < sizeof(T) * 8 && i < 31; ++i) r.push_back(T(i)); break;
        case DIST: for (int i = 0; i < 67; ++i) r.push_back(T(i * 3 + 1)); break;
        case UNIT: for (int i = 1; i < 18; ++i) r.push_back(T(i / 17.)); break;
        case ORD: for (int i = 0; i < 17; ++i) r.push_back(T((i * 7) % 17 * 5 - (SG ? 40 : 0))); r.push_back(hi); r.push_back(lo); if (FP_) { r.push_back(std::numeric_limits<T>::infinity()); r.push_back(-std::numeric_limits<T>::infinity()); } break;
        }
        return r;
    }
    static bool close(T a, T b)
    {
        if (same(a, b)) return true;
        return std::fabs(double(a) - double(b)) <= 1e-5 * std::fabs(double(b)) + 1e-6;
    }
    static std::string show(const In<T> &in, size_t N, const Op<T> &o)
    {
        std::string r;
        if (o.ka != NONE) r += "a=" + str(std::vector<T>(in.a, in.a + N));
        if (o.kb != NONE) r += " b=" + str(std::vector<T>(in.b, in.b + N));
        if (o.flags & MASK) { r += " mask="; for (size_t i = 0; i < N; ++i) r += char('0' + ((in.m >> i) & 1)); }
        if (o.flags & (KS | KBITS)) r += " n=" + str(in.k);
        if (o.flags & IDX) r += " idx=" + str(std::vector<int>(in.idx, in.idx + N));
        return r;
    }
    static void run(const std::string &vn, size_t N, size_t align, const std::vector<Op<T>> &ops)
    {
        Guarded g(8192);
        const auto masks = maskSet(N);
        const uint64_t Full = (1ull << N) - 1;
        std::set<std::vector<int>> idset;
        for (size_t s = 0; s < N; ++s) {
            std::vector<int> a, b;
            for (size_t i = 0; i < N; ++i) { a.push_back(int((i + s) % N)); b.push_back(int((2 * N - 1 - i + s) % N)); }
            idset.insert(a); idset.insert(b);
            std::vector<int> c(a), d; std::swap(c[0], c[s]); idset.insert(c);
            for (size_t i = 0; i < N; ++i) d.push_back(int((i * 2 + s) % (N + 3)));
            idset.insert(d); idset.insert(std::vector<int>(N, int(s)));
        }
        std::vector<T> a(N), b(N), got(N + X), want(N + X);
        for (auto &o : ops) {
            Site s(vn + ": " + o.name);
            if (!s.active()) continue;
            const auto A = values(o.ka), B = values(o.kb);
            std::vector<uint64_t> ms = o.flags & MASK ? masks : std::vector<uint64_t>{Full};
            std::vector<int> ks = {0};
            if (o.flags & KS) { ks.clear(); for (int k = -2 * int(N) - 1; k <= 2 * int(N) + 1; ++k) ks.push_back(k); }
            if (o.flags & KBITS) { ks.clear(); for (int k = 0; k < int(sizeof(T) * 8); ++k) ks.push_back(k); }
            std::vector<std::vector<int>> ids = {std::vector<int>(N, 0)};
            if (o.flags & IDX) { ids.clear(); for (auto &v : idset) if (!(o.flags & UNIQ) || std::set<int>(v.begin(), v.end()).size() == N) ids.push_back(v); }
            std::vector<char *> mems = {nullptr};
            if (o.flags & MEMU) { mems.clear(); mems.push_back(g.hi() - N * sizeof(T)); mems.push_back(g.lo()); for (size_t q = 1; q <= 8; ++q) mems.push_back(g.lo() + 256 + q * sizeof(T)); }
            if (o.flags & MEMA) { mems.clear(); mems.push_back(g.lo()); mems.push_back(g.lo() + 1024 + align); if (N * sizeof(T) % align == 0) mems.push_back(g.hi() - N * sizeof(T)); }
            if ((o.flags & IDX)) mems = {g.hi() - (N + 3) * sizeof(T)};
            // window starts: with many masks/counts a few windows are enough to give every lane a distinct value
            const bool many = ms.size() * ks.size() * ids.size() > 40 && !g_thorough;
            const size_t na = many ? std::min<size_t>(A.size(), 3) : A.size(), nb = many ? std::min<size_t>(B.size(), 3) : B.size();
            for (size_t i = 0; i < na; ++i)
                for (size_t j = 0; j < nb; ++j) {
                    for (size_t l = 0; l < N; ++l) { a[l] = A[(i + l) % A.size()]; b[l] = B[(j + l) % B.size()]; }
                    for (uint64_t m : ms) for (int k : ks) for (auto &id : ids) for (char *mem : mems) {
                        std::vector<int> idx(id);
                        if (o.flags & IDX) for (size_t l = 0; l < N; ++l) if (!((m >> l) & 1)) idx[l] = sizeof(T) == 2 ? 30000 + int(l) : 0x10000000 + int(l);
                        In<T> in = {&a[0], &b[0], m, k, &idx[0], mem};
                        std::fill(got.begin(), got.end(), T(77)); want = got;
                        if (mem) { std::memset(g.lo(), 0x5a, 8192); }
                        s.at(i * 1000 + j, m, uint64_t(k));
                        o.f(in, &got[0]);
                        o.r(N, in, &want[0]);
                        ++C.states; ++C.transitions; C.checks += got.size();
                        bool ok = true;
                        for (size_t l = 0; l < got.size(); ++l) ok = ok && (o.flags & APPROX ? close(got[l], want[l]) : same(got[l], want[l]));
                        if (ok && (o.flags & (MEMU | MEMA))) {  // got[] holds what must now be in memory
                            const char *q = g.lo();
                            for (; q < mem; ++q) ok = ok && *q == 0x5a;
                            for (q = mem + N * sizeof(T); q < g.hi(); ++q) ok = ok && *q == 0x5a;
                            if (!ok) { s.fail(show(in, N, o), "memory outside of the N elements was modified"); continue; }
                        }
                        outcome(mix(s.h, bits(got[0]) ^ bits(got[N - 1]) << 1));
                        if (!ok) s.fail(show(in, N, o), "got " + str(std::vector<T>(got.begin(), got.begin() + N)) + " want " + str(std::vector<T>(want.begin(), want.begin() + N)) + " extra got " + str(std::vector<T>(got.begin() + N, got.end())) + " want " + str(std::vector<T>(want.begin() + N, want.end())));
                    }
                }
        }
    }
};

template <class V> struct Ops {
    typedef typename V::EntryType T;
    typedef typename V::mask_type M;
    typedef Ref<T> R;
    typedef std::vector<Op<T>> L;
    enum { N = V::Size };
    static V ld(const T *p) { return V(p, Vc::Unaligned); }
    static M lm(uint64_t m)
    {
        bool b[N + 64] = {};
        for (int i = 0; i < N; ++i) b[i] = (m >> i) & 1;
        return M(b, Vc::Unaligned);
    }
    static void st(const V &v, T *o) { v.store(o, Vc::Unaligned); }
    static void stm(const M &m, T *o)
    {
        bool b[N + 64];
        m.store(b, Vc::Unaligned);
        for (int i = 0; i < N; ++i) o[i] = T(b[i]);
    }
// IMPL uses a, b, m, k, in, o; result in V r.   REF uses x, y (lanes), p (mask bit), k, i
#define OP(NAME, KA, KB, FL, IMPL, REF) \
    l.push_back({NAME, KA, KB, FL, [](const In<T> &in, T *o) { (void)o; V a = ld(in.a), b = ld(in.b); M m = lm(in.m); const int k = in.k; (void)k; (void)m; V r = a; IMPL; st(r, o); }, \
                 [](size_t, const In<T> &in, T *o) { (void)in; const int k = in.k; (void)k; for (int i = 0; i < N; ++i) { const T x = in.a[i], y = in.b[i]; const bool p = (in.m >> i) & 1; (void)x; (void)y; (void)p; o[i] = T(REF); } }});
#define OPM(NAME, KA, KB, FL, IMPL, REF) \
    l.push_back({NAME, KA, KB, FL, [](const In<T> &in, T *o) { V a = ld(in.a), b = ld(in.b); M m = lm(in.m); (void)a; (void)b; const int k = in.k; (void)k; M r = m; IMPL; stm(r, o); }, \
                 [](size_t, const In<T> &in, T *o) { const int k = in.k; (void)k; for (int i = 0; i < N; ++i) { const T x = in.a[i], y = in.b[i]; const bool p = (in.m >> i) & 1; (void)x; (void)y; (void)p; o[i] = T(REF); } }});
// FULL: both sides write o freely
#define OPF(NAME, KA, KB, FL, IMPL, REF) \
    l.push_back({NAME, KA, KB, FL, [](const In<T> &in, T *o) { V a = ld(in.a), b = ld(in.b); M m = lm(in.m); const int k = in.k; (void)k; (void)a; (void)b; (void)m; IMPL; }, \
                 [](size_t, const In<T> &in, T *o) { const T *x = in.a, *y = in.b; const uint64_t m = in.m; const int k = in.k; (void)k; (void)x; (void)y; (void)m; (void)o; REF; }});

    static void arith(L &l)
    {
        OP("a + b", GEN, GEN, 0, r = a + b, R::add(x, y))
        OP("a - b", GEN, GEN, 0, r = a - b, R::sub(x, y))
        OP("a * b", GEN, GEN, 0, r = a * b, R::mul(x, y))
        OP("a / b", GEN, NZ, 0, r = a / b, R::div(x, y))
        OP("a += b", GEN, GEN, 0, r += b, R::add(x, y))
        OP("a -= b", GEN, GEN, 0, r -= b, R::sub(x, y))
        OP("a *= b", GEN, GEN, 0, r *= b, R::mul(x, y))
        OP("a /= b", GEN, NZ, 0, r /= b, R::div(x, y))
        OP("a + scalar", GEN, GEN, 0, r = a + in.b[0], R::add(x, in.b[0]))
        OP("scalar - a", GEN, GEN, 0, r = in.b[0] - a, R::sub(in.b[0], x))
        OP("a * scalar", GEN, GEN, 0, r = a * in.b[0], R::mul(x, in.b[0]))
        OP("scalar / a", NZ, GEN, 0, r = in.b[0] / a, R::div(in.b[0], x))
        OP("a -= scalar", GEN, GEN, 0, r -= in.b[0], R::sub(x, in.b[0]))
        OP("-a", GEN, NONE, 0, r = -a, R::neg(x))
        OP("+a", GEN, NONE, 0, r = +a, x)
        OPM("!a", GEN, NONE, 0, r = !a, x == T(0))
        OPM("a == b", GEN, GEN, 0, r = a == b, x == y)
        OPM("a != b", GEN, GEN, 0, r = a != b, x != y)
        OPM("a < b", GEN, GEN, 0, r = a < b, x < y)
        OPM("a <= b", GEN, GEN, 0, r = a <= b, x <= y)
        OPM("a > b", GEN, GEN, 0, r = a > b, x > y)
        OPM("a >= b", GEN, GEN, 0, r = a >= b, x >= y)
        OPM("a < scalar", GEN, GEN, 0, r = a < in.b[0], x < in.b[0])
        OPM("scalar >= a", GEN, GEN, 0, r = in.b[0] >= a, in.b[0] >= x)
        OP("min(a, b)", ORD, ORD, 0, r = Vc::min(a, b), y < x ? y : x)
        OP("max(a, b)", ORD, ORD, 0, r = Vc::max(a, b), x < y ? y : x)
        OP("copy, move, swap", GEN, GEN, 0, V c(a); V d; d = b; std::swap(c, d); V e(std::move(c)); r = e, y)
        ints(l, std::is_integral<T>());
        math(l, std::is_floating_point<T>());
        signedOps(l, std::is_signed<T>());
    }
    static void signedOps(L &l, std::true_type) { OP("abs", SMALL, NONE, 0, r = Vc::abs(a), x < T(0) ? T(-x) : x) }
    static void signedOps(L &, std::false_type) {}
    static void ints(L &l, std::true_type)
    {
        OP("a % b", GEN, NZ, 0, r = a % b, R::rem(x, y))
        OP("a & b", GEN, GEN, 0, r = a & b, x & y)
        OP("a | b", GEN, GEN, 0, r = a | b, x | y)
        OP("a ^ b", GEN, GEN, 0, r = a ^ b, x ^ y)
        OP("a %= b", GEN, NZ, 0, r %= b, R::rem(x, y))
        OP("a &= b", GEN, GEN, 0, r &= b, x & y)
        OP("a |= b", GEN, GEN, 0, r |= b, x | y)
        OP("a ^= b", GEN, GEN, 0, r ^= b, x ^ y)
        OP("~a", GEN, NONE, 0, r = ~a, T(~x))
        OP("a <<= b", GEN, SHIFT, 0, r <<= b, R::shl(x, y))
        OP("a >>= b", GEN, SHIFT, 0, r >>= b, R::shr(x, y))
        OP("a << n", GEN, NONE, KBITS, r = a << k, R::shl(x, T(k)))
        OP("a >> n", GEN, NONE, KBITS, r = a >> k, R::shr(x, T(k)))
        OP("a <<= n", GEN, NONE, KBITS, r <<= k, R::shl(x, T(k)))
        OP("a >>= n", GEN, NONE, KBITS, r >>= k, R::shr(x, T(k)))
    }
    static void ints(L &, std::false_type) {}
    static void math(L &l, std::true_type)
    {
        OP("sqrt", NONNEG, NONE, 0, r = Vc::sqrt(a), std::sqrt(x))
        OP("floor", GEN, NONE, 0, r = Vc::floor(a), std::floor(x))
        OP("ceil", GEN, NONE, 0, r = Vc::ceil(a), std::ceil(x))
        OP("trunc", GEN, NONE, 0, r = Vc::trunc(a), std::trunc(x))
        OP("round", GEN, NONE, 0, r = Vc::round(a), std::nearbyint(x))
        OP("copysign", GEN, GEN, 0, r = Vc::copysign(a, b), std::copysign(x, y))
        OP("exponent", POW2, NONE, 0, r = Vc::exponent(Vc::abs(a)), std::ilogb(x))
        OPM("isnan", GEN, NONE, 0, r = Vc::isnan(a), std::isnan(x))
        OPM("isinf", GEN, NONE, 0, r = Vc::isinf(a), std::isinf(x))
        OPM("isfinite", GEN, NONE, 0, r = Vc::isfinite(a), std::isfinite(x))
        OPM("isnegative", GEN, NONE, 0, r = Vc::isnegative(a), std::isnan(x) ? std::signbit(x) : std::signbit(x))
        OP("fma", SMALL, NONNEG, 0, r = Vc::fma(a, b, a), x * y + x)
        OP("rsqrt", UNIT, NONE, APPROX, r = Vc::rsqrt(a); r = r * r * a * T(1. / 256) + T(0.99609375); r = Vc::floor(r * T(1024) + T(.5)), T(1024))
        OP("reciprocal", UNIT, NONE, APPROX, r = Vc::reciprocal(a); r = r * a * T(1. / 256) + T(0.99609375); r = Vc::floor(r * T(1024) + T(.5)), T(1024))
        OP("exp", UNIT, NONE, APPROX, r = Vc::exp(a), std::exp(x))
        OP("log", UNIT, NONE, APPROX, r = Vc::log(a), std::log(x))
        OP("log2", UNIT, NONE, APPROX, r = Vc::log2(a), std::log2(x))
        OP("log10", UNIT, NONE, APPROX, r = Vc::log10(a), std::log10(x))
        OP("sin", UNIT, NONE, APPROX, r = Vc::sin(a), std::sin(x))
        OP("cos", UNIT, NONE, APPROX, r = Vc::cos(a), std::cos(x))
        OP("sincos.sin", UNIT, NONE, APPROX, V c; Vc::sincos(a, &r, &c), std::sin(x))
        OP("sincos.cos", UNIT, NONE, APPROX, V c; Vc::sincos(a, &c, &r), std::cos(x))
        OP("asin", UNIT, NONE, APPROX, r = Vc::asin(a), std::asin(x))
        OP("atan", UNIT, NONE, APPROX, r = Vc::atan(a), std::atan(x))
        OP("atan2", UNIT, UNIT, APPROX, r = Vc::atan2(a, b), std::atan2(x, y))
        typedef Vc::SimdArray<int, N> I;
        OPF("frexp", NZ, NONE, 0, I e; V f = Vc::frexp(a, &e); st(f, o); int q[N]; e.store(q, Vc::Unaligned); for (int i = 0; i < N; ++i) o[i] += T(q[i]) * 2,
            for (int i = 0; i < N; ++i) { int e; const T f = std::frexp(x[i], &e); o[i] = f + T(e) * 2; })
        OPF("ldexp", NZ, SMALL, 0, int q[N]; for (int i = 0; i < N; ++i) q[i] = int(in.b[i]) - 2; I e(q, Vc::Unaligned); if (!(Vc::abs(a) > T(1e30)).isEmpty()) { a(Vc::abs(a) > T(1e30)) = T(3); } st(Vc::ldexp(a, e), o),
            for (int i = 0; i < N; ++i) o[i] = std::ldexp(std::abs(x[i]) > T(1e30) ? T(3) : x[i], int(y[i]) - 2))
    }
    static void math(L &, std::false_type) {}

    static void masked(L &l)
    {
        OP("a(m) = b", GEN, GEN, MASK, r(m) = b, p ? y : x)
        OP("a(m) += b", GEN, GEN, MASK, r(m) += b, p ? R::add(x, y) : x)
        OP("a(m) -= b", GEN, GEN, MASK, r(m) -= b, p ? R::sub(x, y) : x)
        OP("a(m) *= b", GEN, GEN, MASK, r(m) *= b, p ? R::mul(x, y) : x)
        OP("a(m) /= b", GEN, NZ, MASK, r(m) /= b, p ? R::div(x, y) : x)
        OP("++a(m)", SMALL, NONE, MASK, ++r(m), p ? x + 1 : x)
        OP("a(m)--", SMALL, NONE, MASK, r(m)--, p ? x - 1 : x)
        OP("where(m) | a = b", GEN, GEN, MASK, where(m) | r = b, p ? y : x)
        OP("where(m) | a += b", GEN, GEN, MASK, where(m) | r += b, p ? R::add(x, y) : x)
        OP("iif(m, a, b)", GEN, GEN, MASK, r = Vc::iif(m, a, b), p ? x : y)
        OP("assign(b, m)", GEN, GEN, MASK, r.assign(b, m), p ? y : x)
        OP("setZero(m)", GEN, NONE, MASK, r.setZero(m), p ? T(0) : x)
        OP("setZeroInverted(m)", GEN, NONE, MASK, r.setZeroInverted(m), p ? x : T(0))
        OP("setZero()", GEN, NONE, 0, r.setZero(), T(0))
        qnan(l, std::is_floating_point<T>());
        // masks
        OPM("mask from bool*", NONE, NONE, MASK, , p)
        OPM("!m", NONE, NONE, MASK, r = !m, !p)
        OPM("m & (a < b)", GEN, GEN, MASK, r = m & (a < b), p && x < y)
        OPM("m | (a < b)", GEN, GEN, MASK, r = m | (a < b), p || x < y)
        OPM("m ^ (a < b)", GEN, GEN, MASK, r = m ^ (a < b), p != (x < y))
        OPM("m && (a < b)", GEN, GEN, MASK, r = m && (a < b), p && x < y)
        OPM("m || (a < b)", GEN, GEN, MASK, r = m || (a < b), p || x < y)
        OPM("m &= (a < b)", GEN, GEN, MASK, r &= (a < b), p && x < y)
        OPM("m |= (a < b)", GEN, GEN, MASK, r |= (a < b), p || x < y)
        OPM("m ^= (a < b)", GEN, GEN, MASK, r ^= (a < b), p != (x < y))
        OPM("Mask::shifted", NONE, NONE, MASK | KS, r = m.shifted(k), i + k >= 0 && i + k < N && ((in.m >> (i + k)) & 1))
        OPM("Mask::generate", NONE, NONE, MASK, r = M::generate([&](int i) { return (in.m >> i) & 1; }), p)
        OPM("Mask::Zero/One", NONE, NONE, 0, r = M::One() & !M::Zero() & M(true) & !M(false) & M(Vc::One) & !M(Vc::Zero), true)
        OPM("m[i] read and write", NONE, NONE, MASK, for (int i = 0; i < N; ++i) { M q(false); q[i] = bool(m[(i + 1) % N]); M z = i ? r : M(false); r = z | q; }, (in.m >> ((i + 1) % N)) & 1)
        OPF("m count/firstOne/isFull/isEmpty/isMix/isNotEmpty/toInt, all_of any_of none_of some_of, == !=", NONE, NONE, MASK,
            o[0] = T(m.count()); if (N > 1) o[1] = T(m.isEmpty() ? 0 : m.firstOne()); o[N] = T(m.isFull()); o[N + 1] = T(m.isEmpty()); o[N + 2] = T(m.isMix()); o[N + 3] = T(m.isNotEmpty());
            o[N + 4] = T(uint64_t(unsigned(m.toInt())) == (in.m & (N < 32 ? (1ull << (N % 32)) - 1 : 0xffffffffull)) || N > 32); o[N + 5] = T(all_of(m) + 2 * any_of(m) + 4 * none_of(m) + 8 * some_of(m)); o[N + 6] = T(m == M(true)); o[N + 7] = T(m != M(false)),
            const uint64_t Full = (1ull << N) - 1; const bool f = m == Full; const bool e = m == 0; o[0] = T(__builtin_popcountll(m)); if (N > 1) o[1] = T(e ? 0 : __builtin_ctzll(m)); o[N] = T(f); o[N + 1] = T(e); o[N + 2] = T(!f && !e); o[N + 3] = T(!e);
            o[N + 4] = T(1); o[N + 5] = T(f + 2 * !e + 4 * e + 8 * (!f && !e)); o[N + 6] = T(f); o[N + 7] = T(!e))
        OPF("iterate where(m)", NONE, NONE, MASK, int j = 0; for (int i : where(m)) o[j++] = T(i), int j = 0; for (int i = 0; i < N; ++i) if ((m >> i) & 1) o[j++] = T(i))
        // reductions
        OPF("sum, sum(m)", SMALL, NONE, MASK, o[0] = a.sum(); o[N] = a.sum(m), T s = 0; T q = 0; for (int i = 0; i < N; ++i) { s = R::add(s, x[i]); if ((m >> i) & 1) q = R::add(q, x[i]); } o[0] = s; o[N] = q)
        OPF("product, product(m)", POW2, NONE, MASK, o[0] = a.product(); o[N] = a.product(m), T s = 1; T q = 1; for (int i = 0; i < N; ++i) { s = R::mul(s, x[i]); if ((m >> i) & 1) q = R::mul(q, x[i]); } o[0] = s; o[N] = q)
        OPF("min, min(m)", ORD, NONE, MASK, o[0] = a.min(); o[N] = m.isEmpty() ? T(1) : a.min(m), T s = x[0]; T q = T(1); bool any = false; for (int i = 0; i < N; ++i) { if (x[i] < s) s = x[i]; if ((m >> i) & 1) { if (!any || x[i] < q) q = x[i]; any = true; } } o[0] = s; o[N] = q)
        OPF("max, max(m)", ORD, NONE, MASK, o[0] = a.max(); o[N] = m.isEmpty() ? T(1) : a.max(m), T s = x[0]; T q = T(1); bool any = false; for (int i = 0; i < N; ++i) { if (x[i] > s) s = x[i]; if ((m >> i) & 1) { if (!any || x[i] > q) q = x[i]; any = true; } } o[0] = s; o[N] = q)
        OPF("partialSum", SMALL, NONE, 0, st(a.partialSum(), o), T s = 0; for (int i = 0; i < N; ++i) { s = R::add(s, x[i]); o[i] = s; })
        OPF("apply(f, m), apply(f)", DIST, NONE, MASK, int n = 0; V r = a.apply([&](T z) { ++n; return T(z + 1); }, m); st(r, o); o[N] = T(n); n = 0; V q = a.apply([&](T z) { ++n; return T(z * 2); }); o[N + 1] = T(n); o[N + 2] = q[N - 1]; o[N + 3] = q[0],
            for (int i = 0; i < N; ++i) o[i] = (m >> i) & 1 ? T(x[i] + 1) : x[i]; o[N] = T(__builtin_popcountll(m)); o[N + 1] = T(N); o[N + 2] = T(x[N - 1] * 2); o[N + 3] = T(x[0] * 2))
        OPF("call(f)", DIST, NONE, 0, int n = 0; V c(a); c.apply([&](T z) { o[n++] = z; return z; }); o[N] = T(n), for (int i = 0; i < N; ++i) o[i] = x[i]; o[N] = T(N))
    }
    static void qnan(L &l, std::true_type) { OP("setQnan(m)", SMALL, NONE, MASK, r.setQnan(m), p ? std::numeric_limits<T>::quiet_NaN() : x) OP("setQnan()", SMALL, NONE, 0, r.setQnan(), std::numeric_limits<T>::quiet_NaN()) }
    static void qnan(L &, std::false_type) {}

    static T at(const T *x, int i, T none = T(0)) { return i >= 0 && i < N ? x[i] : none; }
    static void perm(L &l)
    {
        OP("shifted(n)", DIST, NONE, KS, r = a.shifted(k), at(in.a, i + k))
        OP("shifted(n, shiftIn)", DIST, GEN, KS, r = k <= -2 * N || k >= 2 * N ? V(Vc::Zero) : V(a.shifted(k, b)), k <= -2 * N || k >= 2 * N ? T(0) : i + k < 0 ? at(in.b, i + k + N) : i + k >= N ? at(in.b, i + k - N) : in.a[i + k])
        OP("rotated(n)", DIST, NONE, KS, r = a.rotated(k), in.a[((i + k) % N + N) % N])
        OP("reversed()", DIST, NONE, 0, r = a.reversed(), in.a[N - 1 - i])
        OPF("sorted()", ORD, NONE, 0, st(a.sorted(), o), for (int i = 0; i < N; ++i) o[i] = x[i]; std::sort(&o[0], &o[0] + N))
        OP("generate", NONE, NONE, 0, r = V::generate([](int i) { return T(i * 5 + 2); }), i * 5 + 2)
        OP("generator constructor", NONE, NONE, 0, r = V([](int i) { return T(i * 5 + 3); }), i * 5 + 3)
        OPF("generate call order", NONE, NONE, 0, int n = 0; V r = V::generate([&](int i) { o[N + 1] = T(o[N + 1] + (i != n)); return T(n++); }); st(r, o); o[N] = T(n), for (int i = 0; i < N; ++i) o[i] = T(i); o[N] = T(N))
        OP("Zero", NONE, NONE, 0, r = V::Zero() + V(Vc::Zero), 0)
        OP("One", NONE, NONE, 0, r = V::One() + V(Vc::One), 2)
        OP("IndexesFromZero", NONE, NONE, 0, r = V::IndexesFromZero(), i)
        OP("IndexesFromZero ctor", NONE, NONE, 0, r = V(Vc::IndexesFromZero), i)
        OP("broadcast", GEN, NONE, 0, r = V(in.a[0]), in.a[0])
        OP("broadcast assignment", GEN, NONE, 0, r = in.a[0], in.a[0])
        OPF("a[i] read", DIST, NONE, 0, for (int i = 0; i < N; ++i) o[i] = a[i]; const V &c = a; for (int i = 0; i < N; ++i) if (c[i] != in.a[i]) o[N] = T(1), for (int i = 0; i < N; ++i) o[i] = x[i])
        OPF("a[i] = x", DIST, GEN, 0, T acc[N]; for (int i = 0; i < N; ++i) { V c = a; c[i] = in.b[i]; T q[N]; st(c, q); for (int j = 0; j < N; ++j) if (j != i && !same(q[j], in.a[j])) o[N] = T(i + 1); acc[i] = q[i]; } for (int i = 0; i < N; ++i) o[i] = acc[i], for (int i = 0; i < N; ++i) o[i] = y[i])
        OPF("a[i] += x", SMALL, SMALL, 0, for (int i = 0; i < N; ++i) { a[i] += in.b[i]; a[i] -= T(1); ++a[i]; } st(a, o), for (int i = 0; i < N; ++i) o[i] = R::add(x[i], y[i]))
        OPF("begin()..end()", DIST, NONE, 0, int n = 0; for (auto e : a) o[n++] = e; o[N] = T(n), for (int i = 0; i < N; ++i) o[i] = x[i]; o[N] = T(N))
        OPF("initializer list", DIST, NONE, 0, st(ilist(in.a, std::make_index_sequence<N>()), o), for (int i = 0; i < N; ++i) o[i] = x[i])
    }
    template <size_t... I> static V ilist(const T *p, std::index_sequence<I...>) { return V{p[I]...}; }
    template <class U> static void casts(L &l)
    {
        typedef Vc::SimdArray<U, N> W;
        OP("conversion to another value type and back", NONNEG, NONE, 0, W w(a); U u[N]; w.store(u, Vc::Unaligned); T t[N]; for (int i = 0; i < N; ++i) t[i] = T(u[i]); r = V(W(w)) + ld(t), T(x * 2))
        OP("simd_cast to another value type", NONNEG, NONE, 0, W w = Vc::simd_cast<W>(a); U u[N]; w.store(u, Vc::Unaligned); T t[N]; for (int i = 0; i < N; ++i) t[i] = T(u[i]); r = ld(t), x)
        OPM("mask conversion to another value type", NONE, NONE, MASK, typename W::mask_type w(m); bool q[N]; w.store(q, Vc::Unaligned); uint64_t z = 0; for (int i = 0; i < N; ++i) z |= uint64_t(q[i]) << i; r = lm(z), p)
        OPM("mask simd_cast to another value type", NONE, NONE, MASK, typename W::mask_type w = Vc::simd_cast<typename W::mask_type>(m); uint64_t z = 0; for (int i = 0; i < N; ++i) z |= uint64_t(bool(w[i])) << i; r = lm(z), p)
        OP("mask of another value type in a(m) = b", GEN, GEN, MASK, typename W::mask_type w(m); r(w) = b, p ? y : x)
        OPF("load from another type", NONNEG, NONE, 0, U2 u[N]; for (int i = 0; i < N; ++i) u[i] = U2(in.a[i] / 2); V r(u, Vc::Unaligned); st(r, o), for (int i = 0; i < N; ++i) o[i] = T(U2(x[i] / 2)))
    }
#define MEMOUT std::memcpy(o, in.mem, N * sizeof(T))
    static void mem(L &l)
    {
#define LD(NAME, FL, F) OPF("load " NAME, DIST, NONE, FL, std::memcpy(in.mem, in.a, N * sizeof(T)); V r((const T *)in.mem, F); V q; q.load((const T *)in.mem, F); st(r, o); T t[N]; st(q, t); if (std::memcmp(t, o, sizeof t)) o[N] = T(1), std::memcpy(o, x, N * sizeof(T)))
#define ST(NAME, FL, F) OPF("store " NAME, DIST, NONE, FL, a.store((T *)in.mem, F); MEMOUT, std::memcpy(o, x, N * sizeof(T)))
        LD("Aligned", MEMA, Vc::Aligned) LD("Unaligned", MEMU, Vc::Unaligned) LD("Streaming", MEMA, Vc::Streaming) LD("Unaligned|Streaming", MEMU, Vc::Unaligned | Vc::Streaming)
        ST("Aligned", MEMA, Vc::Aligned) ST("Unaligned", MEMU, Vc::Unaligned) ST("Streaming", MEMA, Vc::Streaming) ST("Unaligned|Streaming", MEMU, Vc::Unaligned | Vc::Streaming)
#define STM(NAME, FL, F) OPF("masked store " NAME, DIST, NONE, FL | MASK, std::memcpy(in.mem, in.b, N * sizeof(T)); a.store((T *)in.mem, m, F); MEMOUT, for (int i = 0; i < N; ++i) o[i] = (m >> i) & 1 ? x[i] : y[i])
        STM("Aligned", MEMA, Vc::Aligned) STM("Unaligned", MEMU, Vc::Unaligned) STM("Streaming", MEMA, Vc::Streaming) STM("Unaligned|Streaming", MEMU, Vc::Unaligned | Vc::Streaming)
        typedef typename V::IndexType I;
#define TAB T *t = (T *)in.mem; for (int i = 0; i < N + 3; ++i) t[i] = T(50 + i); I idx(in.idx, Vc::Unaligned)
        OPF("gather constructor", NONE, NONE, IDX, TAB; V r(t, idx); st(r, o), for (int i = 0; i < N; ++i) o[i] = T(50 + in.idx[i]))
        OPF("gather member", NONE, NONE, IDX, TAB; V r = a; r.gather(t, idx); st(r, o), for (int i = 0; i < N; ++i) o[i] = T(50 + in.idx[i]))
        OPF("masked gather constructor", NONE, NONE, IDX | MASK, TAB; V r(t, idx, m); st(r, o), for (int i = 0; i < N; ++i) o[i] = (m >> i) & 1 ? T(50 + in.idx[i]) : T(0))
        OPF("masked gather member", DIST, NONE, IDX | MASK, TAB; V r = a; r.gather(t, idx, m); st(r, o), for (int i = 0; i < N; ++i) o[i] = (m >> i) & 1 ? T(50 + in.idx[i]) : x[i])
        OPF("scatter", DIST, NONE, IDX | UNIQ, TAB; a.scatter(t, idx); for (int i = 0; i < N + 3; ++i) o[i] = t[i], for (int i = 0; i < N + 3; ++i) o[i] = T(50 + i); for (int i = 0; i < N; ++i) o[in.idx[i]] = x[i])
        OPF("masked scatter", DIST, NONE, IDX | MASK | UNIQ, TAB; a.scatter(t, idx, m); for (int i = 0; i < N + 3; ++i) o[i] = t[i], for (int i = 0; i < N + 3; ++i) o[i] = T(50 + i); for (int i = 0; i < N; ++i) if ((m >> i) & 1) o[in.idx[i]] = x[i])
    }
    MC_NOINLINE static void run()
    {
        L l;
        arith(l); masked(l); perm(l); mem(l);
        casts<U1>(l);
        Core<T>::run(vn<V>(), N, V::MemoryAlignment, l);
    }
    typedef typename std::conditional<std::is_same<T, double>::value, int, typename std::conditional<std::is_same<T, float>::value, short, typename std::conditional<std::is_same<T, int>::value, float, typename std::conditional<std::is_same<T, uint>::value, double, typename std::conditional<std::is_same<T, short>::value, double, uint>::type>::type>::type>::type>::type U1;
    typedef typename std::conditional<std::is_same<T, double>::value, int, typename std::conditional<std::is_same<T, short>::value, schar, typename std::conditional<std::is_same<T, uint>::value, ushort, typename std::conditional<std::is_same<T, ushort>::value, uchar, short>::type>::type>::type>::type U2;
};
template <class T, size_t... Ns> void runs()
{
    int x[] = {(Ops<Vc::SimdArray<T, Ns>>::run(), 0)...};
    (void)x;
}
#if NSET == 0
#define NS 1, 3, 5, 8, 12
#elif NSET == 1
#define NS 2, 6, 7, 13, 17
#elif NSET == 2
#define NS 4, 9, 11, 16, 19
#elif NSET == 3
#define NS 10, 14, 15, 18, 24
#else
#define NS 23, 31, 32, 33
#endif
void explore()
{
#if TYPE == 0
    runs<double, NS>();
#elif TYPE == 1
    runs<float, NS>();
#elif TYPE == 2
    runs<int, NS>();
#elif TYPE == 3
    runs<uint, NS>();
#elif TYPE == 4
    runs<short, NS>();
#elif TYPE == 5
    runs<ushort, NS>();
#endif
}
