// C29: operations and the floating-point environment of the calling thread. Every rounding mode (MXCSR and x87
// control word) x flush-to-zero x denormals-are-zero, for every operation:
//   - the operation leaves the control bits of MXCSR, the x87 control word and the (empty) x87 register stack alone
//   - + - * / and sqrt are the scalar operation executed in the same environment
//   - the operations with an exact result do not depend on the rounding mode
#include "mc.h"
using namespace mc;

// ---------------------------------------------------------------- the environment
struct X87 { uint32_t cw, sw, tag, rest[4]; };
static inline uint32_t csr() { uint32_t r; asm volatile("stmxcsr %0" : "=m"(r)::"memory"); return r; }
static inline void csr(uint32_t x) { asm volatile("ldmxcsr %0" ::"m"(x) : "memory"); }
static inline X87 x87() { X87 r; asm volatile("fnstenv %0\n\tfldenv %0" : "=m"(r)::"memory"); return r; }
static inline void cw(uint16_t x) { asm volatile("fldcw %0" ::"m"(x) : "memory"); }
static inline void x87clear() { asm volatile("fninit" ::: "memory"); }
struct Mode { unsigned rc; bool ftz, daz; };
static std::string str(const Mode &m)
{
    static const char *n[] = {"nearest", "downward", "upward", "toward zero"};
    return std::string("rounding ") + n[m.rc] + (m.ftz ? " FTZ" : "") + (m.daz ? " DAZ" : "");
}
static std::vector<Mode> modes(bool flushing)
{
    std::vector<Mode> r;
    for (unsigned f = 0; f < (flushing ? 4u : 1u); ++f)
        for (unsigned rc = 0; rc < 4; ++rc) r.push_back(Mode{rc, (f & 1) != 0, (f & 2) != 0});
    return r;
}
// runs f in the given environment; returns what it left behind ("" if it left everything as it was)
template <class F> static MC_NOINLINE std::string in(const Mode &m, F &&f)
{
    const uint32_t want = 0x1f80u | m.rc << 13 | (m.ftz ? 0x8000u : 0u) | (m.daz ? 0x40u : 0u);
    const uint16_t wantcw = uint16_t(0x037f | m.rc << 10);
    const uint32_t old = csr();
    x87clear();
    cw(wantcw);
    csr(want);
    f();
    const uint32_t now = csr();
    csr(old);
    const X87 e = x87();
    x87clear();
    C.checks += 3;
    if ((now & 0xffc0u) != want) { char b[80]; snprintf(b, sizeof b, "MXCSR was 0x%04x and is 0x%04x afterwards", want, now & 0xffc0u); return b; }
    if ((e.cw & 0xffff & ~0x1040u) != (wantcw & ~0x1040u)) { char b[80]; snprintf(b, sizeof b, "x87 control word was 0x%04x and is 0x%04x afterwards", wantcw, e.cw & 0xffff); return b; }
    if ((e.tag & 0xffff) != 0xffff) { char b[80]; snprintf(b, sizeof b, "x87 registers left occupied (tag word 0x%04x)", e.tag & 0xffff); return b; }
    return "";
}
template <class T> static bool eq(T a, T b) { return a == b || (a != a && b != b); }

// ---------------------------------------------------------------- arithmetic in the current mode
enum { ADD, SUB, MUL, DIV, CADD, CSUB, CMUL, CDIV, SADD, SSUB, SMUL, SDIV, SQRT, OPS };
static const char *opName[] = {"a + b", "a - b", "a * b", "a / b", "a += b", "a -= b", "a *= b", "a /= b", "a + s", "s - a", "a * s", "a / s", "sqrt(a)"};
template <class T> static MC_NOINLINE T scalarOp(int op, T a, T b)
{
    a = launder(a);
    b = launder(b);
    switch (op) {
    case ADD: case CADD: case SADD: return launder(T(a + b));
    case SUB: case CSUB: return launder(T(a - b));
    case SSUB: return launder(T(b - a));
    case MUL: case CMUL: case SMUL: return launder(T(a * b));
    case DIV: case CDIV: case SDIV: return launder(T(a / b));
    default: return launder(T(std::sqrt(a)));
    }
}
template <class V> static MC_NOINLINE void vectorOp(int op, const typename V::EntryType *x, const typename V::EntryType *y, typename V::EntryType *r)
{
    V a = make<V>(x), b = make<V>(y);
    const typename V::EntryType s = launder(y[0]);
    switch (op) {
    case ADD: a = a + b; break;
    case SUB: a = a - b; break;
    case MUL: a = a * b; break;
    case DIV: a = a / b; break;
    case CADD: a += b; break;
    case CSUB: a -= b; break;
    case CMUL: a *= b; break;
    case CDIV: a /= b; break;
    case SADD: a = a + s; break;
    case SSUB: a = s - a; break;
    case SMUL: a = a * s; break;
    case SDIV: a = a / s; break;
    default: a = Vc::sqrt(a);
    }
    a.store(r, Vc::Unaligned);
}
template <class V> static void arithmetic(const std::vector<typename V::EntryType> &al)
{
    typedef typename V::EntryType T;
    enum { N = V::Size };
    for (int op = 0; op < OPS; ++op) {
        Site s(std::string(opName[op]) + " <" + vn<V>() + "> in the current rounding mode");
        if (!s.active()) continue;
        const bool one = op >= SADD && op <= SDIV;
        for (const Mode &m : modes(true)) {
            uint64_t h = s.h;
            for (size_t j = 0; j < (op == SQRT ? 1 : al.size()); j += g_thorough ? 1 : 3)
                for (size_t i = 0; i < al.size(); i += N) {
                    T x[N], y[N], got[N], want[N];
                    for (int k = 0; k < N; ++k) { x[k] = al[(i + k) % al.size()]; y[k] = al[one ? j : (j + 7 * k) % al.size()]; }
                    s.at(i, j, m.rc);
                    const std::string left = in(m, [&] { vectorOp<V>(op, x, y, got); });
                    in(m, [&] { for (int k = 0; k < N; ++k) want[k] = scalarOp<T>(op, x[k], y[k]); });
                    ++C.states;
                    ++C.transitions;
                    if (!left.empty()) { s.fail(str(m), left); return; }
                    for (int k = 0; k < N; ++k) {
                        ++C.checks;
                        if (!same(got[k], want[k])) s.fail(str(m) + " lane " + str(k) + ": " + str(x[k]) + ", " + str(y[k]), "got " + str(got[k]) + " want " + str(want[k]));
                        h = mix(h, bits(got[k]));
                    }
                }
            outcome(h);
        }
    }
}

// ---------------------------------------------------------------- operations with exact results
// f maps one window of W source values to K results
template <class A, class R, size_t W, size_t K, class F> static void independent(const std::string &name, const std::vector<A> &al, F f)
{
    Site s(name + " in every rounding mode");
    if (!s.active()) return;
    void (*volatile fn)(const A *, R *) = f;
    for (size_t i = 0; i < al.size(); i += W > 2 ? W - 1 : 1) {
        A x[W];
        for (size_t k = 0; k < W; ++k) x[k] = al[(i + k) % al.size()];
        R want[K];
        for (const Mode &m : modes(false)) {
            R got[K];
            s.at(i, m.rc);
            const std::string left = in(m, [&] { fn(x, got); });
            ++C.states;
            ++C.transitions;
            if (!left.empty()) { s.fail(str(m), left); return; }
            if (m.rc == 0) { std::copy(got, got + K, want); uint64_t h = s.h; for (R g : want) h = mix(h, bits(g)); outcome(h); continue; }
            for (size_t k = 0; k < K; ++k) {
                ++C.checks;
                if (!eq(got[k], want[k])) { s.fail(str(m) + " source values " + str(std::vector<A>(x, x + W)), "result " + str(k) + ": got " + str(got[k]) + ", in the default mode " + str(want[k])); break; }
            }
        }
    }
}
template <class V> using E = typename V::EntryType;
#define EXACT(fn_) independent<T, T, N, N>(#fn_ "(" + vn<V>() + ")", al, [](const T *x, T *r) { V(Vc::fn_(make<V>(x))).store(r, Vc::Unaligned); });
#define TEST(fn_) independent<T, int, N, N>(#fn_ "(" + vn<V>() + ")", al, [](const T *x, int *r) { const typename V::Mask k = Vc::fn_(make<V>(x)); for (size_t i = 0; i < N; ++i) r[i] = k[i]; });
#define CMP(op_) independent<T, int, 2 * N, N>("a " #op_ " b <" + vn<V>() + ">", al, [](const T *x, int *r) { const typename V::Mask k = make<V>(x) op_ make<V>(x + N); for (size_t i = 0; i < N; ++i) r[i] = k[i]; });
#define BIN(fn_) independent<T, T, 2 * N, N>(#fn_ "(a, b) <" + vn<V>() + ">", al, [](const T *x, T *r) { V(Vc::fn_(make<V>(x), make<V>(x + N))).store(r, Vc::Unaligned); });
template <class V> struct NoArray { static const bool value = true; };
template <class T, size_t N, class V, size_t M> struct NoArray<Vc::SimdArray<T, N, V, M>> { static const bool value = false; };
template <class V> static void onlyVector(const std::vector<E<V>> &al, std::true_type)
{
    typedef E<V> T;
    enum { N = V::Size };
    std::vector<T> nn;
    for (T x : al) if (x >= 0 && (x == 0 || std::isnormal(x)) && !std::signbit(x)) nn.push_back(x);
    { const std::vector<T> &al = nn; EXACT(exponent) }
}
template <class V> static void onlyVector(const std::vector<E<V>> &, std::false_type) {}
template <class V> static void exact(const std::vector<E<V>> &al)
{
    typedef E<V> T;
    enum : size_t { N = V::Size };
    EXACT(floor) EXACT(ceil) EXACT(trunc) EXACT(abs)
    TEST(isnan) TEST(isinf) TEST(isfinite) TEST(isnegative)
    CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
    BIN(min) BIN(max) BIN(copysign)
    onlyVector<V>(al, std::integral_constant<bool, NoArray<V>::value>());
    std::vector<T> norm, in32, nonan;
    for (T x : al) {
        if (x == 0 || std::isnormal(x)) norm.push_back(x);
        if (x == x) nonan.push_back(x);
        if (std::fabs(x) < T(2147483000)) in32.push_back(x);
    }
    typedef Vc::SimdArray<int, N> I;
    independent<T, T, N, 2 * N>("frexp(" + vn<V>() + ")", norm, [](const T *x, T *r) { I e; V(Vc::frexp(make<V>(x), &e)).store(r, Vc::Unaligned); for (size_t i = 0; i < N; ++i) r[N + i] = T(int(e[i])); });
    {   // results stay normal
        std::vector<T> mid;
        for (T x : al) if (x != 0 && std::isnormal(x) && std::fabs(std::log2(std::fabs(x))) < 40) mid.push_back(x);
        independent<T, T, N, N>("ldexp(" + vn<V>() + ", n)", mid, [](const T *x, T *r) { I e; for (size_t i = 0; i < N; ++i) e[i] = int(i * 13 % 61) - 30; V(Vc::ldexp(make<V>(x), e)).store(r, Vc::Unaligned); });
    }
    independent<T, T, N, 2>("min, max of the lanes of " + vn<V>(), nonan, [](const T *x, T *r) { const V v = make<V>(x); r[0] = v.min(); r[1] = v.max(); });
    independent<T, T, N, N>(vn<V>() + "::sorted", nonan, [](const T *x, T *r) { make<V>(x).sorted().store(r, Vc::Unaligned); });
    independent<T, T, N, N>("-a, +a <" + vn<V>() + ">", al, [](const T *x, T *r) { V(-(+make<V>(x))).store(r, Vc::Unaligned); });
    independent<T, int, N, N>("simd_cast<SimdArray<int>>(" + vn<V>() + ")", in32, [](const T *x, int *r) { Vc::simd_cast<I>(make<V>(x)).store(r, Vc::Unaligned); });
}
template <class To, class A> static void convertingLoad(const std::vector<A> &al, std::true_type)
{
    typedef E<To> B;
    independent<A, B, To::Size, To::Size>(vn<To>() + "(const " + TN<A>::n() + " *)", al, [](const A *x, B *r) { To(x, Vc::Unaligned).store(r, Vc::Unaligned); });
}
template <class To, class A> static void convertingLoad(const std::vector<A> &, std::false_type) {}
// conversions between floating point and integers; from: representable values only
template <class To, class From> static void convert(const std::vector<E<From>> &from)
{
    typedef E<From> A;
    typedef E<To> B;
    enum : size_t { N = From::Size, K = To::Size < From::Size ? size_t(To::Size) : size_t(From::Size) };
    std::vector<A> al;
    for (A x : from) {
        if (x != x) continue;
        if (std::is_floating_point<A>::value && std::is_integral<B>::value) { if (!(double(x) > double(std::numeric_limits<B>::min()) - .999 && double(x) < double(std::numeric_limits<B>::max()) - 130)) continue; }
        else if (std::is_floating_point<B>::value && A(B(x)) != x) continue;
        else if (std::is_integral<A>::value && double(B(x)) != double(x)) continue;
        al.push_back(x);
    }
    independent<A, B, N, K>("simd_cast<" + vn<To>() + ">(" + vn<From>() + ")", al, [](const A *x, B *r) { B t[To::Size]; Vc::simd_cast<To>(make<From>(x)).store(t, Vc::Unaligned); std::copy(t, t + K, r); });
    independent<A, B, 64, N>("SimdArray<" + std::string(TN<B>::n()) + ">(SimdArray<" + TN<A>::n() + "," + str(int(N)) + ">)", al, [](const A *x, B *r) { Vc::SimdArray<A, N> a(x, Vc::Unaligned); Vc::simd_cast<Vc::SimdArray<B, N>>(a).store(r, Vc::Unaligned); });
    convertingLoad<To>(al, std::is_floating_point<B>());
}
template <class V> static void intDivision()
{
    typedef E<V> T;
    enum { N = V::Size };
    const std::vector<T> al = alphabet<T>(1);
    for (int op = 0; op < 4; ++op) {
        static const char *nm[] = {"a / b", "a % b", "a /= b", "a / s"};
        Site s(std::string(nm[op]) + " <" + vn<V>() + "> in every rounding mode");
        if (!s.active()) continue;
        for (const Mode &m : modes(false)) {
            uint64_t h = s.h;
            for (size_t j = 0; j < al.size(); ++j)
                for (size_t i = 0; i < al.size(); i += N) {
                    T x[N], y[N], got[N], want[N];
                    for (int k = 0; k < N; ++k) {
                        x[k] = al[(i + k) % al.size()];
                        y[k] = al[op == 3 ? j : (j + 5 * k) % al.size()];
                        if (y[k] == 0) y[k] = 3;
                        if (std::is_signed<T>::value && y[k] == T(-1) && x[k] == std::numeric_limits<T>::min()) x[k] = 1;
                        want[k] = T(op == 1 ? x[k] % y[k] : x[k] / y[k]);
                    }
                    if (op == 3) for (int k = 0; k < N; ++k) { if (x[k] == std::numeric_limits<T>::min() && std::is_signed<T>::value && y[0] == T(-1)) x[k] = 1; want[k] = T(x[k] / y[0]); }
                    s.at(i, j, m.rc);
                    const std::string left = in(m, [&] {
                        V a = make<V>(x), b = make<V>(y);
                        switch (op) {
                        case 0: a = a / b; break;
                        case 1: a = a % b; break;
                        case 2: a /= b; break;
                        case 3: a = a / launder(y[0]); break;
                        }
                        a.store(got, Vc::Unaligned);
                    });
                    ++C.states;
                    ++C.transitions;
                    if (!left.empty()) { s.fail(str(m), left); return; }
                    for (int k = 0; k < N; ++k) {
                        ++C.checks;
                        if (got[k] != want[k]) s.fail(str(m) + " lane " + str(k) + ": " + str(x[k]) + ", " + str(y[k]), "got " + str(got[k]) + " want " + str(want[k]));
                        h = mix(h, bits(got[k]));
                    }
                }
            outcome(h);
        }
    }
}

// ---------------------------------------------------------------- operations that only have to leave the environment alone
template <class F> static void quiet(const std::string &name, F f)
{
    Site s(name + " leaves the environment as it was");
    if (!s.active()) return;
    int n = 0;
    for (const Mode &m : modes(true))
        for (int v = 0; v < 4; ++v) {
            s.at(m.rc, v, n++);
            ++C.states;
            ++C.transitions;
            outcome(mix(s.h, n));
            const std::string left = in(m, [&] { f(v); });
            if (!left.empty()) { s.fail(str(m) + " operands " + str(v), left); return; }
        }
}
template <class T> static T pick(int v, size_t i)
{
    static const double t[4][6] = {{0.5, 1, -2.25, 3, 0.125, -7}, {1e-40, -1e-310, 0, -0., 1e-38, 5e-324}, {1e30, -3e20, 65536, 12345.678, -99, 2}, {0.1, 0.7, 0.3, 0.9, 0.55, 0.01}};
    return T(t[v][i % 6]);
}
template <class V> static V operand(int v, int off = 0)
{
    V r;
    for (size_t i = 0; i < V::Size; ++i) r[i] = std::is_integral<E<V>>::value ? E<V>(37 * (i + off) + 1 + v) : pick<E<V>>(v, i + off);
    return launder(r);
}
static volatile double sink;
#define Q(name_, ...) quiet(name_ " <" + vn<V>() + ">", [](int v) { const V a = operand<V>(v), b = operand<V>(v, 1); const V c = operand<V>(v, 3); (void)a; (void)b; (void)c; V r = a; __VA_ARGS__; r = launder(r); sink = double(E<V>(r[0])); });
#if PART == 2
template <class V> static void transcendental()
{
    typedef E<V> T;
    Q("sin", r = Vc::sin(a)) Q("cos", r = Vc::cos(a)) Q("asin", r = Vc::asin(a)) Q("atan", r = Vc::atan(a)) Q("atan2", r = Vc::atan2(a, b))
    Q("exp", r = Vc::exp(a)) Q("log", r = Vc::log(a)) Q("log2", r = Vc::log2(a)) Q("log10", r = Vc::log10(a))
    Q("sincos", V t; Vc::sincos(a, &r, &t); r += t)
    Q("round", r = Vc::round(a)) Q("rsqrt", r = Vc::rsqrt(a)) Q("reciprocal", r = Vc::reciprocal(a)) Q("fma", r = Vc::fma(a, b, c))
    Q("frexp", Vc::SimdArray<int, V::Size> e; r = Vc::frexp(a, &e)) Q("ldexp", Vc::SimdArray<int, V::Size> e(3); r = Vc::ldexp(a, e))
    Q("exponent-free classification", r(Vc::isnan(a) || Vc::isinf(b) || !Vc::isfinite(c) || Vc::isnegative(a)) = b)
}
#endif
template <class V> static void general()
{
    typedef E<V> T;
    enum : size_t { N = V::Size };
    Q("load, store", T mem[N]; a.store(mem, Vc::Unaligned); r.load(mem, Vc::Unaligned))
    Q("streaming store", alignas(64) T mem[N]; a.store(mem, Vc::Streaming | Vc::Aligned); r.load(mem, Vc::Streaming | Vc::Aligned))
    Q("masked store", T mem[N] = {}; a.store(mem, b < c, Vc::Unaligned); r.load(mem, Vc::Unaligned))
    Q("gather", T mem[2 * N] = {}; typename V::IndexType i(Vc::IndexesFromZero); r.gather(mem, i); r.gather(mem, i + i, a < b))
    Q("scatter", T mem[2 * N] = {}; typename V::IndexType i(Vc::IndexesFromZero); a.scatter(mem, i); b.scatter(mem, i + i, a < b); r.load(mem, Vc::Unaligned))
    Q("reductions", r += V(T(a.sum() + a.product() + a.min() + a.max() + a.sum(b < c))))
    Q("partialSum", r = a.partialSum())
    Q("sorted, reversed, rotated, shifted", r = a.sorted() + a.reversed().rotated(1).shifted(1))
    Q("masked assignment", r(a < b) = c; r(a < c) += b; Vc::where(b < c) | r *= a)
    Q("iif, min, max, abs-like", r = Vc::iif(a < b, Vc::min(a, c), Vc::max(b, c)))
    Q("comparison and mask reductions", const auto k = a < b; r += V(T(k.count() + k.toInt() + (k.isEmpty() ? 1 : k.firstOne()) + Vc::any_of(k) + Vc::all_of(k))))
    Q("Zero, One, IndexesFromZero", V z(Vc::Zero); V o(Vc::One); r = z + o)
    Q("arithmetic", r = a + b; r *= c; r -= a; ++r; r--)
    Q("call, apply", r = a.apply([](T x) { return T(x + T(1)); }); a.call([&](T x) { r += V(x); }))
    Q("generate", r = V::generate([](int i) { return T(i); }))
    Q("setQnan / setZero", r.setZero(a < b); r.setZeroInverted(b < c))
}
template <class V> static void random_() { Q("Random", r = V::Random()) }
// interleaved access (the 3-member form of 16-bit types is the one with an MMX implementation)
template <class V, int K> struct S { E<V> m[K]; };
template <class V> static void interleaved()
{
    typedef E<V> T;
    enum : size_t { N = V::Size };
#define IL(K_, put_, get_) { typedef S<V, K_> St; quiet("interleaved access to " #K_ " members <" + vn<V>() + ">", [](int v) { \
        V a = operand<V>(v), b = operand<V>(v, 1), c = operand<V>(v, 2), d = operand<V>(v, 3); St mem[2 * N] = {}; \
        Vc::InterleavedMemoryWrapper<St, V> w(mem); typename V::IndexType i(Vc::IndexesFromZero); w[i] = put_; get_ = w[i]; \
        w[i + i] = put_; get_ = w[3]; a = launder(a + b + c + d); sink = double(T(a[0])); }); }
    IL(2, (Vc::tie(a, b)), Vc::tie(a, b))
    IL(3, (Vc::tie(a, b, c)), Vc::tie(a, b, c))
    IL(4, (Vc::tie(a, b, c, d)), Vc::tie(a, b, c, d))
}
struct Arith { template <class V> void operator()(Tag<V>) const { arithmetic<V>(alphabet<E<V>>(g_thorough ? 2 : 1)); } };
struct Exact { template <class V> void operator()(Tag<V>) const { exact<V>(alphabet<E<V>>(g_thorough ? 3 : 2)); } };
#if PART == 2
struct Trans { template <class V> void operator()(Tag<V>) const { transcendental<V>(); } };
#endif
struct General { template <class V> void operator()(Tag<V>) const { general<V>(); } };
struct Inter { template <class V> void operator()(Tag<V>) const { interleaved<V>(); } };
struct Rnd { template <class V> void operator()(Tag<V>) const { random_<V>(); } };
struct IntDiv { template <class V> void operator()(Tag<V>) const { intDivision<V>(); } };

void explore()
{
#if PART == 0
    forAbis<float>(Arith());
    forAbis<double>(Arith());
    arithmetic<Vc::SimdArray<float, 7>>(alphabet<float>(0));
    arithmetic<Vc::SimdArray<double, 5>>(alphabet<double>(0));
#elif PART == 1
    forAbis<float>(Exact());
    forAbis<double>(Exact());
    exact<Vc::SimdArray<float, 7>>(alphabet<float>(1));
    exact<Vc::SimdArray<double, 5>>(alphabet<double>(1));
#elif PART == 2
    forAbis<float>(Trans());
    forAbis<double>(Trans());
    forAbis<float>(Rnd());
    forAbis<double>(Rnd());
    forAbis<int>(Rnd());
#elif PART == 3
    forAbis<float>(General());
    forAbis<double>(General());
    forAbis<int>(General());
    forAbis<uint>(General());
    forAbis<short>(General());
    forAbis<ushort>(General());
#elif PART == 4
    forAbis<float>(Inter());
    forAbis<double>(Inter());
    forAbis<int>(Inter());
    forAbis<uint>(Inter());
    forAbis<short>(Inter());
    forAbis<ushort>(Inter());
#elif PART == 5
    forAbis<int>(IntDiv());
    forAbis<uint>(IntDiv());
    forAbis<short>(IntDiv());
    forAbis<ushort>(IntDiv());
    intDivision<Vc::SimdArray<int, 7>>();
    intDivision<Vc::SimdArray<ushort, 11>>();
#elif PART == 6
#define CV(A_, B_) convert<Vc::Vector<B_>, Vc::Vector<A_>>(alphabet<A_>(2));
    CV(float, int) CV(float, uint) CV(float, short) CV(float, ushort) CV(float, double)
    CV(double, int) CV(double, uint) CV(double, short) CV(double, ushort) CV(double, float)
    CV(int, float) CV(uint, float) CV(short, float) CV(ushort, float)
    CV(int, double) CV(uint, double) CV(short, double) CV(ushort, double)
#endif
}
