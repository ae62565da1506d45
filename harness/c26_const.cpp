// C26: construction, broadcast, constants, conversions on construction, numeric_limits and traits of every vector type.
// Every vector type of the configuration x every scalar of the alphabet (all 65536 values of the 16-bit types);
// oracle: the scalar value, static_cast per lane, std::numeric_limits<EntryType>.
#include "mc.h"
#include "masks.h"
#include "casts.h"
#include <Vc/limits>
#include <new>
using namespace mc;
using Vc::uint;
using Vc::ushort;
#ifndef KIND
#define KIND 0
#endif
#ifndef TYPE
#define TYPE 0
#endif
typedef std::tuple_element<TYPE, std::tuple<double, float, int, uint, short, ushort>>::type T;

template <class V> static Lanes<V> lanesOf(const V &v)
{
    Lanes<V> r;
    v.store(&r[0], Vc::Unaligned);
    return r;
}
template <class V> static Lanes<V> all(typename V::EntryType x)
{
    Lanes<V> r;
    r.fill(x);
    return r;
}
// the stored bytes (a bool that is neither true nor false must not be used as one)
template <class M> static std::array<int, M::Size> bytesOf(const M &m)
{
    unsigned char b[M::Size + 32];
    std::memset(b, 0x77, sizeof b);
    m.store(reinterpret_cast<bool *>(launder(&b[0])));
    asm volatile("" : : "r"(b) : "memory");
    std::array<int, M::Size> r;
    for (size_t i = 0; i < M::Size; ++i) r[i] = b[i];
    return r;
}
// an object constructed in memory full of ones (and of another value), so that a lane that is not written shows
template <class X> struct Poison {
    alignas(alignof(X) > 64 ? alignof(X) : 64) unsigned char b[sizeof(X)];
    void fill(int c)
    {
        for (size_t i = 0; i < sizeof(X); ++i) static_cast<volatile unsigned char *>(b)[i] = (unsigned char)(c);
        asm volatile("" : : "r"(b) : "memory");
    }
    X *p() { return launder(reinterpret_cast<X *>(b)); }
};
template <class X, class F> MC_NOINLINE X built(int poison, F &&f)
{
    Poison<X> b;
    b.fill(poison);
    f(static_cast<void *>(b.b));
    asm volatile("" : : "r"(b.b) : "memory");
    return *b.p();
}
#define BUILD(X_, how_) built<X_>(poison, [&](void *p_) { new (p_) X_ how_; })

template <class V> static void constants()
{
    typedef typename V::EntryType E;
    typedef typename V::Mask M;
    enum { N = V::Size };
    Lanes<V> iota;
    for (int i = 0; i < N; ++i) iota[i] = E(i);
    Site s("constants of " + vn<V>());
    if (s.active())
        for (int poison : {0xff, 0x00, 0xa5}) {
            s.at(poison);
            auto in = [&](const char *n) { return [=] { return std::string(n) + " in memory filled with " + std::to_string(poison); }; };
            ++C.states;
            C.transitions += 16;
            expect(s, lanesOf<V>(BUILD(V, ())), all<V>(0), in("V()"));
            expect(s, lanesOf<V>(BUILD(V, {})), all<V>(0), in("V{}"));
            expect(s, lanesOf<V>(BUILD(V, ;)), all<V>(0), in("V v;"));
            expect(s, lanesOf<V>(BUILD(V, (Vc::Zero))), all<V>(0), in("V(Zero)"));
            expect(s, lanesOf<V>(BUILD(V, (Vc::One))), all<V>(1), in("V(One)"));
            expect(s, lanesOf<V>(BUILD(V, (Vc::IndexesFromZero))), iota, in("V(IndexesFromZero)"));
            expect(s, lanesOf<V>(BUILD(V, (V::Zero()))), all<V>(0), in("V::Zero()"));
            expect(s, lanesOf<V>(BUILD(V, (V::One()))), all<V>(1), in("V::One()"));
            expect(s, lanesOf<V>(BUILD(V, (V::IndexesFromZero()))), iota, in("V::IndexesFromZero()"));
            V v = launder(V(E(77)));
            v.setZero();
            expect(s, lanesOf<V>(v), all<V>(0), in("setZero()"));
            // copies and assignment
            const V src = launder(make<V>(iota));
            expect(s, lanesOf<V>(BUILD(V, (src))), iota, in("V(const V &)"));
            expect(s, lanesOf<V>(built<V>(poison, [&](void *p) { V *q = static_cast<V *>(p); *q = src; })), iota, in("operator=(const V &)"));
            // masks
            std::array<int, N> t, f;
            t.fill(1);
            f.fill(0);
            expect(s, bytesOf(BUILD(M, ())), f, in("M()"));
            expect(s, bytesOf(BUILD(M, {})), f, in("M{}"));
            expect(s, bytesOf(BUILD(M, ;)), f, in("M m;"));
            expect(s, bytesOf(BUILD(M, (Vc::Zero))), f, in("M(Zero)"));
            expect(s, bytesOf(BUILD(M, (Vc::One))), t, in("M(One)"));
            expect(s, bytesOf(BUILD(M, (M::Zero()))), f, in("M::Zero()"));
            expect(s, bytesOf(BUILD(M, (M::One()))), t, in("M::One()"));
            expect(s, bytesOf(BUILD(M, (launder(true)))), t, in("M(true)"));
            expect(s, bytesOf(BUILD(M, (launder(false)))), f, in("M(false)"));
        }
}

template <class V> static std::vector<typename V::EntryType> broadcastAlphabet()
{
    typedef typename V::EntryType E;
    std::vector<E> a;
    if (sizeof(E) == 2) {
        const int step = V::Size > 16 && !g_thorough ? 7 : 1;
        for (int i = 0; i < 65536; i += step) a.push_back(E(i));
    } else
        a = alphabet<E>(g_thorough ? 3 : 2);
    return a;
}
template <class V> static void broadcast()
{
    typedef typename V::EntryType E;
    const auto A = broadcastAlphabet<V>();
    {
        Site s("broadcast of an entry to " + vn<V>());
        if (s.active())
            for (size_t i = 0; i < A.size(); ++i) {
                s.at(i);
                const E x = launder(A[i]);
                auto in = [&](const char *n) { return [=] { return std::string(n) + " " + str(x); }; };
                const Lanes<V> w = all<V>(x);
                ++C.states;
                C.transitions += 5;
                E lv = x;
                const V a = x, b(lv), c(E(launder(x)));
                V d = V::IndexesFromZero(), e = launder(V(E(3)));
                d = x;
                e = lv;
                expect(s, lanesOf<V>(a), w, in("V a = const E"));
                expect(s, lanesOf<V>(b), w, in("V a(E &)"));
                expect(s, lanesOf<V>(c), w, in("V a(E)"));
                expect(s, lanesOf<V>(d), w, in("v = const E"));
                expect(s, lanesOf<V>(e), w, in("v = E &"));
            }
    }
    {
        Site s("broadcast of an int to " + vn<V>());
        std::vector<int> I = alphabet<int>(2);
        for (int i = -300; i < 300; ++i) I.push_back(i);
        for (int i : {32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, -32768, -32769, 16777215, 16777216, 16777217, 16777219}) I.push_back(i);
        if (s.active())
            for (size_t i = 0; i < I.size(); ++i) {
                s.at(i);
                const int x = launder(I[i]);
                auto in = [&](const char *n) { return [=] { return std::string(n) + " " + str(x); }; };
                const Lanes<V> w = all<V>(static_cast<E>(x));
                ++C.states;
                C.transitions += 2;
                const V a = x;
                V d = V::One();
                d = x;
                expect(s, lanesOf<V>(a), w, in("V a = int"));
                expect(s, lanesOf<V>(d), w, in("v = int"));
            }
    }
    {
        // broadcast of an element of another vector: V(reference)
        Site s("broadcast of an element reference to " + vn<V>());
        if (s.active())
            for (size_t i = 0; i < A.size(); i += 1 + A.size() / 200)
                for (size_t k = 0; k < V::Size; ++k) {
                    s.at(i, k);
                    V src = V::IndexesFromZero();
                    src[k] = A[i];
                    const V r(static_cast<E>(launder(src)[k]));
                    ++C.states;
                    ++C.transitions;
                    expect(s, lanesOf<V>(r), all<V>(A[i]), [&] { return "element " + std::to_string(k) + " = " + str(A[i]); });
                }
    }
}

template <class V, size_t... I> static V fromList(const typename V::EntryType *a, std::index_sequence<I...>) { return V{a[I]...}; }
template <class V> static void initList()
{
    typedef typename V::EntryType E;
    if (V::Size == 1) return; // {x} is the broadcast
    Site s("initializer_list constructor of " + vn<V>());
    const auto A = alphabet<E>(1);
    if (s.active())
        for (size_t i = 0; i < A.size(); ++i)
            for (size_t k = 0; k < V::Size; ++k) {
                s.at(i, k);
                E m[V::Size];
                Lanes<V> w;
                for (size_t l = 0; l < V::Size; ++l) w[l] = m[l] = l == k ? A[i] : E(l + 1);
                ++C.states;
                ++C.transitions;
                expect(s, lanesOf<V>(fromList<V>(launder(m), std::make_index_sequence<V::Size>())), w, [&] { return "lane " + std::to_string(k) + " = " + str(A[i]); });
            }
}

template <class V> static void limits()
{
    typedef typename V::EntryType E;
    typedef std::numeric_limits<V> L;
    typedef std::numeric_limits<E> R;
    Site s("numeric_limits<" + vn<V>() + ">");
    if (!s.active()) return;
    s.at(0);
    ++C.states;
    C.transitions += 9;
#define LIM(f_) expect(s, lanesOf<V>(V(L::f_())), all<V>(R::f_()), [] { return std::string(#f_); });
    LIM(max) LIM(min) LIM(lowest) LIM(epsilon) LIM(round_error) LIM(infinity) LIM(quiet_NaN) LIM(signaling_NaN) LIM(denorm_min)
#undef LIM
#define CONST(c_) ++C.checks; if (int(L::c_) != int(R::c_)) s.fail(#c_, "got " + std::to_string(int(L::c_)) + " want " + std::to_string(int(R::c_)));
    CONST(is_specialized) CONST(is_signed) CONST(is_integer) CONST(is_exact) CONST(has_infinity) CONST(has_quiet_NaN) CONST(digits) CONST(digits10) CONST(max_digits10) CONST(radix) CONST(min_exponent) CONST(max_exponent) CONST(is_iec559) CONST(is_bounded) CONST(is_modulo)
#undef CONST
}

template <class V> static void traits()
{
    typedef typename V::EntryType E;
    typedef typename V::Mask M;
    Site s("sizes and traits of " + vn<V>());
    if (!s.active()) return;
    s.at(0);
    ++C.states;
    auto is = [&](const char *n, size_t got, size_t want) { ++C.transitions; ++C.checks; if (got != want) s.fail(n, "got " + std::to_string(got) + " want " + std::to_string(want)); };
    const size_t N = getm(M(true)).size();
    is("size() == Size", V::size(), V::Size);
    is("mask size", M::size(), V::size());
    is("mask Size", N, V::size());
    is("sizeof is at least Size entries", sizeof(V) >= V::Size * sizeof(E), 1);
    is("MemoryAlignment is a power of two", (V::MemoryAlignment & (V::MemoryAlignment - 1)) == 0 && V::MemoryAlignment >= sizeof(E), 1);
    is("IndexType holds at least Size entries", V::IndexType::size() >= V::size(), 1);
    is("WriteMaskedVector::Size", std::decay<decltype(std::declval<V &>()(std::declval<M>()))>::type::Size, V::Size);
    is("is_simd_vector", Vc::is_simd_vector<V>::value && Vc::is_simd_vector<const V &>::value && !Vc::is_simd_vector<E>::value && !Vc::is_simd_vector<M>::value, 1);
    is("is_simd_mask", Vc::is_simd_mask<M>::value && Vc::is_simd_mask<const M &>::value && !Vc::is_simd_mask<V>::value && !Vc::is_simd_mask<bool>::value, 1);
    is("simd_vector_size", Vc::Traits::simd_vector_size<V>::value, V::Size);
    is("simd_vector_size (mask)", Vc::Traits::simd_vector_size<M>::value, V::Size);
    is("simd_vector_size (scalar)", Vc::Traits::simd_vector_size<E>::value, 0);
    is("is_integral", Vc::is_integral<V>::value, std::is_integral<E>::value);
    is("is_floating_point", Vc::is_floating_point<V>::value, std::is_floating_point<E>::value);
    is("is_signed", Vc::is_signed<V>::value, std::is_signed<E>::value);
    is("is_unsigned", Vc::is_unsigned<V>::value, std::is_unsigned<E>::value);
    is("is_arithmetic", Vc::Traits::is_arithmetic<V>::value, 1);
    is("scalar_type", std::is_same<Vc::Traits::scalar_type<V>, E>::value, 1);
    is("entry_type_of", std::is_same<typename std::decay<Vc::Traits::entry_type_of<V>>::type, E>::value, 1);
    // the alignment is enough for the aligned loads and stores of the type
    Poison<V> b;
    (void)b;
    alignas(256) unsigned char mem[256 + sizeof(V) * 2] = {};
    E *p = reinterpret_cast<E *>(mem + V::MemoryAlignment % 256);
    V(launder(E(5))).store(launder(p), Vc::Aligned);
    expect(s, lanesOf<V>(V(launder(p), Vc::Aligned)), all<V>(5), [] { return std::string("aligned access at MemoryAlignment"); });
}

// ------------------------------------------------------------------ converting construction
template <class From, class To, class F> static void convertSite(const char *how, F &&conv)
{
    typedef typename From::EntryType A;
    typedef typename To::EntryType B;
    Site s(std::string(how) + ": " + vn<From>() + " -> " + vn<To>());
    if (!s.active()) return;
    const std::vector<A> &X = castValues<A, B>();
    enum { N = From::Size };
    const size_t step = g_thorough ? N : std::max<size_t>(N, X.size() * N / 20000);
    for (size_t i = 0; i < X.size(); i += step)
        for (int rot = 0; rot < 2; ++rot) {
            s.at(i, rot);
            Lanes<From> a;
            for (size_t k = 0; k < N; ++k) a[k] = X[(i + (rot ? N - 1 - k : k)) % X.size()];
            Lanes<To> w;
            for (size_t k = 0; k < To::Size; ++k) w[k] = k < N ? static_cast<B>(a[k]) : B(0);
            ++C.states;
            ++C.transitions;
            expect(s, lanesOf<To>(conv(launder(make<From>(a)))), w, [&] { return str(a); });
            if (N == 1 && rot) break;
        }
}
template <class From, class To> static typename std::enable_if<std::is_convertible<From, To>::value>::type implicitly()
{
    convertSite<From, To>("implicit conversion", [](const From &x) -> To { return x; });
}
template <class From, class To> static typename std::enable_if<!std::is_convertible<From, To>::value>::type implicitly() {}
template <class From, class To> static typename std::enable_if<std::is_constructible<To, From>::value && !std::is_convertible<From, To>::value>::type explicitly()
{
    convertSite<From, To>("explicit conversion", [](const From &x) -> To { return static_cast<To>(x); });
}
template <class From, class To> static typename std::enable_if<!std::is_constructible<To, From>::value || std::is_convertible<From, To>::value>::type explicitly() {}
template <class From, class To> static void convert()
{
    implicitly<From, To>();
    explicitly<From, To>();
}
template <class From, class To> static void convertIfSameSize(std::true_type) { convert<From, To>(); }
template <class From, class To> static void convertIfSameSize(std::false_type) {}
template <class From, class U> static void convertTo()
{
    // every vector type of U with the same number of entries, and the same ABI
    forAbis<U>([](auto t) {
        typedef typename decltype(t)::type To;
        convertIfSameSize<From, To>(std::integral_constant<bool, To::Size == From::Size>());
    });
#ifndef Vc_IMPL_Scalar
    forAbisScalar<U>([](auto t) {
        typedef typename decltype(t)::type To;
        convertIfSameSize<From, To>(std::integral_constant<bool, To::Size == From::Size>());
    });
#endif
    convertIfSameSize<From, Vc::SimdArray<U, From::Size>>(std::true_type());
}
template <class From> static void conversions()
{
    convertTo<From, double>();
    convertTo<From, float>();
    convertTo<From, int>();
    convertTo<From, uint>();
    convertTo<From, short>();
    convertTo<From, ushort>();
}

template <class V> static void common()
{
    constants<V>();
    broadcast<V>();
    traits<V>();
}
template <class V> static void array()
{
    common<V>();
    limits<V>();
    initList<V>();
}
void explore()
{
#if KIND == 0
    forAbis<T>([](auto t) { common<typename decltype(t)::type>(); });
#ifndef Vc_IMPL_Scalar
    forAbisScalar<T>([](auto t) { common<typename decltype(t)::type>(); });
#endif
    limits<Vc::Vector<T>>();
    array<Vc::SimdArray<T, 1>>();
    array<Vc::SimdArray<T, 3>>();
    array<Vc::SimdArray<T, 8>>();
    array<Vc::SimdArray<T, 13>>();
    array<Vc::SimdArray<T, 32>>();
#else
    forAbis<T>([](auto t) { conversions<typename decltype(t)::type>(); });
#ifndef Vc_IMPL_Scalar
    forAbisScalar<T>([](auto t) { conversions<typename decltype(t)::type>(); });
#endif
    conversions<Vc::SimdArray<T, 2>>();
    conversions<Vc::SimdArray<T, 4>>();
    conversions<Vc::SimdArray<T, 8>>();
    conversions<Vc::SimdArray<T, 7>>();
    conversions<Vc::SimdArray<T, 16>>();
#endif
}
