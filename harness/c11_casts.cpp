// C11: casts between vector types convert every lane as the scalar cast does.
#include "casts.h"
using namespace mc;
using Vc::uint;
using Vc::ushort;

// ---------------------------------------------------------------- constructors / implicit conversions / reinterpret
template <class To, class From, bool = std::is_convertible<From, To>::value> struct Implicit { static void run() {} };
template <class To, class From> struct Implicit<To, From, true> {
    typedef typename To::EntryType T;
    typedef typename From::EntryType S;
    static void run()
    {
        CastCore<S, T>::run("implicit conversion " + vn<From>() + " -> " + vn<To>(), From::Size, To::Size, 0, From::Size, [](const S *w, T *o) { To t = make<From>(w); toLanes(t, o); });
        CastCore<S, T>::run("converting assignment " + vn<From>() + " -> " + vn<To>(), From::Size, To::Size, 0, From::Size, [](const S *w, T *o) { To t(T(1)); t = make<From>(w); toLanes(t, o); });
    }
};
template <class To, class From, bool = std::is_constructible<To, From>::value> struct Explicit { static void run() {} };
template <class To, class From> struct Explicit<To, From, true> {
    typedef typename To::EntryType T;
    typedef typename From::EntryType S;
    static void run() { CastCore<S, T>::run("explicit conversion " + vn<To>() + "(" + vn<From>() + ")", From::Size, To::Size, 0, From::Size, [](const S *w, T *o) { toLanes(To(make<From>(w)), o); }); }
};
template <class To, class From, bool = Vc::Traits::isSimdArray<To>::value || Vc::Traits::isSimdArray<From>::value> struct SameRegister : std::false_type {};
template <class To, class From> struct SameRegister<To, From, false> : std::integral_constant<bool, sizeof(To) == sizeof(From) && To::Size == From::Size && std::is_same<typename To::abi, typename From::abi>::value> {};
template <class To, class From, bool = SameRegister<To, From>::value> struct Reinterpret { static void run() {} };
template <class To, class From> struct Reinterpret<To, From, true> {
    typedef typename To::EntryType T;
    typedef typename From::EntryType S;
    static void run()
    {
        Site s("reinterpret_components_cast<" + vn<To>() + ">(" + vn<From>() + ")");
        if (!s.active()) return;
        const std::vector<S> &vals = castValues<S, S>();
        Lanes<From> w;
        for (size_t i = 0; i < vals.size(); ++i) {
            for (size_t k = 0; k < From::Size; ++k) w[k] = vals[(i + k) % vals.size()];
            s.at(i);
            ++C.states; ++C.transitions; C.checks += To::Size;
            const To r = Vc::reinterpret_components_cast<To>(make<From>(w));
            T o[To::Size];
            r.store(o, Vc::Unaligned);
            if (std::memcmp(o, &w[0], sizeof(o))) { s.fail("source " + str(w), "bits changed"); break; }
            outcome(mix(s.h, bits(w[0])));
        }
        CastCore<S, T>::run("staticCast<" + vn<To>() + ">() of " + vn<From>(), From::Size, To::Size, 0, From::Size, [](const S *w, T *o) { toLanes(make<From>(w).template staticCast<To>(), o); });
    }
};
// the deprecated member function, between all vectors that live in the same register type
template <class To, class From, bool = Vc::Traits::isSimdArray<To>::value || Vc::Traits::isSimdArray<From>::value> struct SameBytes : std::false_type {};
template <class To, class From> struct SameBytes<To, From, false> : std::integral_constant<bool, sizeof(To) == sizeof(From) && std::is_same<typename To::abi, typename From::abi>::value && !std::is_same<typename To::abi, Vc::VectorAbi::Scalar>::value> {};
template <class To, class From, bool = SameBytes<To, From>::value> struct ReinterpretMember { static void run() {} };
template <class To, class From> struct ReinterpretMember<To, From, true> {
    static void run()
    {
        typedef typename To::EntryType T;
        typedef typename From::EntryType S;
        Site s("reinterpretCast<" + vn<To>() + ">() of " + vn<From>());
        if (!s.active()) return;
        const std::vector<S> &vals = castValues<S, S>();
        Lanes<From> w;
        for (size_t i = 0; i < vals.size(); ++i) {
            for (size_t k = 0; k < From::Size; ++k) w[k] = vals[(i + k) % vals.size()];
            s.at(i);
            ++C.states; ++C.transitions; C.checks += To::Size;
            T o[To::Size];
            make<From>(w).template reinterpretCast<To>().store(o, Vc::Unaligned);
            if (std::memcmp(o, &w[0], sizeof(o))) { s.fail("source " + str(w), "bits changed"); break; }
        }
    }
};
template <class To, class... F> void convTo(TList<F...>)
{
    const int q[] = {(Implicit<To, F>::run(), Explicit<To, F>::run(), Reinterpret<To, F>::run(), ReinterpretMember<To, F>::run(), 0)...};
    (void)q;
}
template <class L, class... T> void convAll(TList<T...>, L)
{
    const int q[] = {(convTo<T>(L()), 0)...};
    (void)q;
}
// same-size SimdArray: implicit conversions between element types
template <class T, size_t N> using SA = Vc::SimdArray<T, N>;
template <size_t N> void simdArrayConversions()
{
    typedef TList<SA<double, N>, SA<float, N>, SA<int, N>, SA<uint, N>, SA<short, N>, SA<ushort, N>> L;
    convAll(L(), L());
}
template <class V> void nativeAndArray()
{
    typedef TList<V> L;
    typedef TList<SA<double, V::Size>, SA<float, V::Size>, SA<int, V::Size>, SA<uint, V::Size>, SA<short, V::Size>, SA<ushort, V::Size>> A;
    convAll(L(), A());
    convAll(A(), L());
    castAll<false>(L(), A());
    castAll<false>(A(), L());
}
void explore()
{
#if PART == 0
    castAll<false>(TList<ABISF(double)>(), NativeTypes());
#elif PART == 1
    castAll<false>(TList<ABISF(float)>(), NativeTypes());
#elif PART == 2
    castAll<false>(TList<ABIS(int)>(), NativeTypes());
#elif PART == 3
    castAll<false>(TList<ABIS(uint)>(), NativeTypes());
#elif PART == 4
    castAll<false>(TList<ABIS(short)>(), NativeTypes());
#elif PART == 5
    castAll<false>(TList<ABIS(ushort)>(), NativeTypes());
#elif PART == 6
    convAll(NativeTypes(), NativeTypes());
#elif PART == 7
    castAll<true>(TList<ABISF(double), ABISF(float), ABIS(int)>(), NativeTypes());
#elif PART == 15
    castAll<true>(TList<ABIS(Vc::uint), ABIS(short), ABIS(ushort)>(), NativeTypes());
#elif PART == 8
    simdArrayConversions<3>();
#elif PART == 16
    simdArrayConversions<8>();
#elif PART == 9
    simdArrayConversions<13>();
#elif PART == 17
    simdArrayConversions<16>();
#elif PART == 10
    nativeAndArray<Vc::double_v>();
    nativeAndArray<Vc::float_v>();
    nativeAndArray<Vc::short_v>();
#elif PART == 11
    nativeAndArray<Vc::int_v>();
    nativeAndArray<Vc::uint_v>();
    nativeAndArray<Vc::ushort_v>();
#elif PART == 12
    typedef TList<SA<double, 3>, SA<float, 4>, SA<int, 7>, SA<ushort, 8>, SA<short, 12>> A;
    typedef TList<SA<double, 2>, SA<float, 12>, SA<int, 4>, SA<uint, 8>, SA<short, 24>> B;
    castAll<false>(A(), B());
#elif PART == 13
    typedef TList<SA<double, 3>, SA<float, 4>, SA<int, 7>, SA<ushort, 8>, SA<short, 12>> A;
    typedef TList<SA<double, 2>, SA<float, 12>, SA<int, 4>, SA<uint, 8>, SA<short, 24>> B;
    castAll<false>(B(), A());
#elif PART == 14
    typedef TList<SA<double, 3>, SA<float, 5>, SA<int, 8>, SA<short, 16>, SA<ushort, 32>> A;
    typedef TList<SA<double, 4>, SA<float, 4>, SA<short, 8>> B;  // 8 x SimdArray<double, 2>::mask_type -> 16 shorts has no overload
    castAll<true>(A(), B());
    castAll<true>(B(), A());
    castAll<false>(TList<Vc::float_v, Vc::short_v, Vc::double_v>(), A());
    castAll<false>(A(), TList<Vc::float_v, Vc::short_v, Vc::double_v>());
#endif
}
