// C27: operators between a vector and a vector or scalar of another type convert both operands to the common entry type
// and then act on each lane.  Every pair of types x operator x form (x op y, y op x, x op= y) x product of the value alphabets;
// oracle: the scalar expression in the common type.
#include "mc.h"
using namespace mc;
using Vc::uint;
using Vc::ushort;
#ifndef TYPE
#define TYPE 0
#endif
typedef std::tuple_element<TYPE, std::tuple<double, float, int, uint, short, ushort>>::type T;
typedef unsigned long ulong_;
enum Plain { PlainZero, PlainOne, PlainMany = 1000, PlainNeg = -3 };

// ---- the common entry type (documented in common/operators.h and at the operators of SimdArray)
template <class A, class B, bool AI = std::is_integral<A>::value, bool BI = std::is_integral<B>::value> struct Common2;
template <class A, class B> struct Common2<A, B, false, false> { typedef typename std::conditional<std::is_enum<B>::value, A, typename std::conditional<(sizeof(A) < sizeof(B)), B, A>::type>::type type; };
template <class A, class B> struct Common2<A, B, true, false> { typedef typename std::conditional<std::is_enum<B>::value, A, B>::type type; };
template <class A, class B> struct Common2<A, B, false, true> { typedef A type; };
template <class A, class B> struct Common2<A, B, true, true> {
    typedef typename std::conditional<(sizeof(A) > sizeof(B)), A, typename std::conditional<(sizeof(A) < sizeof(B)), B, typename std::conditional<std::is_unsigned<A>::value, A, B>::type>::type>::type type;
};
template <class A, bool = std::is_integral<A>::value> struct Uns { typedef typename std::make_unsigned<A>::type type; };
template <class A> struct Uns<A, false> { typedef A type; };
// A: entry type of the vector, B: other operand
template <class A, class B, bool Scalar> struct Result : Common2<A, B> {};
template <class A> struct Result<A, int, true> { typedef A type; };
template <class A> struct Result<A, uint, true> : Uns<A> {};

// SimdArray: the rules of C++ except that types smaller than int are not promoted (documented at result_vector_type)
template <class A, class B, bool Small = std::is_integral<A>::value && std::is_integral<B>::value && (sizeof(A) < sizeof(int)) && (sizeof(B) < sizeof(int))> struct ArrayResult { typedef decltype(A() + B()) type; };
template <class A, class B> struct ArrayResult<A, B, true> : Common2<A, B> {};
template <class T_, size_t N_> using Fixed = Vc::fixed_size_simd<T_, N_>;
template <class X> struct IsArray : std::false_type {};
template <class T_, size_t N_, class V_, size_t M_> struct IsArray<Vc::SimdArray<T_, N_, V_, M_>> : std::true_type {};
namespace mc { template <class T_, int N_> struct VN<Vc::Vector<T_, Vc::simd_abi::fixed_size<N_>>> { static std::string n() { return std::string("fixed_size_simd<") + TN<T_>::n() + "," + std::to_string(N_) + ">"; } }; }

// ---- operators
#define OP(name_, op_) struct name_ { template <class X, class Y> auto operator()(X &&x, Y &&y) const -> decltype(std::forward<X>(x) op_ std::forward<Y>(y)) { return std::forward<X>(x) op_ std::forward<Y>(y); } static const char *n() { return #op_; } };
OP(Add, +) OP(Sub, -) OP(Mul, *) OP(Div, /) OP(Mod, %) OP(And, &) OP(Or, |) OP(Xor, ^)
OP(Eq, ==) OP(Ne, !=) OP(Lt, <) OP(Le, <=) OP(Gt, >) OP(Ge, >=) OP(LAnd, &&) OP(LOr, ||)
OP(AddA, +=) OP(SubA, -=) OP(MulA, *=) OP(DivA, /=) OP(AndA, &=) OP(OrA, |=) OP(XorA, ^=)
template <class Op, class X, class Y, class = void> struct Valid : std::false_type {};
template <class Op, class X, class Y> struct Valid<Op, X, Y, decltype((void)Op()(std::declval<X>(), std::declval<Y>()))> : std::true_type {};
template <class Op> struct IsDiv : std::integral_constant<bool, std::is_same<Op, Div>::value || std::is_same<Op, DivA>::value || std::is_same<Op, Mod>::value> {};
template <class Op> struct IsCmp : std::integral_constant<bool, std::is_same<Op, Eq>::value || std::is_same<Op, Ne>::value || std::is_same<Op, Lt>::value || std::is_same<Op, Le>::value || std::is_same<Op, Gt>::value || std::is_same<Op, Ge>::value> {};
template <class Op> struct IsLog : std::conditional<std::is_same<Op, LAnd>::value || std::is_same<Op, LOr>::value, std::true_type, std::false_type>::type {};

// ---- operand access: a vector is loaded from N entries, a scalar from the first
template <class Y, bool = Vc::is_simd_vector<Y>::value> struct Operand {
    typedef typename Y::EntryType E;
    enum { N = Y::Size, Vec = 1 };
    static Y load(const E *p) { return Y(p, Vc::Unaligned); }
    static std::string n() { return vn<Y>(); }
};
template <class Y> struct ScalarName { static std::string n() { return TN<Y>::n(); } };
template <> struct ScalarName<bool> { static std::string n() { return "bool"; } };
template <> struct ScalarName<char> { static std::string n() { return "char"; } };
template <> struct ScalarName<long> { static std::string n() { return "long"; } };
template <> struct ScalarName<Plain> { static std::string n() { return "enum"; } };
template <class Y> struct Operand<Y, false> {
    typedef Y E;
    enum { N = 1, Vec = 0 };
    static Y load(const E *p) { return *p; }
    static std::string n() { return ScalarName<Y>::n(); }
};
template <class E> static typename std::enable_if<!std::is_enum<E>::value && !std::is_same<E, bool>::value, std::vector<E>>::type values()
{
    std::vector<E> a = alphabet<E>(g_thorough ? 1 : 0);
    if (std::is_floating_point<E>::value && g_thorough) { std::vector<E> b; for (size_t i = 0; i < a.size(); i += 2) b.push_back(a[i]); a = b; }
    for (int i : {-1, -2, -3, -100, -32768, -65536, 100, 32767, 32768, 65535, 65536, 16777217, 2147483647}) a.push_back(E(i));
    return a;
}
template <class E> static typename std::enable_if<std::is_same<E, bool>::value, std::vector<E>>::type values() { return {false, true}; }
template <class E> static typename std::enable_if<std::is_enum<E>::value, std::vector<E>>::type values() { return {PlainZero, PlainOne, PlainMany, PlainNeg}; }
template <class E> static typename std::enable_if<!std::is_enum<E>::value, std::string>::type show(E x) { return str(x); }
template <class E> static typename std::enable_if<std::is_enum<E>::value, std::string>::type show(E x) { return std::to_string(int(x)); }

// is the scalar expression defined (integral division, conversion of the result to the type of the assigned operand)?
template <class R> static typename std::enable_if<std::is_integral<R>::value, bool>::type divDefined(R a, R b) { return b != 0 && !(std::is_signed<R>::value && a == std::numeric_limits<R>::min() && b == R(-1)); }
template <class R> static typename std::enable_if<!std::is_integral<R>::value, bool>::type divDefined(R, R) { return true; }
template <class To, class From> static typename std::enable_if<!std::is_enum<From>::value, bool>::type fits(From x)
{
    if (!std::is_integral<To>::value || std::is_integral<From>::value) return true;
    if (!(x == x)) return false;
    const long double t = x;
    return t > (long double)std::numeric_limits<To>::min() - 1 && t < (long double)std::numeric_limits<To>::max() + 1;
}

// the common type of x op y; compound assignment to a SimdArray converts the operand to the type of the SimdArray
template <class To, class From> static typename std::enable_if<std::is_enum<From>::value, bool>::type fits(From) { return true; }
template <int Form, class X, class Y, bool = IsArray<X>::value || IsArray<Y>::value> struct ResultSel : Result<typename X::EntryType, typename Operand<Y>::E, !Operand<Y>::Vec> {};
template <int Form, class X, class Y> struct ResultSel<Form, X, Y, true> : ArrayResult<typename X::EntryType, typename Operand<Y>::E> {};
template <class X, class Y> struct ResultSel<2, X, Y, false> {
    typedef typename Result<typename X::EntryType, typename Operand<Y>::E, !Operand<Y>::Vec>::type R;
    typedef typename std::conditional<Vc::Traits::is_valid_vector_argument<R>::value, R, typename X::EntryType>::type type;
};
template <class X, class Y> struct ResultSel<2, X, Y, true> { typedef typename X::EntryType type; };
template <int Form, class X, class Y> using ResultOf = typename ResultSel<Form, X, Y>::type;
template <int Form, class X, class Y> using OutOf = typename std::conditional<Form == 2, typename X::EntryType, ResultOf<Form, X, Y>>::type;

// one operator on one pair of operand types; Out: entry type of the result buffer
template <class X, class Y, class Out> struct Kernel {
    typedef typename Operand<X>::E A;
    typedef typename Operand<Y>::E B;
    const char *name;
    void (*vec)(const A *, const B *, Out *);
    bool (*ref)(A, B, Out *);  // false: not defined
};
template <class Out, class V> static typename std::enable_if<Vc::is_simd_vector<V>::value>::type put(const V &v, Out *o) { v.store(o, Vc::Unaligned); }
template <class Out, class M> static typename std::enable_if<Vc::is_simd_mask<M>::value>::type put(const M &m, Out *o)
{
    for (size_t i = 0; i < M::Size; ++i) o[i] = m[i] ? Out(1) : Out(0);
}
// X op Y; S: form 0: x op y, 1: y op x (x is always the vector), 2: x op= y
template <int Form, class Op, class X, class Y, class R> struct Impl {
    typedef typename Operand<X>::E A;
    typedef typename Operand<Y>::E B;
    typedef typename std::conditional<Form == 2, A, R>::type Out;
    template <int F> struct Ft {};
    static auto call(Ft<0>, X x, Y y) { return Op()(x, y); }
    static auto call(Ft<1>, X x, Y y) { return Op()(y, x); }
    static auto call(Ft<2>, X x, Y y) { Op()(x, y); return x; }
    MC_NOINLINE static void vec(const A *a, const B *b, Out *o) { put(call(Ft<Form>(), launder(Operand<X>::load(a)), launder(Operand<Y>::load(b))), o); }
    MC_NOINLINE static bool ref(A a, B b, Out *o)
    {
        return ref(IsLog<Op>(), a, b, o);
    }
    static bool ref(std::true_type, A a, B b, Out *o)
    {
        *o = Out(Form == 1 ? Op()(bool(b), bool(a)) : Op()(bool(a), bool(b)));
        return true;
    }
    static bool ref(std::false_type, A a, B b, Out *o)
    {
        if (!fits<R>(a) || !fits<R>(b)) return false;
        const R x = static_cast<R>(a), y = static_cast<R>(b);
        if (IsDiv<Op>::value && !divDefined<R>(Form == 1 ? y : x, Form == 1 ? x : y)) return false;
        const R r = scalar(Ft<Form>(), x, y);
        if (Form == 2 && !fits<A>(r)) return false;
        *o = static_cast<Out>(r);
        return true;
    }
    static R scalar(Ft<0>, R x, R y) { return R(Op()(x, y)); }
    static R scalar(Ft<1>, R x, R y) { return R(Op()(y, x)); }
    static R scalar(Ft<2>, R x, R y) { Op()(x, y); return x; }
};

// the operator exists and the scalar expression is valid in the common type (bit operators of float vectors are a separate option)
template <int Form, class Op, class X, class Y, bool = Valid<Op, typename std::conditional<Form == 2, ResultOf<Form, X, Y> &, ResultOf<Form, X, Y>>::type, ResultOf<Form, X, Y>>::value>
struct ValidForm : std::conditional<Form == 0, Valid<Op, X, Y>, typename std::conditional<Form == 1, Valid<Op, Y, X>, Valid<Op, X &, Y>>::type>::type {};
template <int Form, class Op, class X, class Y> struct ValidForm<Form, Op, X, Y, false> : std::false_type {};
template <class X, class Y, class Out> using Kernels = std::vector<Kernel<X, Y, Out>>;
template <class Ret, class R, class X, bool = Vc::is_simd_vector<Ret>::value, bool = Vc::is_simd_mask<Ret>::value> struct RetCheck { static bool ok() { return false; } };
template <class Ret, class R, class X> struct RetCheck<Ret, R, X, true, false> { static bool ok() { return std::is_same<typename Ret::EntryType, R>::value && size_t(Ret::Size) == size_t(X::Size); } };
template <class Ret, class R, class X> struct RetCheck<Ret, R, X, false, true> { static bool ok() { return size_t(Ret::Size) == size_t(X::Size); } };
template <int Form, class Op, class X, class Y> static typename std::enable_if<ValidForm<Form, Op, X, Y>::value>::type add(Site &s, Kernels<X, Y, OutOf<Form, X, Y>> &k)
{
    typedef ResultOf<Form, X, Y> R;
    typedef Impl<Form, Op, X, Y, R> I;
    typedef decltype(I::call(typename I::template Ft<Form>(), std::declval<X>(), std::declval<Y>())) Ret;
    ++C.checks;
    if (!RetCheck<typename std::decay<Ret>::type, OutOf<Form, X, Y>, X>::ok()) s.fail(std::string("type of ") + Op::n(), "the result does not have the entry type " + std::string(TN<R>::n()));
    k.push_back({Op::n(), &I::vec, &I::ref});
}
template <int Form, class Op, class X, class Y> static typename std::enable_if<!ValidForm<Form, Op, X, Y>::value>::type add(Site &, Kernels<X, Y, OutOf<Form, X, Y>> &) {}

template <int Form, class X, class Y, class... Ops> static void site()
{
    typedef typename Operand<X>::E A;
    typedef typename Operand<Y>::E B;
    typedef OutOf<Form, X, Y> Out;
    const std::string xn = vn<X>(), yn = Operand<Y>::n();
    Site s(Form == 0 ? xn + " op " + yn : Form == 1 ? yn + " op " + xn : xn + " op= " + yn);
    if (!s.active()) return;
    s.at(9999);
    Kernels<X, Y, Out> K;
    int dummy[] = {(add<Form, Ops, X, Y>(s, K), 0)...};
    (void)dummy;
    if (K.empty()) return;
    const std::vector<A> P = values<A>();
    const std::vector<B> Q = values<B>();
    enum { N = X::Size, M = Operand<Y>::Vec ? N : 1 };
    for (size_t op = 0; op < K.size(); ++op)
        for (size_t i = 0; i < P.size(); i += Operand<Y>::Vec ? 1 : N)
            for (size_t j = 0; j < Q.size(); j += M) {
                s.at(op, i, j);
                // vector: x = P[i] in every lane against N values y, so that every pair meets; scalar: N values x against y
                A a[N];
                B b[N];
                Out w[N], o[N];
                bool any = false;
                for (size_t k = 0; k < N; ++k) {
                    // shifted by i so that a value does not always meet the same lane
                    a[k] = Operand<Y>::Vec ? P[i] : P[(i + k) % P.size()];
                    b[k] = Operand<Y>::Vec ? Q[(j + k + i) % Q.size()] : Q[j];
                    if (K[op].ref(a[k], b[k], &w[k])) any = true;
                    else {
                        // an undefined pair is replaced by 1 op 1
                        a[k] = A(1);
                        if (Operand<Y>::Vec || M != 1) b[k] = static_cast<B>(1);
                        if (!K[op].ref(a[k], b[k], &w[k])) { any = false; break; }
                    }
                }
                if (!any) continue;
                ++C.states;
                ++C.transitions;
                K[op].vec(a, b, o);
                std::array<Out, N> g, e;
                for (size_t k = 0; k < N; ++k) { g[k] = o[k]; e[k] = w[k]; }
                expect(s, g, e, [&] {
                    std::string r = std::string(K[op].name) + ": x = " + str(std::vector<A>(a, a + N)) + " y =";
                    for (size_t k = 0; k < M; ++k) r += " " + show(b[k]);
                    return r;
                });
            }
}
template <class X, class Y> static void forms()
{
    site<0, X, Y, Add, Sub, Mul, Div, Mod, And, Or, Xor, Eq, Ne, Lt, Le, Gt, Ge, LAnd, LOr>();
    if (!Operand<Y>::Vec || !std::is_same<typename Operand<Y>::E, typename X::EntryType>::value || !std::is_same<X, Y>::value) site<1, X, Y, Add, Sub, Mul, Div, Mod, And, Or, Xor, Eq, Ne, Lt, Le, Gt, Ge, LAnd, LOr>();
    site<2, X, Y, AddA, SubA, MulA, DivA, AndA, OrA, XorA>();
}
template <class X> static void scalars()
{
    forms<X, bool>();
    forms<X, char>();
    forms<X, signed char>();
    forms<X, unsigned char>();
    forms<X, short>();
    forms<X, ushort>();
    forms<X, int>();
    forms<X, uint>();
    forms<X, long>();
    forms<X, ulong_>();
    forms<X, float>();
    forms<X, double>();
    forms<X, Plain>();
}
template <class X, template <class> class Y> static void vectors()
{
    forms<X, Y<double>>();
    forms<X, Y<float>>();
    forms<X, Y<int>>();
    forms<X, Y<uint>>();
    forms<X, Y<short>>();
    forms<X, Y<ushort>>();
}
template <class U> using ScalarV = Vc::Vector<U, Vc::VectorAbi::Scalar>;
template <class U> using SseV = Vc::Vector<U, Vc::VectorAbi::Sse>;
template <class U> using AvxV = Vc::Vector<U, Vc::VectorAbi::Avx>;
template <class U> using A3 = Vc::SimdArray<U, 3>;
template <class U> using A8 = Vc::SimdArray<U, 8>;
template <class U> using A17 = Vc::SimdArray<U, 17>;
template <class U> using F4 = Fixed<U, 4>;
template <class U> using F7 = Fixed<U, 7>;
template <class U> using A4 = Vc::SimdArray<U, 4>;

// (the operators exist where the Vector converts implicitly)
template <class X, class Y> using SameSize = std::integral_constant<bool, X::Size == Y::Size && std::is_convertible<Y, Vc::SimdArray<ResultOf<0, X, Y>, X::Size>>::value && std::is_convertible<Y, X>::value>;
template <class X, class Y> static typename std::enable_if<SameSize<X, Y>::value>::type sameSize() { forms<X, Y>(); }
template <class X, class Y> static typename std::enable_if<!SameSize<X, Y>::value>::type sameSize() {}
// SimdArray with a Vector of the same size
template <class X> static void nativeOperands()
{
    sameSize<X, Vc::Vector<double>>();
    sameSize<X, Vc::Vector<float>>();
    sameSize<X, Vc::Vector<int>>();
    sameSize<X, Vc::Vector<uint>>();
    sameSize<X, Vc::Vector<short>>();
    sameSize<X, Vc::Vector<ushort>>();
}
void explore()
{
#if KIND == 0
    scalars<ScalarV<T>>();
    vectors<ScalarV<T>, ScalarV>();
#if !defined Vc_IMPL_Scalar
    scalars<SseV<T>>();
    vectors<SseV<T>, SseV>();
#if defined Vc_IMPL_AVX2 || (defined Vc_IMPL_AVX && TYPE < 2)
    scalars<AvxV<T>>();
#if defined Vc_IMPL_AVX2
    vectors<AvxV<T>, AvxV>();
#else
    forms<AvxV<T>, AvxV<double>>();
    forms<AvxV<T>, AvxV<float>>();
#endif
#endif
#endif
#elif KIND == 1
    scalars<A8<T>>();
    vectors<A8<T>, A8>();
    nativeOperands<A8<T>>();
    nativeOperands<A4<T>>();
#elif KIND == 3
    scalars<F4<T>>();
    vectors<F4<T>, F4>();
    scalars<F7<T>>();
    vectors<F7<T>, F7>();
#else
    scalars<A3<T>>();
    vectors<A3<T>, A3>();
    scalars<A17<T>>();
    vectors<A17<T>, A17>();
#endif
}
