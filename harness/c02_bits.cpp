// C02: bitwise operators and shifts act per lane like on the scalar type.
#include "mc.h"
using namespace mc;

template <class V, bool Flt = std::is_floating_point<typename V::EntryType>::value> struct Bits {
    typedef typename V::EntryType T;
    typedef typename std::make_unsigned<T>::type U;
    typedef Lanes<V> L;
    enum { B = sizeof(T) * 8 };
    std::string n = vn<V>() + " ";
    std::vector<T> A = alphabet<T>(2);
    static T shl(T a, int s) { return T(U(U(a) << s)); }
    static T shr(T a, int s) { return T(a >> s); }
    template <class OP, class REF> void bin(const char *op, OP f, REF ref)
    {
        Site s(n + op);
        if (!s.active()) return;
        forPairs<V>(s, A, A, [&](const L &x, const L &y) {
            L w;
            for (size_t k = 0; k < V::Size; ++k) w[k] = ref(x[k], y[k]);
            expect(s, get<V>(f(make<V>(x), make<V>(y))), w, [&] { return "x=" + str(x) + " y=" + str(y); });
        });
        Site s2(n + op + " with scalar operand");
        for (T b : alphabet<T>(1))
            forOnes<V>(s2, A, [&](const L &x) {
                L w;
                for (size_t k = 0; k < V::Size; ++k) w[k] = ref(x[k], b);
                expect(s2, get<V>(f(make<V>(x), V(b))), w, [&] { return "x=" + str(x) + " s=" + str(b); });
            });
    }
    template <int S> static void constShift(Site &s, const std::vector<T> &A)
    {
        forOnes<V>(s, A, [&](const L &x) {
            L l, r;
            for (size_t k = 0; k < V::Size; ++k) {
                l[k] = shl(x[k], S);
                r[k] = shr(x[k], S);
            }
            V v = make<V>(x);
            expect(s, get<V>(v << S), l, [&] { return "x=" + str(x) + " << const " + str(S); });
            expect(s, get<V>(v >> S), r, [&] { return "x=" + str(x) + " >> const " + str(S); });
            V a = v, b = v;
            a <<= S;
            b >>= S;
            expect(s, get<V>(a), l, [&] { return "x=" + str(x) + " <<= const " + str(S); });
            expect(s, get<V>(b), r, [&] { return "x=" + str(x) + " >>= const " + str(S); });
        });
    }
    template <int... I> static void constShifts(Site &s, const std::vector<T> &A, std::integer_sequence<int, I...>)
    {
        int d[] = {(constShift<I>(s, A), 0)...};
        (void)d;
    }
    void run()
    {
        bin("&", [](V a, V b) { return a & b; }, [](T a, T b) { return T(a & b); });
        bin("|", [](V a, V b) { return a | b; }, [](T a, T b) { return T(a | b); });
        bin("^", [](V a, V b) { return a ^ b; }, [](T a, T b) { return T(a ^ b); });
        bin("&=", [](V a, V b) { a &= b; return a; }, [](T a, T b) { return T(a & b); });
        bin("|=", [](V a, V b) { a |= b; return a; }, [](T a, T b) { return T(a | b); });
        bin("^=", [](V a, V b) { a ^= b; return a; }, [](T a, T b) { return T(a ^ b); });
        {
            Site s(n + "s&x, s|x, s^x, x&s..");
            for (T b : alphabet<T>(1))
                forOnes<V>(s, A, [&](const L &x) {
                    L w1, w2, w3;
                    for (size_t k = 0; k < V::Size; ++k) { w1[k] = T(x[k] & b); w2[k] = T(x[k] | b); w3[k] = T(x[k] ^ b); }
                    V v = make<V>(x);
                    T c = launder(b);
                    expect(s, get<V>(v & c), w1, [&] { return "x=" + str(x) + " & s=" + str(b); });
                    expect(s, get<V>(c & v), w1, [&] { return "s=" + str(b) + " & x=" + str(x); });
                    expect(s, get<V>(v | c), w2, [&] { return "x=" + str(x) + " | s=" + str(b); });
                    expect(s, get<V>(c | v), w2, [&] { return "s=" + str(b) + " | x=" + str(x); });
                    expect(s, get<V>(v ^ c), w3, [&] { return "x=" + str(x) + " ^ s=" + str(b); });
                    expect(s, get<V>(c ^ v), w3, [&] { return "s=" + str(b) + " ^ x=" + str(x); });
                });
        }
        {
            Site s(n + "~x");
            std::vector<T> X = A;
            if (B == 16) { X.clear(); for (int i = 0; i < 65536; ++i) X.push_back(T(i)); }
            forOnes<V>(s, X, [&](const L &x) {
                L w;
                for (size_t k = 0; k < V::Size; ++k) w[k] = T(~x[k]);
                expect(s, get<V>(~make<V>(x)), w, [&] { return "x=" + str(x); });
            });
        }
        {   // runtime scalar amounts: all amounts x all values
            Site s(n + "x<<int, x>>int, <<=, >>=");
            std::vector<T> X = A;
            if (B == 16) { X.clear(); for (int i = 0; i < 65536; ++i) X.push_back(T(i)); }
            for (int sh = 0; sh < B; ++sh)
                forOnes<V>(s, X, [&](const L &x) {
                    L l, r;
                    for (size_t k = 0; k < V::Size; ++k) {
                        l[k] = shl(x[k], sh);
                        r[k] = shr(x[k], sh);
                    }
                    V v = make<V>(x);
                    int q = launder(sh);
                    expect(s, get<V>(v << q), l, [&] { return "x=" + str(x) + " << " + str(sh); });
                    expect(s, get<V>(v >> q), r, [&] { return "x=" + str(x) + " >> " + str(sh); });
                    V a = v, b = v;
                    a <<= q;
                    b >>= q;
                    expect(s, get<V>(a), l, [&] { return "x=" + str(x) + " <<= " + str(sh); });
                    expect(s, get<V>(b), r, [&] { return "x=" + str(x) + " >>= " + str(sh); });
                });
        }
        {
            Site s(n + "shifts by a compile-time constant");
            constShifts(s, alphabet<T>(1), std::make_integer_sequence<int, B>());
        }
        {   // vector amounts: every (value, amount) pair in every lane, neighbours differing
            Site s(n + "x<<y, x>>y per lane");
            std::vector<T> Y;
            for (int i = 0; i < B; ++i) Y.push_back(T(i));
            forPairs<V>(s, A, Y, [&](const L &x, const L &y) {
                L l, r;
                for (size_t k = 0; k < V::Size; ++k) {
                    l[k] = shl(x[k], int(y[k]));
                    r[k] = shr(x[k], int(y[k]));
                }
                V v = make<V>(x), q = make<V>(y);
                expect(s, get<V>(v << q), l, [&] { return "x=" + str(x) + " << y=" + str(y); });
                expect(s, get<V>(v >> q), r, [&] { return "x=" + str(x) + " >> y=" + str(y); });
                V a = v, b = v;
                a <<= q;
                b >>= q;
                expect(s, get<V>(a), l, [&] { return "x=" + str(x) + " <<= y=" + str(y); });
                expect(s, get<V>(b), r, [&] { return "x=" + str(x) + " >>= y=" + str(y); });
                expect(s, get<V>(v), x, [&] { return "operand unchanged x=" + str(x); });
            });
        }
    }
};
#ifdef Vc_ENABLE_FLOAT_BIT_OPERATORS
template <class V> struct Bits<V, true> {
    typedef typename V::EntryType T;
    typedef typename FP<T>::U U;
    typedef Lanes<V> L;
    static U b(T x) { U u; std::memcpy(&u, &x, sizeof u); return u; }
    static bool eq(const L &a, const L &c) { return std::memcmp(&a[0], &c[0], sizeof(T) * V::Size) == 0; }
    void run()
    {
        std::vector<T> A = alphabet<T>(1);
        Site s(vn<V>() + " float bit operators & | ^ ~");
        forPairs<V>(s, A, A, [&](const L &x, const L &y) {
            L w[4];
            for (size_t k = 0; k < V::Size; ++k) {
                w[0][k] = fromBits<T>(b(x[k]) & b(y[k]));
                w[1][k] = fromBits<T>(b(x[k]) | b(y[k]));
                w[2][k] = fromBits<T>(b(x[k]) ^ b(y[k]));
            }
            V v = make<V>(x), q = make<V>(y);
            L g[3] = {get<V>(v & q), get<V>(v | q), get<V>(v ^ q)};
            for (int i = 0; i < 3; ++i) {
                C.transitions++;
                C.checks += V::Size;
                if (!eq(g[i], w[i])) s.fail(std::string("op") + "&|^"[i] + " x=" + str(x) + " y=" + str(y), "got " + str(g[i]) + " want " + str(w[i]));
            }
        });
    }
};
#else
template <class V> struct Bits<V, true> { void run() {} };
#endif
struct Run { template <class X> void operator()(X) const { Bits<typename X::type>().run(); } };
void explore()
{
#if PART == 0
    forAbis<int>(Run());
    forAbis<uint>(Run());
#elif PART == 1
    forAbis<short>(Run());
    forAbis<ushort>(Run());
#elif PART == 2
    forAbis<float>(Run());
    forAbis<double>(Run());
#endif
}
