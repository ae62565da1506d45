// C01: elementwise arithmetic equals the scalar operation in every lane.
#include "mc.h"
#include "ref.h"
using namespace mc;

template <class V> struct Arith {
    typedef typename V::EntryType T;
    typedef Ref<T> R;
    typedef Lanes<V> L;
    std::string n = vn<V>() + " ";
    std::vector<T> A;
    Arith() : A(alphabet<T>(std::is_floating_point<T>::value ? (g_thorough ? 2 : 1) : 2)) {}
    template <class OP, class REF> void bin(const char *op, OP f, REF ref)
    {
        Site s(n + op);
        if (!s.active()) return;
        s.sample("x,y over all pairs of " + std::to_string(A.size()) + " boundary values in every lane, e.g. " + str(A[A.size() / 3]) + ", " + str(A[A.size() / 2]));
        forPairs<V>(s, A, A, [&](const L &x, const L &y) {
            L w;
            for (size_t k = 0; k < V::Size; ++k) w[k] = ref(x[k], y[k]);
            expect(s, get<V>(f(make<V>(x), make<V>(y))), w, [&] { return "x=" + str(x) + " y=" + str(y); });
        });
    }
    template <class OP, class REF> void divlike(const char *op, OP f, REF ref)
    {
        Site s(n + op);
        if (!s.active()) return;
        forPairs<V>(s, A, A, [&](const L &x, const L &y0) {
            L w, y = y0;
            for (size_t k = 0; k < V::Size; ++k) {
                if (!R::divok(x[k], y[k])) y[k] = T(k + 1);
                w[k] = ref(x[k], y[k]);
            }
            expect(s, get<V>(f(make<V>(x), make<V>(y))), w, [&] { return "x=" + str(x) + " y=" + str(y); });
        });
    }
    template <class OP, class REF> void un(const char *op, OP f, REF ref)
    {
        Site s(n + op);
        if (!s.active()) return;
        forOnes<V>(s, A, [&](const L &x) {
            L w;
            for (size_t k = 0; k < V::Size; ++k) w[k] = ref(x[k]);
            expect(s, get<V>(f(make<V>(x))), w, [&] { return "x=" + str(x); });
        });
    }
    void ints(std::true_type)
    {
        divlike("x%y", [](V a, V b) { return a % b; }, R::rem);
        divlike("x%=y", [](V a, V b) { a %= b; return a; }, R::rem);
    }
    void ints(std::false_type) {}
    // 16-bit types: every x against a boundary alphabet of y (thorough: every y)
    void all16(std::true_type)
    {
        std::vector<T> X, Y = g_thorough ? std::vector<T>() : alphabet<T>(1);
        for (int i = 0; i < 65536; ++i) X.push_back(T(i));
        if (g_thorough)
            for (int i = 0; i < 65536; ++i) Y.push_back(T(i));
        const size_t N = V::Size;
        {
            Site s(n + "x/y (all x)");
            if (s.active())
                for (size_t j = 0; j < Y.size(); ++j) {
                    if (Y[j] == 0) continue;
                    L x, y, w, w2;
                    for (size_t k = 0; k < N; ++k) y[k] = Y[j];
                    for (size_t i = 0; i < 65536; i += N) {
                        for (size_t k = 0; k < N; ++k) {
                            x[k] = X[i + k];
                            if (!R::divok(x[k], y[k])) x[k] = 1;
                            w[k] = R::div(x[k], y[k]);
                            w2[k] = R::rem(x[k], y[k]);
                        }
                        ++C.states;
                        s.at(i, j);
                        expect(s, get<V>(make<V>(x) / make<V>(y)), w, [&] { return "x=" + str(x) + " y=" + str(y); });
                        expect(s, get<V>(make<V>(x) % make<V>(y)), w2, [&] { return "% x=" + str(x) + " y=" + str(y); });
                    }
                }
        }
        {
            Site s(n + "x*y (all x)");
            if (s.active())
                for (size_t j = 0; j < Y.size(); ++j) {
                    L x, y, w;
                    for (size_t k = 0; k < N; ++k) y[k] = Y[(j + k) % Y.size()];
                    for (size_t i = 0; i < 65536; i += N) {
                        for (size_t k = 0; k < N; ++k) {
                            x[k] = X[i + k];
                            w[k] = R::mul(x[k], y[k]);
                        }
                        ++C.states;
                        s.at(i, j);
                        expect(s, get<V>(make<V>(x) * make<V>(y)), w, [&] { return "x=" + str(x) + " y=" + str(y); });
                    }
                }
        }
    }
    void all16(std::false_type) {}
    void ints2(std::false_type, const std::vector<T> &) {}
    void ints2(std::true_type, const std::vector<T> &S)
    {
        Site s(n + "x%s, s%x");
        if (!s.active()) return;
        for (size_t j = 0; j < S.size(); ++j)
            forOnes<V>(s, A, [&](const L &x0) {
                T b = S[j];
                L x = x0, w;
                if (b != 0) {
                    for (size_t k = 0; k < V::Size; ++k) {
                        if (!R::divok(x[k], b)) x[k] = T(3);
                        w[k] = R::rem(x[k], b);
                    }
                    expect(s, get<V>(make<V>(x) % launder(b)), w, [&] { return "x=" + str(x) + " s=" + str(b); });
                    V c = make<V>(x);
                    c %= launder(b);
                    expect(s, get<V>(c), w, [&] { return "x=" + str(x) + " %= s=" + str(b); });
                }
                x = x0;
                for (size_t k = 0; k < V::Size; ++k) {
                    if (!R::divok(b, x[k])) x[k] = T(3);
                    w[k] = R::rem(b, x[k]);
                }
                expect(s, get<V>(launder(b) % make<V>(x)), w, [&] { return "s=" + str(b) + " % x=" + str(x); });
            });
    }
    void run()
    {
        all16(std::integral_constant<bool, std::is_integral<T>::value && sizeof(T) == 2>());
        bin("x+y", [](V a, V b) { return a + b; }, R::add);
        bin("x-y", [](V a, V b) { return a - b; }, R::sub);
        bin("x*y", [](V a, V b) { return a * b; }, R::mul);
        divlike("x/y", [](V a, V b) { return a / b; }, R::div);
        bin("x+=y", [](V a, V b) { a += b; return a; }, R::add);
        bin("x-=y", [](V a, V b) { a -= b; return a; }, R::sub);
        bin("x*=y", [](V a, V b) { a *= b; return a; }, R::mul);
        divlike("x/=y", [](V a, V b) { a /= b; return a; }, R::div);
        ints(std::is_integral<T>());
        un("-x", [](V a) { return -a; }, R::neg);
        un("+x", [](V a) { return +a; }, [](T a) { return a; });
        un("++x", [](V a) { ++a; return a; }, [](T a) { return R::add(a, T(1)); });
        un("--x", [](V a) { --a; return a; }, [](T a) { return R::sub(a, T(1)); });
        un("value of ++x", [](V a) { return V(++a); }, [](T a) { return R::add(a, T(1)); });
        un("value of --x", [](V a) { return V(--a); }, [](T a) { return R::sub(a, T(1)); });
        un("x++", [](V a) { a++; return a; }, [](T a) { return R::add(a, T(1)); });
        un("x--", [](V a) { a--; return a; }, [](T a) { return R::sub(a, T(1)); });
        un("value of x++", [](V a) { return V(a++); }, [](T a) { return a; });
        un("value of x--", [](V a) { return V(a--); }, [](T a) { return a; });
        // vector op scalar and scalar op vector: every (scalar, lanes) pair
        std::vector<T> S = alphabet<T>(0);
        typedef T (*F2)(T, T);
        struct E { const char *nm; V (*f)(V, T); T (*r)(T, T); bool isdiv, rev; };
        const E es[] = {
            {"x+s", [](V a, T b) { return V(a + b); }, [](T a, T b) { return R::add(a, b); }, false, false},
            {"s+x", [](V a, T b) { return V(b + a); }, [](T a, T b) { return R::add(b, a); }, false, true},
            {"x-s", [](V a, T b) { return V(a - b); }, [](T a, T b) { return R::sub(a, b); }, false, false},
            {"s-x", [](V a, T b) { return V(b - a); }, [](T a, T b) { return R::sub(b, a); }, false, true},
            {"x*s", [](V a, T b) { return V(a * b); }, [](T a, T b) { return R::mul(a, b); }, false, false},
            {"s*x", [](V a, T b) { return V(b * a); }, [](T a, T b) { return R::mul(b, a); }, false, true},
            {"x/s", [](V a, T b) { return V(a / b); }, [](T a, T b) { return R::div(a, b); }, true, false},
            {"s/x", [](V a, T b) { return V(b / a); }, [](T a, T b) { return R::div(b, a); }, true, true},
            {"x+=s", [](V a, T b) { a += b; return a; }, [](T a, T b) { return R::add(a, b); }, false, false},
            {"x-=s", [](V a, T b) { a -= b; return a; }, [](T a, T b) { return R::sub(a, b); }, false, false},
            {"x*=s", [](V a, T b) { a *= b; return a; }, [](T a, T b) { return R::mul(a, b); }, false, false},
            {"x/=s", [](V a, T b) { a /= b; return a; }, [](T a, T b) { return R::div(a, b); }, true, false},
        };
        for (const E &e : es) {
            Site s(n + e.nm);
            if (!s.active()) continue;
            for (size_t j = 0; j < S.size(); ++j)
                forOnes<V>(s, A, [&](const L &x0) {
                    T b = S[j];
                    L x = x0, w;
                    if (e.isdiv && !e.rev && b == 0 && std::is_integral<T>::value) return;
                    for (size_t k = 0; k < V::Size; ++k) {
                        if (e.isdiv) {
                            if (e.rev ? !R::divok(b, x[k]) : !R::divok(x[k], b)) x[k] = T(3);
                        }
                        w[k] = e.r(x[k], b);
                    }
                    s.at(j, s.fails);
                    expect(s, get<V>(e.f(make<V>(x), launder(b))), w, [&] { return "x=" + str(x) + " s=" + str(b); });
                });
        }
        ints2(std::is_integral<T>(), S);
        // the operands are left unchanged, and an operand may be used on both sides
        {
            Site s(n + "operands unchanged / self-application");
            if (s.active())
                forPairs<V>(s, alphabet<T>(1), alphabet<T>(0), [&](const L &x, const L &y) {
                    V a = make<V>(x), b = make<V>(y);
                    V c = a + b, d = a - b, e = a * b, f = -a;
                    (void)c; (void)d; (void)e; (void)f;
                    expect(s, get<V>(a), x, [&] { return "x=" + str(x) + " y=" + str(y); });
                    expect(s, get<V>(b), y, [&] { return "x=" + str(x) + " y=" + str(y); });
                    L w;
                    for (size_t k = 0; k < V::Size; ++k) w[k] = R::add(x[k], x[k]);
                    a += a;
                    expect(s, get<V>(a), w, [&] { return "x+=x x=" + str(x); });
                    for (size_t k = 0; k < V::Size; ++k) w[k] = R::sub(y[k], y[k]);
                    b -= b;
                    expect(s, get<V>(b), w, [&] { return "y-=y y=" + str(y); });
                });
        }
    }
};

// mixed-type operands: the result is computed in the documented common type
template <class A, class B, class RV> void mixed(const char *nm)
{
    typedef typename A::EntryType TA;
    typedef typename B::EntryType TB;
    typedef typename RV::EntryType TR;
    std::vector<TA> X = alphabet<TA>(1);
    std::vector<TB> Y = alphabet<TB>(1);
    struct E { const char *o; RV (*f)(A, B); TR (*r)(TR, TR); };
    const E es[] = {
        {"+", [](A a, B b) { auto r = a + b; static_assert(std::is_same<decltype(r), RV>::value, "common type"); return r; }, Ref<TR>::add},
        {"-", [](A a, B b) { auto r = a - b; return r; }, Ref<TR>::sub},
        {"*", [](A a, B b) { auto r = a * b; return r; }, Ref<TR>::mul},
    };
    for (const E &e : es) {
        Site s(std::string("mixed ") + nm + " " + e.o);
        if (!s.active()) continue;
        for (size_t j = 0; j < Y.size(); ++j)
            for (size_t i = 0; i < X.size(); ++i) {
                Lanes<A> x;
                Lanes<B> y;
                Lanes<RV> w;
                for (size_t k = 0; k < A::Size; ++k) {
                    x[k] = X[(i + k) % X.size()];
                    y[k] = Y[(j + k) % Y.size()];
                    w[k] = e.r(TR(x[k]), TR(y[k]));
                }
                ++C.states;
                s.at(i, j);
                expect(s, get<RV>(e.f(make<A>(x), make<B>(y))), w, [&] { return "x=" + str(x) + " y=" + str(y); });
            }
    }
}

struct Run { template <class X> void operator()(X) const { Arith<typename X::type>().run(); } };

void explore()
{
#if PART == 0
    forAbis<float>(Run());
    forAbis<double>(Run());
#elif PART == 1
    forAbis<int>(Run());
    forAbis<uint>(Run());
    using namespace Vc;
    mixed<Vector<int>, Vector<uint>, Vector<uint>>("int_v,uint_v");
    mixed<Vector<uint>, Vector<int>, Vector<uint>>("uint_v,int_v");
#elif PART == 2
    forAbis<short>(Run());
    forAbis<ushort>(Run());
    using namespace Vc;
    mixed<Vector<short>, Vector<ushort>, Vector<ushort>>("short_v,ushort_v");
    mixed<Vector<ushort>, Vector<short>, Vector<ushort>>("ushort_v,short_v");
#endif
}
