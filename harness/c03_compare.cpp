// C03: comparisons (and !, &&, ||) yield, per lane, the scalar comparison.
#include "mc.h"
using namespace mc;

template <class V> struct Cmp {
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    typedef Lanes<V> L;
    typedef std::array<bool, V::Size> BL;
    std::string n = vn<V>() + " ";
    std::vector<T> A = alphabet<T>(std::is_floating_point<T>::value ? (g_thorough ? 2 : 1) : 2);
    struct Op { const char *nm; M (*f)(V, V); bool (*r)(T, T); M (*fs)(V, T); M (*sf)(T, V); };
    void check(Site &s, const M &m, const BL &w, const L &x, const L &y, const char *what)
    {
        ++C.transitions;
        C.checks += V::Size;
        BL g = getm(m);
        unsigned long bits = 0;
        for (size_t k = 0; k < V::Size; ++k) bits |= (unsigned long)(w[k]) << k;
        if (g != w || (unsigned long)(m.toInt()) != bits || m.count() != int(__builtin_popcountl(bits)) || m.isFull() != (bits + 1 == 1ul << V::Size) || m.isEmpty() != (bits == 0))
            s.fail(std::string(what) + " x=" + str(x) + " y=" + str(y), "got " + str(g) + " toInt " + str(int(m.toInt())) + " want " + str(w));
        else
            outcome(mix(s.h, bits));
    }
    void all16(const Op *, size_t, std::false_type) {}
    void all16(const Op *ops, size_t no, std::true_type)
    {
        std::vector<T> X;
        for (int i = 0; i < 65536; ++i) X.push_back(T(i));
        std::vector<T> Y = alphabet<T>(g_thorough ? 3 : 1);
        for (size_t o = 0; o < no; ++o) {
            Site s(n + ops[o].nm + " (all x)");
            if (!s.active()) continue;
            for (T y0 : Y)
                for (size_t i = 0; i < 65536; i += V::Size) {
                    L x, y;
                    BL w;
                    for (size_t k = 0; k < V::Size; ++k) {
                        x[k] = X[i + k];
                        y[k] = y0;
                        w[k] = ops[o].r(x[k], y[k]);
                    }
                    ++C.states;
                    s.at(i, uint64_t(y0));
                    check(s, ops[o].f(make<V>(x), make<V>(y)), w, x, y, "");
                }
        }
    }
    void run()
    {
#define OP(o) {"x" #o "y", [](V a, V b) -> M { return a o b; }, [](T a, T b) -> bool { return a o b; }, [](V a, T b) -> M { return a o b; }, [](T a, V b) -> M { return a o b; }}
        const Op ops[] = {OP(==), OP(!=), OP(<), OP(<=), OP(>), OP(>=)};
#undef OP
        for (const Op &o : ops) {
            Site s(n + o.nm);
            if (!s.active()) continue;
            s.sample("all pairs of " + std::to_string(A.size()) + " values");
            forPairs<V>(s, A, A, [&](const L &x, const L &y) {
                BL w;
                for (size_t k = 0; k < V::Size; ++k) w[k] = o.r(x[k], y[k]);
                check(s, o.f(make<V>(x), make<V>(y)), w, x, y, "");
            });
            Site s2(n + o.nm + " with scalar");
            for (T b : alphabet<T>(1))
                forOnes<V>(s2, A, [&](const L &x) {
                    BL w, w2;
                    L y;
                    for (size_t k = 0; k < V::Size; ++k) {
                        y[k] = b;
                        w[k] = o.r(x[k], b);
                        w2[k] = o.r(b, x[k]);
                    }
                    check(s2, o.fs(make<V>(x), launder(b)), w, x, y, "x op s");
                    check(s2, o.sf(launder(b), make<V>(x)), w2, x, y, "s op x");
                });
        }
        all16(ops, 6, std::integral_constant<bool, sizeof(T) == 2>());
        {
            Site s(n + "!x, x&&y, x||y");
            forPairs<V>(s, A, alphabet<T>(0), [&](const L &x, const L &y) {
                BL w0, w1, w2;
                for (size_t k = 0; k < V::Size; ++k) {
                    w0[k] = !x[k];
                    w1[k] = x[k] && y[k];
                    w2[k] = x[k] || y[k];
                }
                V a = make<V>(x), b = make<V>(y);
                check(s, !a, w0, x, y, "!x");
                check(s, a && b, w1, x, y, "&&");
                check(s, a || b, w2, x, y, "||");
            });
            Site s2(n + "x&&bool, bool||x, ..");
            for (int q = 0; q < 2; ++q)
                forOnes<V>(s2, A, [&](const L &x) {
                    BL w1, w2;
                    bool c = launder(q != 0);
                    for (size_t k = 0; k < V::Size; ++k) {
                        w1[k] = x[k] && c;
                        w2[k] = x[k] || c;
                    }
                    V a = make<V>(x);
                    check(s2, a && c, w1, x, x, "x&&b");
                    check(s2, c && a, w1, x, x, "b&&x");
                    check(s2, a || c, w2, x, x, "x||b");
                    check(s2, c || a, w2, x, x, "b||x");
                });
        }
    }
};
template <class A, class B, class R> void mixed(const char *nm)
{
    typedef typename A::EntryType TA;
    typedef typename B::EntryType TB;
    typedef typename R::EntryType TR;
    Site s(std::string("mixed compare ") + nm);
    auto X = alphabet<TA>(1);
    auto Y = alphabet<TB>(1);
    for (size_t j = 0; j < Y.size(); ++j)
        for (size_t i = 0; i < X.size(); ++i) {
            Lanes<A> x;
            Lanes<B> y;
            std::array<bool, A::Size> e, l, g;
            for (size_t k = 0; k < A::Size; ++k) {
                x[k] = X[(i + k) % X.size()];
                y[k] = Y[(j + k) % Y.size()];
                e[k] = TR(x[k]) == TR(y[k]);
                l[k] = TR(x[k]) < TR(y[k]);
                g[k] = TR(x[k]) >= TR(y[k]);
            }
            ++C.states;
            C.transitions += 3;
            C.checks += 3 * A::Size;
            s.at(i, j);
            A a = make<A>(x);
            B b = make<B>(y);
            if (getm(a == b) != e || getm(a < b) != l || getm(a >= b) != g) s.fail("x=" + str(x) + " y=" + str(y), "mixed comparison differs from comparison in the common type");
        }
}
struct Run { template <class X> void operator()(X) const { Cmp<typename X::type>().run(); } };
void explore()
{
#if PART == 0
    forAbis<float>(Run());
    forAbis<double>(Run());
#elif PART == 1
    forAbis<int>(Run());
    forAbis<uint>(Run());
    using namespace Vc;
    mixed<Vector<int>, Vector<uint>, Vector<uint>>("int_v,uint_v");
#elif PART == 2
    forAbis<short>(Run());
    forAbis<ushort>(Run());
    using namespace Vc;
    mixed<Vector<short>, Vector<ushort>, Vector<ushort>>("short_v,ushort_v");
#endif
}
