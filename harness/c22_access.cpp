// C22: element access, iteration and per-entry functions visit each lane exactly once.
#include "mc.h"
#include "masks.h"
#include <numeric>
using namespace mc;
using Vc::uint;
using Vc::ushort;
#ifndef TYPE
#define TYPE 0
#endif
typedef std::tuple_element<TYPE, std::tuple<double, float, int, uint, short, ushort>>::type T;
enum { IsInt = std::is_integral<T>::value };

// ------------------------------------------------------------------ scalar reference of the element operations
enum Op { Assign, Add, Sub, Mul, Div, PreInc, PostInc, PreDec, PostDec, Mod, Shl, Shr, And, Or, Xor, NOPS };
static const char *const opName[] = {"=", "+=", "-=", "*=", "/=", "++x", "x++", "--x", "x--", "%=", "<<=", ">>=", "&=", "|=", "^="};
template <class L, class R> static void intOps(L &&l, int op, R x, std::true_type)
{
    switch (op) {
    case Mod: std::forward<L>(l) %= x; break;
    case Shl: std::forward<L>(l) <<= x; break;
    case Shr: std::forward<L>(l) >>= x; break;
    case And: std::forward<L>(l) &= x; break;
    case Or: std::forward<L>(l) |= x; break;
    case Xor: std::forward<L>(l) ^= x; break;
    }
}
template <class L, class R> static void intOps(L &&, int, R, std::false_type) {}
template <class R> using IsIntOp = std::integral_constant<bool, IsInt && std::is_integral<R>::value>;
// x: operand, returns the value of the expression (== the new value except for the postfix forms)
template <class V, class R> MC_NOINLINE T vecOp(V &v, int i, int op, R x)
{
    switch (op) {
    case Assign: return T(v[i] = x);
    case Add: return T(v[i] += x);
    case Sub: return T(v[i] -= x);
    case Mul: return T(v[i] *= x);
    case Div: return T(v[i] /= x);
    case PreInc: return T(++v[i]);
    case PostInc: return T(v[i]++);
    case PreDec: return T(--v[i]);
    case PostDec: return T(v[i]--);
    default: intOps(v[i], op, x, IsIntOp<R>()); return T(v[i]);
    }
}
template <class R> MC_NOINLINE T refOp(T &l, int op, R x)
{
    switch (op) {
    case Assign: return l = T(x);
    case Add: return l = T(l + x);
    case Sub: return l = T(l - x);
    case Mul: return l = T(l * x);
    case Div: return l = T(l / x);
    case PreInc: return ++l;
    case PostInc: return l++;
    case PreDec: return --l;
    case PostDec: return l--;
    default: intOps(l, op, x, IsIntOp<R>()); return l;
    }
}
template <class R> static bool defined(T l, int op, R x)
{
    if (!IsInt) return op < Mod;
    if (std::is_floating_point<R>::value) {
        if (op >= Mod) return false;
        const double a = double(l), b = double(x), r = op == Assign ? b : op == Add ? a + b : op == Sub ? a - b : op == Mul ? a * b : op == Div ? a / b : 0;
        return (op >= PreInc || (r > double(std::numeric_limits<T>::min()) - 1 && r < double(std::numeric_limits<T>::max()) + 1)) && !(op == Div && b == 0);
    }
    typedef decltype(l + x) P;
    if (op == Div || op == Mod) return x != 0 && !(std::is_signed<P>::value && P(x) == P(-1) && P(l) == std::numeric_limits<P>::min());
    if (op == Shl || op == Shr) return (std::is_unsigned<R>::value || !(double(x) < 0)) && double(x) < double(sizeof(+l) * 8);
    return true;
}
static T tag(size_t i, int s = 0) { return T(i * 3 + 2 + s * 50); }

struct Bits { std::string operator()(uint64_t m) const { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)m); return b; } };

template <class V, class R> void elementOps(const char *rn, const std::vector<R> &B)
{
    const size_t N = V::Size;
    const std::vector<T> A = alphabet<T>(g_thorough ? 1 : 0);
    for (int op = 0; op < NOPS; ++op) {
        if (!IsInt && op >= Mod) continue;
        Site s(vn<V>() + "[i] " + opName[op] + " " + rn);
        if (!s.active()) continue;
        const bool unary = op >= PreInc && op <= PostDec;
        for (size_t i = 0; i < N; ++i)
            for (size_t a = 0; a < A.size(); ++a)
                for (size_t b = 0; b < (unary ? 1 : B.size()); ++b) {
                    if (!defined(A[a], op, B[b])) continue;
                    Lanes<V> x;
                    for (size_t k = 0; k < N; ++k) x[k] = k == i ? A[a] : A[(a + k * 5 + 3) % A.size()];
                    s.at(i, a, b);
                    ++C.states;
                    V v = make<V>(x);
                    const T ret = vecOp(v, int(i), op, B[b]);
                    Lanes<V> want = x;
                    const T wret = refOp(want[i], op, B[b]);
                    auto in = [&] { return "lane " + std::to_string(i) + " x=" + str(x[i]) + " y=" + str(B[b]); };
                    expect(s, get(v), want, in);
                    expect1(s, ret, wret, in);
                }
    }
}
template <class V> MC_NOINLINE T readC(const V &v, size_t i) { return v[i]; }
template <class V> MC_NOINLINE T readM(V &v, size_t i) { return v[i]; }
template <class V> MC_NOINLINE void refRead()
{
    const size_t N = V::Size;
    Site s(vn<V>() + "[i] read");
    if (!s.active()) return;
    forOnes<V>(s, alphabet<T>(2), [&](const Lanes<V> &x) {
        V v = launder(make<V>(x));
        for (size_t i = 0; i < N; ++i) {
            auto in = [&] { return "lane " + std::to_string(i) + " of " + str(x); };
            expect1(s, readC(v, i), x[i], in);
            expect1(s, readM(v, i), x[i], in);
            T d = v[i];
            expect1(s, d, x[i], in);
            expect1(s, T(v[i] + T(1)), T(x[i] + T(1)), in);
        }
        expect(s, get(v), x, [&] { return str(x); });
    });
}
template <class V> MC_NOINLINE void swaps()
{
    const size_t N = V::Size;
    Site s("swap on elements of " + vn<V>());
    if (!s.active()) return;
    for (size_t i = 0; i < N; ++i)
        for (size_t j = 0; j < N; ++j)
            for (int k = 0; k < 4; ++k) {
                s.at(i, j, k);
                ++C.states;
                Lanes<V> x, y;
                for (size_t l = 0; l < N; ++l) { x[l] = tag(l); y[l] = tag(l, 1); }
                V v = launder(make<V>(x)), w = launder(make<V>(y));
                auto in = [&] { return "form " + std::to_string(k) + " i=" + std::to_string(i) + " j=" + std::to_string(j); };
                if (k == 0) { swap(v[i], v[j]); std::swap(x[i], x[j]); }
                else if (k == 1) { swap(v[i], w[j]); std::swap(x[i], y[j]); }
                else {
                    T t = tag(j, 2), u = t;
                    if (k == 2) swap(t, v[i]);
                    else swap(v[i], t);
                    std::swap(u, x[i]);
                    expect1(s, t, u, in);
                }
                expect(s, get(v), x, in);
                expect(s, get(w), y, in);
            }
}
// all histories of element operations up to a depth
template <class V> MC_NOINLINE void step(V &v, int op, int i, int j)
{
    switch (op) {
    case 0: v[i] = T(100 + j); break;
    case 1: v[i] = v[j]; break;
    case 2: swap(v[i], v[j]); break;
    case 3: v[i] += v[j]; break;
    case 4: v = v + v; break;
    case 5: ++*Vc::begin(v); break;
    case 6: { const V c(v); v = V([&](size_t k) { return k == size_t(i) ? T(c[j]) : T(c[k]); }); break; }
    }
}
static void rstep(T *x, size_t n, int op, int i, int j)
{
    switch (op) {
    case 0: x[i] = T(100 + j); break;
    case 1: x[i] = x[j]; break;
    case 2: std::swap(x[i], x[j]); break;
    case 3: x[i] = T(x[i] + x[j]); break;
    case 4: for (size_t k = 0; k < n; ++k) x[k] = T(x[k] + x[k]); break;
    case 5: ++x[0]; break;
    case 6: x[i] = T(x[j]); break;
    }
}
template <class V> MC_NOINLINE void histories()
{
    const size_t N = V::Size;
    Site s("element access histories on " + vn<V>());
    if (!s.active()) return;
    struct A { int op, i, j; };
    std::vector<A> acts;
    for (int op = 0; op < 7; ++op)
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < N; ++j) {
                if ((op == 4 || op == 5) && (i || j)) continue;
                acts.push_back({op, int(i), int(j)});
            }
    const size_t n = acts.size();
    const bool d3 = double(n) * n * n <= (g_thorough ? 6e7 : 2e6), d2 = double(n) * n <= (g_thorough ? 4e6 : 6e5);
    Lanes<V> x0;
    for (size_t k = 0; k < N; ++k) x0[k] = tag(k);
    // nothing is enumerated that the depth bound cuts: depth 3, 2 or 1 for the whole action set
    for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < (d2 || d3 ? n : 1); ++b)
            for (size_t c = 0; c < (d3 ? n : 1); ++c) {
                s.at(a, b, c);
                ++C.states;
                if (C.states % 64 == 0) ++C.traces;
                V v = make<V>(x0);
                Lanes<V> x = x0;
                step(v, acts[a].op, acts[a].i, acts[a].j);
                rstep(&x[0], N, acts[a].op, acts[a].i, acts[a].j);
                if (d2 || d3) { step(v, acts[b].op, acts[b].i, acts[b].j); rstep(&x[0], N, acts[b].op, acts[b].i, acts[b].j); }
                if (d3) { step(v, acts[c].op, acts[c].i, acts[c].j); rstep(&x[0], N, acts[c].op, acts[c].i, acts[c].j); }
                expect(s, get(v), x, [&] {
                    std::string r;
                    for (size_t k : {a, b, c}) r += "(" + std::to_string(acts[k].op) + "," + std::to_string(acts[k].i) + "," + std::to_string(acts[k].j) + ")";
                    return r;
                });
            }
}
// ------------------------------------------------------------------ iteration
template <class V, class It> void iterWalk(Site &s, V &v, It b, It e, const std::vector<typename std::decay<decltype(T())>::type> &, const std::function<bool(size_t, It)> &val)
{
    const int N = int(std::remove_const<V>::type::Size);
    auto in = [&](int p, int q) { return "positions " + std::to_string(p) + "," + std::to_string(q); };
    auto ok = [&](bool c, int p, int q, const char *what) {
        ++C.transitions;
        ++C.checks;
        if (!c) s.fail(in(p, q), what);
        else outcome(mix(s.h, p * 1000 + q));
    };
    int n = 0;
    for (It i = b; i != e; ++i, ++n) { ok(n < N && val(n, i), n, n, "forward ++"); if (n > N) break; }
    ok(n == N, n, N, "number of steps forward");
    n = 0;
    for (It i = b; i < e; n++) { It o = i++; ok(n < N && val(n, o), n, n, "forward postfix ++"); if (n > N) break; }
    n = N;
    for (It i = e; i != b;) { --i; --n; ok(n >= 0 && val(n, i), n, n, "backward --"); if (n < 0) break; }
    ok(n == 0, n, 0, "number of steps backward");
    n = N - 1;
    It i = e;
    --i;
    for (int k = 0; k < N; ++k) { It o = i--; ok(val(n - k, o), n, k, "backward postfix --"); }
    ok(e - b == N && b - e == -N, 0, N, "distance");
    for (int p = 0; p <= N; ++p) {
        It x = b + p;
        ok(x - b == p && e - x == N - p, p, p, "begin + n");
        for (int q = 0; q <= N; ++q) {
            ++C.states;
            s.at(p, q);
            It y = e - (N - q);
            ok((x == y) == (p == q), p, q, "==");
            ok((x != y) == (p != q), p, q, "!=");
            ok((x < y) == (p < q), p, q, "<");
            ok((x <= y) == (p <= q), p, q, "<=");
            ok((x > y) == (p > q), p, q, ">");
            ok((x >= y) == (p >= q), p, q, ">=");
            ok(x - y == p - q, p, q, "difference");
            It z = x;
            z += q - p;
            ok(z == y, p, q, "+=");
            z = y;
            z -= q - p;
            ok(z == x, p, q, "-=");
            ok((q - p) + x == y, p, q, "n + it");
            ok(x + (q - p) == y, p, q, "it + n");
            ok(y - (q - p) == x, p, q, "it - n");
            if (q < N) ok(val(q, x + (q - p)), p, q, "*(it + n)");
        }
    }
}
template <class V> MC_NOINLINE void iteration()
{
    const int N = V::Size;
    Lanes<V> x;
    for (int k = 0; k < N; ++k) x[k] = tag(k);
    {
        Site s("iterators of " + vn<V>());
        if (s.active()) {
            V v = launder(make<V>(x));
            const V c = launder(make<V>(x));
            typedef decltype(Vc::begin(v)) I;
            typedef decltype(Vc::begin(c)) CI;
            iterWalk<V, I>(s, v, Vc::begin(v), Vc::end(v), {}, [&](size_t k, I i) { return T(*i) == x[k]; });
            iterWalk<const V, CI>(s, c, Vc::begin(c), Vc::end(c), {}, [&](size_t k, CI i) { return *i == x[k]; });
            iterWalk<const V, CI>(s, v, Vc::cbegin(v), Vc::cend(v), {}, [&](size_t k, CI i) { return *i == x[k]; });
            for (int p = 0; p <= N; ++p)
                for (int q = 0; q < N; ++q) {
                    ++C.states;
                    s.at(p, q);
                    auto in = [&] { return "it at " + std::to_string(p) + ", it[" + std::to_string(q - p) + "]"; };
                    expect1(s, T((Vc::begin(v) + p)[q - p]), x[q], in);
                    expect1(s, T((Vc::begin(c) + p)[q - p]), x[q], in);
                    V w = launder(v);
                    Lanes<V> wx = x;
                    (Vc::begin(w) + p)[q - p] = T(99);
                    wx[q] = T(99);
                    expect(s, get(w), wx, in);
                }
            // range based for, standard algorithms
            std::vector<T> got;
            for (auto &&e : v) got.push_back(e);
            for (auto &&e : c) got.push_back(e);
            for (T e : v) got.push_back(e);
            got.insert(got.end(), Vc::begin(c), Vc::end(c));
            std::copy(Vc::begin(v), Vc::end(v), std::back_inserter(got));
            for (size_t k = 0; k < got.size(); ++k) expect1(s, got[k], x[k % N], [&] { return "range for, element " + std::to_string(k); });
            expect1(s, int(got.size()), 5 * N, [&] { return "range for, number of elements"; });
            Lanes<V> want;
            int n = 0;
            V w = launder(v);
            for (auto &&e : w) { std::move(e) = T(7 + n); want[n] = T(7 + n); ++n; if (n > N) break; }
            expect(s, get(w), want, [&] { return "range for, writing"; });
            for (auto i = Vc::begin(w); i != Vc::end(w); ++i) *i += T(3);
            for (auto &e : want) e = T(e + 3);
            expect(s, get(w), want, [&] { return "*it += 3"; });
            std::iota(Vc::begin(w), Vc::end(w), T(5));
            for (int k = 0; k < N; ++k) want[k] = T(5 + k);
            expect(s, get(w), want, [&] { return "std::iota"; });
            std::copy(&x[0], &x[0] + N, Vc::begin(w));
            expect(s, get(w), x, [&] { return "std::copy to begin"; });
            for (int p = 0; p < N; ++p)
                for (int q = 0; q < N; ++q) {
                    s.at(p, q, 1);
                    V w2 = launder(v);
                    Lanes<V> x2 = x;
                    auto i = Vc::begin(w2) + p, j = Vc::begin(w2) + q;
                    *i = T(*j);
                    x2[p] = x2[q];
                    expect(s, get(w2), x2, [&] { return "*it(" + std::to_string(p) + ") = *it(" + std::to_string(q) + ")"; });
                    swap(*i, *j);
                    std::swap(x2[p], x2[q]);
                    expect(s, get(w2), x2, [&] { return "swap(*it(" + std::to_string(p) + "), *it(" + std::to_string(q) + "))"; });
                    auto f = Vc::begin(v);
                    for (; f != Vc::end(v) && !(T(*f) == x[p]); ++f) {}
                    expect1(s, int(f - Vc::begin(v)), p, [&] { return "find"; });
                }
        }
    }
}
// ------------------------------------------------------------------ masks
template <class M> std::string mnm();
template <class V> MC_NOINLINE void maskAccess()
{
    typedef typename V::Mask M;
    const int N = V::Size;
    const auto masks = maskSet(N);
    {
        Site s("elements of masks of " + vn<V>());
        if (s.active())
            for (uint64_t m : masks) {
                std::array<bool, V::Size> x;
                for (int k = 0; k < N; ++k) x[k] = (m >> k) & 1;
                auto in = [&] { return "mask " + Bits()(m); };
                auto chk = [&](const M &g, const std::array<bool, V::Size> &w, int i, const char *what) {
                    expect(s, getm(g), w, [&] { return in() + " lane " + std::to_string(i) + " " + what; });
                };
                bool ba[V::Size];
                for (int k = 0; k < N; ++k) ba[k] = x[k];
                const M base(static_cast<const bool *>(ba));
                for (int i = 0; i < N; ++i) {
                    s.at(m, i);
                    ++C.states;
                    M a = launder(base);
                    const M c = launder(base);
                    expect1(s, bool(a[i]), bool(x[i]), in);
                    expect1(s, bool(c[i]), bool(x[i]), in);
                    for (int b = 0; b < 2; ++b) {
                        M w = launder(base);
                        auto y = x;
                        w[i] = b != 0; y[i] = b; chk(w, y, i, "=");
                        w = launder(base); y = x;
                        bool r = (w[i] |= b != 0); y[i] |= b; chk(w, y, i, "|="); expect1(s, r, bool(y[i]), in);
                        w = launder(base); y = x;
                        r = (w[i] &= b != 0); y[i] &= b; chk(w, y, i, "&="); expect1(s, r, bool(y[i]), in);
                        w = launder(base); y = x;
                        r = (w[i] ^= b != 0); y[i] ^= b; chk(w, y, i, "^="); expect1(s, r, bool(y[i]), in);
                        w = launder(base); y = x;
                        bool t = b;
                        swap(t, w[i]); y[i] = b; chk(w, y, i, "swap"); expect1(s, t, bool(x[i]), in);
                        w = launder(base); y = x;
                        t = b;
                        swap(w[i], t); y[i] = b; chk(w, y, i, "swap"); expect1(s, t, bool(x[i]), in);
                    }
                    for (int j = 0; j < N; ++j) {
                        M w = launder(base);
                        auto y = x;
                        swap(w[i], w[j]); std::swap(y[i], y[j]); chk(w, y, i, "swap elements");
                        w[i] = bool(w[j]); y[i] = y[j]; chk(w, y, i, "m[i] = m[j]");
                    }
                }
                // iteration
                M w = launder(base);
                const M c = launder(base);
                int n = 0;
                for (auto i = Vc::begin(w); i != Vc::end(w) && n <= N; ++i, ++n) expect1(s, n < N && bool(*i) == x[n], true, in);
                expect1(s, n, N, in);
                n = 0;
                for (auto i = Vc::begin(c); i != Vc::end(c) && n <= N; ++i, ++n) expect1(s, n < N && bool(*i) == x[n], true, in);
                n = 0;
                for (bool b : c) { expect1(s, n < N && b == x[n], true, in); if (++n > N) break; }
                for (auto i = Vc::cend(c); i != Vc::cbegin(c) && n > 0;) { --i; --n; expect1(s, bool(*i), bool(x[n]), in); }
                n = 0;
                for (auto i = Vc::begin(w); i != Vc::end(w) && n <= N; i++, ++n) { auto y = x; for (int k = 0; k <= n; ++k) y[k] = !x[k]; *i = !bool(*i); chk(w, y, n, "*it = !*it"); }
            }
    }
    {
        Site s("where(mask) iteration, masks of " + vn<V>());
        if (s.active() && N <= 32)
            for (uint64_t m : masks) {
                s.at(m);
                ++C.states;
                auto in = [&] { return "mask " + Bits()(m); };
                const M c = launder(makem<M>(m));
                std::vector<int> want, got, got2, got3;
                for (int k = 0; k < N; ++k) if ((m >> k) & 1) want.push_back(k);
                for (size_t i : Vc::where(c)) { got.push_back(int(i)); if (got.size() > size_t(N)) break; }
                auto &&w = Vc::where(c);
                for (auto i = Vc::begin(w); i != Vc::end(w) && got2.size() <= size_t(N);) got2.push_back(int(*i++));
                for (auto i = Vc::begin(w); !(i == Vc::end(w)) && got3.size() <= size_t(N); ++i) got3.push_back(int(i.operator->()));
                ++C.transitions;
                C.checks += 3;
                if (got != want || got2 != want || got3 != want) s.fail(in(), "got " + str(got) + " / " + str(got2) + " / " + str(got3) + " want " + str(want));
                else outcome(mix(s.h, m));
            }
    }
    {
        Site s("Mask::generate, masks of " + vn<V>());
        if (s.active())
            for (uint64_t m : masks) {
                s.at(m);
                ++C.states;
                auto in = [&] { return "mask " + Bits()(m); };
                std::array<bool, V::Size> x;
                for (int k = 0; k < N; ++k) x[k] = (m >> k) & 1;
                std::vector<int> calls;
                const M g = M::generate([&](int i) { calls.push_back(i); return ((m >> i) & 1) != 0; });
                expect(s, getm(g), x, in);
                // a generator with state: the k-th call decides lane k
                int next = 0;
                const M g2 = M::generate([&](size_t) { return ((m >> next++) & 1) != 0; });
                expect(s, getm(g2), x, [&] { return "stateful generator, " + in(); });
                expect1(s, int(calls.size()), N, in);
                for (int k = 0; k < N && k < int(calls.size()); ++k) expect1(s, calls[k], k, in);
            }
    }
}
// ------------------------------------------------------------------ apply, generate
static T fn(T x) { return T(x * 2 + 1); }
static int g_n;
template <class I> T fillI(I i) { g_n = g_n * 2 + 1; return T(i * 5 + 3); }
static T fill0() { return T(++g_n * 3); }
struct RecC { std::vector<T> *l; T operator()(T x) const { l->push_back(x); return fn(x); } };
struct RecM { std::vector<T> *l; T operator()(T x) { l->push_back(x); return fn(x); } };
struct RecR { std::vector<T> *l; T operator()(const T &x) const { l->push_back(x); return fn(x); } };

template <class V> MC_NOINLINE void applyCommon()
{
    const size_t N = V::Size;
    typedef typename V::Mask M;
    Lanes<V> x;
    for (size_t k = 0; k < N; ++k) x[k] = tag(k);
    auto cmp = [](Site &s, const std::vector<T> &l, const std::vector<T> &w, const std::string &in) {
        ++C.transitions;
        C.checks += w.size();
        if (l != w) s.fail(in, "called with " + str(l) + " want " + str(w));
        else outcome(mix(s.h, w.size()));
    };
    {
        Site s("apply on " + vn<V>());
        if (s.active())
            forOnes<V>(s, alphabet<T>(1), [&](const Lanes<V> &a) {
                const V v = launder(make<V>(a));
                std::vector<T> l, w(a.begin(), a.end());
                Lanes<V> r;
                for (size_t k = 0; k < N; ++k) r[k] = fn(a[k]);
                bool nan = false;
                for (T e : w) nan |= !(e == e);
                auto in = [&] { return str(a); };
                expect(s, get(V(v.apply(RecC{&l}))), r, in);
                if (!nan) cmp(s, l, w, in());
                expect(s, get(V(v.apply(fn))), r, in);
                expect(s, get(V(v.apply([](T e) { return fn(e); }))), r, in);
                l.clear();
                RecM rm{&l};
                expect(s, get(V(v.apply(rm))), r, in);
                if (!nan) cmp(s, l, w, in());
                l.clear();
                const RecR rr{&l};
                expect(s, get(V(v.apply(rr))), r, in);
                if (!nan) cmp(s, l, w, in());
                expect(s, get(v), a, in);
            });
    }
    {
        Site s("apply(f, mask) on " + vn<V>());
        if (s.active() && N <= 32)
            for (uint64_t m : maskSet(N)) {
                s.at(m);
                ++C.states;
                const V v = launder(make<V>(x));
                const M k = launder(makem<M>(m));
                Lanes<V> r = x;
                std::vector<T> l, w;
                for (size_t i = 0; i < N; ++i) if ((m >> i) & 1) { w.push_back(x[i]); r[i] = fn(x[i]); }
                auto in = [&] { return "mask " + Bits()(m); };
                expect(s, get(V(v.apply(RecC{&l}, k))), r, in);
                cmp(s, l, w, in());
                l.clear();
                RecM rm{&l};
                expect(s, get(V(v.apply(rm, k))), r, in);
                cmp(s, l, w, in());
                expect(s, get(v), x, in);
                // nested: the function itself uses apply on another vector
                int depth = 0;
                expect(s, get(V(v.apply([&](T e) { V u(v.apply([&](T f) { ++depth; return f; }, k)); return T(fn(e) + (get(u) == x ? 0 : 1)); }, k))), r, in);
                expect1(s, depth, int(w.size() * w.size()), in);
            }
    }
    {
        Site s("generate / generator constructor of " + vn<V>());
        if (s.active()) {
            const auto A = alphabet<T>(1);
            for (size_t a = 0; a < A.size(); ++a) {
                s.at(a);
                ++C.states;
                Lanes<V> r;
                for (size_t k = 0; k < N; ++k) r[k] = A[(a + k) % A.size()];
                std::vector<int> calls;
                auto in = [&] { return str(r); };
                auto order = [&] {
                    expect1(s, int(calls.size()), int(N), in);
                    for (size_t k = 0; k < N && k < calls.size(); ++k) expect1(s, calls[k], int(k), in);
                    calls.clear();
                };
                expect(s, get(V(V::generate([&](int i) { calls.push_back(i); return r[i]; }))), r, in);
                order();
                expect(s, get(V([&](size_t i) { calls.push_back(int(i)); return r[i]; })), r, in);
                order();
                const auto g = [&](int i) { calls.push_back(i); return r[i]; };
                expect(s, get(V(g)), r, in);
                order();
                expect(s, get(V(V::generate(g))), r, in);
                order();
                size_t n = 0;
                expect(s, get(V(V::generate([&](size_t) { return r[n++]; }))), r, [&] { return "stateful generator " + str(r); });
                // generators of other arithmetic types, values representable in T
                expect(s, get(V(V::generate([&](int i) { return launder(double(r[i])); }))), r, [&] { return "double generator " + str(r); });
                for (size_t k = 0; k < N; ++k)
                    if (!IsInt && !(r[k] > T(0) && r[k] <= T(1000) && T(int(r[k])) == r[k])) r[k] = T(k);
                expect(s, get(V([&](int i) { return launder(static_cast<long long>(r[i])); })), r, [&] { return "long long generator " + str(r); });
            }
        }
    }
}
// functions only native vectors have
template <class V> MC_NOINLINE void callFamily()
{
    const size_t N = V::Size;
    typedef typename V::Mask M;
    Lanes<V> x;
    for (size_t k = 0; k < N; ++k) x[k] = tag(k);
    auto cmp = [](Site &s, const std::vector<T> &l, const std::vector<T> &w, const std::string &in) {
        ++C.transitions;
        C.checks += w.size();
        if (l != w) s.fail(in, "called with " + str(l) + " want " + str(w));
        else outcome(mix(s.h, w.size()));
    };
    {
        Site s("call(f), call(f, mask), v(mask).call, v(mask).apply on " + vn<V>());
        if (s.active())
            for (uint64_t m : maskSet(N)) {
                s.at(m);
                ++C.states;
                V v = launder(make<V>(x));
                const V &cv = v;
                const M k = launder(makem<M>(m));
                std::vector<T> all(x.begin(), x.end()), w, l;
                Lanes<V> r = x;
                for (size_t i = 0; i < N; ++i) if ((m >> i) & 1) { w.push_back(x[i]); r[i] = fn(x[i]); }
                const std::string in = "mask " + Bits()(m);
                auto fin = [&] { return in; };
                cv.call(RecC{&l}); cmp(s, l, all, in); l.clear();
                RecM rm{&l};
                const RecC rc{&l};
                const RecR rr{&l};
                cv.call(rm); cmp(s, l, all, in); l.clear();
                cv.call(rr); cmp(s, l, all, in); l.clear();
                cv.call(RecC{&l}, k); cmp(s, l, w, in); l.clear();
                cv.call(rm, k); cmp(s, l, w, in); l.clear();
                v(k).call(RecC{&l}); cmp(s, l, w, in); l.clear();
                v(k).call(rm); cmp(s, l, w, in); l.clear();
                v(k).call(rc); cmp(s, l, w, in); l.clear();
                expect(s, get(V(v(k).apply(RecC{&l}))), r, fin); cmp(s, l, w, in); l.clear();
                expect(s, get(V(v(k).apply(rm))), r, fin); cmp(s, l, w, in); l.clear();
                expect(s, get(V(v(k).apply(rc))), r, fin); cmp(s, l, w, in); l.clear();
                expect(s, get(v), x, fin);
            }
    }
    {
        Site s("fill on " + vn<V>());
        if (s.active()) {
            ++C.states;
            Lanes<V> w;
            auto in = [&] { return std::string("fill"); };
            for (size_t k = 0; k < N; ++k) w[k] = T(k * 5 + 3);
            V v = launder(make<V>(x));
            g_n = 0; v.fill(fillI<int>); expect(s, get(v), w, in); expect1(s, g_n, int((1u << N) - 1), in);
            v = launder(make<V>(x));
            g_n = 0; v.fill(fillI<size_t>); expect(s, get(v), w, in); expect1(s, g_n, int((1u << N) - 1), in);
            v = launder(make<V>(x));
            g_n = 0; v.fill(fillI<short>); expect(s, get(v), w, in);
            for (int start = 0; start < 40; ++start) {
                s.at(start);
                ++C.states;
                v = launder(make<V>(x));
                g_n = start;
                v.fill(fill0);
                for (size_t k = 0; k < N; ++k) w[k] = T((start + k + 1) * 3);
                expect(s, get(v), w, in);
                expect1(s, g_n, start + int(N), in);
            }
        }
    }
    {
        Site s("callWithValuesSorted on " + vn<V>());
        if (s.active())
            for (int base = 0; base < 3; ++base)
                for (uint64_t p = 0; p < (1ull << (N - 1)); ++p) {
                    // bit k: a new run starts at lane k+1
                    s.at(base, p);
                    ++C.states;
                    Lanes<V> a;
                    std::vector<T> w, l;
                    T cur = base == 0 ? T(0) : base == 1 ? std::numeric_limits<T>::lowest() : T(std::numeric_limits<T>::max() - T(N));
                    if (!IsInt && base == 2) cur = T(-2);
                    a[0] = cur;
                    w.push_back(cur);
                    for (size_t k = 1; k < N; ++k) {
                        if ((p >> (k - 1)) & 1) {
                            cur = IsInt ? T(cur + 1) : std::nextafter(cur, std::numeric_limits<T>::infinity());
                            w.push_back(cur);
                        }
                        a[k] = cur;
                    }
                    V v = launder(make<V>(a));
                    v.callWithValuesSorted([&](T e) { l.push_back(e); });
                    cmp(s, l, w, str(a));
                    expect(s, get(v), a, [&] { return str(a); });
                }
    }
    {
        // Vc_foreach_bit and nested where loops
        Site s("nested where(mask) loops, " + vn<V>());
        if (s.active())
            for (uint64_t m : maskSet(N)) {
                s.at(m);
                const M k = launder(makem<M>(m));
                std::vector<int> g, w;
                const M nk = !k;
                for (size_t i : Vc::where(k)) for (size_t j : Vc::where(nk)) { g.push_back(int(i * 100 + j)); if (g.size() > N * N) break; }
                for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (((m >> i) & 1) && !((m >> j) & 1)) w.push_back(int(i * 100 + j));
                ++C.states; ++C.transitions; ++C.checks;
                if (g != w) s.fail("mask " + Bits()(m), "got " + str(g) + " want " + str(w));
            }
    }
}
template <class V> void common()
{
    refRead<V>();
    elementOps<V, T>("T", alphabet<T>(g_thorough ? 1 : 0));
    elementOps<V, int>("int", {0, 1, 2, -1, 7, 31, 100, -30000, 30001});
    elementOps<V, double>("double", {0., 1., 2., 0.5, 3.75, 100.});
    swaps<V>();
    histories<V>();
    iteration<V>();
    maskAccess<V>();
    applyCommon<V>();
}
void explore()
{
#if KIND == 0
    forAbis<T>([](auto t) { typedef typename decltype(t)::type V; common<V>(); callFamily<V>(); });
#ifndef Vc_IMPL_Scalar
    forAbisScalar<T>([](auto t) { typedef typename decltype(t)::type V; common<V>(); callFamily<V>(); });
#endif
#elif KIND == 1
    common<Vc::SimdArray<T, 3>>();
    common<Vc::SimdArray<T, Vc::Vector<T>::Size * 2>>();
#else
    common<Vc::SimdArray<T, Vc::Vector<T>::Size>>();
    common<Vc::SimdArray<T, 13>>();
#endif
}
