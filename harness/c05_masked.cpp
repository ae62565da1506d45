// C05: masked writes change exactly the selected lanes.
#include "mc.h"
#include "ref.h"
using namespace mc;

template <class V> struct MW {
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    typedef Ref<T> R;
    typedef Lanes<V> L;
    enum { N = V::Size };
    static constexpr uint64_t Full = (1ull << N) - 1;
    std::string n = vn<V>() + " ";
    std::vector<uint64_t> masks, few;
    MW()
    {
        std::set<uint64_t> s;
        if (N <= (g_thorough ? 10 : 8)) for (uint64_t b = 0; b <= Full; ++b) s.insert(b);
        for (int i = 0; i < N; ++i) {
            s.insert(1ull << i); s.insert(Full ^ (1ull << i)); s.insert((1ull << i) - 1); s.insert(Full ^ ((1ull << i) - 1));
            for (int j = 0; j < i; ++j) s.insert((1ull << i) | (1ull << j));
        }
        for (uint64_t p : {0x5555555555555555ull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0xdeadbeefcafe1234ull, ~0ull, 0ull}) s.insert(p & Full);
        masks.assign(s.begin(), s.end());
        std::set<uint64_t> f = {0, Full, 1, Full & 0x5555555555555555ull, Full & 0xaaaaaaaaaaaaaaaaull, 1ull << (N - 1), Full & 0x3333333333333333ull};
        for (int i = 0; i < N; ++i) f.insert(1ull << i);
        if (N <= 4) for (uint64_t b = 0; b <= Full; ++b) f.insert(b);
        few.assign(f.begin(), f.end());
    }
    static std::string bs(uint64_t b) { char s[32]; snprintf(s, sizeof s, "0x%llx", (unsigned long long)b); return s; }
    // selected lanes: value equality; unselected lanes: bit equality with the old value
    bool check(Site &s, const V &got, const L &old, const L &want, uint64_t m, const char *form, const L &rhs)
    {
        ++C.transitions; C.checks += N;
        L g = get<V>(got);
        for (int i = 0; i < N; ++i) {
            const bool sel = (m >> i) & 1;
            if (sel ? !same(g[i], want[i]) : !bitsame(g[i], old[i])) {
                s.fail(std::string(form) + " mask=" + bs(m) + " v=" + str(old) + " x=" + str(rhs), "lane " + std::to_string(i) + (sel ? " (selected)" : " (unselected)") + " got " + str(g[i]) + " want " + str(sel ? want[i] : old[i]));
                return false;
            }
        }
        outcome(mix(hashLanes(s.h, g), m));
        return true;
    }
    // operand lane arrays: sliding windows over pairs of a small alphabet
    std::vector<std::pair<L, L>> operands(const std::vector<T> &A, const std::vector<T> &B)
    {
        std::vector<std::pair<L, L>> r;
        const size_t na = A.size(), nb = B.size();
        // every pair (a,b) occurs; lanes hold different pairs
        for (size_t j = 0; j < nb; ++j)
            for (size_t i = 0; i < na; i += N) {
                L x, y;
                for (int k = 0; k < N; ++k) { x[k] = A[(i + k) % na]; y[k] = B[(j + k * 5) % nb]; }
                r.push_back({x, y});
            }
        return r;
    }
    template <class F1, class F2, class F3, class F4, class Rf> void op(const char *nm, const std::vector<std::pair<L, L>> &ops, F1 f1, F2 f2, F3 f3, F4 fs, Rf ref)
    {
        Site s(n + "v(m) " + nm + " x"), s2(n + "where(m) | v " + nm + " x"), s3(n + "conditional_assign " + nm), s4(n + "v(m) " + nm + " scalar");
        std::vector<M, Vc::Allocator<M>> mm;
        for (uint64_t m : masks) mm.push_back(makem<M>(m));
        size_t cnt = 0;
        for (auto &p : ops) {
            L w, ws, sc;
            for (int i = 0; i < N; ++i) { w[i] = ref(p.first[i], p.second[i]); sc[i] = p.second[0]; ws[i] = ref(p.first[i], p.second[0]); }
            const V v = make<V>(p.first), x = make<V>(p.second);
            const size_t stepm = (masks.size() > 40 && cnt % 8) ? 3 : 1;
            for (size_t q = cnt++ % stepm; q < masks.size(); q += stepm) {
                const M &k = mm[q];
                const uint64_t m = masks[q];
                ++C.states;
                s.at(cnt, m); s2.at(cnt, m); s3.at(cnt, m); s4.at(cnt, m);
                V a = v; f1(a, k, x); check(s, a, p.first, w, m, "v(m)", p.second);
                V b = v; f2(b, k, x); check(s2, b, p.first, w, m, "where", p.second);
                V c = v; f3(c, k, x); check(s3, c, p.first, w, m, "conditional_assign", p.second);
                V d = v; fs(d, k, launder(p.second[0])); check(s4, d, p.first, ws, m, "scalar rhs", sc);
            }
        }
    }
#define OPS(o, OPN, ref, ops)                                                                                        \
    op(#o, ops, [](V &v, const M &k, const V &x) { v(k) o x; }, [](V &v, const M &k, const V &x) { Vc::where(k) | v o x; }, \
       [](V &v, const M &k, const V &x) { Vc::conditional_assign<Vc::Operator::OPN>(v, k, x); }, [](V &v, const M &k, T x) { v(k) o x; }, ref)
    void vshifts(std::true_type, const std::vector<std::pair<L, L>> &) {}
    void vshifts(std::false_type, const std::vector<std::pair<L, L>> &sops)
    {
        Site s2(n + "v(m) <<= vector, >>= vector");
        for (auto &p : sops)
            for (uint64_t m : few) {
                L wl, wr;
                for (int k = 0; k < N; ++k) { wl[k] = R::shl(p.first[k], p.second[k]); wr[k] = R::shr(p.first[k], p.second[k]); }
                ++C.states; s2.at(bits(p.first[0]), bits(p.second[0]), m);
                M k = makem<M>(m);
                V v = make<V>(p.first), y = make<V>(p.second);
                { V a = v; a(k) <<= y; check(s2, a, p.first, wl, m, "v(m) <<= v", p.second); }
                { V a = v; Vc::where(k) | a >>= y; check(s2, a, p.first, wr, m, "where >>= v", p.second); }
            }
    }
    void ints(std::true_type)
    {
        const std::vector<T> A = alphabet<T>(0);
        auto ops = operands(A, A);
        OPS(&=, AndAssign, R::band, ops);
        OPS(|=, OrAssign, R::bor, ops);
        OPS(^=, XorAssign, R::bxor, ops);
        // unselected lanes may hold a zero divisor: see divisions()
        std::vector<T> D;
        for (T x : A) if (x != 0 && x != T(-1)) D.push_back(x);
        auto dops = operands(A, D);
        OPS(/=, DivideAssign, R::div, dops);
        OPS(%=, RemainderAssign, R::rem, dops);
        std::vector<T> sh;
        for (int i = 0; i < int(sizeof(T) * 8); ++i) sh.push_back(T(i));
        auto sops = operands(A, sh);
        Site s(n + "v(m) <<= n, >>= n");
        for (T c : sh)
            for (size_t i = 0; i < A.size(); i += N)
                for (uint64_t m : few) {
                    L x, wl, wr, sc;
                    for (int k = 0; k < N; ++k) { x[k] = A[(i + k) % A.size()]; wl[k] = R::shl(x[k], c); wr[k] = R::shr(x[k], c); sc[k] = c; }
                    ++C.states; s.at(c, i, m);
                    M k = makem<M>(m);
                    V v = make<V>(x);
                    int ci = launder(int(c));
                    { V a = v; a(k) <<= ci; check(s, a, x, wl, m, "v(m) <<= int", sc); }
                    { V a = v; a(k) >>= ci; check(s, a, x, wr, m, "v(m) >>= int", sc); }
                    { V a = v; Vc::where(k) | a <<= ci; check(s, a, x, wl, m, "where <<= int", sc); }
                    { V a = v; Vc::where(k) | a >>= ci; check(s, a, x, wr, m, "where >>= int", sc); }
                }
        vshifts(std::integral_constant<bool, Vc::Traits::isSimdArray<V>::value>(), sops);
        // a zero divisor in an unselected lane must have no effect (where(y != 0) | x /= y)
        Site s3(n + "where(y != 0) | v /= y, %= y");
        std::vector<T> Z = {T(0), T(3), T(0), T(0), T(1), T(7), T(0)};
        for (auto &p : operands(A, Z)) {
            L wd, wr;
            uint64_t m = 0;
            for (int k = 0; k < N; ++k) { wd[k] = R::div(p.first[k], p.second[k]); wr[k] = R::rem(p.first[k], p.second[k]); if (p.second[k] != 0) m |= 1ull << k; }
            ++C.states; s3.at(bits(p.first[0]), bits(p.second[0]));
            V v = make<V>(p.first), y = make<V>(p.second);
            { V a = v; Vc::where(y != T(0)) | a /= y; check(s3, a, p.first, wd, m, "/=", p.second); }
            { V a = v; Vc::where(y != T(0)) | a %= y; check(s3, a, p.first, wr, m, "%=", p.second); }
            { V a = v; a(y != T(0)) /= y; check(s3, a, p.first, wd, m, "v(m) /=", p.second); }
        }
    }
    void ints(std::false_type)
    {
        auto ops = operands(alphabet<T>(0), alphabet<T>(0));
        OPS(/=, DivideAssign, R::div, ops);
        qnan(std::integral_constant<bool, true>());
    }
    void qnan(std::true_type)
    {
        Site s(n + "setQnan(m)");
        L x, w;
        for (uint64_t m : masks) {
            for (int i = 0; i < N; ++i) { x[i] = alphabet<T>(0)[(i * 3 + m) % alphabet<T>(0).size()]; w[i] = std::numeric_limits<T>::quiet_NaN(); }
            ++C.states; s.at(m);
            V v = make<V>(x);
            v.setQnan(makem<M>(m));
            check(s, v, x, w, m, "setQnan(m)", x);
        }
        V v = make<V>(x); v.setQnan(); check(s, v, x, w, Full, "setQnan()", x);
    }
    void basic()
    {
        const std::vector<T> A = alphabet<T>(std::is_integral<T>::value ? 0 : 0);
        auto ops = operands(A, A);
        OPS(=, Assign, [](T, T b) { return b; }, ops);
        OPS(+=, PlusAssign, R::add, ops);
        OPS(-=, MinusAssign, R::sub, ops);
        OPS(*=, MultiplyAssign, R::mul, ops);
        Site s(n + "self-assignment forms");
        Site si(n + "++/--(m)"), sz(n + "setZero(m), setZeroInverted(m)"), sf(n + "iif");
        for (auto &p : ops)
            for (uint64_t m : few) {
                ++C.states;
                s.at(m, bits(p.first[0])); si.at(m, bits(p.first[0])); sz.at(m, bits(p.first[0])); sf.at(m, bits(p.first[0]));
                const L &x = p.first, &y = p.second;
                const M k = makem<M>(m);
                const V v = make<V>(x), u = make<V>(y);
                L inc, dec, dbl, zero, neg, zinv;
                for (int i = 0; i < N; ++i) { inc[i] = R::add(x[i], T(1)); dec[i] = R::sub(x[i], T(1)); dbl[i] = R::add(x[i], x[i]); zero[i] = 0; neg[i] = R::neg(x[i]); zinv[i] = x[i]; }
                { V a = v; a(k) += a; check(s, a, x, dbl, m, "v(m) += v", x); }
                { V a = v; Vc::where(k) | a = -a; check(s, a, x, neg, m, "where | v = -v", x); }
                { V a = v; Vc::where(k)(a) = u; check(s, a, x, y, m, "where(m)(v) = x", y); }
                { V a = v; a.assign(u, k); check(s, a, x, y, m, "assign(x, m)", y); }
                { V a = v; Vc::where(true) | a = u; check(s, a, x, y, Full, "where(true) | v = x", y); }
                { V a = v; Vc::where(false) | a = u; check(s, a, x, y, 0, "where(false) | v = x", y); }
                { V a = v; ++a(k); check(si, a, x, inc, m, "++v(m)", x); }
                { V a = v; --a(k); check(si, a, x, dec, m, "--v(m)", x); }
                { V a = v; V o = a(k)++; check(si, a, x, inc, m, "v(m)++", x); check(si, o, x, x, 0, "value of v(m)++", x); }
                { V a = v; V o = a(k)--; check(si, a, x, dec, m, "v(m)--", x); check(si, o, x, x, 0, "value of v(m)--", x); }
                { V a = v; ++(Vc::where(k) | a); check(si, a, x, inc, m, "++(where|v)", x); }
                { V a = v; (Vc::where(k) | a)--; check(si, a, x, dec, m, "(where|v)--", x); }
                { V a = v; Vc::where(k)(a)++; check(si, a, x, inc, m, "where(m)(v)++", x); }
                { V a = v; --(Vc::where(k)(a)); check(si, a, x, dec, m, "--(where(m)(v))", x); }
                { V a = v; --(Vc::where(k) | a); check(si, a, x, dec, m, "--(where|v)", x); }
                { V a = v; (Vc::where(k) | a)++; check(si, a, x, inc, m, "(where|v)++", x); }
                { V a = v; ++(Vc::where(k)(a)); check(si, a, x, inc, m, "++(where(m)(v))", x); }
                { V a = v; Vc::where(k)(a)--; check(si, a, x, dec, m, "where(m)(v)--", x); }
                { V a = v; Vc::conditional_assign<Vc::Operator::PreIncrement>(a, k); check(si, a, x, inc, m, "conditional_assign ++x", x); }
                { V a = v; Vc::conditional_assign<Vc::Operator::PostIncrement>(a, k); check(si, a, x, inc, m, "conditional_assign x++", x); }
                { V a = v; Vc::conditional_assign<Vc::Operator::PreDecrement>(a, k); check(si, a, x, dec, m, "conditional_assign --x", x); }
                { V a = v; Vc::conditional_assign<Vc::Operator::PostDecrement>(a, k); check(si, a, x, dec, m, "conditional_assign x--", x); }
                { V a = v; a.setZero(k); check(sz, a, x, zero, m, "setZero(m)", x); }
                { V a = v; a.setZeroInverted(k); check(sz, a, x, zero, Full & ~m, "setZeroInverted(m)", x); }
                { V a = v; a.setZero(); check(sz, a, x, zero, Full, "setZero()", x); }
                { V a = Vc::iif(k, u, v); check(sf, a, x, y, m, "iif(m, x, v)", y); }
                { V a = Vc::iif(launder(bool(m & 1)), u, v); check(sf, a, x, y, (m & 1) ? Full : 0, "iif(bool, x, v)", y); }
                { bool cnd = launder(bool(m & 1)); T t = x[0]; Vc::where(cnd) | t = y[0]; if (!bitsame(t, cnd ? y[0] : x[0])) s.fail("where(bool) | scalar", "wrong"); t = x[0]; Vc::where(cnd) | t += y[0]; if (!same(t, cnd ? R::add(x[0], y[0]) : x[0])) s.fail("where(bool) | scalar +=", str(t)); ++C.transitions; }
            }
    }
    // where(bool): the generic form, on scalars and on vectors
    void boolInts(std::true_type, Site &s, bool c, T x, T y)
    {
#define BOP(o, r) { T t = x; Vc::where(c) | t o y; ++C.transitions; ++C.checks; if (!same(t, c ? T(r) : x)) s.fail(std::string("where(") + (c ? "true" : "false") + ") | x " #o " y; x=" + str(x) + " y=" + str(y), "got " + str(t)); \
                    V v = x; Vc::where(c)(v) o V(y); ++C.transitions; ++C.checks; if (!all_same(v, c ? T(r) : x)) s.fail(std::string("where(") + (c ? "true" : "false") + ")(v) " #o " y; v=" + str(x) + " y=" + str(y), "got " + str(get<V>(v))); }
        BOP(&=, R::band(x, y)) BOP(|=, R::bor(x, y)) BOP(^=, R::bxor(x, y))
        const T z = y == 0 || y == T(-1) ? T(3) : y;
        { T y = z; BOP(/=, R::div(x, z)) BOP(%=, R::rem(x, z)) }
        const int n = int(unsigned(y) % (8 * sizeof(T)));
        { T t = x; Vc::where(c) | t <<= n; if (!same(t, c ? R::shl(x, T(n)) : x)) s.fail("where(bool) | scalar <<=", str(t)); }
        { T t = x; Vc::where(c) | t >>= n; if (!same(t, c ? R::shr(x, T(n)) : x)) s.fail("where(bool) | scalar >>=", str(t)); }
        { V v = x; Vc::where(c) | v <<= n; if (!all_same(v, c ? R::shl(x, T(n)) : x)) s.fail("where(bool) | v <<= int", str(get<V>(v))); }
        { V v = x; Vc::where(c) | v >>= n; if (!all_same(v, c ? R::shr(x, T(n)) : x)) s.fail("where(bool) | v >>= int", str(get<V>(v))); }
    }
    void boolInts(std::false_type, Site &s, bool c, T x, T y) { BOP(/=, R::div(x, y)) }
    bool all_same(const V &v, T w) { for (T e : get<V>(v)) if (!same(e, w)) return false; return true; }
    // SimdArray has no increment operators without a mask
    template <class F> void incVec(F, std::false_type, Site &, const char *, bool, T, T) {}
    template <class F> void incVec(F f, std::true_type, Site &s, const char *e, bool c, T x, T w)
    {
        V t = x; f(t); ++C.transitions; ++C.checks;
        if (!all_same(t, w)) s.fail(std::string("vector, c=") + (c ? "true" : "false") + " " + e + "; t=" + str(x), "got " + str(get<V>(t)));
    }
    void bools()
    {
        Site s(n + "where(bool)");
        const std::vector<T> A = alphabet<T>(0);
        for (T x : A) for (T y : A) for (int b = 0; b < 2; ++b) {
            const bool c = launder(b != 0);
            ++C.states; s.at(bits(x), bits(y), b);
            BOP(=, y) BOP(+=, R::add(x, y)) BOP(-=, R::sub(x, y)) BOP(*=, R::mul(x, y))
            boolInts(std::is_integral<T>(), s, c, x, y);
#define BINC(e, r) { T t = x; e; ++C.transitions; ++C.checks; if (!same(t, c ? T(r) : x)) s.fail(std::string("c=") + (c ? "true" : "false") + " " #e "; t=" + str(x), "got " + str(t)); } \
                   incVec([&](auto &t) { e; }, std::integral_constant<bool, !Vc::Traits::isSimdArray<V>::value>(), s, #e, c, x, c ? T(r) : x);
            BINC(++(Vc::where(c) | t), R::add(x, T(1))) BINC((Vc::where(c) | t)++, R::add(x, T(1))) BINC(++(Vc::where(c)(t)), R::add(x, T(1))) BINC(Vc::where(c)(t)++, R::add(x, T(1)))
            BINC(--(Vc::where(c) | t), R::sub(x, T(1))) BINC((Vc::where(c) | t)--, R::sub(x, T(1))) BINC(--(Vc::where(c)(t)), R::sub(x, T(1))) BINC(Vc::where(c)(t)--, R::sub(x, T(1)))
            // a condition of a template that is a mask for vectors and a bool for scalars
            { T t = x; Vc::where(t < y) | t = y; if (!same(t, x < y ? y : x)) s.fail("where(x < y) | x = y on scalars", str(t)); }
        }
    }
    // all sequences of masked writes up to a depth on one object, model stepped in lock-step
    void sequences()
    {
        Site s(n + "sequences of masked writes");
        if (!s.active()) return;
        L x0;
        for (int i = 0; i < N; ++i) x0[i] = T(i + 1);
        std::vector<uint64_t> ms = {0, Full, Full & 0x5555555555555555ull, Full & 0x6666666666666666ull, 1ull << (N - 1), Full & 0xccccccccccccccccull};
        if (N <= 2) { ms.clear(); for (uint64_t b = 0; b <= Full; ++b) ms.push_back(b); }
        const int depth = g_thorough ? 4 : 3;
        std::vector<M, Vc::Allocator<M>> mm;
        for (uint64_t m : ms) mm.push_back(makem<M>(m));
        V cur[8];
        L mod[8];
        std::string path;
        auto rec = [&](auto &&self, int d) -> void {
            if (d == depth) { ++C.traces; return; }
            for (int o = 0; o < 7; ++o)
                for (size_t q = 0; q < ms.size(); ++q) {
                    ++C.states;
                    s.at(d, o, ms[q]);
                    V &v = cur[d + 1];
                    L &w = mod[d + 1];
                    v = cur[d];
                    w = mod[d];
                    const M &k = mm[q];
                    auto each = [&](auto f, bool inv = false) { for (int i = 0; i < N; ++i) if (bool((ms[q] >> i) & 1) != inv) w[i] = f(w[i], i); };
                    switch (o) {
                    case 0: v(k) += T(3); each([](T a, int) { return R::add(a, 3); }); break;
                    case 1: Vc::where(k) | v = cur[d > 0 ? d - 1 : 0]; each([&](T, int i) { return mod[d > 0 ? d - 1 : 0][i]; }); break;
                    case 2: Vc::where(k) | v *= v; each([](T a, int) { return R::mul(a, a); }); break;
                    case 3: v.setZero(k); each([](T, int) { return T(0); }); break;
                    case 4: --v(k); each([](T a, int) { return R::sub(a, 1); }); break;
                    case 5: v = Vc::iif(k, V(T(5)), v); each([](T, int) { return T(5); }); break;
                    case 6: v.setZeroInverted(k); each([](T, int) { return T(0); }, true); break;
                    }
                    ++C.transitions; C.checks += N;
                    L g = get<V>(v);
                    bool ok = true;
                    for (int i = 0; i < N; ++i) ok = ok && same(g[i], w[i]);
                    if (!ok) { s.fail("depth " + std::to_string(d) + " op " + std::to_string(o) + " mask " + bs(ms[q]) + " from " + str(mod[d]), "got " + str(g) + " want " + str(w)); return; }
                    outcome(hashLanes(s.h, g));
                    self(self, d + 1);
                }
        };
        cur[0] = make<V>(x0); mod[0] = x0;
        rec(rec, 0);
    }
    void run() { basic(); ints(std::integral_constant<bool, std::is_integral<T>::value>()); bools(); sequences(); }
};
template <class V> constexpr uint64_t MW<V>::Full;
template <class T> void types() { forAbis<T>([](auto t) { typedef typename decltype(t)::type V; MW<V>().run(); }); }
template <class V> void one() { MW<V>().run(); }
void explore()
{
#if PART == 0
    types<double>(); types<float>(); types<int>();
#elif PART == 1
    types<Vc::uint>(); types<short>(); types<Vc::ushort>();
#else
    one<Vc::SimdArray<float, 3>>(); one<Vc::SimdArray<int, 5>>(); one<Vc::SimdArray<double, 7>>(); one<Vc::SimdArray<short, 9>>(); one<Vc::SimdArray<Vc::uint, 12>>();
#endif
}
