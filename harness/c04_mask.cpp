// C04: masks are exact arrays of booleans under every query, combination and conversion.
#include "mc.h"
#include "casts.h"
#include <map>
#include <deque>
using namespace mc;

template <class V> struct Masks {
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    typedef decltype(!std::declval<M>()) R;  // result type of the operators
    enum { N = V::Size };
    static constexpr uint64_t Full = N == 64 ? ~0ull : (1ull << N) - 1;
    std::string n = "mask of " + vn<V>() + " ";
    Guarded gr{64}, gw{64};
    std::vector<uint64_t> all, some;
    Masks()
    {
        std::set<uint64_t> s;
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j) {
                uint64_t b = (1ull << i) | (1ull << j);
                s.insert(b); s.insert(Full & ~b);
                s.insert(((1ull << i) - 1) ^ ((1ull << j) - 1));
                s.insert(Full & ~(((1ull << i) - 1) ^ ((1ull << j) - 1)));
            }
        for (uint64_t p : {0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x3333333333333333ull, 0x0f0f0f0f0f0f0f0full, 0x00ff00ff00ff00ffull, 0xffff0000ffff0000ull, 0xdeadbeefcafe1234ull}) s.insert(p & Full);
        s.insert(Full); s.insert(0);
        some.assign(s.begin(), s.end());
        if (N <= 16) for (uint64_t b = 0; b <= Full; ++b) all.push_back(b);
        else all = some;
        if (N <= (g_thorough ? 9 : 8)) some = all;
    }
    static std::string bs(uint64_t b) { char s[32]; snprintf(s, sizeof s, "0x%llx", (unsigned long long)b); return s; }
    // every query must agree with the bits
    template <class X> bool queries(Site &s, const X &m, uint64_t b, const std::string &in)
    {
        ++C.transitions; C.checks += N;
        std::string bad;
        for (int i = 0; i < N; ++i) if (m[i] != bool((b >> i) & 1)) bad += " m[" + std::to_string(i) + "]";
        if (N <= 32 && uint32_t(m.toInt()) != uint32_t(b)) bad += " toInt=" + bs(uint32_t(m.toInt()));
        if (m.count() != __builtin_popcountll(b)) bad += " count=" + std::to_string(m.count());
        if (b && m.firstOne() != __builtin_ctzll(b)) bad += " firstOne=" + std::to_string(m.firstOne());
        if (m.isFull() != (b == Full) || Vc::all_of(m) != (b == Full)) bad += " isFull/all_of";
        if (m.isEmpty() != (b == 0) || Vc::none_of(m) != (b == 0)) bad += " isEmpty/none_of";
        if (m.isNotEmpty() != (b != 0) || Vc::any_of(m) != (b != 0)) bad += " isNotEmpty/any_of";
        if (m.isMix() != (b != 0 && b != Full) || Vc::some_of(m) != (b != 0 && b != Full)) bad += " isMix/some_of";
        if (!(m == m) || m != m) bad += " m==m";
        if (!bad.empty()) { s.fail(in + " bits=" + bs(b), "wrong:" + bad); return false; }
        outcome(mix(s.h, b));
        return true;
    }
    static void fillBools(bool *p, uint64_t b) { for (int i = 0; i < N; ++i) p[i] = (b >> i) & 1; }
    void producers()
    {
        bool *mem = gr.atEnd<bool>((N + M::MemoryAlignment - 1) / M::MemoryAlignment * M::MemoryAlignment), *end = gr.atEnd<bool>(N);
        bool *un = new (gr.lo()) bool[64];
#define PROD(name, expr)                                                  \
    {                                                                     \
        Site s(n + "from " name);                                         \
        if (s.active()) for (uint64_t b : all) {                          \
            ++C.states; s.at(b);                                          \
            fillBools(mem, b);                                            \
            queries(s, expr, b, name);                                    \
        }                                                                 \
    }
        V iota = V::IndexesFromZero();
        PROD("element writes to Zero", ([&] { M m(Vc::Zero); for (int i = 0; i < N; ++i) m[i] = bool((b >> i) & 1); return m; }()))
        PROD("element writes to One", ([&] { M m(Vc::One); for (int i = N - 1; i >= 0; --i) m[i] = bool((b >> i) & 1); return m; }()))
        PROD("element clears", ([&] { M m(true); for (int i = 0; i < N; ++i) if (!((b >> i) & 1)) m[i] = false; return m; }()))
        PROD("ctor(const bool*)", M(static_cast<const bool *>(mem)))
        PROD("ctor(const bool*, Aligned)", M(static_cast<const bool *>(mem), Vc::Aligned))
        PROD("load(const bool*)", ([&] { M m; m.load(mem); return m; }()))
        PROD("ctor(const bool*, Unaligned) at the end of a page", (fillBools(end, b), M(static_cast<const bool *>(end), Vc::Unaligned)))
        PROD("load(const bool*, Unaligned) at the end of a page", ([&] { fillBools(end, b); M m; m.load(end, Vc::Unaligned); return m; }()))
        PROD("load at every misalignment", ([&] {
            M r(false);
            for (int o = 0; o < 17; ++o) {
                for (int i = 0; i < 64; ++i) un[i] = !(i & 1);
                fillBools(un + o, b);
                M m;
                m.load(un + o, Vc::Unaligned);
                r = o ? R(r & m) : R(m);
                if (!(m == r)) { s.fail(bs(b) + " offset " + std::to_string(o), "differs from other offsets"); }
            }
            return r;
        }()))
        PROD("generate", M::generate([&](int i) -> bool { return (b >> i) & 1; }))
        PROD("vector compare", ([&] { Lanes<V> l; for (int i = 0; i < N; ++i) l[i] = T((b >> i) & 1); return make<V>(l) == V(T(1)); }()))
        PROD("vector compare with lane positions", ([&] { Lanes<V> l; for (int i = 0; i < N; ++i) l[i] = ((b >> i) & 1) ? T(i) : T(i + 1); return make<V>(l) <= iota; }()))
        PROD("negation of the complement", !makem<M>(Full & ~b))
        PROD("element copies from another mask", ([&] { M m(false), o = makem<M>(b); for (int i = 0; i < N; ++i) m[i] = o[i]; return m; }()))
        PROD("element writes through integers", ([&] { M m(false); for (int i = 0; i < N; ++i) m[i] = ((b >> i) & 1) == 1; return m; }()))
        PROD("swapping elements of the reversed mask", ([&] {
            uint64_t r = 0; for (int i = 0; i < N; ++i) r |= uint64_t((b >> i) & 1) << (N - 1 - i);
            M m = makem<M>(r);
            for (int i = 0; i < N / 2; ++i) { bool x = m[i]; m[i] = bool(m[N - 1 - i]); m[N - 1 - i] = x; }
            return m;
        }()))
        PROD("iterator writes", ([&] { M m(false); int i = 0; using Vc::begin; using Vc::end; for (auto it = begin(m); it != end(m); ++it, ++i) *it = bool((b >> i) & 1); return m; }()))
#undef PROD
        Site s(n + "constants");
        queries(s, M(Vc::Zero), 0, "M(Zero)"); queries(s, M(Vc::One), Full, "M(One)");
        queries(s, M(launder(false)), 0, "M(false)"); queries(s, M(launder(true)), Full, "M(true)");
        queries(s, M::Zero(), 0, "Zero()"); queries(s, M::One(), Full, "One()");
        queries(s, M(), 0, "M{}");
        M c = M(Vc::One), d = c; c = M::Zero();
        queries(s, c, 0, "assign"); queries(s, d, Full, "copy");
    }
    void stores()
    {
        bool *mem = gw.atEnd<bool>((N + M::MemoryAlignment - 1) / M::MemoryAlignment * M::MemoryAlignment), *end = gw.atEnd<bool>(N);
        char *un = gr.lo();
        Site s(n + "store"), s2(n + "store misaligned, neighbours kept"), s3(n + "where(mask) iteration"), s4(n + "iterator read");
        for (uint64_t b : all) {
            ++C.states;
            const M m = makem<M>(b);
            s.at(b); s2.at(b); s3.at(b); s4.at(b);
            // byte representation must be exactly 0/1
            auto chk = [&](Site &st, const char *p, const char *what) {
                ++C.transitions; C.checks += N;
                for (int i = 0; i < N; ++i) if (p[i] != char((b >> i) & 1)) { st.fail(std::string(what) + " bits=" + bs(b), "byte " + std::to_string(i) + " is " + std::to_string(int(p[i]))); return; }
            };
            std::memset(mem, 0x55, N); m.store(mem); chk(s, reinterpret_cast<char *>(mem), "store(bool*)");
            std::memset(mem, 0x55, N); m.store(mem, Vc::Aligned); chk(s, reinterpret_cast<char *>(mem), "store(bool*,Aligned)");
            std::memset(end, 0x55, N); m.store(end, Vc::Unaligned); chk(s, reinterpret_cast<char *>(end), "store(bool*,Unaligned) at the end of a page");
            if (b % 5 == 0 || N <= 8)
            for (int o = 1; o < 18; ++o) {
                std::memset(un, 0x2a, 64);
                m.store(reinterpret_cast<bool *>(un + o), Vc::Unaligned);
                chk(s2, un + o, "store(bool*,Unaligned)");
                for (int i = 0; i < 64; ++i) if ((i < o || i >= o + N) && un[i] != 0x2a) { s2.fail("offset " + std::to_string(o) + " bits=" + bs(b), "byte " + std::to_string(i - o) + " outside overwritten"); break; }
            }
            {
                uint64_t r = 0; int prev = -1; bool ok = true; int cnt = 0;
                for (size_t i : Vc::where(m)) {
                    if (int(i) <= prev || i >= size_t(N)) { ok = false; break; }
                    prev = int(i); r |= 1ull << i;
                    if (++cnt > N) break;
                }
                ++C.transitions;
                if (N <= 32 && (!ok || r != b)) s3.fail("bits=" + bs(b), "visited " + bs(r) + (ok ? "" : " (and an index out of range/order)"));
            }
            {
                using Vc::begin; using Vc::end; using Vc::cbegin; using Vc::cend;
                uint64_t r = 0; int i = 0;
                for (auto it = begin(m); it != end(m); ++it, ++i) r |= uint64_t(bool(*it)) << i;
                uint64_t q = 0; i = 0;
                for (bool x : m) q |= uint64_t(x) << i++;
                uint64_t w = 0; i = 0;
                for (auto it = cbegin(m); it != cend(m); it++) w |= uint64_t(bool(*it)) << i++;
                ++C.transitions;
                if (r != b || q != b || w != b) s4.fail("bits=" + bs(b), "read " + bs(r) + " " + bs(q) + " " + bs(w));
            }
        }
    }
    void unary()
    {
        Site s(n + "!m"), s2(n + "shifted");
        for (uint64_t b : all) {
            ++C.states; s.at(b);
            queries(s, !makem<M>(b), Full & ~b, "!");
        }
        for (uint64_t b : (N <= 9 ? all : some)) {
            const M m = makem<M>(b);
            std::vector<int> am;
            for (int a = -2 * N - 2; a <= 2 * N + 2; ++a) am.push_back(a);
            am.push_back(100); am.push_back(-100);
            for (int a : am) {
                ++C.states; s2.at(b, a);
                uint64_t w = 0;
                for (int i = 0; i < N; ++i) if (i + a >= 0 && i + a < N && ((b >> (i + a)) & 1)) w |= 1ull << i;
                queries(s2, m.shifted(launder(a)), w, "shifted(" + std::to_string(a) + ") of " + bs(b));
            }
        }
    }
    void binary()
    {
        struct Op { const char *nm; R (*f)(const M &, const M &); uint64_t (*w)(uint64_t, uint64_t); };
        static const Op ops[] = {
            {"a&&b", [](const M &a, const M &b) -> R { return a && b; }, [](uint64_t a, uint64_t b) { return a & b; }},
            {"a||b", [](const M &a, const M &b) -> R { return a || b; }, [](uint64_t a, uint64_t b) { return a | b; }},
            {"a&b", [](const M &a, const M &b) -> R { return a & b; }, [](uint64_t a, uint64_t b) { return a & b; }},
            {"a|b", [](const M &a, const M &b) -> R { return a | b; }, [](uint64_t a, uint64_t b) { return a | b; }},
            {"a^b", [](const M &a, const M &b) -> R { return a ^ b; }, [](uint64_t a, uint64_t b) { return a ^ b; }},
            {"a&=b", [](const M &a, const M &b) -> R { M c = a; c &= b; return c; }, [](uint64_t a, uint64_t b) { return a & b; }},
            {"a|=b", [](const M &a, const M &b) -> R { M c = a; c |= b; return c; }, [](uint64_t a, uint64_t b) { return a | b; }},
            {"a^=b", [](const M &a, const M &b) -> R { M c = a; c ^= b; return c; }, [](uint64_t a, uint64_t b) { return a ^ b; }},
        };
        const std::vector<uint64_t> &A = some;
        std::vector<M, Vc::Allocator<M>> pre;
        for (uint64_t b : A) pre.push_back(makem<M>(b));
        for (const Op &o : ops) {
            Site s(n + o.nm);
            if (!s.active()) continue;
            for (size_t i = 0; i < A.size(); ++i)
                for (size_t j = 0; j < A.size(); ++j) {
                    if (N > 9 && A.size() > 600 && (i + 3 * j) % 7) continue;
                    ++C.states; s.at(A[i], A[j]);
                    R r = o.f(pre[i], pre[j]);
                    uint64_t w = o.w(A[i], A[j]);
                    // cheap comparison first; full queries on a mismatch-free subset
                    if (N <= 5 || (i + j) % 5 == 0) queries(s, r, w, std::string(o.nm) + " " + bs(A[i]) + " " + bs(A[j]));
                    else { ++C.transitions; ++C.checks; uint64_t g = 0; for (int k = 0; k < N; ++k) g |= uint64_t(bool(r[k])) << k; if (g != w) s.fail(bs(A[i]) + " " + bs(A[j]), "got " + bs(g) + " want " + bs(w)); }
                }
        }
        Site s(n + "==, !=");
        for (size_t i = 0; i < A.size(); ++i)
            for (size_t j = 0; j < A.size(); ++j) {
                ++C.states; ++C.transitions; s.at(A[i], A[j]);
                if ((pre[i] == pre[j]) != (i == j) || (pre[i] != pre[j]) == (i == j)) s.fail(bs(A[i]) + " " + bs(A[j]), "wrong");
            }
    }
    // breadth-first search over operation sequences applied to one mask object; each reachable bit
    // pattern is kept as the object produced by the path, every transition is executed on it
    void sequences()
    {
        Site s(n + "operation sequences (BFS)");
        if (!s.active()) return;
        std::map<uint64_t, size_t> seen;
        std::vector<std::pair<uint64_t, M>, Vc::Allocator<std::pair<uint64_t, M>>> st;
        const size_t cap = g_thorough ? 70000 : 1024;
        st.push_back({0, M(Vc::Zero)}); seen[0] = 0;
        st.push_back({Full, M(Vc::One)}); seen[Full] = 1;
        std::vector<uint64_t> ks = {uint64_t(0x5555555555555555) & Full, uint64_t(0x3333333333333333) & Full, uint64_t(0xf0f0f0f0f0f0f0f0) & Full, 1, 1ull << (N - 1)};
        for (size_t q = 0; q < st.size(); ++q) {
            const uint64_t b = st[q].first;
            const M m0 = st[q].second;
            ++C.states;
            auto step = [&](const M &r, uint64_t w, const char *op, int arg) {
                s.at(b, w, arg);
                if (!queries(s, r, w, std::string("state ") + bs(b) + " op " + op + " " + std::to_string(arg))) return;
                if (!seen.count(w) && st.size() < cap) { seen[w] = st.size(); st.push_back({w, r}); }
            };
            step(!m0, Full & ~b, "!", 0);
            for (int a : {-1, 1, -2, 3}) {
                uint64_t w = 0;
                for (int i = 0; i < N; ++i) if (i + a >= 0 && i + a < N && ((b >> (i + a)) & 1)) w |= 1ull << i;
                step(m0.shifted(a), w, "shifted", a);
            }
            for (uint64_t k : ks) {
                M km = makem<M>(k), c;
                c = m0; c &= km; step(c, b & k, "&=", int(k));
                c = m0; c |= km; step(c, b | k, "|=", int(k));
                c = m0; c ^= km; step(c, b ^ k, "^=", int(k));
                step(m0 && km, b & k, "&&", int(k));
                step(m0 || !km, b | (Full & ~k), "||!", int(k));
            }
            for (int i = 0; i < N; ++i) {
                M c = m0; c[i] = !bool(c[i]); step(c, b ^ (1ull << i), "flip", i);
                c = m0; c[i] = c[(i + 1) % N]; uint64_t w = (b & ~(1ull << i)) | (((b >> ((i + 1) % N)) & 1) << i); step(c, w, "copy element to", i);
            }
            bool *mem = gr.atEnd<bool>(N);
            m0.store(mem, Vc::Unaligned); M c(static_cast<const bool *>(mem), Vc::Unaligned); step(c, b, "store/load", 0);
        }
        ++C.traces;
        s.sample("BFS reached " + std::to_string(st.size()) + " of " + std::to_string(Full + 1) + " masks of " + vn<V>());
    }
    void run() { producers(); stores(); unary(); binary(); sequences(); }
};
template <class V> constexpr uint64_t Masks<V>::Full;
template <class T> void types()
{
    forAbis<T>([](auto t) { typedef typename decltype(t)::type V; Masks<V>().run(); });
}
template <class V> void one() { Masks<V>().run(); }
void explore()
{
#if PART == 0
    types<double>(); types<float>(); types<int>(); types<Vc::uint>(); types<short>(); types<Vc::ushort>();
#elif PART == 1
    one<Vc::SimdArray<float, 1>>(); one<Vc::SimdArray<float, 3>>(); one<Vc::SimdArray<int, 5>>(); one<Vc::SimdArray<float, 8>>();
    one<Vc::SimdArray<double, 7>>(); one<Vc::SimdArray<int, 12>>(); one<Vc::SimdArray<short, 9>>(); one<Vc::SimdArray<Vc::ushort, 17>>(); one<Vc::SimdArray<double, 2>>();
    one<Vc::SimdArray<short, 32>>(); one<Vc::SimdArray<float, 32>>();
#else
    castMatrix<true>();
#endif
}
