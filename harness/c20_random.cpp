// C20: Random(): range, determinism and the evolution of the shared generator state.
// The harness owns the generator state (Vc::Common::RandomState) and explores it explicitly: every draw kind from
// every state of the enumerated state sets, and every sequence of draws up to a depth, each step compared with an
// executable model of the documented generator (result, all 16 state words), plus the range of every value.
#include "mc.h"
using namespace mc;
using Vc::uint;
using Vc::ushort;

struct State { uint32_t w[16]; };
static State rd() { State s; std::memcpy(s.w, &Vc::Common::RandomState[0], 64); return s; }
static void wr(const State &s) { std::memcpy(&Vc::Common::RandomState[0], s.w, 64); asm volatile("" ::: "memory"); }

// ---- the model: one draw of one native vector; writes the entries as bit patterns
enum Kind { K_INT, K_FLT, K_DBL };
struct Prim { Kind k; bool scalar, avx2; int n, size; };  // n lanes of `size` bytes
static uint64_t word64(const State &s, int i) { return s.w[i] | uint64_t(s.w[i + 1]) << 32; }
static void set64(State &s, int i, uint64_t x) { s.w[i] = uint32_t(x); s.w[i + 1] = uint32_t(x >> 32); }
static void model(const Prim &p, State &s, std::vector<uint64_t> &out)
{
    if (p.k == K_DBL) {
        const int first = p.n == 4 ? 0 : 8;  // four generators live in words 0..7, one or two of them in words 8..11
        for (int i = 0; i < p.n; ++i) {
            uint64_t old = word64(s, first + 2 * i), nw = old * 0x5deece66dull + 11;
            if (p.scalar) nw &= 0x000fffffffffffffull;
            set64(s, first + 2 * i, nw);
            double d = fromBits<double>((p.scalar ? nw : old >> 12) | 0x3ff0000000000000ull) - 1.;
            out.push_back(bits(d));
        }
        return;
    }
    const int half = p.scalar ? 1 : p.n * p.size == 32 ? 8 : 4;  // as many generators as 32-bit words in the vector
    uint32_t res[8];
    for (int i = 0; i < half; ++i) {
        const uint32_t a = s.w[i], b = s.w[half + i];
        s.w[half + i] = b * 0xdeece66du + 11;
        s.w[i] = (a * 0xdeece66du + 11) ^ (b >> 16);
        res[i] = a;
    }
    for (int i = 0; i < p.n; ++i) {
        if (p.k == K_FLT) out.push_back(bits(fromBits<float>((p.scalar ? res[i] & 0x0fffffffu : res[i] >> 2) | 0x3f800000u) - 1.f));
        else if (p.scalar) out.push_back(p.size == 4 ? res[0] : res[0] & 0xffffu);
        else out.push_back(p.size == 4 ? res[i] : res[i / 2] >> (16 * (i % 2)) & 0xffffu);
    }
}

struct Draw { std::string name; std::vector<Prim> prims; void (*f)(std::vector<uint64_t> &); int n, size; bool fp; };
template <class V> void run(std::vector<uint64_t> &out)
{
    const V v = V::Random();
    const Lanes<V> l = get(v);
    out.clear();
    for (size_t i = 0; i < V::Size; ++i) out.push_back(bits(l[i]));
}
template <class V> struct Parts;
template <class T, class A> struct Parts<Vc::Vector<T, A>> {
    static void add(std::vector<Prim> &p)
    {
        typedef Vc::Vector<T, A> V;
        p.push_back({std::is_same<T, float>::value ? K_FLT : std::is_same<T, double>::value ? K_DBL : K_INT, std::is_same<A, Vc::VectorAbi::Scalar>::value, false, int(V::Size), int(sizeof(T))});
    }
};
template <class T, int N> struct Parts<Vc::Vector<T, Vc::simd_abi::fixed_size<N>>> {
    static void add(std::vector<Prim> &p) { Parts<Vc::SimdArray<T, size_t(N)>>::add(p); }
};
template <class T, size_t N, class V, size_t M> struct Parts<Vc::SimdArray<T, N, V, M>> {
    typedef Vc::SimdArrayTraits<T, N> Tr;
    static void add(std::vector<Prim> &p) { Parts<typename Tr::storage_type0>::add(p); Parts<typename Tr::storage_type1>::add(p); }
};
template <class T, size_t N, class V> struct Parts<Vc::SimdArray<T, N, V, N>> {
    static void add(std::vector<Prim> &p) { Parts<V>::add(p); }
};
static std::vector<Draw> D;
template <class V> void reg()
{
    Draw d;
    d.name = vn<V>();
    Parts<V>::add(d.prims);
    d.f = &run<V>;
    d.n = int(V::Size);
    d.size = sizeof(typename V::EntryType);
    d.fp = std::is_floating_point<typename V::EntryType>::value;
    D.push_back(d);
}
struct Reg { template <class V> void operator()(Tag<V>) const { reg<V>(); } };
template <class T> void regAll()
{
    forAbis<T>(Reg());
#ifndef Vc_IMPL_Scalar
    forAbisScalar<T>(Reg());
#endif
    reg<Vc::SimdArray<T, 1>>();
    reg<Vc::SimdArray<T, 3>>();
    reg<Vc::SimdArray<T, 8>>();
    reg<Vc::SimdArray<T, 13>>();
}
static std::string show(const State &s)
{
    std::string r = "{";
    char b[16];
    for (int i = 0; i < 16; ++i) { snprintf(b, sizeof b, "%s%08x", i ? " " : "", s.w[i]); r += b; }
    return r + "}";
}
static std::vector<uint64_t> gGot, gWant;
// one transition from state s; the implementation's new state is left in s
static bool step(Site &S, const Draw &d, State &s, bool twice, const std::string &how = "")
{
    wr(s);
    d.f(gGot);
    const State after = rd();
    ++C.transitions;
    C.checks += d.n + 16;
    gWant.clear();
    State m = s;
    for (const Prim &p : d.prims) model(p, m, gWant);
    auto in = [&] { return "state=" + show(s) + how; };
    for (int i = 0; i < d.n; ++i) {
        if (d.fp) {
            const double x = d.size == 4 ? double(fromBits<float>(uint32_t(gGot[i]))) : fromBits<double>(gGot[i]);
            if (!(x >= 0 && x < 1)) { S.fail(in(), "entry " + std::to_string(i) + " is " + str(x) + ", outside of [0, 1)"); return false; }
        }
        if (gGot[i] != gWant[i]) { char b[120]; snprintf(b, sizeof b, "entry %d has the bits %llx, the generator gives %llx", i, (unsigned long long)gGot[i], (unsigned long long)gWant[i]); S.fail(in(), b); return false; }
    }
    if (std::memcmp(&after, &m, sizeof m) != 0) { S.fail(in(), "new state " + show(after) + " want " + show(m)); return false; }
    uint64_t h = S.h;
    for (int i = 0; i < d.n; ++i) h = mix(h, gGot[i]);
    outcome(h);
    if (twice) {  // no hidden state: the same generator state gives the same entries again
        const std::vector<uint64_t> first = gGot;
        wr(s);
        d.f(gGot);
        ++C.transitions;
        C.checks += d.n;
        if (first != gGot) { S.fail(in(), "a second draw from the same state gives other entries"); return false; }
    }
    s = after;
    return true;
}
static const State Init = {{0x5a383a4fu, 0xc68bd45eu, 0x691d6d86u, 0xb367e14fu, 0xd689dbaau, 0xfde442aau, 0x3d265423u, 0x1a77885cu, 0x36ed2684u, 0xfb1f049du, 0x19e52f31u, 0x821e4dd7u, 0x23996d25u, 0x5962725au, 0x6aced4ceu, 0xd4c610f3u}};
static State flat(uint32_t x) { State s; for (auto &w : s.w) w = x; return s; }

static void words(const Draw &d, const State &program)
{
    {
        Site S(d.name + "::Random() from boundary states");
        if (S.active()) {
            const std::vector<uint> A = alphabet<uint>(g_thorough ? 2 : 1), B = alphabet<uint>(0);
            const State bg[] = {Init, flat(0), flat(~0u), flat(0x80000000u), flat(0x7fffffffu)};
            uint64_t k = 0;
            for (int b = 0; b < 5; ++b) {
                State s = bg[b];
                ++C.states;
                S.at(++k);
                step(S, d, s, true);
                for (int i = 0; i < 16; ++i)
                    for (uint a : A) {
                        s = bg[b];
                        s.w[i] = a;
                        ++C.states;
                        S.at(++k);
                        step(S, d, s, b == 0);
                    }
            }
            // two words of one generator, all pairs of values, every placement
            for (int i = 0; i < 16; ++i)
                for (int off : {1, 4, 8})
                    if (i + off < 16)
                        for (uint a : g_thorough ? A : B) for (uint c : g_thorough ? A : B) { State s = Init; s.w[i] = a; s.w[i + off] = c; ++C.states; S.at(++k); step(S, d, s, false); }
            // complete words: all high halves x some low halves and the reverse, spread over all 16 words
            for (uint32_t lo : {0u, 1u, 0xffffu, 0x8000u, 0x7fffu, 0xfffeu})
                for (uint32_t hi = 0; hi < 0x10000u; ++hi) {
                    State s, t;
                    for (int i = 0; i < 16; ++i) { s.w[i] = (hi + i) << 16 | lo; t.w[i] = lo << 16 | (hi + i); }
                    C.states += 2;
                    S.at(++k);
                    step(S, d, s, false);
                    step(S, d, t, false);
                }
            // all values of the generators' upper 12 / lower 12 bits in every lane at once
            for (int r = 0; r < 16; ++r)
                for (uint32_t x = 0; x < 4096; ++x) {
                    State s = Init;
                    for (int i = 0; i < 16; ++i) { s.w[i] = x << 20 | (0xfffffu * (i == r)); }
                    ++C.states;
                    S.at(++k);
                    step(S, d, s, false);
                }
        }
    }
    if (g_thorough && d.prims.size() == 1) {  // every value of a generator word
        Site S(d.name + "::Random() with every 32-bit value in some state word");
        if (S.active())
            for (uint64_t x = 0; x < (1ull << 32); x += 16) {
                State s;
                for (int i = 0; i < 16; ++i) s.w[i] = uint32_t(x + ((i * 5) & 15));
                ++C.states;
                if ((x & 0xffff0) == 0) S.at(x);
                if (!step(S, d, s, false)) break;
            }
    }
    (void)program;
}

static void sequences(size_t first, int depth, const State &start, const char *what)
{
    Site S(D[first].name + "::Random() first in every sequence of draws from " + what);
    if (!S.active()) return;
    std::vector<size_t> path;
    std::set<std::vector<uint32_t>> seen;
    std::function<bool(State, size_t)> dfs = [&](State s, size_t next) -> bool {
        std::string how;
        path.push_back(next);
        ++C.states;
        S.at(C.states);
        const State before = s;
        bool ok = step(S, D[next], s, false);
        (void)before;
        if (ok && int(path.size()) == depth) ++C.traces;
        if (ok && int(path.size()) < depth)
            for (size_t i = 0; i < D.size() && ok; ++i) ok = dfs(s, i);
        path.pop_back();
        return ok;
    };
    dfs(start, first);
}

// long deterministic history: the k-th draw of each kind from the start state, k up to a bound
static void history(const Draw &d, const State &start)
{
    Site S(d.name + "::Random() drawn repeatedly");
    if (!S.active()) return;
    State s = start, t = start;
    std::vector<std::vector<uint64_t>> log;
    const uint64_t n = g_thorough ? 2000000 : 20000;
    for (uint64_t k = 0; k < n; ++k) {
        ++C.states;
        S.at(k);
        if (!step(S, d, s, false)) return;
    }
    wr(t);  // without touching the state between the draws
    for (uint64_t k = 0; k < n; ++k) { d.f(gGot); ++C.transitions; }
    const State e = rd();
    ++C.checks;
    if (std::memcmp(&e, &s, sizeof s) != 0) S.fail("draws=" + std::to_string(n), "uninterrupted sequence ends in " + show(e) + " want " + show(s));
}

static State gProgram;
void explore()
{
    gProgram = rd();
    regAll<float>(); regAll<double>(); regAll<int>(); regAll<uint>(); regAll<short>(); regAll<ushort>();
    {
        Site S("initial generator state");
        if (S.active()) {
            // whatever the initial state is, it must not be degenerate: no two generators start off alike
            ++C.states;
            ++C.transitions;
            for (int i = 0; i < 16; ++i) for (int j = 0; j < i; ++j) { ++C.checks; if (gProgram.w[i] == gProgram.w[j]) S.fail(show(gProgram), "words " + std::to_string(i) + " and " + std::to_string(j) + " are equal"); }
        }
    }
    for (const Draw &d : D) { words(d, gProgram); history(d, gProgram); }
    const int depth = g_thorough ? 4 : 3;
    for (size_t i = 0; i < D.size(); ++i) {
        sequences(i, depth, gProgram, "the program's start state");
        sequences(i, depth, flat(~0u), "a state of all ones");
    }
}
