// C18: simd_for_each / simd_for_each_n. Every range (length, placement relative to the alignment boundaries and to
// inaccessible pages) x functor kind x element type, against the sequence of the elements.
#include "mc.h"
#include <algorithm>
#include <array>
#include <deque>
#include <tuple>
#include <utility>
#include <vector>
using namespace mc;

template <class A> struct P2 { A x, y; Vc_SIMDIZE_INTERFACE((x, y)); };
template <class A, class B, class C3> struct P3 { A x; B y; C3 z; Vc_SIMDIZE_INTERFACE((x, y, z)); P3() : x(), y(), z() {} P3(A a, B b, C3 c) : x(a), y(b), z(c) {} };

// ---- scalar elements are read and written as rows of members
enum { MaxK = 4 };
typedef std::array<int, MaxK> Row;
template <int I, class S> auto mem(S &s, int) -> decltype(s.template vc_get_<I>()) { return s.template vc_get_<I>(); }
template <int I, class S> auto mem(S &s, long) -> decltype(std::get<I>(s)) { return std::get<I>(s); }
template <class S, class = void> struct Count : std::tuple_size<S> {};
template <class T> struct Count<T, typename std::enable_if<std::is_arithmetic<T>::value>::type> : std::integral_constant<int, 1> {};
template <class A> struct Count<P2<A>, void> : std::integral_constant<int, 2> {};
template <class A, class B, class C3> struct Count<P3<A, B, C3>, void> : std::integral_constant<int, 3> {};
template <int I, int K> struct Walk {
    template <class S> static void rd(const S &s, Row &r) { r[I] = int(mem<I>(s, 0)); Walk<I + 1, K>::rd(s, r); }
    template <class S> static void wr(S &s, const Row &r) { auto &m = mem<I>(s, 0); m = typename std::decay<decltype(m)>::type(r[I]); Walk<I + 1, K>::wr(s, r); }
    template <class V> static void vrd(const V &v, size_t j, Row &r) { const auto &m = mem<I>(v, 0); r[I] = int(m[j]); Walk<I + 1, K>::vrd(v, j, r); }
    template <class V> static void add(V &v, int d) { auto &m = mem<I>(v, 0); m = m + typename std::decay<decltype(m)>::type(typename std::decay<decltype(m)>::type::EntryType(d * (I + 1))); Walk<I + 1, K>::add(v, d); }
};
template <int K> struct Walk<K, K> {
    template <class S> static void rd(const S &, Row &) {}
    template <class S> static void wr(S &, const Row &) {}
    template <class V> static void vrd(const V &, size_t, Row &) {}
    template <class V> static void add(V &, int) {}
};
template <class T, bool = std::is_arithmetic<T>::value> struct El {
    enum { K = Count<T>::value };
    static Row rd(const T &s) { Row r{}; Walk<0, K>::rd(s, r); return r; }
    static void wr(T &s, const Row &r) { Walk<0, K>::wr(s, r); }
    template <class V> static Row lane(const V &v, size_t j) { Row r{}; Walk<0, K>::vrd(v, j, r); return r; }
    template <class V> static void add(V &v, int d) { Walk<0, K>::add(v, d); }
};
template <class T> struct El<T, true> {
    enum { K = 1 };
    static Row rd(const T &s) { Row r{}; r[0] = int(s); return r; }
    static void wr(T &s, const Row &r) { s = T(r[0]); }
    template <class V> static Row lane(const V &v, size_t j) { Row r{}; r[0] = int(v[j]); return r; }
    template <class V> static void add(V &v, int d) { v += V(T(d)); }
};

// ---- functors: each records the elements it is shown, in order
struct Log { std::vector<Row> *seen; int calls; void *self; };
template <class T, class V> void note(Log &l, const V &v) { ++l.calls; for (size_t j = 0; j < size_t(V::Size); ++j) l.seen->push_back(El<T>::lane(v, j)); }
enum Kind { MUT_REF, MUT_FWD, IMM_VALUE, IMM_VALUE_MODIFIED, IMM_CONST_REF, STRUCT_REF, STRUCT_CREF, STRUCT_VALUE_MODIFIED, STRUCT_REF_CONST_OP, KINDS };
static const char *kindName[] = {"[](auto &v) { v += 1; }", "[](auto &&v) { v += 1; }", "[](auto v)", "[](auto v) { v += 1; }", "[](const auto &v)", "F::operator()(V &) { v += 1; }", "F::operator()(const V &)", "F::operator()(V) { v += 1; }", "F::operator()(V &) const { v += 1; }"};
static bool writes(int k) { return k == MUT_REF || k == MUT_FWD || k == STRUCT_REF || k == STRUCT_REF_CONST_OP; }
template <class T> struct FRef { Log l; template <class V> void operator()(V &v) { note<T>(l, v); El<T>::add(v, 1); } };
template <class T> struct FCRef { Log l; template <class V> void operator()(const V &v) { note<T>(l, v); } };
template <class T> struct FVal { Log l; template <class V> void operator()(V v) { note<T>(l, v); El<T>::add(v, 1); } };
template <class T> struct FRefC { mutable Log l; template <class V> void operator()(V &v) const { note<T>(l, v); El<T>::add(v, 1); } };

// runs one algorithm; returns the number of calls counted by the returned functor, -1 if unknown
template <class T, class It> int runKind(int how, int kind, It b, It e, std::vector<Row> &seen, std::true_type)
{
    const size_t n = e - b;
    Log l{&seen, 0, nullptr};
#define RUN(F_) { auto r = how == 0 ? Vc::simd_for_each(b, e, F_) : Vc::simd_for_each_n(b, n, F_); (void)r;
    switch (kind) {
    case MUT_REF: { auto f = [&](auto &v) { note<T>(l, v); El<T>::add(v, 1); }; RUN(f) } return l.calls; }
    case MUT_FWD: { auto f = [&](auto &&v) { note<T>(l, v); El<T>::add(v, 1); }; RUN(f) } return l.calls; }
    case STRUCT_REF: RUN(FRef<T>{l}) return r.l.calls; }
    case STRUCT_REF_CONST_OP: RUN(FRefC<T>{l}) return r.l.calls; }
    }
    return -1;
}
template <class T, class It> int runKind(int how, int kind, It b, It e, std::vector<Row> &seen, std::false_type)
{
    const size_t n = e - b;
    Log l{&seen, 0, nullptr};
    switch (kind) {
    case IMM_VALUE: { auto f = [&](auto v) { note<T>(l, v); }; RUN(f) } return l.calls; }
    case IMM_VALUE_MODIFIED: { auto f = [&](auto v) { note<T>(l, v); El<T>::add(v, 1); }; RUN(f) } return l.calls; }
    case IMM_CONST_REF: { auto f = [&](const auto &v) { note<T>(l, v); }; RUN(f) } return l.calls; }
    case STRUCT_CREF: RUN(FCRef<T>{l}) return r.l.calls; }
    case STRUCT_VALUE_MODIFIED: RUN(FVal<T>{l}) return r.l.calls; }
    }
    return -1;
}
template <class T> int val(int pos, int k) { return std::is_same<T, void>::value ? 0 : (pos * 7 + k * 3 + 1) % 1000 + 1; }

static const char *rangeName(int r) { static const char *n[] = {"T *", "const T *", "std::vector<T>::iterator", "std::vector<T>::const_iterator"}; return n[r]; }

template <class T> void range(const std::string &tn, int how, int rk, int kind)
{
    typedef Vc::simdize<T> V;
    const int N = int(V::Size), maxLen = (g_thorough ? 9 : 4) * N + 3, maxOff = std::max<int>(N, 64 / int(sizeof(T))) + 1;
    Site s(std::string(how ? "simd_for_each_n" : "simd_for_each") + "<" + tn + ">(" + rangeName(rk) + ", " + kindName[kind] + ")");
    if (!s.active()) return;
    const bool wr = writes(kind), ro = !wr;
    const int total = maxLen + maxOff + 8;
    Guarded g(total * sizeof(T) + 4096);
    const size_t body = g.hi() - g.lo();
    // placements: interior (every offset in elements), at the end and at the beginning of the accessible memory
    for (int place = 0; place < 3; ++place)
        for (int off = 0; off < (place == 0 ? maxOff : 1); ++off) {
            if (rk >= 2 && (place != 0 || off != 0)) continue;
            for (int len = 0; len <= maxLen; ++len) {
                s.at(place, off, len);
                ++C.states;
                const std::string cfg = std::string(place == 0 ? "interior offset " + str(off) : place == 1 ? "last elements of the accessible memory" : "first elements of the accessible memory") + ", length " + str(len);
                std::vector<Row> seen, want;
                seen.reserve(len + N);
                std::vector<T> vec;
                T *first;
                T *base = nullptr;
                int all = 0;
                if (rk >= 2) { vec.resize(len); first = vec.data(); }
                else {
                    base = place == 1 ? reinterpret_cast<T *>(g.hi()) - len : reinterpret_cast<T *>(g.lo());
                    all = place == 0 ? len + off + N : len;
                    first = place == 0 ? base + off : base;
                    if (place == 0) for (int i = 0; i < all; ++i) { Row r{}; for (int k = 0; k < El<T>::K; ++k) r[k] = 2000 + i; El<T>::wr(base[i], r); }
                }
                for (int i = 0; i < len; ++i) { Row r{}; for (int k = 0; k < El<T>::K; ++k) r[k] = val<T>(i, k); El<T>::wr(first[i], r); want.push_back(r); }
                if (ro && rk < 2) mprotect(g.lo(), body, PROT_READ);
                int calls;
                typedef std::integral_constant<bool, true> Yes;
                typedef std::integral_constant<bool, false> No;
                if (wr) calls = rk == 2 ? runKind<T>(how, kind, vec.begin(), vec.end(), seen, Yes()) : runKind<T>(how, kind, first, first + len, seen, Yes());
                else calls = rk == 0 ? runKind<T>(how, kind, first, first + len, seen, No()) : rk == 1 ? runKind<T>(how, kind, static_cast<const T *>(first), static_cast<const T *>(first + len), seen, No())
                             : rk == 2 ? runKind<T>(how, kind, vec.begin(), vec.end(), seen, No()) : runKind<T>(how, kind, vec.cbegin(), vec.cend(), seen, No());
                if (ro && rk < 2) mprotect(g.lo(), body, PROT_READ | PROT_WRITE);
                ++C.transitions;
                C.checks += len * El<T>::K;
                if (seen != want) {
                    size_t i = 0;
                    while (i < seen.size() && i < want.size() && seen[i] == want[i]) ++i;
                    s.fail(cfg, seen.size() != want.size() ? "the functor saw " + str(int(seen.size())) + " elements instead of " + str(len) + ", first difference at " + str(int(i)) : "element " + str(int(i)) + " seen by the functor is wrong");
                }
                if (calls < 0 || (calls == 0) != (len == 0) || calls > len) s.fail(cfg, "the returned functor counted " + str(calls) + " calls");
                for (int i = 0; i < len; ++i) {
                    const Row r = El<T>::rd(first[i]);
                    for (int k = 0; k < El<T>::K; ++k)
                        if (r[k] != val<T>(i, k) + (wr ? k + 1 : 0)) { s.fail(cfg, "element " + str(i) + " member " + str(k) + " is " + str(r[k]) + " after the call, want " + str(val<T>(i, k) + (wr ? k + 1 : 0))); i = len; break; }
                }
                if (base && place == 0)
                    for (int i = 0; i < all; ++i) if (i < off || i >= off + len) { const Row r = El<T>::rd(base[i]); C.checks++; for (int k = 0; k < El<T>::K; ++k) if (r[k] != 2000 + i) { s.fail(cfg, "element " + str(i - off) + " outside of the range changed"); i = all; break; } }
                outcome(mix(mix(s.h, len), calls));
            }
        }
    s.sample("lengths 0.." + str(maxLen) + ", offsets 0.." + str(maxOff - 1));
    // a null range is empty
    if (rk < 2) {
        s.at(9, 9, 9);
        std::vector<Row> seen;
        T *z = nullptr;
        const int calls = wr ? runKind<T>(how, kind, z, z, seen, std::true_type()) : rk == 0 ? runKind<T>(how, kind, z, z, seen, std::false_type()) : runKind<T>(how, kind, static_cast<const T *>(z), static_cast<const T *>(z), seen, std::false_type());
        if (calls != 0 || !seen.empty()) s.fail("empty range of null pointers", "the functor was called");
    }
}

// ---- sequences of calls on sub-ranges: the functor state is carried on, elements are updated as often as they are covered
template <class T> void histories(const std::string &tn)
{
    typedef Vc::simdize<T> V;
    const int N = int(V::Size), L = 2 * N + 1, depth = g_thorough ? 3 : 2;
    Site s("sequences of simd_for_each/_n<" + tn + ">");
    if (!s.active()) return;
    std::vector<int> cuts = {0, 1, N - 1, N, N + 1, L - 1, L};
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    std::vector<std::array<int, 3>> ops;
    for (int a : cuts) for (int b : cuts) if (a >= 0 && a <= b) for (int h = 0; h < 2; ++h) ops.push_back({{a, b, h}});
    std::vector<int> h(depth, 0);
    Guarded g(L * sizeof(T));
    for (;;) {
        T *p = g.atEnd<T>(L);
        std::vector<Row> m(L), seen, want;
        for (int i = 0; i < L; ++i) { m[i] = Row{}; for (int k = 0; k < El<T>::K; ++k) m[i][k] = val<T>(i, k); El<T>::wr(p[i], m[i]); }
        ++C.traces;
        for (int d = 0; d < depth; ++d) {
            const auto &o = ops[h[d]];
            s.at(d, h[d], h[0]);
            ++C.states; ++C.transitions;
            for (int i = o[0]; i < o[1]; ++i) { want.push_back(m[i]); for (int k = 0; k < El<T>::K; ++k) m[i][k] += k + 1; }
            runKind<T>(o[2], STRUCT_REF, p + o[0], p + o[1], seen, std::true_type());
        }
        C.checks += L + want.size();
        auto desc = [&] { std::string t; for (int d = 0; d < depth; ++d) t += "[" + str(ops[h[d]][0]) + "," + str(ops[h[d]][1]) + ")" + (ops[h[d]][2] ? "n " : " "); return t; };
        if (seen != want) s.fail(desc(), "elements seen");
        for (int i = 0; i < L; ++i) { const Row r = El<T>::rd(p[i]); if (r != m[i]) { s.fail(desc(), "element " + str(i) + " has the wrong value"); break; } }
        int d = depth - 1;
        while (d >= 0 && ++h[d] == int(ops.size())) h[d--] = 0;
        if (d < 0) break;
    }
}

// ---- random access iterators over storage in several pieces
template <class T> struct Pieces {  // allocator: every piece on guarded pages
    typedef T value_type;
    Pieces() {}
    template <class U> Pieces(const Pieces<U> &) {}
    T *allocate(size_t n)
    {
        const size_t P = 4096, b = (n * sizeof(T) + P - 1) / P * P;
        char *m = static_cast<char *>(mmap(0, b + 2 * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(m, P, PROT_NONE);
        mprotect(m + P + b, P, PROT_NONE);
        return reinterpret_cast<T *>(m + P + b) - n;
    }
    void deallocate(T *p, size_t n) { const size_t P = 4096, b = (n * sizeof(T) + P - 1) / P * P; munmap(reinterpret_cast<char *>(p + n) - b - P, b + 2 * P); }
    bool operator==(const Pieces &) const { return true; }
    bool operator!=(const Pieces &) const { return false; }
};
template <class T> void deque(const std::string &tn, int how, int kind)
{
    typedef Vc::simdize<T> V;
    const int N = int(V::Size), chunk = 512 / int(sizeof(T));
    Site s(std::string(how ? "simd_for_each_n" : "simd_for_each") + "<" + tn + ">(std::deque<T>::iterator, " + kindName[kind] + ")");
    if (!s.active()) return;
    for (int start = chunk - N - 1; start <= chunk + 1; ++start)
        for (int len = 0; len <= 2 * N + 3; ++len) {
            s.at(start, len);
            ++C.states; ++C.transitions;
            std::deque<T, Pieces<T>> d(2 * chunk + 4 * N);
            std::vector<Row> seen, want;
            for (size_t i = 0; i < d.size(); ++i) { Row r{}; r[0] = val<T>(int(i), 0); El<T>::wr(d[i], r); if (int(i) >= start && int(i) < start + len) want.push_back(r); }
            const bool wr = writes(kind);
            const auto b = d.begin() + start;
            if (wr) runKind<T>(how, kind, b, b + len, seen, std::true_type()); else runKind<T>(how, kind, b, b + len, seen, std::false_type());
            C.checks += len;
            if (seen != want) s.fail("start " + str(start) + " (pieces of " + str(chunk) + ") length " + str(len), "elements seen");
            for (size_t i = 0; i < d.size(); ++i) if (El<T>::rd(d[i])[0] != val<T>(int(i), 0) + (wr && int(i) >= start && int(i) < start + len)) { s.fail("start " + str(start) + " length " + str(len), "element " + str(int(i)) + " has the wrong value"); break; }
        }
}
template <class T> void type(const std::string &tn)
{
    for (int how = 0; how < 2; ++how) for (int kind = 0; kind < KINDS; ++kind) for (int rk = 0; rk < 4; ++rk) { if (writes(kind) && (rk & 1)) continue; range<T>(tn, how, rk, kind); }
    histories<T>(tn);
}
void explore()
{
#if PART == 0
    type<float>("float");
    type<double>("double");
#elif PART == 1
    type<int>("int");
    type<uint>("uint");
#elif PART == 2
    type<short>("short");
    type<ushort>("ushort");
#elif PART == 3
    type<P2<float>>("struct{float,float}");
    type<std::array<short, 3>>("array<short,3>");
#elif PART == 4
    type<std::tuple<float, float, float>>("tuple<float,float,float>");
    type<std::pair<int, int>>("pair<int,int>");
#elif PART == 5
    type<P3<double, double, double>>("struct{double,double,double}");
    type<std::array<uint, 4>>("array<uint,4>");
#elif PART == 6
    for (int how = 0; how < 2; ++how) for (int kind : {STRUCT_REF, STRUCT_CREF, IMM_VALUE, MUT_REF}) { deque<float>("float", how, kind); deque<double>("double", how, kind); deque<short>("short", how, kind); }
#endif
}
