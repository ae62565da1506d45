// C17: simdize maps structures member-wise and lane-wise. Exploration of operation histories on simdized objects and of
// simdized iterators against a table [lane][member] of values.
#include "mc.h"
#include "masks.h"
#include <tuple>
#include <array>
#include <list>
#include <vector>
#include <deque>
using namespace mc;

template <class A, class B, class C3> struct P3 { A x; B y; C3 z; Vc_SIMDIZE_INTERFACE((x, y, z)); P3() : x(), y(), z() {} P3(A a, B b, C3 c) : x(a), y(b), z(c) {} };
template <class A> struct P2 { A x, y; Vc_SIMDIZE_INTERFACE((x, y)); };
template <class A, class B, class Cc, class D, class E5> struct P5 { A a; B b; Cc c; D d; E5 e; Vc_SIMDIZE_INTERFACE((a, b, c, d, e)); };

// ---- member access of our own
template <int I, class S> auto mem(S &s, int) -> decltype(s.template vc_get_<I>()) { return s.template vc_get_<I>(); }
template <int I, class S> auto mem(S &s, long) -> decltype(std::get<I>(s)) { return std::get<I>(s); }
template <class S> struct Count : std::tuple_size<S> {};
template <class A, class B, class C3> struct Count<P3<A, B, C3>> : std::integral_constant<int, 3> {};
template <class A> struct Count<P2<A>> : std::integral_constant<int, 2> {};
template <class A, class B, class Cc, class D, class E5> struct Count<P5<A, B, Cc, D, E5>> : std::integral_constant<int, 5> {};

typedef int Val;  // every member value is a small integer (bool: parity)
template <class T> Val canon(Val v) { return std::is_same<T, bool>::value ? v & 1 : v; }
template <class S, int I = 0, int K = int(Count<S>::value)> struct Mem {
    template <class U> static void set(S &s, U f) { typedef typename std::decay<decltype(mem<I>(s, 0))>::type T; mem<I>(s, 0) = T(canon<T>(f(I))); Mem<S, I + 1, K>::set(s, f); }
    template <class U> static void get(const S &s, U f) { f(I, Val(mem<I>(s, 0))); Mem<S, I + 1, K>::get(s, f); }
    template <class U> static void types(U f) { S *p = nullptr; typedef typename std::decay<decltype(mem<I>(*p, 0))>::type T; f(I, std::is_same<T, bool>::value); Mem<S, I + 1, K>::types(f); }
    // the members of the vectorised object
    template <class V, class U> static void vget(const V &v, U f) { const auto &m = mem<I>(v, 0); for (size_t l = 0; l < V::Size; ++l) f(I, l, Val(m[l])); Mem<S, I + 1, K>::vget(v, f); }
    template <class V, class U> static void vset(V &v, U f) { typedef typename std::decay<decltype(mem<I>(*static_cast<S *>(nullptr), 0))>::type T; auto &m = mem<I>(v, 0); for (size_t l = 0; l < V::Size; ++l) m[l] = T(canon<T>(f(I, l))); Mem<S, I + 1, K>::vset(v, f); }
};
template <class S, int K> struct Mem<S, K, K> {
    template <class U> static void set(S &, U) {}
    template <class U> static void get(const S &, U) {}
    template <class U> static void types(U) {}
    template <class V, class U> static void vget(const V &, U) {}
    template <class V, class U> static void vset(V &, U) {}
};
enum { MaxK = 8, MaxN = 33 };
typedef std::array<Val, MaxK> Row;
struct Tab { std::vector<Row> r; };
static int fresh(int salt, int l, int k) { return (salt * 37 + l * 8 + k * 3 + 1) % 113 + 1; }

enum Op { ASSIGN, DECO_ASSIGN, SWAP_S, SWAP_DECO_S, SWAP_S_DECO, SWAP_VV, SWAP_SELF, SWAP_DECO, SHIFT, DECO_SHIFT, COPY, MOVE, BCAST, BCAST_ASSIGN, GEN, VIA_COPY, STORE, LOAD, MASK_SET, MASK_ADD, MASK_SUB, MASK_MUL, NOPS };
static const char *opName[] = {"assign(v, i, s)", "decorate(v)[i] = s", "swap(v, i, s)", "std::swap(decorate(v)[i], s)", "std::swap(s, decorate(v)[i])", "swap(v, i, w, j)", "swap(v, i, v, j)", "std::swap(decorate(v)[i], decorate(w)[j])", "shifted(v, n)", "decorate(v).shifted(n)", "v = w", "v = std::move(copy of w)", "v = V(s)", "v = s", "V(generator)", "copy construct", "store_interleaved", "load_interleaved", "where(m) | v = w", "where(m) | v += w", "where(m) | v -= w", "where(m) | v *= w"};

// interface of one simdized type
struct Box {
    int N, K;
    bool isBool[MaxK];
    virtual ~Box() {}
    // executes op; a/b: parameters; s: rows of a scalar object (in and out); seq: rows for generator and memory (in and out)
    virtual bool op(int o, int a, int b, Row &s, std::vector<Row> &seq) = 0;
    virtual void read(bool second, std::vector<Row> &t) = 0;
    virtual void init(bool second, const std::vector<Row> &t) = 0;
    virtual Row extract(int how, int i) = 0;
    virtual bool members() { return true; }
};
template <class S> S mkS(const Row &r) { S s{}; Mem<S>::set(s, [&](int k) { return r[k]; }); return s; }
template <class S> Row rdS(const S &s) { Row r{}; Mem<S>::get(s, [&](int k, Val v) { r[k] = v; }); return r; }

template <class S, class V, bool Inter, bool Masked> struct VBox : Box {
    V *v, *w;
    Guarded mem;
    VBox() : mem(sizeof(S) * V::Size)
    {
        N = int(V::Size); K = int(Count<S>::value);
        Mem<S>::types([&](int k, bool b) { isBool[k] = b; });
        v = new V; w = new V;
    }
    ~VBox() { delete v; delete w; }
    void read(bool second, std::vector<Row> &t) { t.assign(N, Row{}); const V &x = second ? *w : *v; Mem<S>::vget(x, [&](int k, size_t l, Val y) { t[l][k] = y; }); }
    void init(bool second, const std::vector<Row> &t) { V &x = second ? *w : *v; Mem<S>::vset(x, [&](int k, size_t l) { return t[l][k]; }); }
    Row extract(int how, int i)
    {
        const V &c = *v;
        if (how == 0) return rdS<S>(Vc::extract(c, i));
        if (how == 1) { S s = decorate(*v)[i]; return rdS(s); }
        if (how == 2) { S s = decorate(c)[i]; return rdS(s); }
        V copy(c);
        return rdS<S>(Vc::extract(copy, i));
    }
    bool inter(int o, std::vector<Row> &seq, std::true_type)
    {
        for (int at = 0; at < 2; ++at) {  // memory right behind / in front of an inaccessible page
            S *m = at ? reinterpret_cast<S *>(mem.hi() - sizeof(S) * N) : reinterpret_cast<S *>(mem.lo());
            if (o == LOAD) { for (int i = 0; i < N; ++i) new (m + i) S(mkS<S>(seq[i])); load_interleaved(*v, m); }
            else { for (int i = 0; i < N; ++i) new (m + i) S(mkS<S>(Row{})); store_interleaved(*v, m); for (int i = 0; i < N; ++i) { Row r = rdS(m[i]); if (at && r != seq[i]) seq[i][0] = -1; else seq[i] = r; } }
        }
        return true;
    }
    bool inter(int, std::vector<Row> &, std::false_type) { return false; }
    bool masked(int o, int bits, std::true_type)
    {
        typedef typename std::decay<decltype(::mem<0>(*v, 0))>::type M0;
        typedef typename M0::Mask M;
        const M m = makem<M>(uint64_t(unsigned(bits)));
        if (o == MASK_SET) where(m) | *v = *w;
        else if (o == MASK_ADD) where(m) | *v += *w;
        else if (o == MASK_SUB) where(m) | *v -= *w;
        else where(m) | *v *= *w;
        return true;
    }
    bool masked(int, int, std::false_type) { return false; }
    bool op(int o, int a, int b, Row &s, std::vector<Row> &seq)
    {
        S x = mkS<S>(s);
        const size_t i = launder(a), j = launder(b);
        switch (o) {
        case ASSIGN: assign(*v, i, x); break;
        case DECO_ASSIGN: decorate(*v)[i] = x; break;
        case SWAP_S: swap(*v, i, x); break;
        case SWAP_DECO_S: std::swap(decorate(*v)[i], x); break;
        case SWAP_S_DECO: std::swap(x, decorate(*v)[i]); break;
        case SWAP_VV: swap(*v, i, *w, j); break;
        case SWAP_SELF: swap(*v, i, *v, j); break;
        case SWAP_DECO: std::swap(decorate(*v)[i], decorate(*w)[j]); break;
        case SHIFT: { V r = shifted(*v, launder(a)); *v = r; break; }
        case DECO_SHIFT: *v = decorate(*v).shifted(launder(a)); break;
        case COPY: *v = *w; break;
        case MOVE: { V t(*w); *v = std::move(t); break; }
        case BCAST: *v = V(x); break;
        case BCAST_ASSIGN: { V t = x; *v = t; break; }
        case GEN: *v = V([&](size_t k) { return mkS<S>(seq[k]); }); break;
        case VIA_COPY: { V t(*w); V u(std::move(t)); V *q = new V(u); *v = *q; delete q; V *r = new V[2]{u, u}; *v = r[1]; delete[] r; break; }
        case STORE: case LOAD: return inter(o, seq, std::integral_constant<bool, Inter>());
        default: return masked(o, a, std::integral_constant<bool, Masked>());
        }
        s = rdS(x);
        return true;
    }
};
struct Step { int o, a, b; };
static std::string stepName(const Step &q) { return std::string(opName[q.o]) + " i=" + str(q.a) + " j=" + str(q.b); }
static void drive(const std::string &name, const std::function<Box *()> &make)
{
    Site s(name);
    if (!s.active()) return;
    std::unique_ptr<Box> box(make());
    Box &B = *box;
    const int N = B.N, K = B.K;
    std::vector<Step> S;
    for (int o = 0; o < NOPS; ++o) switch (o) {
        case ASSIGN: case DECO_ASSIGN: case SWAP_S: case SWAP_DECO_S: case SWAP_S_DECO: for (int i = 0; i < N; ++i) S.push_back({o, i, 0}); break;
        case SWAP_VV: case SWAP_SELF: case SWAP_DECO: for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) S.push_back({o, i, j}); break;
        case SHIFT: case DECO_SHIFT: for (int i = -N; i <= N; ++i) S.push_back({o, i, 0}); break;
        case MASK_SET: case MASK_ADD: case MASK_SUB: case MASK_MUL: for (uint64_t m : maskSet(N)) S.push_back({o, int(m), 0}); break;
        default: S.push_back({o, 0, 0});
        }
    auto canonT = [&](std::vector<Row> &t) { for (Row &r : t) for (int k = 0; k < MaxK; ++k) r[k] = k >= K ? 0 : B.isBool[k] ? r[k] & 1 : r[k]; };
    auto rows = [&](int salt) { std::vector<Row> t(N); for (int l = 0; l < N; ++l) for (int k = 0; k < K; ++k) t[l][k] = fresh(salt, l, k); canonT(t); return t; };
    std::string hist;
    auto apply = [&](const Step &q, std::vector<Row> &v, std::vector<Row> &w, int salt) -> int {  // -1 not available, 0 failed, 1 fine
        ++C.transitions;
        std::vector<Row> sc = rows(salt + 5), seq = rows(salt + 9);
        Row x = sc[0], want = x;
        std::vector<Row> wantSeq = seq;
        const Row zero{};
        switch (q.o) {
        case ASSIGN: case DECO_ASSIGN: v[q.a] = x; break;
        case SWAP_S: case SWAP_DECO_S: case SWAP_S_DECO: std::swap(v[q.a], want); break;
        case SWAP_VV: case SWAP_DECO: std::swap(v[q.a], w[q.b]); break;
        case SWAP_SELF: std::swap(v[q.a], v[q.b]); break;
        case SHIFT: case DECO_SHIFT: { std::vector<Row> t(N, zero); for (int l = 0; l < N; ++l) if (l + q.a >= 0 && l + q.a < N) t[l] = v[l + q.a]; v = t; break; }
        case COPY: case MOVE: case VIA_COPY: v = w; break;
        case BCAST: case BCAST_ASSIGN: v.assign(N, x); break;
        case GEN: case LOAD: v = seq; break;
        case STORE: wantSeq = v; break;
        default:
            for (int l = 0; l < N; ++l) if (uint64_t(unsigned(q.a)) >> l & 1)
                for (int k = 0; k < K; ++k) { Val &y = v[l][k], z = w[l][k]; if (q.o == MASK_SET) y = z; else if (q.o == MASK_ADD) y += z; else if (q.o == MASK_SUB) y -= z; else y *= z; }
        }
        if (!B.op(q.o, q.a, q.b, x, seq)) return -1;
        hist += (hist.empty() ? "" : "; ") + stepName(q);
        auto complain = [&](const std::string &d) { s.fail(hist, d); return 0; };
        if (x != want) return complain("scalar object has the wrong members");
        if (seq != wantSeq) return complain("memory has the wrong members");
        std::vector<Row> g;
        for (int second = 0; second < 2; ++second) {
            B.read(second, g);
            const std::vector<Row> &t = second ? w : v;
            for (int l = 0; l < N; ++l) for (int k = 0; k < K; ++k) { ++C.checks; if (g[l][k] != t[l][k]) return complain(std::string(second ? "other object" : "object") + " lane " + str(l) + " member " + str(k) + " is " + str(g[l][k]) + " want " + str(t[l][k])); }
        }
        for (int how = 0; how < 4; ++how) for (int l = 0; l < N; ++l) { C.checks += K; if (B.extract(how, l) != v[l]) return complain("extract way " + str(how) + " of lane " + str(l)); }
        return 1;
    };
    const bool deep = g_thorough || N <= 8;
    for (size_t p = 0; p < S.size(); ++p) {
        const size_t n2 = deep ? S.size() + 1 : 1;
        for (size_t q = 0; q < n2; ++q) {
            s.at(p, q);
            if (q && (S[q - 1].o >= MASK_MUL || S[p].o >= MASK_ADD)) continue;  // values grow
            ++C.states;
            hist.clear();
            std::vector<Row> v = rows(1), w = rows(2);
            B.init(false, v); B.init(true, w);
            const int r = apply(S[p], v, w, 3);
            if (r < 0) break;
            if (!r) continue;
            if (q && apply(S[q - 1], v, w, 4) <= 0) continue;
            ++C.traces;
            uint64_t h = s.h;
            for (auto &x : v) for (Val y : x) h = mix(h, y);
            outcome(h);
        }
    }
}
template <class S, size_t N, bool Inter, bool Masked> void type(const std::string &name)
{
    typedef Vc::simdize<S, N> V;
    drive("simdize<" + name + (N ? "," + str(N) : "") + ">", [] { return static_cast<Box *>(new VBox<S, V, Inter, Masked>); });
}
// ---- simdized iterators -----------------------------------------------------------------------
template <class T> struct El { static Row rd(const T &x) { Row r{}; r[0] = Val(x); return r; } static T mk(const Row &r) { return T(r[0]); } enum { K = 1 };
    template <class V> static void vrd(const V &v, std::vector<Row> &t) { t.assign(V::Size, Row{}); for (size_t l = 0; l < V::Size; ++l) t[l][0] = Val(v[l]); }
    template <class V> static void vmk(V &v, const std::vector<Row> &t) { for (size_t l = 0; l < V::Size; ++l) v[l] = T(t[l][0]); } };
template <class... Ts> struct El<std::tuple<Ts...>> { typedef std::tuple<Ts...> S; static Row rd(const S &x) { return rdS(x); } static S mk(const Row &r) { return mkS<S>(r); } enum { K = sizeof...(Ts) };
    template <class V> static void vrd(const V &v, std::vector<Row> &t) { t.assign(V::Size, Row{}); Mem<S>::vget(v, [&](int k, size_t l, Val y) { t[l][k] = y; }); }
    template <class V> static void vmk(V &v, const std::vector<Row> &t) { Mem<S>::vset(v, [&](int k, size_t l) { return t[l][k]; }); } };
template <class It> void step(It &it, int n, std::forward_iterator_tag) { for (; n > 0; --n) ++it; }
template <class It> void step(It &it, int n, std::bidirectional_iterator_tag) { for (; n > 0; --n) ++it; for (; n < 0; ++n) --it; }
template <class It, class V> bool subW(It &it, int d, const V &x, std::random_access_iterator_tag) { it[d] = x; return true; }
template <class It, class V> bool subW(It &, int, const V &, ...) { return false; }
template <class It, class V> bool subR(It &it, int d, V &x, std::random_access_iterator_tag) { const V &a = it[d]; x = a; return true; }
template <class It, class V> bool subR(It &, int, V &, ...) { return false; }
template <class It, class L> std::string order(It base, L &l, size_t N, size_t blocks, std::random_access_iterator_tag)
{
    for (size_t i = 0; i <= blocks; ++i)
        for (size_t j = 0; j <= blocks; ++j) {
            It a = base + i, b = base; b += j;
            It c = base + (i + 1); c -= 1;
            const bool ok = (a - b) == std::ptrdiff_t(i) - std::ptrdiff_t(j) && (a == b) == (i == j) && (a != b) == (i != j) && (a < b) == (i < j) && (a > b) == (i > j) && c == a && ((a + 1) - 1) == a && (std::ptrdiff_t(j) + base) == b
                            && (a <= b) == (i < j || (N == 1 && i == j)) && (a >= b) == (i > j || (N == 1 && i == j));
            if (!ok) return "comparison or distance of block " + str(i) + " and " + str(j);
        }
    return "";
}
template <class It, class L> std::string order(It base, L &, size_t, size_t blocks, ...)
{
    It a = base;
    for (size_t i = 0; i <= blocks; ++i, ++a) { It b = base; for (size_t j = 0; j <= blocks; ++j, ++b) if ((a == b) != (i == j) || (a != b) != (i != j)) return "equality of block " + str(i) + " and " + str(j); }
    return "";
}
template <class V, class P> void arrow(V *t, P &&p) { *t = *p.operator->(); }
template <class L> void iterate(const std::string &name)
{
    typedef typename L::value_type T;
    typedef typename L::iterator SI;
    typedef Vc::simdize<SI> It;
    typedef Vc::simdize<typename L::const_iterator> CIt;
    typedef Vc::simdize<T> V;
    typedef typename std::iterator_traits<SI>::iterator_category Cat;
    Site s("simdize<" + name + "::iterator>");
    if (!s.active()) return;
    const int N = int(V::Size);
    for (int len = N; len <= 4 * N + 1; ++len)
        for (int start = 0; start < N && start + N <= len; ++start) {
            const int blocks = (len - start) / N;
            if (!g_thorough && N > 8 && len % N > 1) continue;
            s.at(len, start);
            ++C.states; ++C.traces;
            const std::string cfg = "length " + str(len) + " start " + str(start);
            L l;
            std::vector<Row> m;
            for (int i = 0; i < len; ++i) { Row r{}; for (int k = 0; k < El<T>::K; ++k) r[k] = fresh(1, i, k); m.push_back(r); l.push_back(El<T>::mk(r)); }
            auto compare = [&](const std::string &what) {
                auto q = l.begin();
                for (int i = 0; i < len; ++i, ++q) { C.checks += El<T>::K; if (El<T>::rd(*q) != m[i]) { s.fail(cfg + " " + what, "container entry " + str(i)); return false; } }
                return true;
            };
            auto view = [&](const V &x, int block, const std::string &what) {
                ++C.transitions;
                std::vector<Row> t;
                El<T>::vrd(x, t);
                for (int j = 0; j < N; ++j) { C.checks += El<T>::K; if (t[j] != m[start + block * N + j]) { s.fail(cfg + " " + what + " block " + str(block), "lane " + str(j)); return false; } }
                return true;
            };
            const SI first = std::next(l.begin(), start);
            const std::string o = order(It(first), l, N, blocks, Cat());
            if (!o.empty()) s.fail(cfg, o);
            int salt = 20;
            for (int b = 0; b < blocks; ++b) {
                It it(first);
                step(it, b, Cat());
                const It &cit = it;
                CIt kit(std::next(l.cbegin(), start));
                step(kit, b, Cat());
                { V x = *it; view(x, b, "*it"); }
                { V x = *cit; view(x, b, "*it (const)"); }
                { V x = *kit; view(x, b, "*const_iterator"); }
                { V x; arrow(&x, it.operator->()); view(x, b, "it->"); compare("after it->"); }
                { V x; arrow(&x, cit.operator->()); view(x, b, "it-> (const)"); }
                if (static_cast<const SI &>(it) != std::next(first, b * N)) s.fail(cfg, "conversion to the scalar iterator, block " + str(b));
                { It p(it); auto q = p++; V x = *q; view(x, b, "p++ result"); if (b + 1 < blocks) { V y = *p; view(y, b + 1, "after p++"); } }
                for (int c = 0; c < blocks; ++c) { V x; if (subR(it, c - b, x, Cat())) view(x, c, "it[" + str(c - b) + "]"); }
                auto values = [&](V &x, int block) { std::vector<Row> t(N); ++salt; for (int j = 0; j < N; ++j) { for (int k = 0; k < El<T>::K; ++k) t[j][k] = fresh(salt, j, k); m[start + block * N + j] = t[j]; } El<T>::vmk(x, t); };
                ++C.transitions;
                { V x; values(x, b); *it = x; compare("*it = block " + str(b)); }
                { V x; values(x, b); auto &&r = *it; r = x; compare("reference = block " + str(b)); V y(r); view(y, b, "reference after assignment"); }
                { V x; values(x, b); { auto p = it.operator->(); *p.operator->() = x; } compare("write through it->, block " + str(b)); }
                for (int c = 0; c < blocks; ++c) { auto keep = m; V x; values(x, c); if (!subW(it, c - b, x, Cat())) m = keep; else compare("it[" + str(c - b) + "] = from block " + str(b)); }
                outcome(mix(mix(s.h, len * 64 + start), b));
            }
        }
}
void explore()
{
#if PART == 0
    type<std::tuple<float, float, float>, 0, true, true>("tuple<float,float,float>");
    type<std::array<float, 3>, 0, true, true>("array<float,3>");
    type<P3<float, float, float>, 0, true, true>("struct{float,float,float}");
#elif PART == 1
    type<std::array<short, 2>, 0, true, false>("array<short,2>");
    type<P2<double>, 0, true, false>("struct{double,double}");
    type<std::pair<short, short>, 0, true, false>("pair<short,short>");
    type<std::tuple<uint, uint>, 0, true, false>("tuple<uint,uint>");
#elif PART == 2
    type<std::tuple<float, double>, 0, false, true>("tuple<float,double>");
    type<std::tuple<double, float>, 0, false, false>("tuple<double,float>");
    type<P3<float, int, double>, 0, false, true>("struct{float,int,double}");
    type<std::tuple<short, int>, 0, false, false>("tuple<short,int>");
#elif PART == 3
    type<std::tuple<float, bool>, 0, false, false>("tuple<float,bool>");
    type<std::tuple<bool, double, bool>, 0, false, false>("tuple<bool,double,bool>");
    type<std::tuple<int, short, ushort>, 0, false, false>("tuple<int,short,ushort>");
    type<P5<float, float, short, int, double>, 0, false, false>("struct{float,float,short,int,double}");
#elif PART == 4
    type<std::array<float, 4>, 0, true, false>("array<float,4>");
    type<std::array<int, 5>, 0, true, false>("array<int,5>");
    type<std::array<float, 8>, 0, true, false>("array<float,8>");
    type<std::tuple<ushort, ushort, ushort>, 0, true, false>("tuple<ushort,ushort,ushort>");
#elif PART == 5
    type<std::tuple<float, int>, 1, false, false>("tuple<float,int>");
    type<std::tuple<float, int>, 3, false, false>("tuple<float,int>");
    type<std::array<double, 3>, 5, false, false>("array<double,3>");
    type<std::tuple<short, double>, 8, false, false>("tuple<short,double>");
    type<P2<float>, 7, false, false>("struct{float,float}");
#elif PART == 6
    iterate<std::vector<float>>("vector<float>");
    iterate<std::vector<short>>("vector<short>");
    iterate<std::vector<double>>("vector<double>");
    iterate<std::list<float>>("list<float>");
    iterate<std::list<int>>("list<int>");
    iterate<std::deque<uint>>("deque<uint>");
#elif PART == 7
    iterate<std::vector<std::tuple<float, int>>>("vector<tuple<float,int>>");
    iterate<std::list<std::tuple<float, unsigned, float>>>("list<tuple<float,unsigned,float>>");
    iterate<std::deque<std::tuple<double, short>>>("deque<tuple<double,short>>");
#endif
}
