// C21: makeContainer, Vc::array, Vc::vector and Vc::span.
// makeContainer: every list length x container x type, lists placed against inaccessible memory;
// array/vector: every sequence of operations up to a depth against std::array/std::vector, all observers after each step;
// span: every (extent, offset, count) of every view function, every pair of small views for the relations.
#include <array>
#include <deque>
#include <list>
#include <forward_list>
#include <stdexcept>
#include <string>
#include <vector>
#include "mc.h"
#include "guardalloc.h"
#include <Vc/array>
#include <Vc/vector>
#include <Vc/span>
using namespace mc;
using Vc::uint;
using Vc::ushort;

#if PART == 0 || PART == 1
// ------------------------------------------------------------------ makeContainer
// a list over memory of the harness, so that its end coincides with the end of accessible memory
template <class T> struct ListRep { const T *p; size_t n; };
template <class T> std::initializer_list<T> listOf(const T *p, size_t n)
{
    static_assert(sizeof(std::initializer_list<T>) == sizeof(ListRep<T>), "");
    ListRep<T> r = {p, n};
    std::initializer_list<T> l;
    std::memcpy(static_cast<void *>(&l), &r, sizeof r);
    return l;
}
template <class T> std::vector<T> values(size_t n, int k)
{
    std::vector<T> x;
    const std::vector<T> A = alphabet<T>(0);
    for (size_t i = 0; i < n; ++i) x.push_back(k == 0 ? T(i + 1) : k == 1 ? A[(i * 5 + 2) % A.size()] : T(0) - T(i) - T(3));
    return x;
}
// compares the flattened entries of a container of vectors
template <class C, class T> bool flat(Site &S, const C &c, size_t nvec, const std::vector<T> &x, const std::string &in)
{
    typedef typename std::decay<decltype(*c.begin())>::type V;
    size_t i = 0, k = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++k) {
        const Lanes<V> l = get(*it);
        for (size_t j = 0; j < size_t(V::Size); ++j, ++i) {
            ++mc::C.checks;
            const T want = i < x.size() ? x[i] : T(0);
            if (!bitsame(l[j], want)) { S.fail(in, "entry " + std::to_string(i) + " is " + str(l[j]) + " want " + str(want)); return false; }
        }
    }
    if (k != nvec) { S.fail(in, std::to_string(k) + " vectors want " + std::to_string(nvec)); return false; }
    return true;
}
static MC_NOINLINE void dirty() { volatile char b[8192]; for (size_t i = 0; i < sizeof b; ++i) b[i] = 0x55; }
template <class V, class C> void listContainer(const char *what)
{
    typedef typename V::EntryType T;
    Site S(std::string("makeContainer<std::") + what + "<" + vn<V>() + ">>");
    if (!S.active()) return;
    Guarded g(4096);
    for (size_t n = 0; n <= (g_thorough ? 6 : 4) * V::Size + 3; ++n)
        for (int k = 0; k < 3; ++k)
            for (int place = 0; place < 2; ++place) {
                const std::vector<T> x = values<T>(n, k);
                T *p = reinterpret_cast<T *>(place ? g.atEnd<T>(n) : g.atBegin<T>());
                for (size_t i = 0; i < n; ++i) p[i] = x[i];
                S.at(n, k);
                dirty();
                for (int alias = 0; alias < 2; ++alias) {
                    ++mc::C.states;
                    ++mc::C.transitions;
                    const C c = alias ? Vc::make_container<C, T>(listOf<T>(p, n)) : Vc::makeContainer<C, T>(listOf<T>(p, n));
                    if (!flat(S, c, (n + V::Size - 1) / V::Size, x, "list=" + str(x))) return;
                }
            }
    // literal lists
    {
        ++mc::C.states;
        ++mc::C.transitions;
        const auto c = Vc::makeContainer<C>({T(7)});
        flat(S, c, 1, std::vector<T>{T(7)}, "{7}");
        const auto d = Vc::makeContainer<C>({T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9), T(10), T(11)});
        flat(S, d, (11 + V::Size - 1) / V::Size, std::vector<T>{T(1), T(2), T(3), T(4), T(5), T(6), T(7), T(8), T(9), T(10), T(11)}, "{1..11}");
    }
}
template <class V, size_t N, template <class, size_t> class A> void arrayOne(Site &S, Guarded &g)
{
    typedef typename V::EntryType T;
    typedef A<V, N> Arg;
    typedef decltype(Vc::makeContainer<Arg, T>(std::initializer_list<T>())) R;
    for (int k = 0; k < 3; ++k)
        for (int place = 0; place < 2; ++place) {
            const std::vector<T> x = values<T>(N, k);
            T *p = reinterpret_cast<T *>(place ? g.atEnd<T>(N) : g.atBegin<T>());
            for (size_t i = 0; i < N; ++i) p[i] = x[i];
            ++mc::C.states;
            ++mc::C.transitions;
            S.at(N, k);
            struct Box { char before[64]; R r; char after[64]; };
            alignas(64) static char mem[sizeof(Box) + 64];
            std::memset(mem, 0x55, sizeof mem);
            asm volatile("" ::"r"(mem) : "memory");
            dirty();
            R *r = new (mem + 64) R(Vc::makeContainer<Arg, T>(listOf<T>(p, N)));
            if (!flat(S, *r, (N + V::Size - 1) / V::Size, x, "N=" + std::to_string(N) + " list=" + str(x))) return;
            for (size_t i = 0; i < 64; ++i) if (mem[i] != 0x55 || mem[64 + sizeof(R) + i] != 0x55) { S.fail("N=" + std::to_string(N), "memory outside of the array changed"); return; }
        }
}
template <class V, template <class, size_t> class A, size_t N, size_t Max> struct ArrayAll {
    static void run(Site &S, Guarded &g) { arrayOne<V, N, A>(S, g); ArrayAll<V, A, N + 1, Max>::run(S, g); }
};
template <class V, template <class, size_t> class A, size_t N> struct ArrayAll<V, A, N, N> { static void run(Site &S, Guarded &g) { arrayOne<V, N, A>(S, g); } };
template <class V> void arrays()
{
    Guarded g(4096);
    { Site S("makeContainer<std::array<" + vn<V>() + ", N>>"); if (S.active()) ArrayAll<V, std::array, 1, 2 * V::Size + 2>::run(S, g); }
    { Site S("makeContainer<Vc::array<" + vn<V>() + ", N>>"); if (S.active()) ArrayAll<V, Vc::array, 1, 2 * V::Size + 2>::run(S, g); }
}
struct Make {
    template <class V> void operator()(Tag<V>) const
    {
        typedef Vc::Allocator<V> A;
        listContainer<V, std::vector<V, A>>("vector");
        listContainer<V, std::deque<V, A>>("deque");
        listContainer<V, std::list<V, A>>("list");
        listContainer<V, std::forward_list<V, A>>("forward_list");
        arrays<V>();
    }
};
template <class T> void scalars()
{
    Site S(std::string("makeContainer<std::vector<") + TN<T>::n() + ">>");
    if (!S.active()) return;
    for (size_t n = 0; n < 12; ++n) for (int k = 0; k < 3; ++k) {
        const std::vector<T> x = values<T>(n, k);
        ++mc::C.states;
        ++mc::C.transitions;
        const auto c = Vc::makeContainer<std::vector<T>, T>(listOf<T>(x.data(), n));
        mc::C.checks += n + 1;
        bool ok = c.size() == n;
        for (size_t i = 0; ok && i < n; ++i) ok = bitsame(c[i], x[i]);
        if (!ok) S.fail(str(x), "got " + str(c));
    }
}
template <class T> void makeAll()
{
    Make m;
    forAbis<T>(m);
    m(Tag<Vc::fixed_size_simd<T, 3>>());
    m(Tag<Vc::fixed_size_simd<T, 8>>());
    scalars<T>();
}
template <class T, int N> struct mc::VN<Vc::Vector<T, Vc::simd_abi::fixed_size<N>>> { static std::string n() { return std::string("fixed_size_simd<") + TN<T>::n() + "," + std::to_string(N) + ">"; } };
#endif

#if PART == 2 || PART == 3
// ------------------------------------------------------------------ array / vector against the standard containers
template <class A> struct Obs {  // everything observable
    template <class T> static bool same(A &a, const std::vector<T> &m, std::string &why)
    {
        const A &c = a;
        const size_t n = m.size();
        auto bad = [&](const char *w) { why = w; return false; };
        C.checks += 12 + 12 * n;
        if (a.size() != n || c.size() != n) return bad("size()");
        if (c.empty() != (n == 0)) return bad("empty()");
        if (size_t(a.end() - a.begin()) != n || size_t(c.end() - c.begin()) != n || size_t(c.cend() - c.cbegin()) != n) return bad("end() - begin()");
        if (size_t(a.rend() - a.rbegin()) != n || size_t(c.rend() - c.rbegin()) != n || size_t(c.crend() - c.crbegin()) != n) return bad("rend() - rbegin()");
        size_t i = 0;
        for (auto it = a.begin(); it != a.end(); ++it, ++i) if (!(*it == m[i])) return bad("begin()..end()");
        i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i) if (!(*it == m[i])) return bad("const begin()..end()");
        i = 0;
        for (auto it = c.cbegin(); it != c.cend(); ++it, ++i) if (!(*it == m[i])) return bad("cbegin()..cend()");
        i = n;
        for (auto it = a.rbegin(); it != a.rend(); ++it) if (!(*it == m[--i])) return bad("rbegin()..rend()");
        i = n;
        for (auto it = c.rbegin(); it != c.rend(); ++it) if (!(*it == m[--i])) return bad("const rbegin()..rend()");
        i = n;
        for (auto it = c.crbegin(); it != c.crend(); ++it) if (!(*it == m[--i])) return bad("crbegin()..crend()");
        i = 0;
        for (const auto &e : c) if (!(e == m[i++])) return bad("range-for");
        if (i != n) return bad("range-for length");
        for (i = 0; i < n; ++i) {
            if (!(a[i] == m[i]) || !(c[i] == m[i])) return bad("operator[]");
            if (!(a.at(i) == m[i]) || !(c.at(i) == m[i])) return bad("at()");
            if (!(a.data()[i] == m[i]) || !(c.data()[i] == m[i]) || &a[i] != a.data() + i || &c[i] != a.data() + i) return bad("data()");
        }
        if (n && (!(a.front() == m[0]) || !(c.front() == m[0]) || &a.front() != a.data())) return bad("front()");
        if (n && (!(a.back() == m[n - 1]) || !(c.back() == m[n - 1]) || &a.back() != a.data() + n - 1)) return bad("back()");
        for (size_t o : {n, n + 1, n + 7, ~size_t(0), size_t(1) << 63, size_t(1) << 32}) {
            bool t = false, u = false;
            try { (void)a.at(o); } catch (const std::out_of_range &) { t = true; }
            try { (void)c.at(o); } catch (const std::out_of_range &) { u = true; }
            if (!t || !u) return bad("at() out of range");
        }
        return true;
    }
};
template <class T> struct Val { static T get(int i) { return T(i); } };
template <> struct Val<std::string> { static std::string get(int i) { return i == 0 ? "" : i == 1 ? "x" : std::string("a string that does not fit into the object itself ") + char('0' + i); } };
template <class A> void relations(Site &S, const A &x, const A &y, const std::string &in)
{
    // element-wise reference for ==, lexicographical for <
    const bool eq = x.size() == y.size() && std::equal(x.data(), x.data() + x.size(), y.data()), lt = std::lexicographical_compare(x.data(), x.data() + x.size(), y.data(), y.data() + y.size()),
               gt = std::lexicographical_compare(y.data(), y.data() + y.size(), x.data(), x.data() + x.size());
    ++C.transitions;
    C.checks += 6;
    if ((x == y) != eq) S.fail(in, "==");
    else if ((x != y) == eq) S.fail(in, "!=");
    else if ((x < y) != lt) S.fail(in, "<");
    else if ((x > y) != gt) S.fail(in, ">");
    else if ((x <= y) == gt) S.fail(in, "<=");
    else if ((x >= y) == lt) S.fail(in, ">=");
}
#endif
#if PART == 2
template <class T, size_t N, size_t I> struct Gets {
    static bool ok(Vc::array<T, N> &a)
    {
        const Vc::array<T, N> &c = a;
        static_assert(std::is_same<typename std::tuple_element<I - 1, Vc::array<T, N>>::type, T>::value, "");
        Vc::array<T, N> t(a);
        return &std::get<I - 1>(a) == &a[I - 1] && &std::get<I - 1>(c) == &a[I - 1] && std::get<I - 1>(std::move(t)) == a[I - 1] && Gets<T, N, I - 1>::ok(a);
    }
};
template <class T, size_t N> struct Gets<T, N, 0> { static bool ok(Vc::array<T, N> &) { return true; } };
template <class T, size_t N> void arrayHistory(const char *tn)
{
    typedef Vc::array<T, N> A;
    static_assert(std::tuple_size<A>::value == N, "");
    Site S(std::string("Vc::array<") + tn + "," + std::to_string(N) + "> operation sequences");
    if (!S.active()) return;
    typedef std::vector<T> M;
    std::vector<std::string> names;
    std::vector<std::function<void(A &, A &, M &, M &)>> ops;
    auto add = [&](const std::string &n, std::function<void(A &, A &, M &, M &)> f) { names.push_back(n); ops.push_back(f); };
    for (size_t i = 0; i < N; ++i) {
        const T v = Val<T>::get(int(i) + 2);
        add("a[" + std::to_string(i) + "]=", [=](A &a, A &, M &m, M &) { a[i] = v; m[i] = v; });
        if (i < 2) add("a.at(" + std::to_string(i) + ")=", [=](A &a, A &, M &m, M &) { a.at(i) = Val<T>::get(1); m[i] = Val<T>::get(1); });
    }
    if (N) {
        add("front()=", [](A &a, A &, M &m, M &) { a.front() = Val<T>::get(5); m.front() = Val<T>::get(5); });
        add("back()=", [](A &a, A &, M &m, M &) { a.back() = Val<T>::get(6); m.back() = Val<T>::get(6); });
        add("*begin()=", [](A &a, A &, M &m, M &) { *a.begin() = Val<T>::get(7); m[0] = Val<T>::get(7); });
        add("*rbegin()=", [](A &a, A &, M &m, M &) { *a.rbegin() = Val<T>::get(8); m[N - 1] = Val<T>::get(8); });
        add("*data()=", [](A &a, A &, M &m, M &) { *a.data() = Val<T>::get(9); m[0] = Val<T>::get(9); });
    }
    add("fill", [](A &a, A &, M &m, M &) { a.fill(Val<T>::get(3)); m.assign(N, Val<T>::get(3)); });
    add("reverse", [](A &a, A &, M &m, M &) { std::reverse(a.begin(), a.end()); std::reverse(m.begin(), m.end()); });
    add("rotate(Vc::begin)", [](A &a, A &, M &m, M &) { if (N) { std::rotate(begin(a), begin(a) + 1, end(a)); std::rotate(m.begin(), m.begin() + 1, m.end()); } });
    if (N) add("a.swap(b)", [](A &a, A &b, M &m, M &n) { a.swap(b); std::swap(m, n); });
    if (N) add("std::swap(a,b)", [](A &a, A &b, M &m, M &n) { std::swap(a, b); std::swap(m, n); });
    if (N) add("swap(a,b)", [](A &a, A &b, M &m, M &n) { using std::swap; swap(a, b); std::swap(m, n); });
    add("a=b", [](A &a, A &b, M &m, M &n) { a = b; m = n; });
    add("b=copy of a", [](A &a, A &b, M &m, M &n) { A t(a); b = std::move(t); n = m; });
    std::vector<size_t> path;
    const int depth = g_thorough ? 4 : 3;
    std::function<void(const A &, const A &, const M &, const M &)> rec = [&](const A &a0, const A &b0, const M &m0, const M &n0) {
        auto in = [&] { std::string r; for (size_t o : path) r += (r.empty() ? "" : "; ") + names[o]; return r; };
        {
            A a(a0), b(b0);
            std::string why;
            ++C.states;
            S.at(C.states);
            if (!Obs<A>::same(a, m0, why) || !Obs<A>::same(b, n0, why)) { S.fail(in(), why); return; }
            if (!Gets<T, N, N>::ok(a)) { S.fail(in(), "std::get"); return; }
            if (a.max_size() != N) { S.fail(in(), "max_size()"); return; }
            relations(S, a, b, in());
            relations(S, a, A(a), in());
        }
        if (int(path.size()) == depth) { ++C.traces; return; }
        for (size_t o = 0; o < ops.size(); ++o) {
            A a(a0), b(b0);
            M m(m0), n(n0);
            ops[o](a, b, m, n);
            ++C.transitions;
            path.push_back(o);
            rec(a, b, m, n);
            path.pop_back();
        }
    };
    A a = {{}}, b = {{}};
    M m, n;
    for (size_t i = 0; i < N; ++i) { a[i] = Val<T>::get(int(i)); b[i] = Val<T>::get(int(N - i)); m.push_back(a[i]); n.push_back(b[i]); }
    rec(a, b, m, n);
}
template <class T, size_t N> void arrayRelations()
{
    Site S(std::string("Vc::array<") + TN<T>::n() + "," + std::to_string(N) + "> relations");
    if (!S.active()) return;
    std::vector<T> A = {T(0), T(1), T(2)};
    if (std::is_floating_point<T>::value) { A.push_back(std::numeric_limits<T>::quiet_NaN()); A.push_back(-T(0)); }
    else A.push_back(std::numeric_limits<T>::min());
    size_t total = 1;
    for (size_t i = 0; i < N; ++i) total *= A.size();
    auto mk = [&](size_t k) { Vc::array<T, N> a = {{}}; for (size_t i = 0; i < N; ++i, k /= A.size()) a[i] = A[k % A.size()]; return a; };
    for (size_t i = 0; i < total; ++i)
        for (size_t j = 0; j < total; ++j) {
            const auto x = mk(i), y = mk(j);
            ++C.states;
            S.at(i, j);
            relations(S, x, y, std::to_string(i) + " " + std::to_string(j));
        }
}
// constant expressions
static constexpr Vc::array<int, 3> K = {{4, 5, 6}};
static_assert(K[0] == 4 && K[2] == 6 && K.at(1) == 5 && K.front() == 4 && K.back() == 6 && K.size() == 3 && !K.empty() && std::get<1>(K) == 5, "");
#endif
#if PART == 3
template <class T> void vectorHistory(const char *tn)
{
    typedef Vc::vector<T> A;
    typedef std::vector<T> M;
    Site S(std::string("Vc::vector<") + tn + "> operation sequences");
    if (!S.active()) return;
    struct Op { std::string n; std::function<void(A &, A &, M &, M &)> f; };
    std::vector<Op> ops;
    auto add = [&](const std::string &n, std::function<void(A &, A &, M &, M &)> f) { ops.push_back({n, f}); };
    const T v1 = Val<T>::get(1), v2 = Val<T>::get(2), v3 = Val<T>::get(3);
    add("push_back", [=](A &a, A &, M &m, M &) { a.push_back(v1); m.push_back(v1); });
    add("emplace_back", [=](A &a, A &, M &m, M &) { a.emplace_back(v3); m.emplace_back(v3); });
    add("pop_back", [=](A &a, A &, M &m, M &) { if (m.size()) { a.pop_back(); m.pop_back(); } });
    add("insert(begin)", [=](A &a, A &, M &m, M &) { a.insert(a.begin(), v2); m.insert(m.begin(), v2); });
    add("insert(middle, n)", [=](A &a, A &, M &m, M &) { a.insert(a.begin() + a.size() / 2, 3, v3); m.insert(m.begin() + m.size() / 2, 3, v3); });
    add("erase(begin)", [=](A &a, A &, M &m, M &) { if (m.size()) { a.erase(a.begin()); m.erase(m.begin()); } });
    add("resize(5)", [=](A &a, A &, M &m, M &) { a.resize(5); m.resize(5); });
    add("resize(2, x)", [=](A &a, A &, M &m, M &) { a.resize(2, v3); m.resize(2, v3); });
    add("assign(4, x)", [=](A &a, A &, M &m, M &) { a.assign(4, v2); m.assign(4, v2); });
    add("assign(list)", [=](A &a, A &, M &m, M &) { a.assign({v1, v2, v3}); m.assign({v1, v2, v3}); });
    add("clear", [=](A &a, A &, M &m, M &) { a.clear(); m.clear(); });
    add("reserve+shrink", [=](A &a, A &, M &, M &) { a.reserve(50); a.shrink_to_fit(); });
    add("a[last]=", [=](A &a, A &, M &m, M &) { if (m.size()) { a[m.size() - 1] = v1; m[m.size() - 1] = v1; } });
    add("a[0]= (int, unsigned, long subscripts)", [=](A &a, A &, M &m, M &) { if (m.size() > 2) { a[0] = v3; a[1u] = v2; a[2l] = v1; m[0] = v3; m[1] = v2; m[2] = v1; } });
    add("swap", [](A &a, A &b, M &m, M &n) { a.swap(b); m.swap(n); });
    add("std::swap", [](A &a, A &b, M &m, M &n) { std::swap(a, b); std::swap(m, n); });
    add("a=b", [](A &a, A &b, M &m, M &n) { a = b; m = n; });
    add("b=move(a)", [](A &a, A &b, M &m, M &n) { b = std::move(a); a.clear(); n = std::move(m); m.clear(); });
    add("a=A(const b)", [](A &a, A &b, M &m, M &n) { const A &c = b; A t(c); a = t; m = n; });
    add("a=A(b)", [](A &a, A &b, M &m, M &n) { A t(b); a = std::move(t); m = n; });
    add("a=A(b.begin(), b.end())", [](A &a, A &b, M &m, M &n) { a = A(b.begin(), b.end()); m = n; });
    add("a=A(3, x)", [=](A &a, A &, M &m, M &) { a = A(size_t(3), v2); m = M(3, v2); });
    add("a=A(4)", [=](A &a, A &, M &m, M &) { a = A(size_t(4)); m = M(4); });
    add("a=A{list}", [=](A &a, A &, M &m, M &) { a = A{v3, v1}; m = M{v3, v1}; });
    add("reverse", [](A &a, A &, M &m, M &) { std::reverse(a.begin(), a.end()); std::reverse(m.begin(), m.end()); });
    std::vector<size_t> path;
    const int depth = g_thorough ? 4 : 3;
    std::function<void(const A &, const A &, const M &, const M &)> rec = [&](const A &a0, const A &b0, const M &m0, const M &n0) {
        auto in = [&] { std::string r; for (size_t o : path) r += (r.empty() ? "" : "; ") + ops[o].n; return r; };
        {
            A a(a0), b(b0);
            std::string why;
            ++C.states;
            S.at(C.states);
            if (!Obs<A>::same(a, m0, why) || !Obs<A>::same(b, n0, why)) { S.fail(in(), why); return; }
            const A &c = a, &d = b;
            relations(S, c, d, in());
            relations(S, c, A(c), in());
        }
        if (int(path.size()) == depth) { ++C.traces; return; }
        for (size_t o = 0; o < ops.size(); ++o) {
            A a(a0), b(b0);
            M m(m0), n(n0);
            ops[o].f(a, b, m, n);
            ++C.transitions;
            path.push_back(o);
            rec(a, b, m, n);
            path.pop_back();
        }
    };
    const A b{v2, v1};
    const M n{v2, v1};
    rec(A(), b, M(), n);
    rec(A{v1, v2, v3}, A(), M{v1, v2, v3}, M());
}
#endif
#if PART == 4
// ------------------------------------------------------------------ span
static Guarded &mem() { static Guarded g(4096); return g; }
template <class Sp> bool view(Site &S, const Sp &s, typename Sp::pointer p, ptrdiff_t n, const std::string &in)
{
    ++C.transitions;
    C.checks += 12 + 4 * n;
    auto bad = [&](const char *w) { S.fail(in, w); return false; };
    typedef typename Sp::element_type T;
    if (s.size() != n) return bad("size()");
    if (s.size_bytes() != n * ptrdiff_t(sizeof(T))) return bad("size_bytes()");
    if (s.empty() != (n == 0)) return bad("empty()");
    if (s.data() != p) return bad("data()");
    if (s.begin() != p || s.end() != p + n || s.cbegin() != p || s.cend() != p + n) return bad("begin()/end()");
    if (begin(s) != p || end(s) != p + n) return bad("begin(s)/end(s)");
    if (s.rend() - s.rbegin() != n || s.crend() - s.crbegin() != n) return bad("rend() - rbegin()");
    ptrdiff_t i = 0;
    for (auto &e : s) { if (&e != p + i) return bad("range-for"); ++i; }
    if (i != n) return bad("range-for length");
    for (auto it = s.rbegin(); it != s.rend(); ++it) if (&*it != p + --i) return bad("rbegin()");
    i = n;
    for (auto it = s.crbegin(); it != s.crend(); ++it) if (&*it != p + --i) return bad("crbegin()");
    for (i = 0; i < n; ++i) {
        if (&s[i] != p + i || &s[int(i)] != p + i || &s[size_t(i)] != p + i) return bad("operator[]");
        if (&s(i) != p + i) return bad("operator()");
    }
    return true;
}
template <class T, ptrdiff_t E, ptrdiff_t O, ptrdiff_t N> struct Sub {  // all compile-time views of [O, O + N)
    template <class Sp> static void run(Site &S, const Sp &s, T *p)
    {
        const std::string in = "extent=" + std::to_string(E) + " offset=" + std::to_string(O) + " count=" + std::to_string(N);
        ++C.states;
        S.at(O, N);
        view(S, s.template subspan<O, N>(), p + O, N, in + " subspan<O, N>()");
        view(S, s.template subspan<O>(), p + O, E - O, in + " subspan<O>()");
        if (O == 0) view(S, s.template first<N>(), p, N, in + " first<N>()");
        if (O + N == E) view(S, s.template last<N>(), p + O, N, in + " last<N>()");
        Next<N == E - O>::run(S, s, p);
    }
    template <bool Last, class = void> struct Next { template <class Sp> static void run(Site &S, const Sp &s, T *p) { Sub<T, E, O, N + 1>::run(S, s, p); } };
    template <class D> struct Next<true, D> { template <class Sp> static void run(Site &S, const Sp &s, T *p) { Sub<T, E, O + 1, 0>::run(S, s, p); } };
};
template <class T, ptrdiff_t E, ptrdiff_t N> struct SubEnd {};
template <class Sp, class T> void dynamicViews(Site &S, const Sp &s, T *p, ptrdiff_t n)
{
    for (ptrdiff_t o = 0; o <= n; ++o) {
        ++C.states;
        S.at(o, n);
        const std::string in = "size=" + std::to_string(n) + " offset=" + std::to_string(o);
        view(S, s.subspan(o), p + o, n - o, in + " subspan(o)");
        view(S, s.first(o), p, o, in + " first(o)");
        view(S, s.last(o), p + n - o, o, in + " last(o)");
        for (ptrdiff_t c = 0; o + c <= n; ++c) {
            ++C.states;
            const auto t = s.subspan(o, c);
            if (!view(S, t, p + o, c, in + " count=" + std::to_string(c))) return;
            // views of views
            for (ptrdiff_t a = 0; a <= c; ++a) { view(S, t.subspan(a), p + o + a, c - a, in + " nested"); view(S, t.last(a), p + o + c - a, a, in + " nested last"); view(S, t.first(a).subspan(a / 2), p + o + a / 2, a - a / 2, in + " nested first"); }
        }
    }
}
template <class T, ptrdiff_t E, ptrdiff_t O> struct SubStop;
template <class T, ptrdiff_t E> struct Sub<T, E, E, 1> { template <class Sp> static void run(Site &, const Sp &, T *) {} };
template <class T, ptrdiff_t E> struct Sub<T, E, E, 0> {
    template <class Sp> static void run(Site &S, const Sp &s, T *p)
    {
        ++C.states;
        view(S, s.template subspan<E, 0>(), p + E, 0, "extent=" + std::to_string(E) + " subspan<E, 0>()");
        view(S, s.template subspan<E>(), p + E, 0, "extent=" + std::to_string(E) + " subspan<E>()");
        view(S, s.template last<0>(), p + E, 0, "extent=" + std::to_string(E) + " last<0>()");
    }
};
template <class T, ptrdiff_t E> void writes(Site &S, Vc::span<T, E> s, T *p, ptrdiff_t n)
{
    // a write through the view changes exactly that element
    for (ptrdiff_t i = 0; i < n; ++i)
        for (int how = 0; how < 5; ++how) {
            for (ptrdiff_t k = -1; k <= n; ++k) p[k] = T(k + 10);
            ++C.states;
            ++C.transitions;
            if (how == 0) s[i] = T(99);
            else if (how == 1) s(i) = T(99);
            else if (how == 2) *(s.begin() + i) = T(99);
            else if (how == 3) *(s.rbegin() + (n - 1 - i)) = T(99);
            else s.subspan(i, 1)[0] = T(99);
            for (ptrdiff_t k = -1; k <= n; ++k) { ++C.checks; if (p[k] != (k == i ? T(99) : T(k + 10))) { S.fail("n=" + std::to_string(n) + " i=" + std::to_string(i) + " how=" + std::to_string(how), "element " + std::to_string(k) + " is wrong"); return; } }
        }
}
template <class T, ptrdiff_t E> void staticSpan()
{
    Site S(std::string("Vc::span<") + TN<T>::n() + "," + std::to_string(E) + ">");
    if (!S.active()) return;
    T *p = reinterpret_cast<T *>(mem().atEnd<T>(E));
    static_assert(Vc::span<T, E>::extent == E, "");
    const Vc::span<T, E> s(p, ptrdiff_t(E)), t(p, p + E), copy(s);
    const Vc::span<const T, E> c(s);
    const Vc::span<T> d(s);
    const Vc::span<const T> e(s), f(d);
    const Vc::span<T, E> back(d);
    for (auto &x : {s, t, copy, back}) view(S, x, p, E, "constructed");
    view(S, c, p, E, "span<const T, E>");
    view(S, d, p, E, "span<T>");
    view(S, e, p, E, "span<const T>");
    view(S, f, p, E, "span<const T>");
    Sub<T, E, 0, 0>::run(S, s, p);
    Sub<const T, E, 0, 0>::run(S, c, p);
    dynamicViews(S, s, p, E);
    dynamicViews(S, d, p, E);
    dynamicViews(S, c, static_cast<const T *>(p), E);
    alignas(64) T own[E + 3];
    writes<T, E>(S, Vc::span<T, E>(own + 1, ptrdiff_t(E)), own + 1, E);
    writes<T, -1>(S, Vc::span<T>(own + 1, ptrdiff_t(E)), own + 1, E);
    // arrays
    T ca[E];
    const T cc[E] = {};
    Vc::array<T, E> va;
    const Vc::array<T, E> vc = va;
    view(S, Vc::span<T, E>(ca), ca, E, "from T[E]");
    view(S, Vc::span<T>(ca), ca, E, "dynamic from T[E]");
    view(S, Vc::span<const T, E>(cc), cc, E, "from const T[E]");
    view(S, Vc::span<const T>(cc), cc, E, "dynamic from const T[E]");
    view(S, Vc::span<T, E>(va), va.data(), E, "from Vc::array");
    view(S, Vc::span<T>(va), va.data(), E, "dynamic from Vc::array");
    view(S, Vc::span<const T, E>(vc), vc.data(), E, "from const Vc::array");
    view(S, Vc::span<const T>(vc), vc.data(), E, "dynamic from const Vc::array");
#if __cplusplus >= 201703L
    std::array<T, E> sa = {};
    const std::array<T, E> sc = {};
    std::vector<T> sv(E);
    const std::vector<T> svc(E);
    Vc::vector<T> vv(static_cast<size_t>(E));
    view(S, Vc::span<T>(sa), sa.data(), E, "dynamic from std::array");
    view(S, Vc::span<const T>(sc), sc.data(), E, "dynamic from const std::array");
    view(S, Vc::span<T>(sv), sv.data(), E, "dynamic from std::vector");
    view(S, Vc::span<const T>(svc), svc.data(), E, "dynamic from const std::vector");
    view(S, Vc::span<T, E>(sv), sv.data(), E, "from std::vector");
    view(S, Vc::span<T>(vv), vv.data(), E, "dynamic from Vc::vector");
#endif
    // assignment and swap
    T o1[E + 1];
    {
        Vc::span<T, E> a(p, ptrdiff_t(E)), b(o1, ptrdiff_t(E));
        a.swap(b);
        view(S, a, o1, E, "swap");
        view(S, b, p, E, "swap");
        Vc::Common::swap(static_cast<Vc::Common::span<T, E> &>(a), static_cast<Vc::Common::span<T, E> &>(b));
        view(S, a, p, E, "swap(a, b)");
        a = b;
        view(S, a, o1, E, "a = b");
        Vc::span<T> x(p, ptrdiff_t(E)), y(o1, ptrdiff_t(E - 1));
        x.swap(y);
        view(S, x, o1, E - 1, "dynamic swap");
        view(S, y, p, E, "dynamic swap");
        x = y;
        view(S, x, p, E, "dynamic assignment");
        x = Vc::span<T>();
        view(S, x, static_cast<T *>(nullptr), 0, "assigned an empty span");
    }
}
template <class T> void spanRelations()
{
    Site S(std::string("Vc::span<") + TN<T>::n() + "> relations");
    if (!S.active()) return;
    std::vector<std::vector<T>> xs(1);
    std::vector<T> A = {T(0), T(1), T(2)};
    if (std::is_floating_point<T>::value) A.push_back(std::numeric_limits<T>::quiet_NaN());
    for (size_t b = 0, n = 0; n < 4; ++n) { const size_t e = xs.size(); for (; b < e; ++b) if (xs[b].size() == n) for (T a : A) { std::vector<T> y(xs[b]); y.push_back(a); xs.push_back(y); } }
    for (size_t i = 0; i < xs.size(); ++i)
        for (size_t j = 0; j < xs.size(); ++j) {
            auto &x = xs[i], &y = xs[j];
            if (x.size() + y.size() > (g_thorough ? 8 : 6)) continue;
            const Vc::Common::span<T> a(x.data(), ptrdiff_t(x.size())), b(y.data(), ptrdiff_t(y.size()));
            const bool eq = x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin()), lt = std::lexicographical_compare(x.begin(), x.end(), y.begin(), y.end()), gt = std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end());
            ++C.states;
            ++C.transitions;
            C.checks += 6;
            S.at(i, j);
            if ((a == b) != eq || (a != b) == eq || (a < b) != lt || (a > b) != gt || (a <= b) == gt || (a >= b) == lt) S.fail(str(x) + " " + str(y), "relation wrong");
            if (x.size() == 2) {
                const Vc::Common::span<T, 2> st(x.data(), 2);
                ++C.checks;
                if ((st == b) != eq || (st < b) != lt || (b < st) != gt || (st != b) == eq) S.fail(str(x) + " " + str(y), "relation of static and dynamic extent wrong");
            }
        }
}
template <class T> void spans()
{
    staticSpan<T, 1>(); staticSpan<T, 2>(); staticSpan<T, 3>(); staticSpan<T, 5>(); staticSpan<T, 8>();
    {
        Site S(std::string("Vc::span<") + TN<T>::n() + ", 0>");
        if (S.active()) {
            ++C.states;
            view(S, Vc::span<T, 0>(), static_cast<T *>(nullptr), 0, "default");
            view(S, Vc::span<T>(), static_cast<T *>(nullptr), 0, "dynamic default");
            T x;
            view(S, Vc::span<T, 0>(&x, ptrdiff_t(0)), &x, 0, "(p, 0)");
            view(S, Vc::span<T>(&x, &x), &x, 0, "(p, p)");
        }
    }
    {
        Site S(std::string("Vc::span<") + TN<T>::n() + "> dynamic sizes");
        if (S.active())
            for (ptrdiff_t n = 0; n <= (g_thorough ? 40 : 20); ++n) {
                T *p = reinterpret_cast<T *>(mem().atEnd<T>(n));
                view(S, Vc::span<T>(p, n), p, n, "(p, n)");
                view(S, Vc::span<T>(p, p + n), p, n, "(p, p + n)");
                dynamicViews(S, Vc::span<T>(p, n), p, n);
                dynamicViews(S, Vc::span<const T>(p, p + n), static_cast<const T *>(p), n);
            }
    }
    spanRelations<T>();
}
#if __cplusplus >= 201703L
static void guides()
{
    Site S("Common::span deduction guides");
    if (!S.active()) return;
    int a[3] = {};
    Vc::array<int, 4> b = {};
    const Vc::array<int, 4> c = {};
    std::vector<int> d(5);
    const std::vector<int> e(6);
    ++C.states;
    view(S, Vc::Common::span(a), a, 3, "int[3]");
    view(S, Vc::Common::span(b), b.data(), 4, "Vc::array");
    view(S, Vc::Common::span(c), c.data(), 4, "const Vc::array");
    view(S, Vc::Common::span(d), d.data(), 5, "std::vector");
    view(S, Vc::Common::span(e), e.data(), 6, "const std::vector");
}
#endif
#endif

void explore()
{
#if PART == 0
    makeAll<float>(); makeAll<double>(); makeAll<int>();
#elif PART == 1
    makeAll<uint>(); makeAll<short>(); makeAll<ushort>();
#elif PART == 2
    arrayHistory<int, 1>("int"); arrayHistory<int, 2>("int"); arrayHistory<int, 3>("int"); arrayHistory<int, 4>("int");
    arrayHistory<short, 3>("short"); arrayHistory<double, 2>("double"); arrayHistory<float, 4>("float");
    arrayHistory<std::string, 1>("string"); arrayHistory<std::string, 3>("string");
    arrayHistory<int, 0>("int");
    arrayRelations<int, 1>(); arrayRelations<int, 2>(); arrayRelations<int, 3>(); arrayRelations<float, 2>(); arrayRelations<float, 3>(); arrayRelations<ushort, 4>();
#elif PART == 3
    vectorHistory<int>("int"); vectorHistory<short>("short"); vectorHistory<double>("double"); vectorHistory<float>("float"); vectorHistory<std::string>("string");
#elif PART == 4
    spans<int>(); spans<float>(); spans<double>(); spans<short>();
#if __cplusplus >= 201703L
    guides();
#endif
#endif
}
