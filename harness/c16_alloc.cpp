// C16: aligned allocation. All allocate/free histories up to a depth, with the system allocator replaced by an
// environment whose answers (address modulo larger alignments, address reuse, failure) are enumerated as well.
#include "mc.h"
#include <Vc/Memory>
#include <Vc/simdize>
#include <memory>
#include <list>
#include <deque>
#include <vector>
#include <new>
#include <cerrno>
extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_memalign(size_t, size_t);
extern "C" void __libc_free(void *);
namespace mc
{
// ---- environment: the system allocator
struct Env {
    enum { Slots = 24, SlotBytes = 1 << 17, Red = 96 };
    struct B { char *p; size_t n, al; int via; bool live; };  // via: 1 posix_memalign, 2 operator new
    B b[Slots];
    char *arena = nullptr;
    bool on = false, lifo = true;
    int off = 0, failAt = -1, calls = 0, next = 0;
    const char *error = nullptr;
    void reset()
    {
        if (!arena) { arena = static_cast<char *>(mmap(0, size_t(Slots) * SlotBytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)); arena = reinterpret_cast<char *>((reinterpret_cast<uintptr_t>(arena) + SlotBytes - 1) & ~uintptr_t(SlotBytes - 1)); }
        for (int i = 0; i < Slots; ++i) b[i].live = false;
        on = false; calls = 0; next = 0; failAt = -1; error = nullptr; off = 0; lifo = true;
    }
    int live() const { int r = 0; for (int i = 0; i < Slots; ++i) r += b[i].live; return r; }
    void *grab(size_t al, size_t n, int via)
    {
        if (calls++ == failAt) return nullptr;
        if (n > SlotBytes / 2 - 8 * al || n > SlotBytes / 2) return nullptr;
        int s = -1;
        for (int i = 0; i < Slots - 1; ++i) { const int k = lifo ? i : (next + i) % (Slots - 1); if (!b[k].live) { s = k; break; } }
        if (s < 0) return nullptr;
        next = s + 1;
        char *p = arena + size_t(s) * SlotBytes + 4096 * (al > 4096 ? al / 4096 : 1) * 2;
        p = reinterpret_cast<char *>(reinterpret_cast<uintptr_t>(p) / (al * 8) * (al * 8)) + (reinterpret_cast<uintptr_t>(p) % (al * 8) ? al * 8 : 0) + off * al;
        b[s] = {p, n, al, via, true};
        std::memset(p - Red, 0xcd, Red); std::memset(p, 0xa5, n); std::memset(p + n, 0xcd, Red);
        return p;
    }
    bool owns(void *p) const { return arena && p >= arena && p < arena + size_t(Slots) * SlotBytes; }
    void release(void *p, int via)
    {
        for (int i = 0; i < Slots; ++i)
            if (b[i].live && b[i].p == p) {
                if (b[i].via != via) error = "block released through the wrong function";
                b[i].live = false;
                std::memset(b[i].p, 0xdd, b[i].n);
                return;
            }
        error = "release of a pointer that is not the start of a live block";
    }
    bool redzones() const
    {
        for (int i = 0; i < Slots; ++i)
            if (b[i].live) for (int k = 0; k < Red; ++k) if ((unsigned char)b[i].p[-1 - k] != 0xcd || (unsigned char)b[i].p[b[i].n + k] != 0xcd) return false;
        return true;
    }
    bool covered(const void *p, size_t n) const
    {
        for (int i = 0; i < Slots; ++i) if (b[i].live && b[i].p <= p && static_cast<const char *>(p) + n <= b[i].p + b[i].n) return true;
        return false;
    }
};
static Env E;
struct On { On() { E.on = true; } ~On() { E.on = false; } };
}
extern "C" int posix_memalign(void **out, size_t al, size_t n) noexcept
{
    if (!mc::E.on) { *out = __libc_memalign(al, n); return *out ? 0 : ENOMEM; }
    if (al == 0 || (al & (al - 1)) || al % sizeof(void *)) { mc::E.error = "posix_memalign with an invalid alignment"; return EINVAL; }
    void *p = mc::E.grab(al, n, 1);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
extern "C" void free(void *p) noexcept { if (mc::E.owns(p)) mc::E.release(p, 1); else __libc_free(p); }
static void *opnew(size_t n)
{
    void *p = mc::E.on ? mc::E.grab(16, n, 2) : __libc_malloc(n ? n : 1);
    if (!p) { mc::E.on = false; throw std::bad_alloc(); }
    return p;
}
void *operator new(size_t n) { return opnew(n); }
void *operator new[](size_t n) { return opnew(n); }
static void opdel(void *p) noexcept { if (mc::E.owns(p)) mc::E.release(p, 2); else __libc_free(p); }
void operator delete(void *p) noexcept { opdel(p); }
void operator delete[](void *p) noexcept { opdel(p); }
void operator delete(void *p, size_t) noexcept { opdel(p); }
void operator delete[](void *p, size_t) noexcept { opdel(p); }
using namespace mc;

struct Kind {
    std::string name;
    size_t size, align, pad;  // object size, required alignment, granularity up to which the block must be usable
    std::function<void *(size_t)> alloc;
    std::function<void(void *, size_t)> release;
    bool single, isNew, nullOnError;
    size_t bytes(size_t n) const { return (n * size + pad - 1) / pad * pad; }
};
static std::vector<Kind> kinds;
template <size_t N, size_t A> struct alignas(A) Obj { char c[N]; };
template <class B> struct Derived : B { char c[5]; };
template <class B> struct DerivedD : B { char c[40]; ~DerivedD() { c[0] = 1; } };

template <class T, Vc::MallocAlignment A> void mallocKind(const std::string &n, size_t al)
{
    kinds.push_back({"Vc::malloc<" + n + "," + str(al) + ">", sizeof(T), al, al, [](size_t k) -> void * { return Vc::malloc<T, A>(k); }, [](void *p, size_t) { Vc::free(static_cast<T *>(p)); }, false, false, true});
}
template <class T> void mallocKinds(const std::string &n)
{
    mallocKind<T, Vc::AlignOnVector>(n, Vc::VectorAlignment);
    mallocKind<T, Vc::AlignOnCacheline>(n, 64);
    mallocKind<T, Vc::AlignOnPage>(n, 4096);
}
template <class A> void allocatorKind(const std::string &n)
{
    typedef typename A::value_type T;
    kinds.push_back({n, sizeof(T), alignof(T), 1, [](size_t k) -> void * { A a; return a.allocate(k); }, [](void *p, size_t k) { A a; a.deallocate(static_cast<T *>(p), k); }, false, false, false});
    const size_t simd = Vc::VectorAlignment;
    if (kinds.back().align < simd && simd > 1) kinds.back().align = simd;
}
template <class X> void newKinds(const std::string &n)
{
    kinds.push_back({"new " + n, sizeof(X), alignof(X), 1, [](size_t) -> void * { return new X; }, [](void *p, size_t) { delete static_cast<X *>(p); }, true, true, false});
    kinds.push_back({"new " + n + "[n]", sizeof(X), alignof(X), 1, [](size_t k) -> void * { return new X[k]; }, [](void *p, size_t) { delete[] static_cast<X *>(p); }, false, true, false});
}
static uintptr_t addr(const void *p) { return reinterpret_cast<uintptr_t>(p); }
// the result must be usable like this
static std::string verify(const Kind &k, void *p, size_t n)
{
    C.checks += 3;
    if (addr(p) % k.align) return "address " + str(addr(p) % 8192) + " (mod 8192) is not a multiple of " + str(k.align);
    if (!E.covered(p, k.bytes(n))) return "block does not provide " + str(k.bytes(n)) + " bytes for " + str(n) + " objects of " + str(k.size);
    return E.error ? E.error : "";
}
struct Live { const Kind *k; void *p; size_t n; unsigned char tag; };
static std::string intact(const std::vector<Live> &l)
{
    for (const Live &x : l) {
        const unsigned char *c = static_cast<unsigned char *>(x.p);
        const size_t B = x.k->bytes(x.n);
        C.checks += B;
        for (size_t i = 0; i < B; ++i) if (c[i] != x.tag) return "byte " + str(i) + " of the live block of " + str(x.n) + " objects (" + x.k->name + ") changed";
    }
    return E.redzones() ? "" : "memory outside of the blocks was written";
}
// one allocation for every count and every environment choice
static void sweep(const Kind &k)
{
    Site s(k.name + ": single allocation");
    if (!s.active()) return;
    const size_t top = k.single ? 1 : g_thorough ? 2100 : k.pad > 1 ? 300 : 130;
    for (size_t n = k.single ? 1 : 0; n <= top && k.bytes(n) <= 50000; ++n)
        for (int off = 0; off < 8; ++off) {
            s.at(n, off);
            ++C.states; C.transitions += 2;
            E.reset(); E.off = off;
            void *p;
            try { On o; p = k.alloc(launder(n)); } catch (...) { E.on = false; s.fail("n=" + str(n) + " address choice " + str(off), "exception"); continue; }
            std::string d = p ? verify(k, p, n) : "null";
            if (d.empty()) {
                std::memset(p, 0x5a, k.bytes(n));
                std::vector<Live> l{{&k, p, n, 0x5a}};
                d = intact(l);
                { On o; k.release(p, n); }
                if (d.empty() && E.error) d = E.error;
                if (d.empty() && E.live()) d = "block is not released";
            }
            outcome(mix(mix(s.h, n), addr(p) % 65536));
            if (!d.empty()) s.fail("n=" + str(n) + " address choice " + str(off), d);
        }
}
// the system allocator fails / the request cannot be expressed
static void failures(const Kind &k)
{
    Site s(k.name + ": failures");
    if (!s.active()) return;
    std::vector<std::pair<size_t, int>> v;
    for (size_t n : {0, 1, 2, 7}) if (!k.single || n == 1) v.push_back({n, 0});
    if (!k.single) {
        const size_t M = ~size_t(0), q = M / k.size;
        for (size_t d = 0; d < 300; ++d) { v.push_back({q - d, -1}); v.push_back({M - d, -1}); if (k.size > 1) v.push_back({q + 1 + d, -1}); if (k.size > 1) { v.push_back({q / 2 + 1 + d, -1}); v.push_back({M / 2 + 1 + d, -1}); v.push_back({2 * (q + 1) + d, -1}); } }
    }
    for (auto x : v) {
        if (x.second < 0 && x.first < (size_t(1) << 50)) continue;  // wrapped around above
        s.at(x.first, x.second + 1);
        ++C.states; ++C.transitions; ++C.checks;
        E.reset();
        E.failAt = x.second;
        std::string d;
        try {
            void *p;
            { On o; p = k.alloc(launder(x.first)); }
            if (p) d = "returned memory although the request cannot be satisfied";
            else if (!k.nullOnError) d = "returned a null pointer instead of throwing bad_alloc";
        } catch (const std::bad_alloc &) {
            E.on = false;
            if (k.nullOnError) d = "exception";
        }
        if (d.empty() && E.live()) d = "leak";
        if (d.empty() && E.error) d = E.error;
        outcome(mix(mix(s.h, x.first), d.size()));
        if (!d.empty()) s.fail("n=" + str(x.first) + (x.second == 0 ? " system allocator fails" : ""), d);
    }
}
// all histories of allocate(n) / free(any live block) up to a depth
struct Hist {
    Site &s;
    const std::vector<const Kind *> ks;
    const std::vector<size_t> ns;
    int depth;
    std::vector<int> path;
    uint64_t count = 0;
    // actions 0 .. A-1: allocate (kind, n, address choice); A ..: free live block
    int allocs() const { return int(ks.size() * ns.size() * 2); }
    bool run(std::string &hist)
    {
        E.reset();
        std::vector<Live> l;
        unsigned char tag = 1;
        std::string d;
        for (int a : path) {
            if (a < allocs()) {
                const Kind &k = *ks[a / 2 % ks.size()];
                const size_t n = k.single ? 1 : ns[a / 2 / ks.size()];
                E.off = (a & 1) * 1 + (a & 1) * 2 * (tag & 1);
                E.lifo = tag & 2;
                void *p;
                { On o; p = k.alloc(launder(n)); }
                d = p ? verify(k, p, n) : "null";
                hist += k.name + " n=" + str(n) + "; ";
                if (d.empty()) { std::memset(p, tag, k.bytes(n)); l.push_back({&k, p, n, tag}); }
            } else {
                const size_t i = a - allocs();
                hist += "free " + str(i) + "; ";
                const Live x = l[i];
                l.erase(l.begin() + i);
                { On o; x.k->release(x.p, x.n); }
                if (E.error) d = E.error;
            }
            ++tag;
            if (d.empty()) d = intact(l);
            if (!d.empty()) break;
        }
        while (d.empty() && !l.empty()) {
            const Live x = l.back();
            l.pop_back();
            { On o; x.k->release(x.p, x.n); }
            if (E.error) d = E.error;
        }
        if (d.empty() && E.live()) d = "leak";
        if (!d.empty()) { s.fail(hist, d); return false; }
        return true;
    }
    void explore(int nlive)
    {
        ++C.states;
        if (int(path.size()) == depth) {
            ++C.traces; s.at(count++);
            C.transitions += path.size();
            std::string h;
            run(h);
            uint64_t hh = s.h;
            for (int a : path) hh = mix(hh, a);
            outcome(hh);
            return;
        }
        for (int a = 0; a < allocs(); ++a) { path.push_back(a); explore(nlive + 1); path.pop_back(); }
        for (int i = 0; i < nlive; ++i) { path.push_back(allocs() + i); explore(nlive - 1); path.pop_back(); }
    }
};
static void histories(const Kind &k)
{
    Site s(k.name + ": histories");
    if (!s.active()) return;
    Hist h{s, {&k}, k.single ? std::vector<size_t>{1} : std::vector<size_t>{0, 1, 3}, g_thorough ? 6 : 4, {}};
    h.explore(0);
}
static void mixed()
{
    for (size_t i = 0; i < kinds.size(); ++i) {
        Site s("mixed histories: " + kinds[i].name + ", " + kinds[(i + 3) % kinds.size()].name + ", " + kinds[(i + 11) % kinds.size()].name);
        if (!s.active()) continue;
        Hist h{s, {&kinds[i], &kinds[(i + 3) % kinds.size()], &kinds[(i + 11) % kinds.size()]}, {1, 5}, g_thorough ? 4 : 3, {}};
        h.explore(0);
    }
}
// ---- containers: all operation sequences against a model of ids
template <class X> struct El;
template <class T, class A> struct El<Vc::Vector<T, A>> {
    typedef Vc::Vector<T, A> X;
    static X mk(int id) { T a[X::Size + 1]; for (size_t l = 0; l < X::Size; ++l) a[l] = T(id * 5 + l); return X(a, Vc::Unaligned); }
    static bool is(const X &x, int id) { T a[X::Size + 1]; x.store(a, Vc::Unaligned); C.checks += X::Size; for (size_t l = 0; l < X::Size; ++l) if (!(a[l] == T(id * 5 + l))) return false; return true; }
};
template <class T, size_t N, class V, size_t M> struct El<Vc::SimdArray<T, N, V, M>> {
    typedef Vc::SimdArray<T, N, V, M> X;
    static X mk(int id) { T a[N]; for (size_t l = 0; l < N; ++l) a[l] = T(id * 5 + l); return X(a, Vc::Unaligned); }
    static bool is(const X &x, int id) { T a[N]; x.store(a, Vc::Unaligned); C.checks += N; for (size_t l = 0; l < N; ++l) if (!(a[l] == T(id * 5 + l))) return false; return true; }
};
template <class T, class A> struct El<Vc::Mask<T, A>> {
    typedef Vc::Mask<T, A> X;
    static X mk(int id) { bool a[X::Size + 1]; for (size_t l = 0; l < X::Size; ++l) a[l] = (id + l) % 3 == 1; return X(a); }
    static bool is(const X &x, int id) { C.checks += X::Size; for (size_t l = 0; l < X::Size; ++l) if (x[l] != ((id + l) % 3 == 1)) return false; return true; }
};
struct Pod { char tag; Vc::float_v f; Vc::Vector<short> i; };
template <> struct El<Pod> {
    static Pod mk(int id) { Pod p; p.tag = char(id); p.f = El<Vc::float_v>::mk(id); p.i = El<Vc::Vector<short>>::mk(id + 1); return p; }
    static bool is(const Pod &p, int id) { return p.tag == char(id) && El<Vc::float_v>::is(p.f, id) && El<Vc::Vector<short>>::is(p.i, id + 1); }
};
template <> struct El<int> { static int mk(int id) { return id; } static bool is(int x, int id) { return x == id; } };
template <class L> void reserve(L &, size_t, long) {}
template <class L> auto reserve(L &l, size_t n, int) -> decltype(l.reserve(n), void()) { l.reserve(n); l.shrink_to_fit(); }
template <class L> void container(const std::string &name)
{
    typedef typename L::value_type X;
    Site s(name + " operation sequences");
    if (!s.active()) return;
    enum { OPS = 12 };
    const int depth = g_thorough ? 6 : 4;
    static const char *on[] = {"push_back", "insert(begin)", "insert(mid,2)", "erase(begin)", "pop_back", "resize(+2)", "clear", "copy a=b", "swap", "reserve", "move a=move(b)", "assign(3)"};
    uint64_t total = 1;
    for (int i = 0; i < depth; ++i) total *= OPS;
    for (uint64_t code = 0; code < total; ++code) {
        s.at(code);
        E.reset();
        E.off = int(code % 4);
        ++C.states; ++C.traces;
        std::string d;
        uint64_t c = code;
        std::vector<int> ma, mb;
        {
            L a, b;
            int id = 1;
            for (int q = 0; q < 2; ++q) { On o; b.push_back(El<X>::mk(id)); E.on = false; mb.push_back(id++); }
            for (int i = 0; i < depth && d.empty(); ++i, c /= OPS) {
                ++C.transitions;
                const int op = int(c % OPS);
                E.off = (E.off + 1) % 4;
                E.on = true;
                switch (op) {
                case 0: a.push_back(El<X>::mk(id)); break;
                case 1: a.insert(a.begin(), El<X>::mk(id)); break;
                case 2: a.insert(std::next(a.begin(), a.size() / 2), 2, El<X>::mk(id)); break;
                case 3: if (!a.empty()) a.erase(a.begin()); break;
                case 4: if (!a.empty()) a.pop_back(); break;
                case 5: a.resize(a.size() + 2, El<X>::mk(id)); break;
                case 6: a.clear(); break;
                case 7: a = b; break;
                case 8: a.swap(b); break;
                case 9: reserve(a, a.size() + 3, 0); break;
                case 10: a = std::move(b); b.clear(); break;
                case 11: a.assign(3, El<X>::mk(id)); break;
                }
                E.on = false;
                switch (op) {
                case 0: ma.push_back(id); break;
                case 1: ma.insert(ma.begin(), id); break;
                case 2: ma.insert(ma.begin() + ma.size() / 2, 2, id); break;
                case 3: if (!ma.empty()) ma.erase(ma.begin()); break;
                case 4: if (!ma.empty()) ma.pop_back(); break;
                case 5: ma.resize(ma.size() + 2, id); break;
                case 6: ma.clear(); break;
                case 7: ma = mb; break;
                case 8: ma.swap(mb); break;
                case 10: ma = std::move(mb); mb.clear(); break;
                case 11: ma.assign(3, id); break;
                }
                ++id;
                auto chk = [&](const L &l, const std::vector<int> &m, const char *n) {
                    if (l.size() != m.size()) { d = std::string(n) + ".size()"; return; }
                    size_t k = 0;
                    for (const X &x : l) {
                        if (addr(&x) % alignof(X)) { d = std::string("element of ") + n + " is not aligned"; return; }
                        if (!El<X>::is(x, m[k])) { d = std::string(n) + " element " + str(k) + " changed"; return; }
                        ++k;
                    }
                };
                chk(a, ma, "a"); if (d.empty()) chk(b, mb, "b");
                if (d.empty() && !E.redzones()) d = "memory outside of the blocks was written";
            }
        }
        if (d.empty() && E.error) d = E.error;
        if (d.empty() && E.live()) d = "leak";
        outcome(mix(mix(s.h, code), ma.size() * 16 + mb.size()));
        if (!d.empty()) {
            std::string h = "b has 2 elements; ";
            c = code;
            for (int i = 0; i < depth; ++i, c /= OPS) h += std::string(on[c % OPS]) + "; ";
            s.fail(h, d);
        }
    }
}
template <class V> void vectorKinds()
{
    typedef typename V::EntryType T;
    typedef typename V::Mask M;
    const std::string n = vn<V>();
    newKinds<V>(n);
    newKinds<M>(n + "::mask");
    allocatorKind<Vc::Allocator<V>>("Vc::Allocator<" + n + ">");
    allocatorKind<std::allocator<V>>("std::allocator<" + n + ">");
    allocatorKind<std::allocator<M>>("std::allocator<" + n + "::mask>");
    newKinds<Derived<Vc::VectorAlignedBaseT<V>>>("Derived<VectorAlignedBaseT<" + n + ">>");
    newKinds<DerivedD<Vc::MemoryAlignedBaseT<V>>>("Derived<MemoryAlignedBaseT<" + n + ">> with destructor");
}
template <class T, size_t N> void arrayKinds()
{
    typedef Vc::SimdArray<T, N> V;
    typedef typename V::mask_type M;
    const std::string n = vn<V>();
    newKinds<V>(n);
    newKinds<M>(n + "::mask");
    allocatorKind<std::allocator<V>>("std::allocator<" + n + ">");
    allocatorKind<std::allocator<M>>("std::allocator<" + n + "::mask>");
}
// Vc::make_unique: aligned, arguments forwarded, destroyed and released exactly once - also if the constructor throws
struct Count { static int live, made; int v; std::unique_ptr<int> q; Vc::float_v f; Count(int x, std::unique_ptr<int> &&p, const Vc::float_v &y) : v(x), q(std::move(p)), f(y) { if (v < 0) throw v; ++live; ++made; } ~Count() { --live; } };
int Count::live, Count::made;
template <Vc::MallocAlignment A> void makeUnique(const char *an, size_t al)
{
    Site s(std::string("Vc::make_unique<T, ") + an + "> histories");
    if (!s.active()) return;
    enum { OPS = 9 };
    static const char *on[] = {"a = make_unique", "b = make_unique", "a.reset()", "b.reset()", "a = move(b)", "b = move(a)", "swap", "constructor throws", "delete a.release() through the deleter"};
    typedef decltype(Vc::make_unique<Count, A>(1, std::unique_ptr<int>(), Vc::float_v())) P;
    const int depth = g_thorough ? 6 : 5;
    uint64_t total = 1;
    for (int i = 0; i < depth; ++i) total *= OPS;
    for (uint64_t code = 0; code < total; ++code) {
        s.at(code);
        E.reset(); Count::live = Count::made = 0;
        ++C.states; ++C.traces;
        std::string d;
        uint64_t c = code;
        int wa = 0, wb = 0, id = 0;
        {
            P a(nullptr), b(nullptr);
            for (int i = 0; i < depth && d.empty(); ++i, c /= OPS) {
                ++C.transitions;
                E.off = int((code + i) % 8);
                const int op = int(c % OPS);
                auto mk = [&](int v) { std::unique_ptr<int> q(new int(v)); Vc::float_v f = Vc::float_v::IndexesFromZero() + float(v); On o; return Vc::make_unique<Count, A>(v, std::move(q), f); };
                switch (op) {
                case 0: a = mk(++id); E.on = false; wa = id; break;
                case 1: b = mk(++id); E.on = false; wb = id; break;
                case 2: a.reset(); wa = 0; break;
                case 3: b.reset(); wb = 0; break;
                case 4: a = std::move(b); wa = wb; wb = 0; break;
                case 5: b = std::move(a); wb = wa; wa = 0; break;
                case 6: a.swap(b); std::swap(wa, wb); break;
                case 7: { bool t = false; try { mk(-5); } catch (int) { t = true; } E.on = false; if (!t) d = "exception of the constructor got lost"; break; }
                case 8: if (a) { typename P::deleter_type del; del(a.release()); } wa = 0; break;
                }
                for (int k = 0; k < 2; ++k) {
                    const P &p = k ? b : a; const int w = k ? wb : wa;
                    if (bool(p) != (w != 0)) { d = "pointer"; break; }
                    if (!p) continue;
                    if (addr(p.get()) % al || addr(p.get()) % alignof(Count)) d = "address is not a multiple of " + str(al);
                    else if (!E.covered(p.get(), sizeof(Count))) d = "block too small";
                    else if (p->v != w || !p->q || *p->q != w || !Vc::all_of(p->f == Vc::float_v::IndexesFromZero() + float(w))) d = "object contents";
                    C.checks += 4;
                }
                if (d.empty() && Count::live != (wa != 0) + (wb != 0)) d = "number of live objects " + str(Count::live);
                if (d.empty() && E.live() != (wa != 0) + (wb != 0)) d = "number of live blocks " + str(E.live());
                if (d.empty() && E.error) d = E.error;
                if (d.empty() && !E.redzones()) d = "memory outside of the blocks was written";
            }
        }
        if (d.empty() && (E.live() || Count::live)) d = "leak";
        if (d.empty() && E.error) d = E.error;
        outcome(mix(mix(s.h, code), Count::made));
        if (!d.empty()) { std::string h; c = code; for (int i = 0; i < depth; ++i, c /= OPS) h += std::string(on[c % OPS]) + "; "; s.fail(h, d); }
    }
}
static void go()
{
    for (const Kind &k : kinds) { sweep(k); failures(k); histories(k); }
    mixed();
}
void explore()
{
#if PART == 0
    mallocKinds<char>("char"); mallocKinds<short>("short"); mallocKinds<int>("int"); mallocKinds<double>("double");
    mallocKinds<Obj<3, 1>>("3 bytes"); mallocKinds<Obj<24, 8>>("24 bytes"); mallocKinds<Vc::float_v>("float_v");
    allocatorKind<Vc::Allocator<char>>("Vc::Allocator<char>");
    allocatorKind<Vc::Allocator<int>>("Vc::Allocator<int>");
    allocatorKind<Vc::Allocator<double>>("Vc::Allocator<double>");
    allocatorKind<Vc::Allocator<Obj<3, 1>>>("Vc::Allocator<3 bytes>");
    allocatorKind<Vc::Allocator<Obj<16, 16>>>("Vc::Allocator<alignas(16)>");
    allocatorKind<Vc::Allocator<Obj<32, 32>>>("Vc::Allocator<alignas(32)>");
    allocatorKind<Vc::Allocator<Obj<65, 64>>>("Vc::Allocator<alignas(64)>");
    allocatorKind<Vc::Allocator<Obj<1, 128>>>("Vc::Allocator<alignas(128)>");
    allocatorKind<Vc::Allocator<Obj<256, 256>>>("Vc::Allocator<alignas(256)>");
    newKinds<Derived<Vc::AlignedBase<8>>>("Derived<AlignedBase<8>>"); newKinds<Derived<Vc::AlignedBase<16>>>("Derived<AlignedBase<16>>");
    newKinds<Derived<Vc::AlignedBase<64>>>("Derived<AlignedBase<64>>"); newKinds<Derived<Vc::AlignedBase<256>>>("Derived<AlignedBase<256>>");
    newKinds<DerivedD<Vc::AlignedBase<32>>>("Derived<AlignedBase<32>> with destructor"); newKinds<DerivedD<Vc::AlignedBase<128>>>("Derived<AlignedBase<128>> with destructor");
    newKinds<Derived<Vc::VectorAlignedBase>>("Derived<VectorAlignedBase>"); newKinds<DerivedD<Vc::MemoryAlignedBase>>("Derived<MemoryAlignedBase> with destructor");
    go();
#elif PART == 1
    vectorKinds<Vc::Vector<float>>(); vectorKinds<Vc::Vector<double>>(); vectorKinds<Vc::Vector<int>>(); vectorKinds<Vc::Vector<ushort>>();
    vectorKinds<Vc::Scalar::Vector<float>>();
#ifdef Vc_IMPL_AVX
    vectorKinds<Vc::SSE::Vector<float>>();
#endif
    go();
#elif PART == 2
    arrayKinds<float, 3>(); arrayKinds<float, 8>(); arrayKinds<float, 12>(); arrayKinds<float, 16>(); arrayKinds<float, 32>(); arrayKinds<short, 7>(); arrayKinds<short, 64>(); arrayKinds<double, 5>(); arrayKinds<double, 17>();
    go();
#elif PART == 3
    typedef Vc::float_v F;
    typedef Vc::Vector<short> S;
    newKinds<Vc::simdize<std::tuple<float, double>>>("simdize<tuple<float,double>>"); newKinds<Vc::simdize<std::array<short, 3>>>("simdize<array<short,3>>"); newKinds<Vc::simdize<std::tuple<double, float>, 3>>("simdize<tuple<double,float>,3>");
    go();
    {
        Site s("Vc::Allocator: address, max_size, rebind, comparison");
        if (s.active()) {
            typedef Vc::Allocator<float> A; typedef A::rebind<double>::other B;
            A a; B b(a); A c(b); float x[3]; const float *q = x;
            for (int i = 0; i < 3; ++i) { s.at(i); ++C.states; expect1(s, a.address(x[i]) == x + i && a.address(q[i]) == q + i, true, [&] { return "address, element " + str(i); }); }
            expect1(s, int(a == c) | int(a != c) << 1 | int(a == A()) << 2, 5, [&] { return std::string("comparison"); });
            expect1(s, a.max_size() > (size_t(1) << 40) && a.max_size() <= ~size_t(0) / sizeof(float), true, [&] { return std::string("max_size"); });
        }
    }
    makeUnique<Vc::AlignOnVector>("AlignOnVector", Vc::VectorAlignment); makeUnique<Vc::AlignOnCacheline>("AlignOnCacheline", 64); makeUnique<Vc::AlignOnPage>("AlignOnPage", 4096);
    container<std::vector<F>>("std::vector<float_v>");
    container<std::vector<S>>("std::vector<short_v>");
    container<std::vector<F, Vc::Allocator<F>>>("std::vector<float_v, Vc::Allocator>");
    container<std::vector<int, Vc::Allocator<int>>>("std::vector<int, Vc::Allocator>");
    container<std::vector<Pod, Vc::Allocator<Pod>>>("std::vector<struct, Vc::Allocator>");
    container<std::vector<F::Mask>>("std::vector<float_m>");
    container<std::vector<Vc::SimdArray<float, 20>>>("std::vector<SimdArray<float,20>>");
    container<std::deque<F>>("std::deque<float_v>");
    container<std::list<F, Vc::Allocator<F>>>("std::list<float_v, Vc::Allocator>");
    container<std::list<Pod, Vc::Allocator<Pod>>>("std::list<struct, Vc::Allocator>");
#endif
}
