// C15: every view of a Vc::Memory shows the same entries. Exploration of operation histories against an array model.
#include "mc.h"
#include "ref.h"
#include "guardalloc.h"
using namespace mc;

// whole-container operations
enum Whole { SETZERO, ASSIGN_V, ASSIGN_PTR, ASSIGN_OTHER, ADD, SUB, MUL, DIV, ADDS, SUBS, MULS, DIVS, SWAP, BASE_ASSIGN, NWHOLE };
static const char *wholeName[] = {"setZero()", "= V", "= pointer", "= other", "+= other", "-= other", "*= other", "/= other", "+= scalar", "-= scalar", "*= scalar", "/= scalar", "std::swap", "MemoryBase::operator=(V)"};
enum Comp { ADD_V, SUB_V, MUL_V, DIV_V, ADD_M, SUB_M, MUL_M, ADD_S, COPY_M, BIN_ADD, BIN_MUL, AND_V, XOR_V, NCOMP };
static const char *compName[] = {"vector(i) += V", "vector(i) -= V", "vector(i) *= V", "vector(i) /= V", "vector(i) += vector(j)", "vector(i) -= vector(j)", "vector(i) *= vector(j)", "vector(i) += scalar", "vector(i) = vector(j)", "vector(i) = vector(i) + vector(j)", "vector(i) = vector(i) * vector(j)", "vector(i) &= V", "vector(i) ^= V"};

template <class T> struct Box {
    size_t VS, rows, cols, pcols, vectors, entries;  // pcols: padded columns, flat index = row * pcols + col
    size_t padded() const { return rows * pcols; }
    bool dyn = false;
    virtual ~Box() {}
    virtual T *raw() = 0;
    virtual int vecViews() = 0;   // views that address whole vectors i
    virtual int offViews() = 0;   // views that address V::Size entries from entry o on
    virtual int entViews() = 0;   // views that address an entry
    virtual const char *vecName(int) = 0;
    virtual const char *offName(int) = 0;
    virtual const char *entName(int) = 0;
    virtual bool vecWrite(int view, size_t i, const T *x) = 0;   // false: not applicable
    virtual bool vecRead(int view, size_t i, T *x) = 0;
    virtual bool offWrite(int view, size_t o, const T *x) = 0;
    virtual bool offRead(int view, size_t o, T *x) = 0;
    virtual bool entWrite(int view, size_t e, T x) = 0;
    virtual bool entRead(int view, size_t e, T *x) = 0;
    virtual bool gather(int kind, const int *idx, T *x) = 0;
    virtual bool whole(int op, Box *other, const T *x) = 0;
    virtual bool comp(int op, size_t i, size_t j, const T *x) = 0;
    virtual int cmp(Box *other) = 0;  // bits: == != < <= > >=
    virtual Box *copy(int how) = 0;   // nullptr: not available
    virtual std::string counts() = 0;
};

template <class V, class M, int Dim> struct Acc;
// -------------------------------------------------------------------------------------------------
template <class V, class M, int Dim> struct MBox : Box<typename V::EntryType> {
    typedef typename V::EntryType T;
    typedef std::integral_constant<int, Dim> D;
    M *m;
    void *home;
    Guarded *g = nullptr;
    MBox(M *x, Guarded *gg, size_t r, size_t c) : m(x), g(gg)
    {
        this->VS = V::Size; this->rows = r; this->cols = c; this->pcols = (c + V::Size - 1) / V::Size * V::Size;
        this->vectors = this->rows * this->pcols / V::Size; this->entries = r * c;
    }
    ~MBox() { if (g) { m->~M(); delete g; } else delete m; }
    template <class... A> static MBox *create(size_t r, size_t c, A &&... a)  // at the end of a page
    {
        Guarded *g = new Guarded(sizeof(M) + alignof(M));
        std::memset(g->lo(), 0xa5, g->hi() - g->lo());
        char *p = reinterpret_cast<char *>(reinterpret_cast<uintptr_t>(g->hi() - sizeof(M)) / alignof(M) * alignof(M));
        return new MBox(new (p) M(std::forward<A>(a)...), g, r, c);
    }
    std::string counts()
    {
        const M &c = *m;
        std::string r;
        if (c.entriesCount() != this->entries) r += " entriesCount()=" + str(c.entriesCount());
        if (c.vectorsCount() != this->vectors) r += " vectorsCount()=" + str(c.vectorsCount());
        if (size_t(m->end() - m->begin()) != this->vectors) r += " end()-begin()";
        if (reinterpret_cast<uintptr_t>(m->entries()) % V::MemoryAlignment) r += " entries() not aligned";
        rowsCheck(r, D());
        return r;
    }
    void rowsCheck(std::string &, std::integral_constant<int, 1>) {}
    void rowsCheck(std::string &r, std::integral_constant<int, 2>) { if (m->rowsCount() != this->rows || m->rowCount() != this->rows) r += " rowsCount()"; }
    T *raw() { return m->entries(); }
    int vecViews() { return 10; }
    const char *vecName(int v)
    {
        static const char *n[] = {"vector(i)", "vector(i, Aligned)", "vector(i, Unaligned)", "vector(i, Streaming)", "*(begin() + i)", "iterate range / row vector", "firstVector()/lastVector()", "vector(i)[l]", "iterator walk from end()", "vectorAt(i * V::Size, Aligned)"};
        return n[v];
    }
    V ld(const T *x) { return V(x, Vc::Unaligned); }
    void st(const V &v, T *x) { v.store(x, Vc::Unaligned); }
    bool rangeW(size_t i, const T *x, std::integral_constant<int, 1>)
    {
        auto r = m->range(i, i);
        size_t n = 0;
        for (auto it = r.begin(); it != r.end(); ++it) { *it = ld(x); ++n; }
        if (n != 1) raw()[0] = T(raw()[0] + 1);  // wrong number of steps becomes visible
        return true;
    }
    bool rangeW(size_t i, const T *x, std::integral_constant<int, 2>)
    {
        const size_t per = this->pcols / V::Size;
        (*m)[i / per].vector(i % per) = ld(x);
        return true;
    }
    bool rangeR(size_t i, T *x, std::integral_constant<int, 1>)
    {
        const M &c = *m;
        auto r = m->range(0, this->vectors - 1);
        size_t n = 0;
        for (auto it = r.begin(); it != r.end(); ++it, ++n) if (n == i) st(V(*it), x);
        return n == this->vectors ? true : (x[0] = T(x[0] + 1), true);
    }
    bool rangeR(size_t i, T *x, std::integral_constant<int, 2>)
    {
        const size_t per = this->pcols / V::Size;
        const M &c = *m;
        st(V(c[i / per].vector(i % per)), x);
        return true;
    }
    bool vecWrite(int v, size_t i, const T *x)
    {
        switch (v) {
        case 0: m->vector(i) = ld(x); return true;
        case 1: m->vector(i, Vc::Aligned) = ld(x); return true;
        case 2: m->vector(i, Vc::Unaligned) = ld(x); return true;
        case 3: m->vector(i, Vc::Streaming) = ld(x); return true;
        case 4: { auto it = m->begin() + i; *it = ld(x); return true; }
        case 5: return rangeW(i, x, D());
        case 6: if (i == 0) m->firstVector() = ld(x); else if (i + 1 == this->vectors) m->lastVector() = ld(x); else return false; return true;
        case 7: for (size_t l = 0; l < V::Size; ++l) m->vector(i)[l] = x[l]; return true;
        case 8: { auto it = m->end(); for (size_t k = this->vectors; k > i; --k) --it; *it = ld(x); return true; }
        case 9: m->vectorAt(i * V::Size, Vc::Aligned) = ld(x); return true;
        }
        return false;
    }
    bool vecRead(int v, size_t i, T *x)
    {
        const M &c = *m;
        switch (v) {
        case 0: { st(m->vector(i), x); V y = c.vector(i); if (!std::equal(x, x + V::Size, &get(y)[0], [](T a, T b) { return same(a, b); })) st(y, x); return true; }
        case 1: st(c.vector(i, Vc::Aligned), x); return true;
        case 2: st(c.vector(i, Vc::Unaligned), x); return true;
        case 3: st(c.vector(i, Vc::Streaming), x); return true;
        case 4: { st((m->begin() + i)->value(), x); st(V(m->begin()[i]), x); return true; }
        case 5: return rangeR(i, x, D());
        case 6: if (i == 0) st(c.firstVector(), x); else if (i + 1 == this->vectors) st(c.lastVector(), x); else return false; return true;
        case 7: for (size_t l = 0; l < V::Size; ++l) x[l] = c.vector(i)[l]; return true;
        case 8: { size_t k = 0; for (auto it = m->begin(); it != m->end(); it++, ++k) if (k == i) st(V(*it), x); return true; }
        case 9: st(c.vectorAt(i * V::Size, Vc::Aligned), x); return true;
        }
        return false;
    }
    int offViews() { return 5; }
    const char *offName(int v)
    {
        static const char *n[] = {"vectorAt(o)", "vector(i, shift)", "vector(i + 1, negative shift)", "load/store(entries() + o)", "vector(0, shift, Unaligned)"};
        return n[v];
    }
    T *ptr(std::integral_constant<int, 1>) { T *p = *m; return p; }
    T *ptr(std::integral_constant<int, 2>) { return m->entries(); }
    const T *cptr(std::integral_constant<int, 1>) { const M &c = *m; const T *p = c; return p; }
    const T *cptr(std::integral_constant<int, 2>) { const M &c = *m; return c.entries(); }
    bool offWrite(int v, size_t o, const T *x)
    {
        switch (v) {
        case 0: m->vectorAt(o) = ld(x); return true;
        case 1: m->vector(o / V::Size, int(o % V::Size)) = ld(x); return true;
        case 2: m->vector(o / V::Size + 1, int(o % V::Size) - int(V::Size)) = ld(x); return true;
        case 3: ld(x).store(ptr(D()) + o, Vc::Unaligned); return true;
        case 4: m->vector(0, int(o), Vc::Unaligned) = ld(x); return true;
        }
        return false;
    }
    bool offRead(int v, size_t o, T *x)
    {
        const M &c = *m;
        switch (v) {
        case 0: st(c.vectorAt(o), x); return true;
        case 1: st(c.vector(o / V::Size, int(o % V::Size)), x); return true;
        case 2: st(c.vector(o / V::Size + 1, int(o % V::Size) - int(V::Size)), x); return true;
        case 3: st(V(cptr(D()) + o, Vc::Unaligned), x); return true;
        case 4: st(c.vector(0, int(o), Vc::Unaligned), x); return true;
        }
        return false;
    }
    int entViews() { return 3; }
    const char *entName(int v)
    {
        static const char *n1[] = {"m[i]", "scalar(i)", "entries()[i]"}, *n2[] = {"m[r][c]", "scalar(r, c)", "entries(r)[c]"};
        return Dim == 1 ? n1[v] : n2[v];
    }
    bool ew(int v, size_t e, T x, std::integral_constant<int, 1>) { if (v == 0) (*m)[e] = x; else if (v == 1) m->scalar(e) = x; else m->entries()[e] = x; return true; }
    bool er(int v, size_t e, T *x, std::integral_constant<int, 1>) { const M &c = *m; *x = v == 0 ? c[e] : v == 1 ? c.scalar(e) : c.entries()[e]; return true; }
    bool ew(int v, size_t f, T x, std::integral_constant<int, 2>) { const size_t r = f / this->pcols, e = f % this->pcols; if (v == 0) (*m)[r][e] = x; else if (v == 1) m->scalar(r, e) = x; else m->entries(r)[e] = x; return true; }
    bool er(int v, size_t f, T *x, std::integral_constant<int, 2>) { const M &c = *m; const size_t r = f / this->pcols, e = f % this->pcols; *x = v == 0 ? c[r][e] : v == 1 ? c.scalar(r, e) : c.entries(r)[e]; return true; }
    bool entWrite(int v, size_t e, T x) { return ew(v, e, x, D()); }
    bool entRead(int v, size_t e, T *x) { return er(v, e, x, D()); }
    template <class I> bool sub(const I &i, T *x, std::true_type) { const M &c = *m; st(c[i], x); return true; }
    template <class I> bool sub(const I &, T *, std::false_type) { return false; }
    bool gather(int k, const int *idx, T *x)
    {
        const M &c = *m;
        if (k == 0) { unsigned u[V::Size]; for (size_t l = 0; l < V::Size; ++l) u[l] = unsigned(idx[l]); st(c.gather(u), x); return true; }
        if (k == 1) { unsigned short u[V::Size]; for (size_t l = 0; l < V::Size; ++l) u[l] = (unsigned short)(idx[l]); st(c.gather(u), x); return true; }
        if (k == 2) { typename V::IndexType i(idx, Vc::Unaligned); st(V(raw(), i), x); return true; }
        return false;
    }
    bool whole(int op, Box<T> *o_, const T *x)
    {
        MBox *o = dynamic_cast<MBox *>(o_);
        switch (op) {
        case SETZERO: m->setZero(); return true;
        case ASSIGN_V: return assignV(*m, ld(x), 0);
        case ASSIGN_PTR: return assignP(*m, x, 0);
        case ASSIGN_OTHER: if (!o) return false; *m = *o->m; return true;
        case ADD: case SUB: case MUL: case DIV: return o && withOther(op, o, std::integral_constant<bool, Vc::Traits::isSimdArray<V>::value>());
        case ADDS: *m += x[0]; return true;
        case SUBS: *m -= x[0]; return true;
        case MULS: *m *= x[0]; return true;
        case DIVS: *m /= x[0]; return true;
        case SWAP: if (!o) return false; std::swap(*m, *o->m); return true;
        case BASE_ASSIGN: return baseAssign(*m, ld(x));
        }
        return false;
    }
    bool withOther(int, MBox *, std::true_type) { return false; }  // does not compile for SimdArray
    bool withOther(int op, MBox *o, std::false_type)
    {
        if (op == ADD) *m += *o->m;
        else if (op == SUB) *m -= *o->m;
        else if (op == MUL) *m *= *o->m;
        else if (std::is_floating_point<T>::value) *m /= *o->m;
        else return false;
        return true;
    }
    template <class P, class RM> static bool baseAssign(Vc::Common::MemoryBase<V, P, Dim, RM> &b, const V &v) { P &r = (b = v); return &r == static_cast<P *>(&b); }
    template <class A> static auto assignV(A &a, const V &v, int) -> decltype(static_cast<A &(A::*)(const V &)>(&A::operator=), true) { A &r = (a = v); return &r == &a; }
    template <class A> static bool assignV(A &, const V &, long) { return false; }
    template <class A> static auto assignP(A &a, const T *p, int) -> decltype(static_cast<A &(A::*)(const T *)>(&A::operator=), true) { A &r = (a = p); return &r == &a; }
    template <class A> static bool assignP(A &, const T *, long) { return false; }
    bool bits2(int op, size_t i, const T *x, std::true_type) { if (op == AND_V) m->vector(i) &= ld(x); else m->vector(i) ^= ld(x); return true; }
    bool bits2(int, size_t, const T *, std::false_type) { return false; }
    bool comp(int op, size_t i, size_t j, const T *x)
    {
        switch (op) {
        case ADD_V: m->vector(i) += ld(x); return true;
        case SUB_V: m->vector(i) -= ld(x); return true;
        case MUL_V: m->vector(i) *= ld(x); return true;
        case DIV_V: m->vector(i) /= ld(x); return true;
        case ADD_M: m->vector(i) += m->vector(j).value(); return true;
        case SUB_M: m->vector(i) -= m->vector(j).value(); return true;
        case MUL_M: m->vector(i) *= m->vector(j).value(); return true;
        case ADD_S: m->vector(i) += x[0]; return true;
        case COPY_M: { const M &c = *m; m->vector(i) = c.vector(j); return true; }
        case BIN_ADD: m->vector(i) = m->vector(i) + m->vector(j); return true;
        case BIN_MUL: m->vector(i) = m->vector(i) * m->vector(j); return true;
        case AND_V: case XOR_V: return bits2(op, i, x, std::is_integral<T>());
        }
        return false;
    }
    int cmp(Box<T> *o_)
    {
        MBox *o = dynamic_cast<MBox *>(o_);
        const M &a = *m, &b = *o->m;
        return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5;
    }
    Box<T> *copy(int how)
    {
        if (how == 0) { MBox *r = create(this->rows, this->cols, *m); r->dyn = this->dyn; return r; }
        if (how == 1) return toDyn(*m, D());
        return nullptr;
    }
    static Box<T> *toDyn(M &m, std::integral_constant<int, 1>) { typedef Vc::Memory<V> Y; auto *r = new MBox<V, Y, 1>(new Y(m), nullptr, 1, m.entriesCount()); r->dyn = true; return r; }
    static Box<T> *toDyn(M &, std::integral_constant<int, 2>) { return nullptr; }
};

template <class T> struct Core {
    typedef std::vector<T> X;
    typedef std::function<Box<T> *()> Make;
    struct Step { int kind, a; size_t i, j; };  // kind 0 vec view, 1 off view, 2 entry view, 3 whole, 4 compound
    struct St { Box<T> *A, *B; X a, b; };
    static X vals(size_t VS, size_t salt)
    {
        X x(VS);
        for (size_t l = 0; l < VS; ++l) x[l] = T((salt * 7 + l * 3 + 1) % 100 + 1);
        return x;
    }
    static std::string name(Box<T> *A, const Step &s)
    {
        switch (s.kind) {
        case 0: return std::string(A->vecName(s.a)) + "= i=" + str(s.i);
        case 1: return std::string(A->offName(s.a)) + "= o=" + str(s.i);
        case 2: return std::string(A->entName(s.a)) + "= i=" + str(s.i);
        case 3: return wholeName[s.a];
        default: return std::string(compName[s.a]) + " i=" + str(s.i) + " j=" + str(s.j);
        }
    }
    static std::vector<Step> steps(Box<T> *A, bool all)
    {
        std::vector<Step> r;
        const size_t n = A->vectors, P = A->padded(), VS = A->VS;
        for (int v = 0; v < A->vecViews(); ++v) for (size_t i = 0; i < n; ++i) r.push_back({0, v, i, 0});
        for (int v = 0; v < A->offViews(); ++v) for (size_t o = 0; o + VS <= P; ++o) r.push_back({1, v, o, 0});
        for (int v = 0; v < A->entViews(); ++v) for (size_t e = 0; e < P; ++e) r.push_back({2, v, e, 0});
        for (int w = 0; w < NWHOLE; ++w) r.push_back({3, w, 0, 0});
        for (int c = 0; c < NCOMP; ++c) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (all || (i + j + c) % n < 2) r.push_back({4, c, i, j});
        return r;
    }
    // applies one step to the implementation and to the model; false: not available on this container
    static bool apply(St &s, const Step &q, size_t salt)
    {
        const size_t VS = s.A->VS, P = s.A->padded(), pc = s.A->pcols;
        X x = vals(VS, salt);
        typedef Ref<T> R;
        switch (q.kind) {
        case 0: if (!s.A->vecWrite(q.a, q.i, &x[0])) return false; std::copy(x.begin(), x.end(), s.a.begin() + q.i * VS); return true;
        case 1: if (!s.A->offWrite(q.a, q.i, &x[0])) return false; std::copy(x.begin(), x.end(), s.a.begin() + q.i); return true;
        case 2: if (!s.A->entWrite(q.a, q.i, x[0])) return false; s.a[q.i] = x[0]; return true;
        case 3: {
            X big;
            if (q.a == ASSIGN_PTR) { big = vals(P, salt); if (s.A->rows != 1) return false; }
            if (!s.A->whole(q.a, s.B, q.a == ASSIGN_PTR ? &big[0] : &x[0])) return false;
            switch (q.a) {
            case SETZERO: std::fill(s.a.begin(), s.a.end(), T(0)); break;
            case ASSIGN_V: case BASE_ASSIGN: for (size_t i = 0; i < P; ++i) s.a[i] = x[i % VS]; break;
            case ASSIGN_PTR: std::copy(big.begin(), big.begin() + s.A->entries, s.a.begin()); break;
            case ASSIGN_OTHER: s.a = s.b; break;
            case ADD: for (size_t i = 0; i < P; ++i) s.a[i] = R::add(s.a[i], s.b[i]); break;
            case SUB: for (size_t i = 0; i < P; ++i) s.a[i] = R::sub(s.a[i], s.b[i]); break;
            case MUL: for (size_t i = 0; i < P; ++i) s.a[i] = R::mul(s.a[i], s.b[i]); break;
            case DIV: for (size_t i = 0; i < P; ++i) s.a[i] = R::div(s.a[i], s.b[i]); break;
            case ADDS: for (size_t i = 0; i < P; ++i) s.a[i] = R::add(s.a[i], x[0]); break;
            case SUBS: for (size_t i = 0; i < P; ++i) s.a[i] = R::sub(s.a[i], x[0]); break;
            case MULS: for (size_t i = 0; i < P; ++i) s.a[i] = R::mul(s.a[i], x[0]); break;
            case DIVS: for (size_t i = 0; i < P; ++i) s.a[i] = R::div(s.a[i], x[0]); break;
            case SWAP: std::swap(s.a, s.b); break;
            }
            return true;
        }
        default:
            if (!s.A->comp(q.a, q.i, q.j, &x[0])) return false;
            for (size_t l = 0; l < VS; ++l) {
                T &y = s.a[q.i * VS + l];
                const T z = q.i == q.j ? y : s.a[q.j * VS + l];
                switch (q.a) {
                case ADD_V: y = R::add(y, x[l]); break;
                case SUB_V: y = R::sub(y, x[l]); break;
                case MUL_V: y = R::mul(y, x[l]); break;
                case DIV_V: y = R::div(y, x[l]); break;
                case ADD_M: case BIN_ADD: y = R::add(y, z); break;
                case SUB_M: y = R::sub(y, z); break;
                case MUL_M: case BIN_MUL: y = R::mul(y, z); break;
                case ADD_S: y = R::add(y, x[0]); break;
                case COPY_M: y = z; break;
                case AND_V: y = band(y, x[l]); break;
                case XOR_V: y = bxor(y, x[l]); break;
                }
            }
            return true;
        }
        (void)pc;
    }
    template <class U> static U band(U a, U b, typename std::enable_if<std::is_integral<U>::value>::type * = 0) { return U(a & b); }
    template <class U> static U bxor(U a, U b, typename std::enable_if<std::is_integral<U>::value>::type * = 0) { return U(a ^ b); }
    template <class U> static U band(U a, U, typename std::enable_if<!std::is_integral<U>::value>::type * = 0) { return a; }
    template <class U> static U bxor(U a, U, typename std::enable_if<!std::is_integral<U>::value>::type * = 0) { return a; }
    static std::string diff(const X &m, const T *p)
    {
        for (size_t i = 0; i < m.size(); ++i) if (!same(m[i], p[i])) return "entry " + str(i) + " is " + str(p[i]) + " want " + str(m[i]);
        return "";
    }
    // all views of both containers show the model (entries of A through every view, B through its raw storage)
    static std::string check(St &s, bool full)
    {
        C.checks += s.a.size() + s.b.size();
        std::string d = diff(s.a, s.A->raw());
        if (!d.empty()) return d;
        d = diff(s.b, s.B->raw());
        if (!d.empty()) return "other container: " + d;
        if (!full) return "";
        const size_t VS = s.A->VS, P = s.A->padded();
        X x(VS), w(VS);
        auto bad = [&](const std::string &v, size_t i) { return "read through " + v + " i=" + str(i) + " got " + str(x) + " want " + str(w); };
        auto eq = [&] { C.checks += VS; for (size_t l = 0; l < VS; ++l) if (!same(x[l], w[l])) return false; return true; };
        for (int v = 0; v < s.A->vecViews(); ++v)
            for (size_t i = 0; i < s.A->vectors; ++i) { w.assign(s.a.begin() + i * VS, s.a.begin() + (i + 1) * VS); if (s.A->vecRead(v, i, &x[0]) && !eq()) return bad(s.A->vecName(v), i); }
        for (int v = 0; v < s.A->offViews(); ++v)
            for (size_t o = 0; o + VS <= P; ++o) { w.assign(s.a.begin() + o, s.a.begin() + o + VS); if (s.A->offRead(v, o, &x[0]) && !eq()) return bad(s.A->offName(v), o); }
        for (int v = 0; v < s.A->entViews(); ++v)
            for (size_t e = 0; e < P; ++e) { T y; ++C.checks; if (s.A->entRead(v, e, &y) && !same(y, s.a[e])) return std::string("read through ") + s.A->entName(v) + " i=" + str(e) + " got " + str(y) + " want " + str(s.a[e]); }
        if (P) {
            std::vector<int> id(VS);
            for (int k = 0; k < 3; ++k)
                for (size_t t = 0; t < 4 * P; ++t) {
                    for (size_t l = 0; l < VS; ++l) id[l] = int((t % 4 == 0 ? t / 4 + l : t % 4 == 1 ? t / 4 + (VS - l) : t % 4 == 2 ? t / 4 : t / 4 + 5 * l) % P), w[l] = s.a[id[l]];
                    if (s.A->gather(k, &id[0], &x[0]) && !eq()) return bad("gather", t);
                }
        }
        return "";
    }
    static X init(Box<T> *b, size_t salt)
    {
        X v(b->padded(), T(0));
        for (size_t r = 0; r < b->rows; ++r) for (size_t c = 0; c < b->cols; ++c) v[r * b->pcols + c] = T((r * 31 + c * 5 + salt * 13) % 90 + 2);
        for (size_t r = 0; r < b->rows; ++r) for (size_t c = 0; c < b->cols; ++c) b->raw()[r * b->pcols + c] = v[r * b->pcols + c];
        return v;
    }
    static void run(const std::string &cn, const Make &make, bool deep)
    {
        Site s(cn);
        if (!s.active()) return;
        std::unique_ptr<Box<T>> probe(make());
        const auto S = steps(probe.get(), deep);
        // construction: counts, alignment, zero padding
        {
            ++C.states; ++C.transitions;
            std::string c = probe->counts();
            if (!c.empty()) s.fail("construction", c);
            for (size_t r = 0; r < probe->rows; ++r) for (size_t k = probe->pcols - (probe->pcols ? probe->VS : 0); k < probe->pcols; ++k) { ++C.checks; if (k >= probe->cols && !same(probe->raw()[r * probe->pcols + k], T(0))) { s.fail("construction", "padding is not zero"); break; } }
        }
        auto once = [&](const std::vector<const Step *> &seq) {
            St st;
            std::unique_ptr<Box<T>> A(make()), B(make());
            st.A = A.get(); st.B = B.get();
            st.a = init(st.A, 0); st.b = init(st.B, 1);
            std::string h;
            for (size_t k = 0; k < seq.size(); ++k) {
                ++C.states; ++C.transitions;
                if (!apply(st, *seq[k], k + 3)) return;
                if (!h.empty()) h += "; ";
                h += name(st.A, *seq[k]);
                const std::string d = check(st, k + 1 == seq.size() && seq.size() == 1);
                if (!d.empty()) { s.fail(h, d); return; }
            }
            ++C.traces;
            uint64_t hh = s.h;
            for (T x : st.a) hh = mix(hh, bits(x));
            outcome(hh);
            if (seq.size() == 1) {  // copies are complete and independent
                for (int how = 0; how < 2; ++how) {
                    std::unique_ptr<Box<T>> cp(st.A->copy(how));
                    if (!cp) continue;
                    ++C.transitions;
                    std::string d = diff(st.a, cp->raw());
                    if (d.empty()) d = cp->counts();
                    if (d.empty()) { for (size_t i = 0; i < cp->padded(); ++i) cp->raw()[i] = T(99); d = diff(st.a, st.A->raw()); }
                    if (!d.empty()) s.fail(h + "; copy " + str(how), d);
                }
            }
        };
        for (size_t p = 0; p < S.size(); ++p) {
            s.at(p);
            once({&S[p]});
            if (deep) for (size_t q = 0; q < S.size(); ++q) { s.at(p, q); once({&S[p], &S[q]}); }
        }
        compares(s, make);
    }
    // relations hold for the container iff they hold for all entries (padding does not count)
    static void compares(Site &s, const Make &make)
    {
        std::unique_ptr<Box<T>> A(make()), B(make());
        const size_t P = A->padded();
        auto valid = [&](size_t i) { return i % A->pcols < A->cols; };
        auto cmp = [&](const std::string &what) {
            ++C.states; ++C.transitions; C.checks += 6;
            int w = 63, eqs = 0, n = 0;
            for (size_t i = 0; i < P; ++i)
                if (valid(i)) {
                    const T a = A->raw()[i], b = B->raw()[i];
                    ++n; eqs += a == b;
                    if (!(a == b)) w &= ~1;
                    if (!(a != b)) w &= ~2;
                    if (!(a < b)) w &= ~4;
                    if (!(a <= b)) w &= ~8;
                    if (!(a > b)) w &= ~16;
                    if (!(a >= b)) w &= ~32;
                }
            int g = A->cmp(B.get());
            if (eqs != 0 && eqs != n) { g &= ~2; w &= ~2; }  // != of partially equal containers is not specified
            outcome(mix(s.h, g));
            if (g != w) s.fail("compare: " + what, "relations (== != < <= > >=) got " + str(g) + " want " + str(w));
        };
        auto fill = [&](Box<T> *b, T v, T pad) { for (size_t i = 0; i < P; ++i) b->raw()[i] = valid(i) ? v : pad; };
        const T vs[] = {T(0), T(1), T(5)};
        const T pads[] = {T(0), T(3), T(9)};
        for (T x : vs) for (T y : vs) for (T p : pads) for (T q : pads) {
            fill(A.get(), x, p); fill(B.get(), y, q);
            cmp("all entries " + str(x) + " vs " + str(y) + " padding " + str(p) + " vs " + str(q));
            for (size_t i = 0; i < P; ++i) if (valid(i)) for (T z : vs) {  // one entry deviates
                const T o = A->raw()[i];
                A->raw()[i] = z;
                cmp("all entries " + str(x) + " vs " + str(y) + " padding " + str(p) + " vs " + str(q) + " a[" + str(i) + "]=" + str(z));
                A->raw()[i] = o;
            }
        }
    }
};
template <class V, size_t N> void fixed1(bool deep)
{
    typedef Vc::Memory<V, N> M;
    Core<typename V::EntryType>::run("Memory<" + vn<V>() + "," + str(N) + ">", [] { return MBox<V, M, 1>::create(1, N); }, deep);
}
template <class V, size_t R, size_t N> void fixed2(bool deep)
{
    typedef Vc::Memory<V, R, N> M;
    Core<typename V::EntryType>::run("Memory<" + vn<V>() + "," + str(R) + "," + str(N) + ">", [] { return MBox<V, M, 2>::create(R, N); }, deep);
}
template <class V> void dynamic(size_t N, bool deep)
{
    typedef Vc::Memory<V> M;
    typedef typename V::EntryType T;
    Core<T>::run("Memory<" + vn<V>() + ">(" + str(N) + ")", [=] { auto *r = new MBox<V, M, 1>(new M(N), nullptr, 1, N); r->dyn = true; return static_cast<Box<T> *>(r); }, deep);
}
template <class M, class I, class J> void iters(Site &s, M &, long K, const I b, const J c, size_t n)
{
    for (long i = 0; i <= K; ++i)
        for (long j = 0; j <= K; ++j) {
            s.at(n, i, j);
            ++C.states; ++C.transitions;
            auto in = [&] { return "entries " + str(n) + " positions " + str(i) + ", " + str(j); };
            const I x = b + i; const J y = c + j;
            expect1(s, int(x == y) | int(x != y) << 1 | int(x < y) << 2 | int(x <= y) << 3 | int(x > y) << 4 | int(x >= y) << 5, int(i == j) | int(i != j) << 1 | int(i < j) << 2 | int(i <= j) << 3 | int(i > j) << 4 | int(i >= j) << 5, [&] { return in() + " comparisons"; });
            const I z = b + j;
            expect1(s, long(x - z), i - j, [&] { return in() + " difference"; });
            I w = x;
            if (j >= i) w += j - i; else w -= i - j;
            expect1(s, long(w - b), j, [&] { return in() + " += -="; });
            const I q = j >= i ? w - (j - i) : w + (i - j);
            expect1(s, long(q - b), i, [&] { return in() + " - +"; });
            if (i < K) { I a = x; I o = a++; I p = x; I &r = ++p; expect1(s, long(a - b) * 100 + long(o - b) * 10 + long(p - b), (i + 1) * 100 + i * 10 + i + 1, [&] { return in() + " ++"; }); expect1(s, &r == &p, true, in); }
            if (i > 0) { I a = x; I o = a--; I p = x; I &r = --p; expect1(s, long(a - b) * 100 + long(o - b) * 10 + long(p - b), (i - 1) * 100 + i * 10 + i - 1, [&] { return in() + " --"; }); expect1(s, &r == &p, true, in); }
            if (i < K && j < K && j >= i) expect1(s, bool(&x[j - i] == &*(b + j)), true, [&] { return in() + " []"; });
            if (i < K) expect1(s, bool(x.operator->() == &*x), true, [&] { return in() + " ->"; });
        }
}
template <class V> void extra()
{
    typedef typename V::EntryType T;
    {
        Site s("Memory<" + vn<V>() + ",N> initializer list, fromRawData, copies between sizes");
        if (!s.active()) return;
        enum { N = V::Size + 3 };
        for (int r = 0; r < 16; ++r) {
            ++C.states; ++C.transitions; s.at(r);
            const T b = T(r);
            Vc::Memory<V, 3> m = {b, T(b + 1), T(b + 2)};
            for (int i = 0; i < 3; ++i) expect1(s, m[i], T(b + i), [&] { return "initializer list of 3, entry " + str(i); });
            if (V::Size > 3) for (size_t i = 3; i < m.vectorsCount() * V::Size; ++i) expect1(s, m.entries()[i], T(0), [&] { return "initializer list of 3, padding " + str(i); });
            Vc::Memory<V, N> q = {b};
            expect1(s, q[0], b, [&] { return std::string("initializer list shorter than the container"); });
            alignas(64) T buf[V::Size * 3] = {};
            auto &f = Vc::Memory<V, V::Size * 2, 0, false>::fromRawData(buf);
            for (size_t i = 0; i < V::Size * 3; ++i) buf[i] = T(i + r);
            for (size_t i = 0; i < V::Size * 2; ++i) expect1(s, f[i], T(i + r), [&] { return "fromRawData entry " + str(i); });
            f.vector(1) = V(T(r));
            for (size_t i = 0; i < V::Size * 3; ++i) expect1(s, buf[i], i / V::Size == 1 ? T(r) : T(i + r), [&] { return "write through fromRawData, entry " + str(i); });
            // different entry counts, same vector count
            if (V::Size > 1) {
                Vc::Memory<V, V::Size * 2> big;
                for (size_t i = 0; i < V::Size * 2; ++i) big[i] = T(i * 3 + r);
                Vc::Memory<V, V::Size + 1> sm(big);
                Vc::Memory<V, V::Size + 1> sa;
                sa = big;
                Vc::Memory<V> d(V::Size * 2 - 1);
                d = big;
                for (size_t i = 0; i < V::Size * 2; ++i) {
                    expect1(s, sm.entries()[i], T(i * 3 + r), [&] { return "copy construction from another size, entry " + str(i); });
                    expect1(s, sa.entries()[i], T(i * 3 + r), [&] { return "assignment from another size, entry " + str(i); });
                    expect1(s, d.entries()[i], T(i * 3 + r), [&] { return "assignment fixed to dynamic, entry " + str(i); });
                }
            }
        }
    }
    {
        // makeIterator: iterators over plain arrays, aligned and not, from pointers and from Memory vectors
        Site s("makeIterator<" + vn<V>() + ">");
        if (s.active())
            for (size_t K : {1, 2, 3, 4}) {
                alignas(64) T buf[5 * V::Size + 1];
                const size_t NB = sizeof(buf) / sizeof(T);
                for (size_t o : {size_t(0), size_t(1), size_t(V::Size - 1)}) {
                    for (size_t k = 0; k < NB; ++k) buf[k] = T(k % 100 + 1);
                    auto b = Vc::makeIterator<V>(&buf[o], Vc::Unaligned);
                    iters(s, buf, long(K), b, b, K);
                    for (size_t i = 0; i < K; ++i) {
                        s.at(K, o, i);
                        auto in = [&] { return "offset " + str(o) + " vector " + str(i); };
                        if (o == 0) {
                            auto al = Vc::makeIterator<V>(&buf[0], Vc::Aligned);
                            iters(s, buf, long(K), al, b, K);
                            const V x = al[i], y = *(al + i);
                            for (size_t l = 0; l < V::Size; ++l) { expect1(s, T(x[l]), T((i * V::Size + l) % 100 + 1), in); expect1(s, T(y[l]), T((i * V::Size + l) % 100 + 1), in); }
                        }
                        const V x = b[i], y = *(b + i);
                        for (size_t l = 0; l < V::Size; ++l) { expect1(s, T(x[l]), T((o + i * V::Size + l) % 100 + 1), in); expect1(s, T(y[l]), T((o + i * V::Size + l) % 100 + 1), in); }
                        *(b + i) = V(T(117));
                        for (size_t k = 0; k < NB; ++k) {
                            const bool w = k >= o + i * V::Size && k < o + (i + 1) * V::Size;
                            expect1(s, buf[k], T(w ? 117 : k % 100 + 1), [&] { return in() + " assigned, element " + str(k); });
                            buf[k] = T(k % 100 + 1);
                        }
                        ++C.states;
                    }
                }
                Vc::Memory<V> m(K * V::Size);
                for (size_t i = 0; i < K * V::Size; ++i) m[i] = T(i % 100 + 1);
                auto b = Vc::makeIterator<V>(m.vector(0), Vc::Aligned);
                for (size_t i = 0; i < K; ++i) { const V x = b[i]; for (size_t l = 0; l < V::Size; ++l) expect1(s, T(x[l]), T((i * V::Size + l) % 100 + 1), [&] { return "Memory vector " + str(i); }); }
            }
    }
    {
        // iterator algebra over every pair of positions, flags on both sides
        Site s("Memory<" + vn<V>() + "> iterators, ranges, proxies");
        if (s.active())
            for (size_t n : {size_t(1), size_t(V::Size + 1), size_t(V::Size * 4), size_t(V::Size * 5 + 1)}) {
                Vc::Memory<V> m(n);
                const long K = long(m.vectorsCount());
                for (size_t i = 0; i < size_t(K) * V::Size; ++i) m.entries()[i] = T(i % 100 + 1);
                iters(s, m, K, m.begin(), m.begin(), n);
                iters(s, m, K, m.begin(Vc::Unaligned), m.begin(Vc::Unaligned), n);
                iters(s, m, K, m.begin(), m.begin(Vc::Unaligned), n);
                for (long i = 0; i < K; ++i)
                    for (long j = 0; j < K; ++j) {
                        s.at(n, i, j);
                        auto in = [&] { return "entries " + str(n) + " vectors " + str(i) + ", " + str(j); };
                        auto lv = [&](size_t v, size_t l) { return T((v * V::Size + l) % 100 + 1); };
                        if (i <= j) {
                            long c = i;
                            auto r = m.range(i, j, Vc::Unaligned);
                            for (auto it = r.begin(); it != r.end() && c < K + 2; ++it, ++c) { const V x = *it; for (size_t l = 0; l < V::Size; ++l) expect1(s, T(x[l]), lv(c, l), in); }
                            expect1(s, c, j + 1, [&] { return in() + " range(first, last, Unaligned)"; });
                        }
                        const V a = m.vector(i) + m.vector(j), d = m.vector(i) - m.vector(j), p = m.vector(i) * m.vector(j), q = m.vector(i) / m.vector(j);
                        const auto lt = m.vector(i) < m.vector(j), le = m.vector(i) <= m.vector(j), gt = m.vector(i) > m.vector(j), ge = m.vector(i) >= m.vector(j), eq = m.vector(i) == m.vector(j), ne = m.vector(i) != m.vector(j);
                        for (size_t l = 0; l < V::Size; ++l) {
                            const T x = lv(i, l), y = lv(j, l);
                            expect1(s, T(a[l]), T(x + y), [&] { return in() + " +"; });
                            expect1(s, T(d[l]), T(x - y), [&] { return in() + " -"; });
                            expect1(s, T(p[l]), T(x * y), [&] { return in() + " *"; });
                            if (i == j) expect1(s, T(q[l]), T(1), [&] { return in() + " /"; });
                            expect1(s, int(lt[l]) | int(le[l]) << 1 | int(gt[l]) << 2 | int(ge[l]) << 3 | int(eq[l]) << 4 | int(ne[l]) << 5, int(x < y) | int(x <= y) << 1 | int(x > y) << 2 | int(x >= y) << 3 | int(x == y) << 4 | int(x != y) << 5, [&] { return in() + " comparisons"; });
                        }
                        ++C.states;
                    }
            }
    }
    {
        // more entries than 32 bits can count: every accessor around every boundary
        Site s("Memory<" + vn<V>() + ">(n) with more than 2^32 entries");
        if (s.active() && sizeof(T) < 8) {
            g_heap.large = true;
            enum { S = V::Size };
            const size_t n = (size_t(1) << 32) + 2 * S + 1, NV = (n + S - 1) / S;
            {
                Vc::Memory<V> m(n);
                const Vc::Memory<V> &cm = m;
                auto in = [&](size_t i, const char *f) { return [=] { return std::string(f) + " at entry " + str(i); }; };
                expect1(s, m.entriesCount(), n, in(n, "entriesCount()"));
                expect1(s, m.vectorsCount(), NV, in(n, "vectorsCount()"));
                size_t k = 0;
                std::set<size_t> q;
                for (size_t b : {size_t(0), size_t(1) << 15, size_t(1) << 16, size_t(1) << 31, size_t(1) << 32}) for (long d = -2 * S; d <= 2 * S; ++d) if (long(b) + d >= 0 && b + d < n) q.insert(b + d);
                T *p = m.entries();
                for (size_t i : q) p[i] = T(++k % 1000 + 1);
                for (size_t i : q) {
                    s.at(i);
                    ++C.states; ++C.transitions;
                    const T w = p[i];
                    expect1(s, T(m[i]), w, in(i, "m[i]"));
                    expect1(s, T(cm[i]), w, in(i, "const m[i]"));
                    expect1(s, T(m.scalar(i)), w, in(i, "scalar(i)"));
                    const V a(m.vector(i / S)), b(cm.vector(i / S, Vc::Unaligned)), d(m.vectorAt(i / S * S)), e(m.vector(i / S, 0));
                    V c;
                    c = *(m.begin() + i / S);
                    for (size_t l = 0; l < S; ++l) {
                        const T x = p[i / S * S + l];
                        expect1(s, T(a[l]), x, in(i, "vector(i)"));
                        expect1(s, T(b[l]), x, in(i, "vector(i, Unaligned)"));
                        expect1(s, T(c[l]), x, in(i, "*(begin() + i)"));
                        expect1(s, T(d[l]), x, in(i, "vectorAt(i)"));
                        expect1(s, T(e[l]), x, in(i, "vector(i, 0)"));
                    }
                    if (i + S <= n) {
                        const V u(m.vectorAt(i, Vc::Unaligned)), v(m.vector(i / S, int(i % S)));
                        for (size_t l = 0; l < S; ++l) { expect1(s, T(u[l]), p[i + l], in(i, "vectorAt(i, Unaligned)")); expect1(s, T(v[l]), p[i + l], in(i, "vector(i, shift)")); }
                    }
                    m[i] = T(7);
                    expect1(s, p[i], T(7), in(i, "m[i] ="));
                    m.vector(i / S) = V(T(9));
                    for (size_t l = 0; l < S; ++l) { expect1(s, p[i / S * S + l], T(9), in(i, "vector(i) =")); p[i / S * S + l] = T((i + l) % 1000 + 1); }
                }
                const V z(m.lastVector());
                for (size_t l = 0; l < S; ++l) expect1(s, T(z[l]), p[(NV - 1) * S + l], in(n, "lastVector()"));
                expect1(s, size_t(m.end() - m.begin()), NV, in(n, "end() - begin()"));
            }
            g_heap.large = false;
        }
    }
    {
        // objects of all pairs of sizes exchange contents and sizes
        Site s("Memory<" + vn<V>() + ">: swap of every pair of sizes");
        if (s.active())
            for (size_t n = 0; n <= 2 * V::Size + 2; ++n)
                for (size_t m = 0; m <= 2 * V::Size + 2; ++m)
                    for (int how = 0; how < 3; ++how) {
                        s.at(n, m, how);
                        Vc::Memory<V> a(n), b(m);
                        std::vector<T> wa, wb;
                        for (size_t i = 0; i < n; ++i) { a[i] = T(i + 1); wa.push_back(T(i + 1)); }
                        for (size_t i = 0; i < m; ++i) { b[i] = T(2 * i + 50); wb.push_back(T(2 * i + 50)); }
                        if (how == 0) a.swap(b);
                        else if (how == 1) std::swap(a, b);
                        else { using std::swap; swap(b, a); }
                        ++C.states;
                        auto check = [&](const char *n, Vc::Memory<V> &x, const std::vector<T> &w) {
                            auto in = [&](const char *q) { return [=] { return std::string(how == 0 ? "a.swap(b)" : how == 1 ? "std::swap(a, b)" : "swap(b, a)") + " sizes " + str(wa.size()) + " and " + str(wb.size()) + ": " + q + " of " + n; }; };
                            expect1(s, x.entriesCount(), w.size(), in("entriesCount()"));
                            expect1(s, x.vectorsCount(), (w.size() + V::Size - 1) / V::Size, in("vectorsCount()"));
                            if (x.entriesCount() != w.size() || x.vectorsCount() != (w.size() + V::Size - 1) / V::Size) return;
                            for (size_t i = 0; i < w.size(); ++i) expect1(s, T(x[i]), w[i], in("entry"));
                            size_t v = 0;
                            for (auto it = x.begin(); it != x.end() && v < 9; ++it, ++v) { const V y = *it; for (size_t l = 0; l < V::Size && v * V::Size + l < w.size(); ++l) expect1(s, T(y[l]), w[v * V::Size + l], in("vector")); }
                            expect1(s, v, x.vectorsCount(), in("number of vectors iterated"));
                        };
                        check("a", a, wb);
                        check("b", b, wa);
                    }
    }
    {
        Site s("Memory<" + vn<V>() + ">(n) is freed exactly once");
        if (!s.active()) return;
        for (size_t n = 0; n < 20; ++n) {
            const int live = g_heap.n;
            { Vc::Memory<V> a(n), b(a), c(n); c = a; std::swap(a, c); a.swap(b); ++C.states; ++C.transitions; expect1(s, g_heap.n, live + 3, [&] { return "n=" + str(n) + " live blocks"; }); }
            expect1(s, g_heap.n, live, [&] { return "n=" + str(n) + " live blocks after destruction"; });
        }
    }
}
template <class V> void all()
{
    enum { S = V::Size };
    const bool t = g_thorough;
    fixed1<V, 1>(true);
    fixed1<V, S + 1>(true);
    fixed1<V, 3 * S>(t);
    fixed1<V, 4 * S + 1>(t && S <= 4);
    fixed1<V, 7 * S + 2>(false);
    fixed2<V, 2, S + 1>(t || S <= 4);
    fixed2<V, 3, 2 * S>(false);
    fixed2<V, 5, 3>(false);
    for (size_t n = 0; n <= 9 * S + 1; ++n) dynamic<V>(n, n == 2 * S - 1 && (t || S <= 8));
    extra<V>();
}
template <class T> void types()
{
    forAbis<T>([](auto t) { all<typename decltype(t)::type>(); });
}
template <class V> void arrays(std::true_type) { fixed1<V, V::Size * 2 + 1>(false); fixed2<V, 2, V::Size + 1>(false); for (size_t n = 0; n < 5 * V::Size; ++n) dynamic<V>(n, false); }
template <class V> void arrays(std::false_type) {}
template <class V> void array() { arrays<V>(std::integral_constant<bool, V::Size * sizeof(typename V::EntryType) % V::MemoryAlignment == 0>()); }
void explore()
{
#if TYPE == 0
    types<double>();
#elif TYPE == 1
    types<float>();
#elif TYPE == 2
    types<int>();
#elif TYPE == 3
    types<uint>();
#elif TYPE == 4
    types<short>();
#elif TYPE == 5
    types<ushort>();
#elif TYPE == 6
    array<Vc::SimdArray<float, 8>>(); array<Vc::SimdArray<double, 6>>(); array<Vc::SimdArray<float, 12>>(); array<Vc::SimdArray<short, 16>>(); array<Vc::SimdArray<int, 3>>(); array<Vc::SimdArray<double, 3>>();
#endif
}
