// C24: operator<< of vectors, masks, SimdArray and Memory.
// Every lane x value alphabet x formatting state of the stream x kind of stream buffer (memory, buffer that fails after
// k characters for every k, non-terminal FILE, pseudo terminal); oracle: the scalar operator<< on an equal stream.
#include <iostream>
#include <sstream>
#include <locale>
#include <iomanip>
#include <ext/stdio_sync_filebuf.h>
#include "mc.h"
#include "masks.h"
#include <Vc/IO>
#include <fcntl.h>
#include <pty.h>
#include <termios.h>
using namespace mc;
using Vc::uint;
using Vc::ushort;

struct Fmt { std::ios_base::fmtflags f; int prec; char fill; bool grouped; };
struct Group : std::numpunct<char> {
    char do_thousands_sep() const override { return '_'; }
    std::string do_grouping() const override { return "\3"; }
    char do_decimal_point() const override { return ';'; }
};
static std::locale &groupLocale() { static std::locale l(std::locale::classic(), new Group); return l; }
static void setFmt(std::ostream &o, const Fmt &f)
{
    o.flags(f.f);
    o.precision(f.prec);
    o.fill(f.fill);
    o.imbue(f.grouped ? groupLocale() : std::locale::classic());
}
static std::string show(const Fmt &f)
{
    char b[80];
    snprintf(b, sizeof b, "flags=%x precision=%d fill=%c grouped=%d", unsigned(f.f), f.prec, f.fill, f.grouped);
    return b;
}
// complete: every combination of the flags that the scalar operators look at
static const std::vector<Fmt> &formats(int level)
{
    static std::vector<Fmt> R[3];
    std::vector<Fmt> &r = R[level];
    if (!r.empty()) return r;
    typedef std::ios_base B;
    if (level == 0) return r = {{B::dec | B::skipws, 6, ' ', false}, {B::hex | B::showbase | B::scientific | B::uppercase, 17, '0', false}};
    const B::fmtflags base[] = {B::dec, B::hex, B::oct, B::fmtflags()}, fl[] = {B::fmtflags(), B::fixed, B::scientific, B::fixed | B::scientific};
    for (B::fmtflags b : base) for (B::fmtflags f : fl) for (int bits = 0; bits < 32; ++bits) {
        B::fmtflags x = b | f;
        if (bits & 1) x |= B::showpos;
        if (bits & 2) x |= B::showbase;
        if (bits & 4) x |= B::uppercase;
        if (bits & 8) x |= B::boolalpha;
        if (bits & 16) x |= B::showpoint;
        if (level == 1) { if (bits & 8) continue; r.push_back({x, bits & 4 ? 17 : 6, bits & 1 ? '*' : ' ', false}); }
        else for (int p : {0, 1, 6, 9, 17, 25}) for (bool g : {false, true}) for (B::fmtflags a : {B::fmtflags(), B::left, B::internal}) r.push_back({x | a, p, '#', g});
    }
    if (level == 1) { r.push_back({B::dec, 3, ' ', true}); r.push_back({B::dec | B::left | B::unitbuf, 0, 'x', true}); }
    return r;
}

typedef std::function<std::ostream &(std::ostream &)> Print;
static std::string strip(const std::string &s, int *codes = nullptr)
{
    std::string r;
    for (size_t i = 0; i < s.size();) {
        if (s[i] == '\033') { size_t j = i + 1; while (j < s.size() && s[j] != 'm') ++j; i = j + 1; if (codes) ++*codes; }
        else r += s[i++];
    }
    return r;
}
static bool punct(char c) { return std::strchr("[]<>{}, |\n", c) != nullptr && c; }
// the text is the tokens in order, separated by punctuation only
static std::string matchTokens(const std::string &s, const std::vector<std::string> &tok)
{
    size_t p = 0;
    for (size_t i = 0; i < tok.size(); ++i) {
        while (p < s.size() && punct(s[p])) ++p;
        if (s.compare(p, tok[i].size(), tok[i]) != 0) return "entry " + std::to_string(i) + ": expected " + tok[i] + " at offset " + std::to_string(p);
        p += tok[i].size();
        if (p < s.size() && !punct(s[p])) return "entry " + std::to_string(i) + ": " + tok[i] + " is not followed by a separator";
        if (p == s.size() && i + 1 < tok.size()) return "entry " + std::to_string(i + 1) + " is missing";
    }
    while (p < s.size() && punct(s[p])) ++p;
    return p == s.size() ? "" : "additional text at offset " + std::to_string(p);
}
static std::string matchBits(const std::string &s, const std::vector<std::string> &tok)
{
    std::string d, w;
    for (char c : s) {
        if (c == '0' || c == '1') d += c;
        else if (!punct(c) && c != 'm' && (unsigned char)c != 0xc2 && (unsigned char)c != 0xab && (unsigned char)c != 0xbb) return "unexpected character";
    }
    for (const std::string &t : tok) w += t;
    return d == w ? "" : "entries " + d + " want " + w;
}
typedef std::string (*Match)(const std::string &, const std::vector<std::string> &);

struct CountBuf : std::streambuf {  // accepts `left` characters
    std::string got;
    size_t left;
    explicit CountBuf(size_t n) : left(n) {}
    int overflow(int c) override
    {
        if (left == 0) return EOF;
        --left;
        got += char(c);
        return c;
    }
};
struct St { std::ios_base::fmtflags f; std::streamsize p, w; char fill; std::locale l; std::ostream *tie; std::streambuf *b; std::ios_base::iostate ex; };
static St state(std::ostream &o) { return {o.flags(), o.precision(), o.width(), o.fill(), o.getloc(), o.tie(), o.rdbuf(), o.exceptions()}; }
static std::string diff(const St &a, const St &b)
{
    if (a.f != b.f) return "flags";
    if (a.p != b.p) return "precision";
    if (a.w != b.w) return "width";
    if (a.fill != b.fill) return "fill";
    if (!(a.l == b.l)) return "locale";
    if (a.tie != b.tie) return "tie";
    if (a.b != b.b) return "rdbuf";
    if (a.ex != b.ex) return "exceptions";
    return "";
}
static std::ostringstream gOut;
static std::string gFull;
// one streaming operation in the given formatting state. Returns false after a failure
static bool once(Site &S, const Print &p, const std::vector<std::string> &tok, Match m, const Fmt &f, const std::string &in)
{
    ++C.transitions;
    C.checks += tok.size() + 8;
    gOut.str("");
    gOut.clear();
    setFmt(gOut, f);
    const St before = state(gOut);
    std::ostream &r = p(gOut);
    gFull = gOut.str();
    auto bad = [&](const std::string &w) { S.fail(in + " " + show(f), w + " in \"" + gFull + "\""); return false; };
    const std::string d = diff(before, state(gOut));
    if (!d.empty()) return bad(d + " of the stream changed");
    if (&r != &gOut) return bad("returns another stream");
    if (!gOut.good()) return bad("stream is not good() afterwards");
    if (gFull.find('\033') != std::string::npos) return bad("escape sequence written to a string stream");
    const std::string e = m(gFull, tok);
    if (!e.empty()) return bad(e);
    outcome(mix(S.h, std::hash<std::string>()(gFull)));
    return true;
}
// every point at which the stream buffer can fail, with and without exceptions
static void faults(Site &S, const Print &p, const Fmt &f, const std::string &in)
{
    const std::string full = gFull;
    for (size_t k = 0; k < full.size(); ++k)
        for (int ex = 0; ex < 2; ++ex) {
            CountBuf b(k);
            std::ostream o(&b);
            setFmt(o, f);
            if (ex) o.exceptions(std::ios_base::badbit);
            const St before = state(o);
            bool thrown = false;
            ++C.states;
            ++C.transitions;
            C.checks += 4;
            try { p(o); } catch (const std::ios_base::failure &) { thrown = true; }
            const std::string d = diff(before, state(o)), at = in + " " + show(f) + " capacity=" + std::to_string(k);
            if (!d.empty()) { S.fail(at, d + " of the stream changed"); return; }
            if (!o.bad()) { S.fail(at, "failed output is not reported"); return; }
            if (thrown != (ex != 0)) { S.fail(at, thrown ? "unexpected exception" : "no exception"); return; }
            if (b.got != full.substr(0, b.got.size())) { S.fail(at, "wrote \"" + b.got + "\", not the beginning of \"" + full + "\""); return; }
        }
    // a stream that has failed already is left alone
    gOut.str("");
    gOut.clear(std::ios_base::failbit);
    setFmt(gOut, f);
    p(gOut);
    ++C.transitions;
    ++C.checks;
    if (!gOut.str().empty() || !gOut.fail()) S.fail(in, "printed to a failed stream");
    gOut.clear();
}

// ---- terminal and plain files through the buffer type used by std::cout
struct Tty {
    int master = -1, slave = -1;
    FILE *f = nullptr, *plain = nullptr;
    char *mem = nullptr;
    size_t memn = 0;
    Tty()
    {
        termios t;
        std::memset(&t, 0, sizeof t);
        cfmakeraw(&t);
        if (openpty(&master, &slave, nullptr, &t, nullptr) == 0) { f = fdopen(slave, "w"); fcntl(master, F_SETFL, O_NONBLOCK); }
        plain = tmpfile();
    }
    std::string drainTty()
    {
        fflush(f);
        std::string r;
        char b[4096];
        for (;;) { const ssize_t n = read(master, b, sizeof b); if (n <= 0) break; r.append(b, size_t(n)); }
        return r;
    }
    std::string drainPlain()
    {
        fflush(plain);
        const long n = ftell(plain);
        rewind(plain);
        std::string r(size_t(n > 0 ? n : 0), 0);
        if (n > 0 && fread(&r[0], 1, size_t(n), plain) != size_t(n)) r = "?";
        rewind(plain);
        if (ftruncate(fileno(plain), 0)) r = "?";
        return r;
    }
};
static Tty &tty() { static Tty t; return t; }
static void terminal(Site &S, const Print &p, const std::vector<std::string> &tok, Match m, const Fmt &f, const std::string &in)
{
    Tty &t = tty();
    __gnu_cxx::stdio_sync_filebuf<char> plain(t.plain);
    std::ostringstream str;
    std::ostream o(&plain);
    if (t.f) {
        __gnu_cxx::stdio_sync_filebuf<char> term(t.f);
        // the same stream object changes between a file, a terminal and a string
        for (int k = 0; k < 5; ++k) {
            o.rdbuf(k % 2 ? static_cast<std::streambuf *>(&term) : k == 2 ? static_cast<std::streambuf *>(str.rdbuf()) : &plain);
            setFmt(o, f);
            const St before = state(o);
            p(o);
            const std::string d = diff(before, state(o)), raw = k % 2 ? t.drainTty() : k == 2 ? str.str() : t.drainPlain();
            int codes = 0;
            const std::string s = strip(raw, &codes), e = m(s, tok), at = in + " " + show(f) + (k % 2 ? " on a terminal" : " not on a terminal");
            ++C.transitions;
            C.checks += tok.size() + 3;
            if (!d.empty()) { S.fail(at, d + " of the stream changed"); break; }
            if (!e.empty()) { S.fail(at, e + " in \"" + s + "\""); break; }
            if (k % 2 == 0 && codes) { S.fail(at, "escape sequences"); break; }
        }
        o.rdbuf(nullptr);
    } else {
        setFmt(o, f);
        p(o);
        const std::string s = t.drainPlain(), e = m(s, tok);
        ++C.transitions;
        C.checks += tok.size();
        if (!e.empty() || s.find('\033') != std::string::npos) S.fail(in, e + " in \"" + s + "\"");
    }
}

template <class T> static std::string token(T x, const Fmt &f)
{
    static std::ostringstream o;
    o.str("");
    setFmt(o, f);
    o << x;
    return o.str();
}
template <class T> struct Prn { std::string name; size_t n; std::ostream &(*f)(std::ostream &, const T *); std::function<std::vector<T>(const std::vector<T> &)> shown; };
template <class V> std::ostream &prnV(std::ostream &o, const typename V::EntryType *x) { const V v = make<V>(x); return o << v; }
template <class V, size_t N> std::ostream &prnMem(std::ostream &o, const typename V::EntryType *x)
{
    Vc::Memory<V, N> m;
    for (size_t i = 0; i < N; ++i) m[i] = x[i];
    return o << m;
}
template <class V> std::ostream &prnDyn(std::ostream &o, const typename V::EntryType *x, size_t n)
{
    Vc::Memory<V> m(n);
    m.setZero();
    for (size_t i = 0; i < n; ++i) m[i] = x[i];
    return o << m;
}
template <class V, size_t R, size_t N> std::ostream &prnMem2(std::ostream &o, const typename V::EntryType *x)
{
    Vc::Memory<V, R, N> m;
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < N; ++j) m[i][j] = x[i * N + j];
    return o << m;
}
template <class T> std::vector<Prn<T>> &P() { static std::vector<Prn<T>> p; return p; }
template <class T> std::vector<T> ident(const std::vector<T> &x) { return x; }
template <class V> void regV() { typedef typename V::EntryType T; P<T>().push_back({vn<V>(), V::Size, &prnV<V>, &ident<T>}); }
template <class V, size_t N> void regMem()
{
    typedef typename V::EntryType T;
    P<T>().push_back({"Memory<" + vn<V>() + "," + std::to_string(N) + ">", N, &prnMem<V, N>, [](const std::vector<T> &x) { std::vector<T> r(x); r.resize((N + V::Size - 1) / V::Size * V::Size); return r; }});
}
template <class V, size_t R, size_t N> void regMem2()
{
    typedef typename V::EntryType T;
    P<T>().push_back({"Memory<" + vn<V>() + "," + std::to_string(R) + "," + std::to_string(N) + ">", R * N, &prnMem2<V, R, N>, [](const std::vector<T> &x) {
                          const size_t pad = (N + V::Size - 1) / V::Size * V::Size;
                          std::vector<T> r;
                          for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < pad; ++j) r.push_back(j < N ? x[i * N + j] : T());
                          return r;
                      }});
}
struct RegV { template <class V> void operator()(Tag<V>) const { regV<V>(); } };
struct RegMem { template <class V> void operator()(Tag<V>) const { regMem<V, 1>(); regMem<V, V::Size>(); regMem<V, V::Size + 1>(); regMem<V, 2 * V::Size + 1>(); regMem2<V, 2, V::Size + 1>(); regMem2<V, 3, 1>(); } };
template <class T> void dynamicMemory();

template <class T> void explore_(const Prn<T> &p)
{
    Site S("operator<<(ostream, " + p.name + ")");
    if (!S.active()) return;
    typedef std::vector<T> X;
    std::vector<X> xs;
    const std::vector<T> A = alphabet<T>(1), A0 = alphabet<T>(0);
    uint64_t k = 0;
    auto one = [&](const X &x, const Fmt &f, bool deep) {
        const std::vector<T> sh = p.shown(x);
        std::vector<std::string> tok;
        for (T e : sh) tok.push_back(token(e, f));
        auto pr = [&](std::ostream &o) -> std::ostream & { return p.f(o, x.data()); };
        ++C.states;
        S.at(++k);
        const std::string in = "x=" + (sh.size() > 40 ? std::to_string(sh.size()) + " entries" : str(sh));
        if (!once(S, pr, tok, &matchTokens, f, in)) return false;
        if (deep) { faults(S, pr, f, in); terminal(S, pr, tok, &matchTokens, f, in); }
        return true;
    };
    X base(p.n);
    for (size_t i = 0; i < p.n; ++i) base[i] = T(int(i) * 3 - 5);
    // every lane x alphabet, plain formats
    for (const Fmt &f : formats(0))
        for (size_t l = 0; l < p.n; ++l)
            for (T a : A) { X x = base; x[l] = a; if (!one(x, f, false)) return; }
    // every format x boundary values in all lanes, rotating
    for (const Fmt &f : formats(g_thorough ? 2 : 1))
        for (size_t s = 0; s < A0.size(); s += p.n) { X x(p.n); for (size_t i = 0; i < p.n; ++i) x[i] = A0[(s + i) % A0.size()]; if (!one(x, f, false)) return; }
    for (size_t s = 0; s < (A0.size() < 6 ? A0.size() : 6); ++s) { X x(p.n); for (size_t i = 0; i < p.n; ++i) x[i] = A0[(s * 7 + i) % A0.size()]; for (const Fmt &f : formats(0)) one(x, f, true); }
    one(base, formats(0)[0], true);
    // all values of 16-bit types, characters included
    if (sizeof(T) == 2 && p.n <= 16)
        for (int v = 0; v < 65536; v += int(p.n)) { X x(p.n); for (size_t i = 0; i < p.n; ++i) x[i] = T(v + int(i)); if (!one(x, formats(0)[0], false)) return; }
}
template <class M> std::ostream &prnM(std::ostream &o, uint64_t b) { const M m = makem<M>(b); return o << m; }
static void exploreMask(const std::string &name, size_t n, std::ostream &(*f)(std::ostream &, uint64_t))
{
    Site S("operator<<(ostream, " + name + ")");
    if (!S.active()) return;
    uint64_t k = 0;
    for (uint64_t b : maskSet(n)) {
        std::vector<std::string> tok;
        for (size_t i = 0; i < n; ++i) tok.push_back((b >> i) & 1 ? "1" : "0");
        auto pr = [&](std::ostream &o) -> std::ostream & { return f(o, b); };
        char in[40];
        snprintf(in, sizeof in, "mask=%llx", (unsigned long long)b);
        ++C.states;
        S.at(++k);
        for (const Fmt &fm : formats(0)) if (!once(S, pr, tok, &matchBits, fm, in)) return;
        if (k <= 20) { for (const Fmt &fm : formats(1)) if (!once(S, pr, tok, &matchBits, fm, in)) return; once(S, pr, tok, &matchBits, formats(0)[0], in); faults(S, pr, formats(0)[0], in); }
        terminal(S, pr, tok, &matchBits, formats(0)[0], in);
    }
}
template <class T> struct RegMask { template <class V> void operator()(Tag<V>) const { exploreMask(vn<V>() + "::mask", V::Size, &prnM<typename V::MaskType>); } };
template <class V> void dyn()
{
    typedef typename V::EntryType T;
    Site S("operator<<(ostream, Memory<" + vn<V>() + ">)");
    if (!S.active()) return;
    for (size_t n = 1; n <= (g_thorough ? 70u : 35u); ++n) {
        std::vector<T> x;
        for (size_t i = 0; i < n; ++i) x.push_back(T(i * 5 + 1));
        auto pr = [&](std::ostream &o) -> std::ostream & { return prnDyn<V>(o, x.data(), n); };
        for (const Fmt &f : formats(0)) {
            std::vector<std::string> tok;
            for (size_t i = 0; i < (n + V::Size - 1) / V::Size * V::Size; ++i) tok.push_back(token(i < n ? x[i] : T(), f));
            ++C.states;
            S.at(n);
            once(S, pr, tok, &matchTokens, f, "n=" + std::to_string(n));
            if (n < 4) { faults(S, pr, f, "n=" + std::to_string(n)); terminal(S, pr, tok, &matchTokens, f, "n=" + std::to_string(n)); }
        }
    }
}
struct RegDyn { template <class V> void operator()(Tag<V>) const { dyn<V>(); } };
// several objects streamed one after another into one stream
template <class V> void chain()
{
    Site S("operator<< chained, " + vn<V>());
    if (!S.active()) return;
    typedef typename V::EntryType T;
    typedef Vc::SimdArray<T, 5> A;
    std::vector<int> seq;
    std::function<void(int)> rec = [&](int d) {
        if (!seq.empty()) {
            std::ostringstream o;
            std::vector<std::string> tok;
            const V v([](int i) { return T(i + 1); });
            const A a([](int i) { return T(i + 20); });
            for (int s : seq) {
                if (s == 0) { o << v << ' '; for (size_t i = 0; i < V::Size; ++i) tok.push_back(token(T(i + 1), formats(0)[0])); }
                else if (s == 1) { o << a << ' '; for (size_t i = 0; i < 5; ++i) tok.push_back(token(T(i + 20), formats(0)[0])); }
                else if (s == 2) { o << T(100) << ' '; tok.push_back(token(T(100), formats(0)[0])); }
                else { o << v[V::Size - 1] << ' ' << T(a[2]) << ' '; tok.push_back(token(T(V::Size), formats(0)[0])); tok.push_back(token(T(22), formats(0)[0])); }
            }
            ++C.states;
            ++C.transitions;
            ++C.traces;
            C.checks += tok.size();
            const std::string e = matchTokens(o.str(), tok);
            if (!e.empty()) S.fail(str(seq), e + " in \"" + o.str() + "\"");
        }
        if (d) for (int s = 0; s < 4; ++s) { seq.push_back(s); rec(d - 1); seq.pop_back(); }
    };
    rec(4);
}
struct Chain { template <class V> void operator()(Tag<V>) const { chain<V>(); } };
template <class T> void all()
{
    forAbis<T>(RegV());
    forAbis<T>(RegMem());
#ifndef Vc_IMPL_Scalar
    forAbisScalar<T>(RegV());
    forAbisScalar<T>(RegMem());
#endif
    regV<Vc::SimdArray<T, 1>>(); regV<Vc::SimdArray<T, 3>>(); regV<Vc::SimdArray<T, 4>>(); regV<Vc::SimdArray<T, 5>>(); regV<Vc::SimdArray<T, 8>>(); regV<Vc::SimdArray<T, 13>>(); regV<Vc::SimdArray<T, 32>>();
    P<T>().push_back({std::string("fixed_size_simd<") + TN<T>::n() + ",6>", 6, &prnV<Vc::fixed_size_simd<T, 6>>, &ident<T>});
    for (const Prn<T> &p : P<T>()) explore_(p);
    forAbis<T>(RegMask<T>());
    forAbis<T>(RegDyn());
    forAbis<T>(Chain());
    RegMask<T> rm;
    rm(Tag<Vc::SimdArray<T, 1>>()); rm(Tag<Vc::SimdArray<T, 3>>()); rm(Tag<Vc::SimdArray<T, 8>>()); rm(Tag<Vc::SimdArray<T, 13>>());
    exploreMask(std::string("fixed_size_simd_mask<") + TN<T>::n() + ",7>", 7, &prnM<Vc::fixed_size_simd_mask<T, 7>>);
}
void explore()
{
#if TYPE == 0
    all<double>();
#elif TYPE == 1
    all<float>();
#elif TYPE == 2
    all<int>();
    all<uint>();
#else
    all<short>();
    all<ushort>();
#endif
}
