// C19: CPU detection. The library sources run unmodified except that the instructions cpuid and xgetbv call the
// environment below, which answers as the CPUs of a bounded family do. All environments of the family are enumerated.
// The expectations are tables written from the vendors' documentation (Intel SDM vol. 2A, CPUID; AMD CPUID specification).
#include "mc.h"
#include <Vc/cpuid.h>
#include <Vc/support.h>
#include <algorithm>
#include <array>
using namespace mc;
typedef uint32_t u32;
extern "C" { extern char __start_vc_state[], __stop_vc_state[]; }

// ------------------------------------------------------------------ environment
struct Cache { int type, level, line, parts, ways, sets; };
struct Env {
    u32 maxBasic, maxExt, vendor[3];  // ebx, ecx, edx
    bool intelWrap;                   // leafs beyond the maximum answer like the highest basic leaf
    u32 l1[4], l7[4], e1[4], e5[4], e6[4];
    u32 l2[3][4];
    int l2n;
    Cache c[6];
    int nc;
    u32 xcr0, other;
    void amd() { vendor[0] = 0x68747541; vendor[1] = 0x444D4163; vendor[2] = 0x69746e65; intelWrap = false; }
    void intel() { vendor[0] = 0x756e6547; vendor[1] = 0x6C65746E; vendor[2] = 0x49656e69; intelWrap = true; }
    void third() { vendor[0] = 0x6f677948; vendor[1] = 0x656e6975; vendor[2] = 0x6e65476e; intelWrap = false; }
    Env() { std::memset(this, 0, sizeof *this); maxBasic = 0x16; maxExt = 0x80000008; intel(); l2n = 1; l2[0][0] = 1; }
};
static Env g_env;
static bool g_real, g_badXgetbv;
static int g_l2calls, g_calls;
#define GENERAL __attribute__((target("general-regs-only"), noinline, optimize("no-tree-vectorize")))
static GENERAL void basic(u32 leaf, u32 sub, u32 *r)
{
    const u32 *p = nullptr;
    r[0] = r[1] = r[2] = r[3] = 0;
    switch (leaf) {
    case 0: r[0] = g_env.maxBasic; r[1] = g_env.vendor[0]; r[2] = g_env.vendor[1]; r[3] = g_env.vendor[2]; return;
    case 1: p = g_env.l1; break;
    case 2: p = g_env.l2[g_l2calls % g_env.l2n]; ++g_l2calls; break;
    case 4:
        if (int(sub) < g_env.nc) {
            const Cache &c = g_env.c[sub];
            r[0] = u32(c.type) | u32(c.level) << 5 | 0x1c004000u;
            r[1] = u32(c.line - 1) | u32(c.parts - 1) << 12 | u32(c.ways - 1) << 22;
            r[2] = u32(c.sets - 1);
            r[3] = 0x7;
        }
        return;
    case 7: if (sub == 0) p = g_env.l7; break;
    default: r[0] = g_env.other & 0x7fffffffu; r[1] = r[2] = r[3] = g_env.other; return;
    }
    if (p) { r[0] = p[0]; r[1] = p[1]; r[2] = p[2]; r[3] = p[3]; }
}
extern "C" GENERAL void vc_env_cpuid(u32 *r)
{
    const u32 leaf = r[0], sub = r[2];
    ++g_calls;
    if (g_real) { __asm__ volatile("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "a"(leaf), "c"(sub)); return; }
    const u32 *p = nullptr;
    if (leaf < 0x80000000u && leaf <= g_env.maxBasic) return basic(leaf, sub, r);
    if (leaf >= 0x80000000u && leaf <= g_env.maxExt)
        switch (leaf) {
        case 0x80000000u: r[0] = g_env.maxExt; r[1] = g_env.intelWrap ? 0 : g_env.vendor[0]; r[2] = g_env.intelWrap ? 0 : g_env.vendor[1]; r[3] = g_env.intelWrap ? 0 : g_env.vendor[2]; return;
        case 0x80000001u: p = g_env.e1; break;
        case 0x80000005u: p = g_env.e5; break;
        case 0x80000006u: p = g_env.e6; break;
        default: r[0] = g_env.other & 0x7fffffffu; r[1] = r[2] = r[3] = g_env.other; return;
        }
    else if (g_env.intelWrap) return basic(g_env.maxBasic, sub, r);
    r[0] = p ? p[0] : 0; r[1] = p ? p[1] : 0; r[2] = p ? p[2] : 0; r[3] = p ? p[3] : 0;
}
extern "C" GENERAL void vc_env_xgetbv(u32 *r)
{
    if (g_real) { __asm__ volatile("xgetbv" : "=a"(r[0]), "=d"(r[1]) : "c"(r[2])); return; }
    if (!(g_env.l1[2] >> 27 & 1) || r[2] != 0) g_badXgetbv = true;  // #UD / #GP
    r[0] = g_env.xcr0;
    r[1] = 0;
}
__asm__(".text\n"
        ".globl vc_fake_cpuid\nvc_fake_cpuid:\n"
        "push %rbp\nmov %rsp,%rbp\npush %rsi\npush %rdi\npush %r8\npush %r9\npush %r10\npush %r11\npushfq\n"
        "sub $64,%rsp\nand $-16,%rsp\nmov %eax,(%rsp)\nmov %ebx,4(%rsp)\nmov %ecx,8(%rsp)\nmov %edx,12(%rsp)\nmov %rsp,%rdi\ncall vc_env_cpuid\n"
        "mov (%rsp),%eax\nmov 4(%rsp),%ebx\nmov 8(%rsp),%ecx\nmov 12(%rsp),%edx\n"
        "lea -56(%rbp),%rsp\npopfq\npop %r11\npop %r10\npop %r9\npop %r8\npop %rdi\npop %rsi\npop %rbp\nret\n"
        ".globl vc_fake_xgetbv\nvc_fake_xgetbv:\n"
        "push %rbp\nmov %rsp,%rbp\npush %rsi\npush %rdi\npush %r8\npush %r9\npush %r10\npush %r11\npushfq\n"
        "sub $64,%rsp\nand $-16,%rsp\nmov %eax,(%rsp)\nmov %edx,4(%rsp)\nmov %ecx,8(%rsp)\nmov %rsp,%rdi\npush %rcx\nsub $8,%rsp\ncall vc_env_xgetbv\nadd $8,%rsp\npop %rcx\n"
        "mov (%rsp),%eax\nmov 4(%rsp),%edx\n"
        "lea -56(%rbp),%rsp\npopfq\npop %r11\npop %r10\npop %r9\npop %r8\npop %rdi\npop %rsi\npop %rbp\nret\n");
static char g_snapshot[4096];
__attribute__((constructor(101))) static void snapshot() { if (__stop_vc_state - __start_vc_state > long(sizeof g_snapshot)) abort(); std::memcpy(g_snapshot, __start_vc_state, __stop_vc_state - __start_vc_state); }
// a new process on a CPU with environment g_env
static void boot()
{
    std::memcpy(__start_vc_state, g_snapshot, __stop_vc_state - __start_vc_state);
    g_l2calls = 0; g_badXgetbv = false; g_calls = 0;
    Vc::CpuId::init();
    ++C.states; ++C.transitions;
}
typedef Vc::CpuId I;
static std::string hex(u32 x) { char b[16]; snprintf(b, sizeof b, "0x%x", x); return b; }

// ------------------------------------------------------------------ feature bits
enum Word { C1, D1, B7, C7, C8, D8 };
static u32 &word(int w) { switch (w) { case C1: return g_env.l1[2]; case D1: return g_env.l1[3]; case B7: return g_env.l7[1]; case C7: return g_env.l7[2]; case C8: return g_env.e1[2]; default: return g_env.e1[3]; } }
static const char *wordName[] = {"CPUID.1:ECX", "CPUID.1:EDX", "CPUID.7.0:EBX", "CPUID.7.0:ECX", "CPUID.80000001h:ECX", "CPUID.80000001h:EDX"};
struct Feature { const char *name; bool (*f)(); int w, bit; };
#define F(f_, w_, b_) {#f_, [] { return bool(I::f_()); }, w_, b_}
static const Feature features[] = {
    F(hasSse3, C1, 0), F(hasPclmulqdq, C1, 1), F(hasMonitor, C1, 3), F(hasVmx, C1, 5), F(hasSmx, C1, 6), F(hasEist, C1, 7), F(hasTm2, C1, 8), F(hasSsse3, C1, 9), F(hasFma, C1, 12), F(hasCmpXchg16b, C1, 13), F(hasPdcm, C1, 15), F(hasDca, C1, 18), F(hasSse41, C1, 19), F(hasSse42, C1, 20), F(hasMovbe, C1, 22), F(hasPopcnt, C1, 23), F(hasAes, C1, 25), F(hasOsxsave, C1, 27), F(hasAvx, C1, 28), F(hasF16c, C1, 29), F(hasRdrand, C1, 30),
    F(hasFpu, D1, 0), F(hasVme, D1, 1), F(hasDe, D1, 2), F(hasPse, D1, 3), F(hasTsc, D1, 4), F(hasMsr, D1, 5), F(hasPae, D1, 6), F(hasCx8, D1, 8), F(hasMtrr, D1, 12), F(hasCmov, D1, 15), F(hasClfsh, D1, 19), F(hasAcpi, D1, 22), F(hasMmx, D1, 23), F(hasSse, D1, 25), F(hasSse2, D1, 26), F(hasHtt, D1, 28),
    F(hasBmi1, B7, 3), F(hasHle, B7, 4), F(hasAvx2, B7, 5), F(hasBmi2, B7, 8), F(hasRtm, B7, 11), F(hasAvx512f, B7, 16), F(hasAvx512dq, B7, 17), F(hasAvx512ifma, B7, 21), F(hasAvx512pf, B7, 26), F(hasAvx512er, B7, 27), F(hasAvx512cd, B7, 28), F(hasAvx512bw, B7, 30), F(hasAvx512vl, B7, 31), F(hasAvx512vbmi, C7, 1),
    F(hasSse4a, C8, 6), F(hasMisAlignSse, C8, 7), F(hasAmdPrefetch, C8, 8), F(hasXop, C8, 11), F(hasFma4, C8, 16), F(hasRdtscp, D8, 27), F(has3DNow, D8, 31), F(has3DNowExt, D8, 30)};
static void vendor(int v) { if (v == 0) g_env.intel(); else if (v == 1) g_env.amd(); else g_env.third(); }
static const char *vendorName[] = {"GenuineIntel", "AuthenticAMD", "HygonGenuine"};
static void featureQueries()
{
    Site s("CpuId::has...() and vendor queries");
    if (!s.active()) return;
    auto check = [&](const std::string &cfg) {
        boot();
        uint64_t h = s.h;
        for (const auto &f : features) {
            ++C.checks;
            const bool got = f.f(), want = word(f.w) >> f.bit & 1;
            h = mix(h, got);
            if (got != want) s.fail(std::string(f.name) + "() with " + cfg, std::string("returned ") + (got ? "true" : "false") + ", " + wordName[f.w] + " bit " + str(f.bit) + " is " + (want ? "set" : "clear"));
        }
        if (g_badXgetbv) s.fail(cfg, "xgetbv executed without OSXSAVE");
        outcome(h);
    };
    for (int v = 0; v < 3; ++v)
        for (int w = 0; w < 6; ++w)
            for (int inv = 0; inv < 2; ++inv)
                for (int a = 0; a < 32; ++a)
                    for (int b = 0; b <= a; ++b) {
                        s.at(v * 16 + w * 2 + inv, a, b);
                        g_env = Env();
                        vendor(v);
                        for (int k = 0; k < 6; ++k) word(k) = inv ? ~0u : 0;
                        const u32 x = 1u << a | 1u << b;
                        word(w) = inv ? ~x : x;
                        check(std::string(vendorName[v]) + ", all feature words " + (inv ? "set" : "clear") + " except " + wordName[w] + " = " + hex(word(w)));
                        if (I::isIntel() != (v == 0) || I::isAmd() != (v == 1)) s.fail(vendorName[v], "isIntel/isAmd");
                    }
    // every combination of whole words
    for (int v = 0; v < 3; ++v)
        for (int m = 0; m < 64; ++m) {
            g_env = Env();
            vendor(v);
            for (int k = 0; k < 6; ++k) word(k) = m >> k & 1 ? ~0u : 0;
            s.at(100 + v, m);
            check(std::string(vendorName[v]) + ", whole words " + hex(m));
        }
}
// CPUs that do not have all leafs
static void leafLimits()
{
    Site s("feature queries on CPUs with fewer CPUID leafs");
    if (!s.active()) return;
    for (int v = 0; v < 3; ++v)
        for (u32 maxB = 1; maxB <= 0x20; ++maxB)
            for (u32 maxE : {0u, 0x80000000u, 0x80000001u, 0x80000004u, 0x80000005u, 0x80000006u, 0x80000008u})
                for (u32 other : {0u, 0xffffffffu, 0x7fffff7fu})
                    for (u32 bits : {0u, 0xffffffffu})
                        for (int caches = 0; caches < 2; ++caches) {
                            s.at(v * 64 + maxB, maxE, other);
                            g_env = Env();
                            vendor(v);
                            g_env.maxBasic = maxB; g_env.maxExt = maxE; g_env.other = other;
                            for (int k = 0; k < 6; ++k) word(k) = bits;
                            g_env.l1[0] = 0x673;
                            if (caches) { g_env.l2[0][0] = 0x665b5001; g_env.l2[0][3] = 0x007a7000; }
                            boot();
                            for (const auto &f : features) {
                                const bool there = f.w == C1 || f.w == D1 || (f.w < C8 ? maxB >= 7 : maxE >= 0x80000001u);
                                const bool want = there && (word(f.w) >> f.bit & 1), got = f.f();
                                ++C.checks;
                                if (got != want) s.fail(std::string(f.name) + "(), " + vendorName[v] + ", maximum leafs " + hex(maxB) + " and " + hex(maxE) + ", other leafs " + hex(other), std::string("returned ") + (got ? "true" : "false"));
                            }
                            if (v != 1 && maxB >= 2 && caches && (I::L1Data() != 8192 || I::L2Data() != 256 * 1024)) s.fail(std::string(vendorName[v]) + " maximum leaf " + hex(maxB), "cache sizes of descriptors 66h, 7Ah");
                            if (v != 1 && maxB < 2 && (I::L1Data() || I::L2Data() || I::L3Data() || I::L1Instruction())) s.fail(std::string(vendorName[v]) + " maximum leaf " + hex(maxB), "cache sizes although there is no cache information");
                        }
}
// ------------------------------------------------------------------ dispatch
static void dispatch()
{
    Site s("isImplementationSupported / bestImplementationSupported / extraInstructionsSupported / currentImplementationSupported");
    if (!s.active()) return;
    struct B { int w, bit; };
    const B set[] = {{D1, 26}, {C1, 0}, {C1, 9}, {C1, 19}, {C1, 20}, {C1, 28}, {B7, 5}, {C1, 27}};
    const B ext[] = {{C1, 29}, {C8, 16}, {C8, 11}, {C1, 23}, {C8, 6}, {C1, 12}, {B7, 8}};
    const unsigned flag[] = {Vc::Float16cInstructions, Vc::Fma4Instructions, Vc::XopInstructions, Vc::PopcntInstructions, Vc::Sse4aInstructions, Vc::FmaInstructions, Vc::Bmi2Instructions};
    const Vc::Implementation impls[] = {Vc::ScalarImpl, Vc::SSE2Impl, Vc::SSE3Impl, Vc::SSSE3Impl, Vc::SSE41Impl, Vc::SSE42Impl, Vc::AVXImpl, Vc::AVX2Impl};
    const u32 xcr[] = {0x1, 0x3, 0x5, 0x7, 0xe7, 0xfffffff9u, 0x2, 0x6};
    // processors: family/model word, vendor
    const struct { u32 a; int v; bool mic; } proc[] = {{0x306c3, 0, false}, {0x00800f11, 1, false}, {0xb10, 0, true}, {0xb10, 1, false}, {0xb00, 0, false}, {0xb20, 0, false}, {0x610, 0, false}, {0x800f11, 2, false}};
    for (unsigned p = 0; p < 8; ++p)
        for (int rest = 0; rest < 2; ++rest)
            for (unsigned m = 0; m < 256; ++m)
                for (unsigned xi = 0; xi < 8; ++xi)
                    for (unsigned e = 0; e < 128; ++e) {
                        if (p != 0 && e != 0 && e != 127 && (e & (e - 1))) continue;
                        
                        s.at(p * 2 + rest, m, xi * 128 + e);
                        g_env = Env();
                        vendor(proc[p].v);
                        for (int k = 0; k < 6; ++k) word(k) = rest ? ~0u : 0;
                        for (int i = 0; i < 8; ++i) { u32 &w = word(set[i].w); w = (w & ~(1u << set[i].bit)) | (m >> i & 1) << set[i].bit; }
                        for (int i = 0; i < 7; ++i) { u32 &w = word(ext[i].w); w = (w & ~(1u << ext[i].bit)) | (e >> i & 1) << ext[i].bit; }
                        g_env.l1[0] = proc[p].a;
                        g_env.xcr0 = xcr[xi];
                        boot();
                        const bool os = (m >> 7 & 1) && (xcr[xi] & 6) == 6;
                        bool want[8];
                        want[0] = true;
                        for (int i = 0; i < 5; ++i) want[i + 1] = m >> i & 1;
                        want[6] = os && (m >> 5 & 1);
                        want[7] = os && (m >> 6 & 1);
                        auto cfg = [&] { return std::string("CPUID.1:EAX ") + hex(proc[p].a) + " " + vendorName[proc[p].v] + " features {" + std::string(m & 1 ? "sse2 " : "") + (m & 2 ? "sse3 " : "") + (m & 4 ? "ssse3 " : "") + (m & 8 ? "sse4.1 " : "") + (m & 16 ? "sse4.2 " : "") + (m & 32 ? "avx " : "") + (m & 64 ? "avx2 " : "") + (m & 128 ? "osxsave " : "") + "} extra " + hex(e) + " xcr0 " + hex(xcr[xi]); };
                        C.checks += 16;
                        uint64_t h = s.h;
                        for (int i = 0; i < 8; ++i) { const bool got = Vc::isImplementationSupported(impls[i]); h = mix(h, got); if (got != want[i]) s.fail(cfg(), "isImplementationSupported(" + str(int(impls[i])) + ") returned " + str(int(got))); }
                        if (Vc::isImplementationSupported(Vc::MICImpl) != proc[p].mic) s.fail(cfg(), "isImplementationSupported(MICImpl)");
                        if (Vc::isImplementationSupported(Vc::ImplementationMask)) s.fail(cfg(), "isImplementationSupported(ImplementationMask)");
                        // the best implementation: the highest one whose predecessors are all available
                        unsigned f = 0;
                        for (int i = 0; i < 7; ++i) if (e >> i & 1) f |= flag[i];
                        if (os && (m >> 5 & 1)) f |= Vc::VexInstructions;
                        const unsigned x = Vc::extraInstructionsSupported();
                        h = mix(h, x);
                        if (x != f) s.fail(cfg(), "extraInstructionsSupported() returned " + hex(x) + " want " + hex(f));
                        Vc::Implementation best = Vc::ScalarImpl;
                        for (int i = 1; i < 6 && want[i]; ++i) best = impls[i];
                        if (best == Vc::SSE42Impl && want[6]) best = want[7] ? Vc::AVX2Impl : Vc::AVXImpl;
                        if (proc[p].mic) best = Vc::MICImpl;
                        const Vc::Implementation b = Vc::bestImplementationSupported();
                        h = mix(h, b);
                        if (b != best) s.fail(cfg(), "bestImplementationSupported() returned " + str(int(b)) + " want " + str(int(best)));
                        // the configuration this file is compiled for, from the compiler's macros
                        bool cur = true;
#if !defined Vc_IMPL || 1
                        const unsigned feat = unsigned(Vc::CurrentImplementation::current());
                        for (int i = 0; i < 8; ++i) if (unsigned(impls[i]) == feat) cur = want[i];
                        unsigned need = 0;
                        if (feat != unsigned(Vc::ScalarImpl)) {
#if defined __POPCNT__ && defined __SSE4_1__
                            need |= Vc::PopcntInstructions;
#endif
#if defined __FMA__ && defined __AVX__
                            need |= Vc::FmaInstructions;
#endif
#if defined __BMI2__ && defined __AVX2__
                            need |= Vc::Bmi2Instructions;
#endif
#ifdef __AVX__
                            need |= Vc::VexInstructions;
#endif
                        }
                        cur = cur && (f & need) == need;
#endif
                        if (Vc::currentImplementationSupported() != cur) s.fail(cfg(), std::string("currentImplementationSupported() should be ") + (cur ? "true" : "false"));
                        // explicit implementations with extra instructions
                        if (Vc::isImplementationSupported<Vc::ImplementationT<Vc::AVXImpl + Vc::FmaInstructions + Vc::VexInstructions>>() != (want[6] && (e >> 5 & 1))) s.fail(cfg(), "AVX + FMA + VEX");
                        if (Vc::isImplementationSupported<Vc::ImplementationT<Vc::AVXImpl + Vc::Fma4Instructions + Vc::XopInstructions + Vc::Sse4aInstructions>>() != (want[6] && (e >> 1 & 1) && (e >> 2 & 1) && (e >> 4 & 1))) s.fail(cfg(), "AVX + FMA4 + XOP + SSE4a");
                        if (Vc::isImplementationSupported<Vc::ImplementationT<Vc::SSE42Impl + Vc::PopcntInstructions>>() != (want[5] && (e >> 3 & 1))) s.fail(cfg(), "SSE4.2 + POPCNT");
                        if (Vc::isImplementationSupported<Vc::ImplementationT<Vc::AVX2Impl + Vc::Bmi2Instructions + Vc::FmaInstructions + Vc::PopcntInstructions + Vc::Float16cInstructions>>() != (want[7] && (e & 0x69) == 0x69)) s.fail(cfg(), "AVX2 + BMI2 + FMA + POPCNT + F16C");
                        if (Vc::isImplementationSupported<Vc::ImplementationT<Vc::ScalarImpl>>() != true) s.fail(cfg(), "Scalar");
                        if (g_badXgetbv) s.fail(cfg(), "xgetbv executed although the operating system did not enable it (OSXSAVE clear): illegal instruction");
                        const int calls = g_calls;
                        I::init();
                        if (g_calls != calls) s.fail(cfg(), "init() is not executed once only");
                        outcome(h);
                    }
}
// ------------------------------------------------------------------ family, model, type, line size, logical processors
static void signature()
{
    Site s("processor family, model and type");
    if (s.active())
        for (int v = 0; v < 3; ++v)
            for (u32 t = 0; t < 4; ++t)
                for (u32 fam = 0; fam < 16; ++fam) {

                    for (u32 ef = 0; ef < 0xf1; ++ef) {
                        
                        for (u32 mod = 0; mod < 16; ++mod)
                            for (u32 em = 0; em < 16; ++em) {
                                if (fam == 0xb && (ef || em)) continue;
                                g_env = Env();
                                vendor(v);
                                const u32 a = 0x5u | mod << 4 | fam << 8 | t << 12 | em << 16 | ef << 20;
                                s.at(v, a);
                                g_env.l1[0] = a;
                                boot();
                                const u32 F_ = fam == 0xf ? fam + ef : fam, M_ = fam == 0xf || (fam == 6 && v != 1) ? em << 4 | mod : mod;
                                C.checks += 3;
                                if (I::processorFamily() != F_) s.fail(std::string(vendorName[v]) + " CPUID.1:EAX = " + hex(a), "family " + hex(I::processorFamily()) + " want " + hex(F_));
                                if (I::processorModel() != M_) s.fail(std::string(vendorName[v]) + " CPUID.1:EAX = " + hex(a), "model " + hex(I::processorModel()) + " want " + hex(M_));
                                if (u32(I::processorType()) != t) s.fail(std::string(vendorName[v]) + " CPUID.1:EAX = " + hex(a), "type " + str(int(I::processorType())));
                                outcome(mix(mix(s.h, F_), M_));
                            }
                    }
                }
    Site q("cache line size and number of logical processors");
    if (q.active())
        for (int v = 0; v < 3; ++v)
            for (u32 brand : {0u, 0xffu})
                for (u32 apic : {0u, 0xffu})
                    for (u32 l = 0; l < 256; ++l)
                        for (u32 n = 0; n < 256; ++n) {
                            g_env = Env();
                            vendor(v);
                            q.at(v, l, n);
                            g_env.l1[1] = brand | l << 8 | n << 16 | apic << 24;
                            boot();
                            C.checks += 2;
                            if (I::cacheLineSize() != l * 8) q.fail("CPUID.1:EBX = " + hex(g_env.l1[1]), "cacheLineSize " + str(int(I::cacheLineSize())));
                            if (I::logicalProcessors() != n) q.fail("CPUID.1:EBX = " + hex(g_env.l1[1]), "logicalProcessors " + str(int(I::logicalProcessors())));
                            if (v == 1 && I::prefetch() != l * 8) q.fail("AMD CPUID.1:EBX = " + hex(g_env.l1[1]), "prefetch " + str(int(I::prefetch())));
                            outcome(mix(mix(q.h, l), n));
                        }
}
// ------------------------------------------------------------------ caches
struct Geo { u32 size; int line, assoc; };
struct Caches { Geo l1i, l1d, l2, l3; int prefetch; };
static Caches observed()
{
    Caches c = {{I::L1Instruction(), I::L1InstructionLineSize(), -1}, {I::L1Data(), I::L1DataLineSize(), int(I::L1Associativity())}, {I::L2Data(), I::L2DataLineSize(), int(I::L2Associativity())}, {I::L3Data(), I::L3DataLineSize(), int(I::L3Associativity())}, I::prefetch()};
    return c;
}
static bool eq(const Geo &a, const Geo &b, bool assoc = true) { return a.size == b.size && a.line == b.line && (!assoc || a.assoc == b.assoc); }
static std::string show(const Geo &g) { return str(int(g.size)) + " bytes, " + str(g.line) + " byte lines, " + str(g.assoc) + "-way"; }
// Intel SDM, table "Encoding of CPUID Leaf 2 Descriptors": level 0 = L1I, 1 = L1D, 2, 3
struct Desc { int code, level, kb, ways, line; };
static const Desc descs[] = {
    {0x06, 0, 8, 4, 32}, {0x08, 0, 16, 4, 32}, {0x09, 0, 32, 4, 64}, {0x0A, 1, 8, 2, 32}, {0x0C, 1, 16, 4, 32}, {0x0D, 1, 16, 4, 64}, {0x0E, 1, 24, 6, 64}, {0x1D, 2, 128, 2, 64}, {0x21, 2, 256, 8, 64},
    {0x22, 3, 512, 4, 64}, {0x23, 3, 1024, 8, 64}, {0x24, 2, 1024, 16, 64}, {0x25, 3, 2048, 8, 64}, {0x29, 3, 4096, 8, 64}, {0x2C, 1, 32, 8, 64}, {0x30, 0, 32, 8, 64},
    {0x41, 2, 128, 4, 32}, {0x42, 2, 256, 4, 32}, {0x43, 2, 512, 4, 32}, {0x44, 2, 1024, 4, 32}, {0x45, 2, 2048, 4, 32}, {0x46, 3, 4096, 4, 64}, {0x47, 3, 8192, 8, 64}, {0x48, 2, 3072, 12, 64}, {0x49, 2, 4096, 16, 64},
    {0x4A, 3, 6144, 12, 64}, {0x4B, 3, 8192, 16, 64}, {0x4C, 3, 12288, 12, 64}, {0x4D, 3, 16384, 16, 64}, {0x4E, 2, 6144, 24, 64}, {0x60, 1, 16, 8, 64}, {0x66, 1, 8, 4, 64}, {0x67, 1, 16, 4, 64}, {0x68, 1, 32, 4, 64},
    {0x78, 2, 1024, 4, 64}, {0x79, 2, 128, 8, 64}, {0x7A, 2, 256, 8, 64}, {0x7B, 2, 512, 8, 64}, {0x7C, 2, 1024, 8, 64}, {0x7D, 2, 2048, 8, 64}, {0x7F, 2, 512, 2, 64}, {0x80, 2, 512, 8, 64},
    {0x82, 2, 256, 8, 32}, {0x83, 2, 512, 8, 32}, {0x84, 2, 1024, 8, 32}, {0x85, 2, 2048, 8, 32}, {0x86, 2, 512, 4, 64}, {0x87, 2, 1024, 8, 64},
    {0xD0, 3, 512, 4, 64}, {0xD1, 3, 1024, 4, 64}, {0xD2, 3, 2048, 4, 64}, {0xD6, 3, 1024, 8, 64}, {0xD7, 3, 2048, 8, 64}, {0xD8, 3, 4096, 8, 64}, {0xDC, 3, 1536, 12, 64}, {0xDD, 3, 3072, 12, 64}, {0xDE, 3, 6144, 12, 64},
    {0xE2, 3, 2048, 16, 64}, {0xE3, 3, 4096, 16, 64}, {0xE4, 3, 8192, 16, 64}, {0xEA, 3, 12288, 24, 64}, {0xEB, 3, 18432, 24, 64}, {0xEC, 3, 24576, 24, 64}};
static const Desc *find(int code) { for (const auto &d : descs) if (d.code == code) return &d; return nullptr; }
static void put(int pos, int code)  // position 0..14 in the order eax[1..3], ebx, ecx, edx
{
    const int r = (pos + 1) / 4, b = (pos + 1) % 4;
    g_env.l2[0][r] |= u32(code) << (8 * b);
}
static void descriptors()
{
    Site s("cache descriptors of CPUID leaf 2");
    if (!s.active()) return;
    // expected geometry: a level described once has exactly that geometry; described twice, one of the two
    auto check = [&](const std::vector<int> &codes, const std::string &cfg) {
        boot();
        const Caches c = observed();
        const Geo *got[] = {&c.l1i, &c.l1d, &c.l2, &c.l3};
        for (int l = 0; l < 4; ++l) {
            std::vector<Geo> w;
            for (int code : codes) { const Desc *d = find(code); if (d) { int level = d->level; if (code == 0x49 && I::processorFamily() == 0xf && I::processorModel() == 6) level = 3; if (level == l) w.push_back({u32(d->kb) * 1024, d->line, d->ways}); } }
            if (w.empty()) w.push_back({0, 0, 0});
            bool ok = false;
            for (const Geo &g : w) ok = ok || eq(*got[l], g, l != 0);
            ++C.checks;
            if (!ok) s.fail(cfg, std::string(l == 0 ? "L1 instruction" : l == 1 ? "L1 data" : l == 2 ? "L2" : "L3") + " cache: " + show(*got[l]) + ", want " + show(w.back()));
        }
        int pf = 32;
        for (int code : codes) if (code == 0xf0) pf = 64; else if (code == 0xf1) pf = 128;
        bool both = false;
        for (int a : codes) for (int b : codes) if (a == 0xf0 && b == 0xf1) both = true;
        if (!both && c.prefetch != pf) s.fail(cfg, "prefetch " + str(c.prefetch) + " want " + str(pf));
        outcome(mix(mix(mix(s.h, c.l1d.size), c.l2.size), c.l3.size + c.l1i.size));
    };
    for (int pos = 0; pos < 15; ++pos)
        for (int code = 0; code < 255; ++code) {
            s.at(pos, code);
            g_env = Env();
            g_env.l1[0] = 0x6f6;
            put(pos, code);
            // bit 31 of a register: its descriptors are not valid
            const int r = (pos + 1) / 4;
            const bool invalid = g_env.l2[0][r] >> 31;
            check(invalid ? std::vector<int>{} : std::vector<int>{code}, "descriptor " + hex(code) + " in byte " + str((pos + 1) % 4) + " of register " + str(r));
        }
    for (int a = 1; a < 255; ++a)
        for (int b = 1; b < 255; ++b) {
            s.at(20, a, b);
            for (int how = 0; how < 3; ++how) {
                g_env = Env();
                g_env.l1[0] = how == 2 ? 0xf60 : 0x6f6;
                put(how == 0 ? 1 : 4, a);
                put(how == 0 ? 8 : 3, b);
                const bool invB = how == 0 ? false : false;
                (void)invB;
                check({a, b}, "descriptors " + hex(a) + " and " + hex(b) + (how == 0 ? " in different registers" : " in ebx"));
            }
        }
    // registers marked invalid hide exactly their own descriptors
    for (int inv = 0; inv < 16; ++inv) {
        s.at(21, inv);
        g_env = Env();
        g_env.l1[0] = 0x6f6;
        const int code[4] = {0x2C, 0x09, 0x7D, 0xE3};
        std::vector<int> w;
        for (int r = 0; r < 4; ++r) { g_env.l2[0][r] |= u32(code[r]) << 8 | (inv >> r & 1 ? 0x80000000u : 0); if (!(inv >> r & 1)) w.push_back(code[r]); }
        check(w, "invalid registers " + hex(inv));
    }
    // several rounds (al = number of times the leaf has to be read)
    for (int n = 1; n <= 3; ++n)
        for (int k = 0; k < 3; ++k) {
            s.at(22, n, k);
            g_env = Env();
            g_env.l1[0] = 0x6f6;
            g_env.l2n = 3;
            const int code[3] = {0x2C, 0x7D, 0xE3};
            std::vector<int> w;
            for (int i = 0; i < 3; ++i) { g_env.l2[i][0] = n; g_env.l2[i][1 + k] |= u32(code[i]) << 16; if (i < n) w.push_back(code[i]); }
            check(w, "leaf 2 read " + str(n) + " times");
        }
    // descriptor 49h depends on family and model
    Site t("cache descriptor 49h on every family and model");
    if (t.active())
        for (u32 fam = 0; fam < 16; ++fam) for (u32 mod = 0; mod < 16; ++mod) for (u32 em = 0; em < 16; ++em) for (u32 ef = 0; ef < 3; ++ef) {
            if (fam == 0xb && (em || ef)) continue;
            t.at(fam, mod, em);
            g_env = Env();
            g_env.l1[0] = mod << 4 | fam << 8 | em << 16 | ef << 20;
            put(0, 0x49);
            boot();
            const bool l3 = fam == 0xf && ef == 0 && mod == 6 && em == 0;
            const Caches c = observed();
            ++C.checks;
            const Geo on = {4u << 20, 64, 16}, off = {0, 0, 0};
            if (!eq(c.l2, l3 ? off : on) || !eq(c.l3, l3 ? on : off)) t.fail("CPUID.1:EAX = " + hex(g_env.l1[0]), "L2: " + show(c.l2) + " L3: " + show(c.l3));
            outcome(mix(t.h, l3));
        }
}
static void leaf4()
{
    Site s("deterministic cache parameters of CPUID leaf 4");
    if (!s.active()) return;
    auto check = [&](const std::string &cfg) {
        boot();
        const Caches c = observed();
        Geo w[4] = {};
        for (int i = 0; i < g_env.nc; ++i) {
            const Cache &k = g_env.c[i];
            const Geo g = {u32(k.line) * k.parts * k.ways * k.sets, k.line, k.ways};
            if (k.type == 1 && k.level <= 3) w[k.level] = g;
            if (k.type == 2 && k.level == 1) w[0] = g;
            if (k.type == 3 && k.level <= 3) w[k.level] = g;
        }
        C.checks += 4;
        auto show4 = [&] { std::string t; for (int i = 0; i < g_env.nc; ++i) { const Cache &k = g_env.c[i]; t += " {type " + str(k.type) + " level " + str(k.level) + " line " + str(k.line) + " partitions " + str(k.parts) + " ways " + str(k.ways) + " sets " + str(k.sets) + "}"; } return cfg + t; };
        if (!eq(c.l1i, w[0], false)) s.fail(show4(), "L1 instruction: " + show(c.l1i) + " want " + show(w[0]));
        if (!eq(c.l1d, w[1])) s.fail(show4(), "L1 data: " + show(c.l1d) + " want " + show(w[1]));
        if (!eq(c.l2, w[2])) s.fail(show4(), "L2: " + show(c.l2) + " want " + show(w[2]));
        if (!eq(c.l3, w[3])) s.fail(show4(), "L3: " + show(c.l3) + " want " + show(w[3]));
        outcome(mix(mix(mix(s.h, c.l1d.size), c.l2.size), c.l3.size + c.l1i.size));
    };
    auto fresh = [&](int how) {
        g_env = Env();
        g_env.l1[0] = 0x306c3;
        g_env.l1[1] = 8 << 8;
        if (how == 0) put(3, 0xff);           // descriptor FFh
        else if (how == 1) { put(3, 0xff); put(7, 0xf0); put(13, 0xb2); }
        else g_env.l2[0][0] = 0;              // leaf 2 all zero
    };
    // geometry of a single cache
    for (int how = 0; how < 3; ++how)
        for (int type = 1; type <= 3; ++type)
            for (int level = 1; level <= 4; ++level)
                for (int line : {1, 16, 32, 63, 64, 128, 256, 4096})
                    for (int parts : {1, 2, 7, 1024})
                        for (int ways : {1, 2, 3, 8, 12, 16, 20, 1023, 1024})
                            for (int sets : {1, 2, 64, 1024, 4096, 12288, 1 << 18}) {
                                if (uint64_t(line) * parts * ways * sets >= 1ull << 31) continue;
                                s.at(how * 64 + type * 8 + level, line * 2048 + parts, ways * 65536 + sets);
                                fresh(how);
                                g_env.nc = 1;
                                g_env.c[0] = {type, level, line, parts, ways, sets};
                                check("");
                            }
    // every sequence of up to 4 (5) caches
    const int depth = g_thorough ? 5 : 4;
    for (int n = 0; n <= depth; ++n) {
        std::vector<int> h(n, 0);
        for (;;) {
            fresh(0);
            g_env.nc = n;
            bool twice = false, seen[32][8] = {};
            for (int i = 0; i < n; ++i) {
                const int type = h[i] / 4 + 1, level = h[i] % 4 + 1;
                // a level has one data or unified cache and one instruction cache
                const int cls = type == 2 ? 2 : type == 4 ? 4 : 1;
                if (seen[cls][level] && cls != 4) twice = true;
                seen[cls][level] = true;
                g_env.c[i] = {type, level, 32 << i, 1 + i, 2 + 3 * i, 64 >> i};
            }
            if (!twice) { s.at(300 + n, n > 0 ? h[0] : 0, n > 1 ? h[1] : 0); check(""); }
            int d = n - 1;
            while (d >= 0 && ++h[d] == 16) h[d--] = 0;
            if (d < 0) break;
        }
    }
}
static void amdCaches()
{
    Site s("AMD cache information (CPUID 80000005h, 80000006h)");
    if (!s.active()) return;
    auto assoc = [](int b) -> int { switch (b) { case 0: return 0; case 1: return 1; case 2: return 2; case 4: return 4; case 6: return 8; case 8: return 16; case 10: return 32; case 11: return 48; case 12: return 64; case 13: return 96; case 14: return 128; case 15: return 255; } return -2; };
    auto check = [&] {
        boot();
        const u32 c5 = g_env.e5[2], d5 = g_env.e5[3], c6 = g_env.e6[2], d6 = g_env.e6[3];
        const Caches c = observed();
        const Geo l1d = {(c5 >> 24) * 1024, int(c5 & 255), int(c5 >> 16 & 255)}, l1i = {(d5 >> 24) * 1024, int(d5 & 255), 0}, l2 = {(c6 >> 16) * 1024, int(c6 & 255), assoc(c6 >> 12 & 15)}, l3 = {(d6 >> 18) * 512 * 1024, int(d6 & 255), assoc(d6 >> 12 & 15)};
        C.checks += 4;
        const std::string cfg = "80000005h ecx " + hex(c5) + " edx " + hex(d5) + " 80000006h ecx " + hex(c6) + " edx " + hex(d6);
        if (!eq(c.l1d, l1d)) s.fail(cfg, "L1 data: " + show(c.l1d) + " want " + show(l1d));
        if (!eq(c.l1i, l1i, false)) s.fail(cfg, "L1 instruction: " + show(c.l1i) + " want " + show(l1i));
        if (!eq(c.l2, l2, l2.assoc >= 0)) s.fail(cfg, "L2: " + show(c.l2) + " want " + show(l2));
        if (!eq(c.l3, l3, l3.assoc >= 0)) s.fail(cfg, "L3: " + show(c.l3) + " want " + show(l3));
        outcome(mix(mix(mix(s.h, c.l1d.size), c.l2.size), c.l3.size + c.l1i.size));
    };
    auto fresh = [&](u32 bg) { g_env = Env(); g_env.amd(); g_env.l1[0] = 0x00800f11; for (int i = 0; i < 4; ++i) g_env.e5[i] = g_env.e6[i] = bg; };
    // every value of every field (size, associativity, lines per tag, line size), the other bits clear, set, or typical
    const u32 bgs[] = {0, 0xffffffffu, 0};
    for (int b = 0; b < 3; ++b)
        for (int reg = 0; reg < 4; ++reg) {
            auto set = [&](int shift, u32 mask, u32 x) {
                fresh(bgs[b]);
                if (b == 2) { g_env.e5[2] = 0x20080140; g_env.e5[3] = 0x40040140; g_env.e6[2] = 0x02006140; g_env.e6[3] = 0x01009140; }
                u32 &r = reg == 0 ? g_env.e5[2] : reg == 1 ? g_env.e5[3] : reg == 2 ? g_env.e6[2] : g_env.e6[3];
                r = (r & ~(mask << shift)) | x << shift;
                s.at(b * 4 + reg, shift, x);
                check();
            };
            for (u32 x = 0; x < 256; ++x) { set(0, 0xff, x); if (reg < 2) { set(8, 0xff, x); set(16, 0xff, x); set(24, 0xff, x); } }
            if (reg >= 2) for (u32 x = 0; x < 16; ++x) { set(8, 0xf, x); set(12, 0xf, x); }
            if (reg == 2) for (u32 x = 0; x < 65536; ++x) set(16, 0xffff, x);
            if (reg == 3) for (u32 x = 0; x < 8192; ++x) set(18, 0x3fff, x);
        }
    for (u32 a = 0; a < 16; ++a) for (u32 b = 0; b < 16; ++b) for (u32 l : {0u, 1u, 15u}) for (u32 size : {0u, 1u, 512u}) { fresh(0); g_env.e6[2] = size << 16 | a << 12 | l << 8 | 64; g_env.e6[3] = size << 18 | b << 12 | l << 8 | 32; s.at(50, a, b); check(); }
}
static void realCpu()
{
    Site s("the CPU this runs on");
    if (!s.active()) return;
    g_real = true;
    boot();
    __builtin_cpu_init();
    C.checks += 12;
#define SAME(f_, n_) if (I::f_() != bool(__builtin_cpu_supports(n_))) { /* libgcc also considers the OS for AVX and newer */ if (!(I::f_() && !__builtin_cpu_supports("avx"))) s.fail(n_, "differs from __builtin_cpu_supports"); }
    SAME(hasSse2, "sse2") SAME(hasSse3, "sse3") SAME(hasSsse3, "ssse3") SAME(hasSse41, "sse4.1") SAME(hasSse42, "sse4.2") SAME(hasAvx, "avx") SAME(hasAvx2, "avx2") SAME(hasFma, "fma") SAME(hasBmi2, "bmi2") SAME(hasPopcnt, "popcnt") SAME(hasFma4, "fma4") SAME(hasXop, "xop")
    if (Vc::isImplementationSupported(Vc::AVXImpl) != bool(__builtin_cpu_supports("avx"))) s.fail("AVXImpl", "differs from __builtin_cpu_supports");
    if (I::isIntel() != bool(__builtin_cpu_is("intel")) || I::isAmd() != bool(__builtin_cpu_is("amd"))) s.fail("vendor", "differs from __builtin_cpu_is");
    g_real = false;
}
void explore()
{
#if PART == 0
    dispatch();
#else
    featureQueries();
    leafLimits();
    signature();
    descriptors();
    leaf4();
    amdCaches();
    realCpu();
#endif
}
