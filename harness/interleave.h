// Controlled scheduler for two threads at machine instruction granularity.
//
// Thread A executes one Vc operation. Its instruction boundaries are the scheduling points: the operation runs with
// the trap flag set, and the SIGTRAP handler plays thread B, which owns all bytes of the watched region that the
// operation is not allowed to write. At a scheduling point B first verifies that all its bytes still hold what it
// wrote last (nothing was lost, nothing was invented) and then, if the schedule says so, overwrites all of them with
// new values. Schedule "always": B writes at every boundary. Every lost update (A reads b at boundary i, writes b at
// j > i, B wrote in between) shows up in it, because B's value of every byte differs between i and j. Schedule k:
// B writes only at boundary k.
#ifndef INTERLEAVE_H
#define INTERLEAVE_H
#include "mc.h"
#include <csignal>
#include <sys/mman.h>
#include <ucontext.h>

asm(".text\n.globl mc_step_on\n.type mc_step_on,@function\nmc_step_on:\n pushfq\n orq $0x100,(%rsp)\n popfq\n ret\n.size mc_step_on,.-mc_step_on\n"
    ".globl mc_step_off\n.type mc_step_off,@function\nmc_step_off:\n pushfq\n andq $~0x100,(%rsp)\n popfq\n ret\n.size mc_step_off,.-mc_step_off\n");
extern "C" void mc_step_on();
extern "C" void mc_step_off();

namespace mc
{
struct Sched {
    enum { Words = 512 };  // watched region: 4096 bytes
    uint64_t *mem;         // the region
    uint64_t own[Words];   // bytes owned by thread B
    uint64_t cur[Words];   // what B wrote last
    size_t lo, hi;         // words in use
    long step, at;         // at: -1 always, -2 never, k
    uint64_t ver;
    bool bad;
    size_t badByte; long badStep; int badGot, badWant;
    static Sched &i() { static Sched s; return s; }
    Sched()
    {
        mem = static_cast<uint64_t *>(mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) + 512;
        struct sigaction sa;
        std::memset(&sa, 0, sizeof sa);
        sa.sa_sigaction = trap;
        sa.sa_flags = SA_SIGINFO;
        sigaction(SIGTRAP, &sa, nullptr);
    }
    char *bytes() { return reinterpret_cast<char *>(mem); }
    static uint64_t base(size_t w) { return (w + 1) * 0x9e3779b97f4a7c15ull; }
    void write()
    {
        ++ver;
        const uint64_t x = (ver & 0xff) * 0x0101010101010101ull;
        for (size_t w = lo; w < hi; ++w) {
            cur[w] = base(w) ^ x;
            mem[w] = (mem[w] & ~own[w]) | (cur[w] & own[w]);
        }
    }
    void check()
    {
        for (size_t w = lo; w < hi; ++w) {
            const uint64_t d = (mem[w] ^ cur[w]) & own[w];
            if (d && !bad) {
                bad = true;
                int b = 0;
                while (!((d >> (8 * b)) & 0xff)) ++b;
                badByte = 8 * w + b;
                badStep = step;
                badGot = int((mem[w] >> (8 * b)) & 0xff);
                badWant = int((cur[w] >> (8 * b)) & 0xff);
            }
        }
    }
    static void trap(int, siginfo_t *, void *)
    {
        Sched &s = i();
        ++s.step;
        s.check();
        if (s.at == -1 || s.at == s.step) s.write();
    }
    struct Write { size_t off, n; const void *v; };  // relative to area
    // area: the bytes [off, off + n) of the region may be looked at by the caller; writes: what op has to write
    template <class F> static MC_NOINLINE void call(F &f) { mc_step_on(); f(); mc_step_off(); }
    template <class F> bool one(long when, const std::vector<Write> &ws, F &f)
    {
        for (size_t w = lo; w < hi; ++w) own[w] = ~0ull;
        for (auto &w : ws) std::memset(reinterpret_cast<char *>(own) + w.off, 0, w.n);
        for (size_t w = lo; w < hi; ++w) mem[w] = 0x3c3c3c3c3c3c3c3cull;
        ver = 0; step = 0; at = when; bad = false;
        write();
        call(f);
        check();
        C.checks += step * (hi - lo) * 8;
        ++C.traces;
        C.transitions += step;
        return !bad;
    }
    // off, n: the accessed area (bytes relative to the region); 64 bytes on both sides are watched, too
    template <class F, class In> bool explore(Site &s, size_t off, size_t n, const std::vector<Write> &ws, bool singles, F &&f, In &&in)
    {
        lo = (off - 64) / 8; hi = (off + n + 64 + 7) / 8;
        ++C.states;
        if (!verdict(s, -1, one(-1, ws, f), ws, in)) return false;
        if (step < 3) { fprintf(stderr, "single stepping does not work here\n"); fflush(stdout); _exit(2); }
        if (!singles) return true;
        const long steps = step;
        for (long k = 1; k <= steps; ++k) if (!verdict(s, k, one(k, ws, f), ws, in)) return false;
        return true;
    }
    template <class In> bool verdict(Site &s, long when, bool ok, const std::vector<Write> &ws, In &in)
    {
        const std::string sch = when == -1 ? " (other thread writes at every instruction boundary)" : " (other thread writes at instruction boundary " + std::to_string(when) + ")";
        if (!ok) {
            s.fail(in() + sch, "byte " + std::to_string(long(badByte)) + " of the region belongs to another thread and was changed by instruction " + std::to_string(badStep) + ": " + std::to_string(badGot) + " instead of " + std::to_string(badWant));
            return false;
        }
        for (auto &w : ws) {
            C.checks += w.n;
            if (std::memcmp(bytes() + w.off, w.v, w.n)) { s.fail(in() + sch, "the bytes at offset " + std::to_string(w.off) + " were not written"); return false; }
        }
        outcome(mix(mix(s.h, step), ws.size()));
        return true;
    }
};
}
#endif
