// C25: a library with other version information is rejected at program start, every agreeing combination starts.
#define Vc_NO_VERSION_CHECK 1
#include "mc.h"
#include <csetjmp>
#include <fcntl.h>
#include <fstream>
#include <sys/syscall.h>
#include <sys/wait.h>
using namespace mc;
namespace Vc_VERSIONED_NAMESPACE { namespace Common { void Vc_CDECL checkLibraryAbi(unsigned int, unsigned int, const char *); } }

// ---- programs built from every combination of library and header versions
struct Run { bool started; int status; std::string out; };
static Run child(const std::function<void()> &body)
{
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(3); }
    fflush(stdout);
    const pid_t c = fork();
    if (c == 0) {
        close(p[0]);
        dup2(p[1], 1);
        dup2(p[1], 2);
        body();
        _exit(99);
    }
    close(p[1]);
    Run r;
    char b[4096];
    for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) r.out.append(b, size_t(n));
    close(p[0]);
    waitpid(c, &r.status, 0);
    r.started = r.out.find("MAIN") != std::string::npos;
    return r;
}
static void programs()
{
    Site S("program start");
    if (!S.active()) return;
    std::ifstream in(PROGRAMS "/list");
    std::string line;
    uint64_t k = 0;
    while (std::getline(in, line)) {
        const size_t a = line.find('\t'), b = line.find('\t', a + 1);
        const std::string prog = std::string(PROGRAMS "/") + line.substr(0, a), what = line.substr(b + 1);
        const bool ok = line[a + 1] == '1';
        S.at(++k);
        ++C.states;
        ++C.transitions;
        ++C.traces;
        C.checks += 3;
        const Run r = child([&] { execl(prog.c_str(), prog.c_str(), static_cast<char *>(nullptr)); });
        outcome(mix(S.h, mix(r.status, std::hash<std::string>()(r.out))));
        if (ok) {
            if (!r.started || !WIFEXITED(r.status) || WEXITSTATUS(r.status) != 42) S.fail(what, "compatible, but the program does not run normally: status " + std::to_string(r.status) + " output \"" + r.out + "\"");
            else if (r.out != "MAIN\n") S.fail(what, "compatible, but prints \"" + r.out + "\"");
        } else {
            if (r.started) S.fail(what, "incompatible, but main() is entered");
            else if (WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0) S.fail(what, "incompatible, but the program exits successfully");
            else if (r.out.find_first_not_of(" \n") == std::string::npos) S.fail(what, "incompatible: terminated without a diagnostic");
        }
    }
    if (!k) S.fail("-", "no programs");
}

// ---- the check itself, for every version number
static sigjmp_buf gJmp;
static volatile sig_atomic_t gInCall;
static void onAbort(int) { if (gInCall) siglongjmp(gJmp, 1); }
static bool rejects(uint a, uint v)  // in process: abort() is caught
{
    gInCall = 1;
    if (sigsetjmp(gJmp, 1) == 0) {
        Vc::Common::checkLibraryAbi(a, v, "9.9.9-test");
        gInCall = 0;
        return false;
    }
    gInCall = 0;
    return true;
}
static const uint A0 = Vc_LIBRARY_ABI_VERSION, V0 = Vc_VERSION_NUMBER;
static bool wanted(uint a, uint v) { return a != A0 || V0 < v; }
static std::string show(uint a, uint v) { char b[80]; snprintf(b, sizeof b, "headers: ABI %u version 0x%x, library: ABI %u version 0x%x", a, v, A0, V0); return b; }
static void numbers()
{
    bool aborts = true;
    {
        Site S("checkLibraryAbi in a process of its own");
        if (S.active()) {
            std::set<std::pair<uint, uint>> q;
            for (uint a = 0; a < 40; ++a) for (uint v : {0u, V0 - 1, V0, V0 + 1, ~0u}) q.insert({a, v});
            for (uint a : alphabet<uint>(0)) for (uint v : {V0, 0u, ~0u}) q.insert({a, v});
            for (uint v = V0 - 40; v < V0 + 40; ++v) q.insert({A0, v});
            for (uint v : alphabet<uint>(0)) q.insert({A0, v});
            uint64_t k = 0;
            for (auto e : q) {
                S.at(++k);
                ++C.states;
                ++C.transitions;
                C.checks += 2;
                const Run r = child([&] { Vc::Common::checkLibraryAbi(e.first, e.second, "9.9.9-test"); if (write(1, "MAIN", 4) != 4) _exit(98); _exit(0); });
                if (r.started == wanted(e.first, e.second)) { S.fail(show(e.first, e.second), r.started ? "accepted" : "rejected"); continue; }
                if (!r.started) {
                    aborts = aborts && WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGABRT;
                    if (r.status == 0) S.fail(show(e.first, e.second), "the program ends successfully");
                    else if (r.out.find("9.9.9-test") == std::string::npos) S.fail(show(e.first, e.second), "the diagnostic does not name the version: \"" + r.out + "\"");
                }
            }
        }
    }
    Site S("checkLibraryAbi for all version numbers");
    if (!S.active()) return;
    struct sigaction sa, old;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = onAbort;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &sa, &old);
    fflush(stdout);
    fflush(stderr);
    const int o1 = dup(1), o2 = dup(2), nul = int(syscall(SYS_memfd_create, "out", 0));
    dup2(nul, 1);
    dup2(nul, 2);
    std::vector<std::pair<uint, uint>> bad;
    uint64_t k = 0, silent = 0;
    auto one = [&](uint a, uint v) {
        S.at(++k);
        ++C.states;
        ++C.transitions;
        ++C.checks;
        const bool w = wanted(a, v);
        if (w && !aborts) return;  // other ways to end the process are covered by the separate processes only
        const bool r = rejects(a, v);
        if (r != w) { if (bad.size() < 50) bad.push_back({a, v}); }
        if (r && (k & 1023) == 0) { if (lseek(nul, 0, SEEK_CUR) <= 0) ++silent; lseek(nul, 0, SEEK_SET); if (ftruncate(nul, 0)) {} }
    };
    for (uint v = 0; v < (1u << 24); ++v) if (v <= V0 || v < V0 + (g_thorough ? (1u << 24) : (1u << 18))) one(A0, v);          // every encodable version up to and beyond the current one
    for (uint v : alphabet<uint>(3)) { one(A0, v); one(A0 + 1, v); one(A0 - 1, v); }
    for (uint a = 0; a < (g_thorough ? 1u << 22 : 1u << 18); ++a) { one(a, V0); one(a, V0 - 1); one(a, V0 + 1); }
    for (uint a : alphabet<uint>(3)) for (uint v : {V0, V0 + 1, 0u}) one(a, v);
    fflush(stdout);
    fflush(stderr);
    dup2(o1, 1);
    dup2(o2, 2);
    close(o1); close(o2); close(nul);
    sigaction(SIGABRT, &old, nullptr);
    for (auto e : bad) S.fail(show(e.first, e.second), wanted(e.first, e.second) ? "accepted" : "rejected");
}

static void encoding()
{
    {
        Site S("Vc_VERSION_CHECK orders all versions");
        if (S.active()) {
            // strictly increasing along the complete chain of versions
            long prev = -1;
            for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) for (int c = 0; c < 128; ++c) {
                const long e = Vc_VERSION_CHECK(a, b, c);
                ++C.states;
                ++C.transitions;
                C.checks += 2;
                if (c == 0) S.at(a, b);
                auto in = [&] { return std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c); };
                if (e <= prev) { S.fail(in(), "encoded as " + std::to_string(e) + ", the previous version as " + std::to_string(prev)); return; }
                if (e & 1) { S.fail(in(), "no room for the development version"); return; }
                prev = e;
            }
        }
    }
    {
        Site S("versions of the headers");
        if (S.active()) {
            ++C.states;
            ++C.transitions;
            int a = 0, b = 0, c = 0;
            char dev[16] = "";
            const int n = sscanf(Vc_VERSION_STRING, "%d.%d.%d%15s", &a, &b, &c, dev);
            const uint e = uint(Vc_VERSION_CHECK(a, b, c));
            C.checks += 5;
            if (n < 3) S.fail(Vc_VERSION_STRING, "not a version");
            else if (*dev ? V0 != e + 1 && V0 != e - 1 : V0 != e) S.fail(Vc_VERSION_STRING, "Vc_VERSION_NUMBER is " + std::to_string(V0));
            if (std::string(Vc::versionString()) != Vc_VERSION_STRING) S.fail("versionString()", Vc::versionString());
            if (Vc::versionNumber() != V0) S.fail("versionNumber()", std::to_string(Vc::versionNumber()));
            if (bool(Vc_IS_VERSION_1) == bool(Vc_IS_VERSION_2)) S.fail("Vc_IS_VERSION_1", "equals Vc_IS_VERSION_2");
            if (bool(Vc_IS_VERSION_1) != (a == 1 && b < 70)) S.fail("Vc_IS_VERSION_1", "wrong");
        }
    }
}
void explore()
{
    encoding();
    programs();
    numbers();
}
