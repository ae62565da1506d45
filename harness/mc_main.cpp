// Runtime part of mc.h, compiled once per configuration.
#define MC_NO_VC
#include "mc.h"
namespace mc
{
Counters C;
bool g_thorough = false;
std::string g_filter;
Site *volatile g_cur = nullptr;
volatile uint64_t g_a, g_b, g_c, g_tick;
std::vector<uint64_t> g_outcomes(1 << 16, 0);
static uint64_t g_lastTick = ~0ull;
static int g_stuck = 0;
static int g_samples = 0;

static std::string clean(std::string s)
{
    for (char &c : s)
        if (c == '\n' || c == '\t' || c == '\r') c = ' ';
    if (s.size() > 1500) s = s.substr(0, 1500) + "...";
    return s;
}
void Site::fail(const std::string &input, const std::string &detail)
{
    ++C.fails;
    ++fails;
    if (fails <= 40) {
        printf("FAIL\t%s\t%s\t%s\n", clean(name).c_str(), clean(input).c_str(), clean(detail).c_str());
        fflush(stdout);
    }
}
void Site::sample(const std::string &s)
{
    if (on && samples++ < 1 && g_samples++ < 6) printf("SAMPLE\t%s: %s\n", clean(name).c_str(), clean(s).c_str());
}
Site::~Site()
{
    if (on) printf("SITE\t%s\t%llu\n", clean(name).c_str(), (unsigned long long)fails);
    if (g_cur == this) g_cur = nullptr;
}
static void onSignal(int sig)
{
    char b[2000];
    Site *s = g_cur;
    int n = snprintf(b, sizeof b, "\nFAIL\t%s\tstate(%llu,%llu,%llu)\tsignal %d (%s) while executing this operation\nCRASH\n", s ? clean(s->name).c_str() : "(outside a site)",
                     (unsigned long long)g_a, (unsigned long long)g_b, (unsigned long long)g_c, sig, strsignal(sig));
    fflush(stdout);
    if (write(1, b, size_t(n)) < 0) {}
    _exit(3);
}
static void onTimer(int)
{
    if (g_cur && g_lastTick == g_tick) {
        if (++g_stuck >= 4) {
            char b[2000];
            Site *s = g_cur;
            int n = snprintf(b, sizeof b, "\nFAIL\t%s\tstate(%llu,%llu,%llu)\toperation does not terminate (no progress for 60 s)\nCRASH\n", s->name.c_str(), (unsigned long long)g_a,
                             (unsigned long long)g_b, (unsigned long long)g_c);
            if (write(1, b, size_t(n)) < 0) {}
            _exit(4);
        }
    } else
        g_stuck = 0;
    g_lastTick = g_tick;
}
void start(int argc, char **argv)
{
    const char *t = getenv("VERIF_TIER");
    g_thorough = t && !strcmp(t, "thorough");
    if (const char *f = getenv("MC_SITE")) g_filter = f;
    static char stack[1 << 16];
    stack_t ss;
    ss.ss_sp = stack;
    ss.ss_flags = 0;
    ss.ss_size = sizeof stack;
    sigaltstack(&ss, 0);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onSignal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, 0);
    sa.sa_handler = onTimer;
    sa.sa_flags = SA_ONSTACK | SA_RESTART;
    sigaction(SIGVTALRM, &sa, 0);
    itimerval it;
    it.it_interval.tv_sec = 15;
    it.it_interval.tv_usec = 0;
    it.it_value = it.it_interval;
    setitimer(ITIMER_VIRTUAL, &it, 0);
}
int finish()
{
    uint64_t d = 0;
    for (uint64_t w : g_outcomes) d += uint64_t(__builtin_popcountll(w));
    printf("COUNT\tstates=%llu\ttransitions=%llu\ttraces=%llu\tchecks=%llu\tfails=%llu\tsites=%llu\toutcomes=%llu\n", (unsigned long long)C.states, (unsigned long long)C.transitions,
           (unsigned long long)C.traces, (unsigned long long)C.checks, (unsigned long long)C.fails, (unsigned long long)C.sites, (unsigned long long)d);
    printf("DONE\n");
    fflush(stdout);
    return 0;
}
}  // namespace mc
int main(int argc, char **argv)
{
    mc::start(argc, argv);
    explore();
    return mc::finish();
}
