#include "mc.hpp"
#include <exception>
#include <sys/resource.h>
namespace mc {
    Global g; Cur cur; volatile uint64_t heartbeat = 0;
    static void emit(const char *kind, const std::string& key, const std::string& msg) {
        fprintf(g.out, "{\"kind\":%s,\"unit\":%s,\"shard\":%d,\"idx\":%ld,\"key\":%s,\"case\":%s,\"msg\":%s}\n",
                json(kind).c_str(), json(g.unit).c_str(), g.shard, g.idx, json(key).c_str(),
                json(describe()).c_str(), json(msg).c_str());
        fflush(g.out);
    }
    static void finish(bool complete) {
        std::ostringstream ss;
        ss << "{\"kind\":\"summary\",\"complete\":" << (complete ? "true" : "false")
           << ",\"unit\":" << json(g.unit) << ",\"shard\":" << g.shard
           << ",\"cases\":" << g.cases << ",\"space\":" << g.idx + 1
           << ",\"states\":" << g.states << ",\"transitions\":" << g.transitions
           << ",\"traces\":" << g.traces << ",\"nontrivial\":" << g.nontrivial
           << ",\"violations\":" << g.violations << ",\"counters\":{";
        bool f = true;
        for (auto& c : g.counters) { ss << (f ? "" : ",") << json(c.first) << ":" << c.second; f = false; }
        ss << "},\"outcomes\":{";
        f = true;
        for (auto& c : g.outcomes) {
            ss << (f ? "" : ",") << json(c.first) << ":["; f = false;
            bool h = true;
            for (auto& v : c.second) { ss << (h ? "" : ",") << json(v); h = false; }
            ss << "]";
        }
        ss << "},\"samples\":[";
        f = true;
        for (auto& s : g.samples) { ss << (f ? "" : ",") << json(s); f = false; }
        ss << "]}";
        fprintf(g.out, "%s\n", ss.str().c_str());
        fflush(g.out);
    }
    static std::set<std::string> keys;
    void fail(const std::string& key, const std::string& msg) {
        g.violations++;
#ifdef MC_SAN
        if (key != "memory") return;        // what other checks decide
#endif
        // one record per distinct key, so that one known finding cannot hide another violation
        if (keys.insert(key).second) emit("violation", key, msg);
        if ((int)keys.size() >= g.maxviol || g.violations > 20000) { finish(false); _exit(0); }
    }
#ifdef MC_SAN
    static void leak() {
        g.violations++;
        long idx = g.idx;
        g.idx = -1; cur.tag = "the whole exploration"; cur.n = 0; cur.text.clear();
        emit("violation", "leak", "memory was not released");
        g.idx = idx;
    }
#endif
    // from a signal handler: no allocation
    static void emit_raw(const char *kind, const char *key, const char *msg) {
        static char b[4096];
        int n = snprintf(b, sizeof b, "{\"kind\":\"%s\",\"unit\":\"%s\",\"shard\":%d,\"idx\":%ld,\"key\":\"%s\",\"case\":\"%s(",
                         kind, g.unit, g.shard, g.idx, key, cur.tag);
        for (int i = 0; i < cur.n && i < 12; i++) n += snprintf(b + n, sizeof b - n, "%s%lld", i ? "," : "", (long long)cur.a[i]);
        n += snprintf(b + n, sizeof b - n, ") ");
        for (const char *t = cur.text.c_str(); *t && n < 3500; t++) if (*t >= 32 && *t < 127 && *t != '"' && *t != '\\') b[n++] = *t;
        n += snprintf(b + n, sizeof b - n, "\",\"msg\":\"%s\"}\n", msg);
        if (write(fileno(g.out), b, n) < 0) {}
    }
    // the timer counts this process's own CPU time
    static void on_alarm(int) {
        if (heartbeat == g.hb_last) {
            if (++g.hb_still >= g.hang_ticks) { emit_raw("hang", "hang", "no progress"); _exit(0); }
        } else { g.hb_still = 0; g.hb_last = heartbeat; }
    }
    static void on_crash(int s) {
        static char b[64]; snprintf(b, 64, "killed by signal %d", s);
        emit_raw("crash", "crash", b);
        _exit(0);
    }
}
#ifdef MC_SAN
// Built with the sanitizers: every report of theirs ends the process through SIGABRT, which on_crash records.
extern "C" const char *__asan_default_options() {
    return "abort_on_error=1:detect_leaks=1:leak_check_at_exit=0:detect_stack_use_after_return=1:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:"
           "handle_abort=0:max_malloc_fill_size=1000000:malloc_fill_byte=165:allocator_may_return_null=0:color=never";
}
// Leaks are looked for once, when the exploration is over, in a child of its own: where the
// sandbox does not let it look, the exploration still counts, and says that it was not possible.
#include <sanitizer/lsan_interface.h>
#include <sys/wait.h>
static void leaks() {
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, SIG_DFL);
        _exit(__lsan_do_recoverable_leak_check() ? 77 : 78);
    }
    int st = 0;
    waitpid(p, &st, 0);
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 0;
    mc::g.counters[rc == 77 || rc == 78 ? "leak_checks" : "leak_checks_impossible"]++;
    if (rc == 77) { mc::leak(); }
}
extern "C" const char *__ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0:color=never"; }
#else
// Fresh heap memory is filled with a fixed byte, so that a read of memory that was
// never written gives the same (and, between shards, a different) answer every time.
static void *fillnew(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    memset(p, mc::g.fill, n);
    return p;
}
void *operator new(size_t n) { return fillnew(n); }
void *operator new[](size_t n) { return fillnew(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif

static int harness(int argc, char **argv) {
    using namespace mc;
    const char *out = "/dev/stdout";
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i];
        if (k == "--shard") g.shard = atoi(argv[i + 1]);
        else if (k == "--nshards") g.nshards = atoi(argv[i + 1]);
        else if (k == "--tier") g.thorough = !strcmp(argv[i + 1], "thorough");
        else if (k == "--only") g.only = atol(argv[i + 1]);
        else if (k == "--upto") g.upto = atol(argv[i + 1]);
        else if (k == "--out") out = argv[i + 1];
        else if (k == "--unit") g.unit = argv[i + 1];
        else if (k == "--stride") g.stride = atol(argv[i + 1]);
        else if (k == "--hang") g.hang_ticks = atoi(argv[i + 1]);
    }
    static const unsigned char fills[4] = { 0xA5, 0xFF, 0x5A, 0x01 };
    g.fill = fills[g.shard % 4];
    g.out = fopen(out, "w");
    if (!g.out) return 3;
    cur.tag = "start"; cur.n = 0;
    if (g.thorough) g.hang_ticks *= 5;
#ifndef MC_SAN
    struct rlimit rl = { rlim_t(g.thorough ? 6 : 3) << 30, rlim_t(g.thorough ? 6 : 3) << 30 };
    setrlimit(RLIMIT_AS, &rl);
#endif
    signal(SIGPROF, on_alarm);
    static char alt[1 << 16];
    stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, 0);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
        struct sigaction sa; memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, 0);
    }
    struct itimerval it = { {10, 0}, {10, 0} };
    setitimer(ITIMER_PROF, &it, 0);
    try { mc_main(); }
    catch (const std::exception& e) { mc::fail("uncaught", e.what()); }
    catch (...) { mc::fail("uncaught", "exception left a case"); }
#ifdef MC_SAN
    leaks();
#endif
    finish(true);
    return 0;
}
// A program under test that keeps its own main (only there may the last return be left out) is
// linked with --wrap=main, so that the harness starts all the same.
__attribute__((weak)) int main(int argc, char **argv) { return harness(argc, argv); }
extern "C" int __wrap_main(int argc, char **argv) { return harness(argc, argv); }
