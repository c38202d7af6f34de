// Run a calculation in a process of its own; its text comes back through a pipe.
#ifndef APART_HPP
#define APART_HPP
#include "mc.hpp"
#include <sys/wait.h>
#include <sys/time.h>
#include <functional>
inline std::string shielded(const std::function<std::string()>& f) {
    try { return f(); }
    catch (const std::exception& e) { return std::string("exception ") + e.what(); }
    catch (std::exception *e) { return std::string("exception ") + e->what(); }
    catch (const char *e) { return std::string("exception ") + e; }
    catch (...) { return "exception"; }
}
inline std::string apart(const std::function<std::string()>& f) {
    int fd[2]; if (pipe(fd)) return "no pipe";
    fflush(0); pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL }) signal(s, SIG_DFL);
        itimerval z = { { 0, 0 }, { mc::g.thorough ? 600 : 60, 0 } }; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &z, 0); z.it_value.tv_sec = 0; setitimer(ITIMER_VIRTUAL, &z, 0); setitimer(ITIMER_REAL, &z, 0);
        std::string s = shielded(f); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd[1], s.data() + o, s.size() - o); if (k <= 0) break; o += size_t(k); }
        _exit(0);
    }
    close(fd[1]); std::string r; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) r.append(b, size_t(k));
    close(fd[0]); int st = 0; waitpid(p, &st, 0);
#ifdef MC_SAN
    if (!WIFEXITED(st)) mc::fail("memory", "the calculation died with signal " + std::to_string(WTERMSIG(st)));
#endif
    if (!WIFEXITED(st)) return "died with signal " + std::to_string(WTERMSIG(st)) + " " + r;
    return r;
}
#endif
