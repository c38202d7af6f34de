// Runs a program of the samples (its main renamed sample_main) in a process of its own with
// what it prints captured, in the scratch directory of the shard.
#ifndef PROG_HPP
#define PROG_HPP
#include "mc.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <getopt.h>
#include <fstream>
#if !defined(ARGLESS) && !defined(OWN_MAIN)
int sample_main(int argc, char **argv);
#endif
namespace prog {
    using std::string; using std::vector;
    struct Out { int rc; bool died, verbose; string out, err; };
    inline string slurp(const string& f) { std::ifstream i(f); std::ostringstream s; s << i.rdbuf(); return s.str(); }
    inline string show(const vector<string>& a) { string s; for (auto& x : a) s += " " + x; return s; }
    inline int call(int (*f)(), int, char **) { return f(); }
    inline int call(int (*f)(int, char **), int c, char **v) { return f(c, v); }
    inline Out run(const vector<string>& args) {
        mc::trans(); mc::heartbeat = mc::heartbeat + 1; fflush(0);
        pid_t p = fork();
        if (p == 0) {
            for (int s : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL }) signal(s, SIG_DFL);
            itimerval z = { { 0, 0 }, { mc::g.thorough ? 3000 : 500, 0 } }; signal(SIGPROF, SIG_DFL); setitimer(ITIMER_PROF, &z, 0); z.it_value.tv_sec = 0; setitimer(ITIMER_VIRTUAL, &z, 0); setitimer(ITIMER_REAL, &z, 0);
            struct rlimit fs = { 1 << 28, 1 << 28 }; setrlimit(RLIMIT_FSIZE, &fs);       // a runaway program
            int o = open("stdout.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open("stderr.txt", O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(o, 1); dup2(e, 2); close(o); close(e);
            vector<char *> av; static string name = "program"; av.push_back(&name[0]);
            vector<string> copy(args); for (auto& x : copy) av.push_back(&x[0]); av.push_back(0);
            optind = 1; errno = 0;
            int rc = 250;
            try {
                rc = call(sample_main, int(av.size()) - 1, av.data());
            } catch (...) { fprintf(stderr, "uncaught exception"); fflush(0); signal(SIGABRT, SIG_DFL); abort(); }
            std::cout.flush(); fflush(0); _exit(rc & 255);
        }
        int st = 0; waitpid(p, &st, 0);
        Out r; r.died = !WIFEXITED(st); r.rc = r.died ? -WTERMSIG(st) : WEXITSTATUS(st);
        r.verbose = std::count(args.begin(), args.end(), "-v") + std::count(args.begin(), args.end(), "--verbose");
        r.out = slurp("stdout.txt"); r.err = slurp("stderr.txt");
#ifdef MC_SAN
        // a sanitizer's report ends the child; show it so that the driver finds it
        if (r.died || r.err.find("runtime error:") != string::npos || r.err.find("AddressSanitizer") != string::npos) { fputs(r.err.c_str(), stderr); mc::fail("memory", "the program" + show(args) + " ended with a report"); }
#endif
        return r;
    }
    inline vector<string> lines(const string& s) { vector<string> r; std::istringstream i(s); string l; while (std::getline(i, l)) r.push_back(l); return r; }
    // a line of parameters: numbers and commas
    inline bool isparam(const string& l) {
        if (l.empty() || std::count(l.begin(), l.end(), ',') < 3) return false;
        string t = l; size_t k = t.find("uint32_t"); if (k != string::npos) t.erase(k, 8);      // MTGP names its type
        for (char c : t) if (!isxdigit((unsigned char)c) && !strchr(",\" -", c)) return false;
        return true;
    }
    inline vector<string> params(const string& s) { vector<string> r; for (auto& l : lines(s)) if (isparam(l)) r.push_back(l); return r; }
}
#endif
