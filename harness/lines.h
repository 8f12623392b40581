// Runs a function on every line of a file, in a forked child, so that a crash, an exception or an endless loop in
// the code under test becomes a recorded fault of that line and the remaining lines still run.
//   prog IN OUT [worker workers]
// A line is "<name>\t<text>"; the function returns one line of JSON.
#pragma once
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace lines
{
    struct Shared { volatile long next; volatile long current; };

    inline std::string name_of(const std::string& l) { return l.substr(0, l.find('\t')); }
    inline std::string text_of(const std::string& l) { size_t t = l.find('\t'); return t == std::string::npos ? std::string() : l.substr(t + 1); }

    inline void arm(long ms)
    {
        itimerval v{}; v.it_value.tv_sec = ms / 1000; v.it_value.tv_usec = (ms % 1000) * 1000;
        setitimer(ITIMER_VIRTUAL, &v, nullptr);
    }

    inline void append(std::string& out, const std::string& piece) { out += piece; }

    template<class Fn>
    int drive(int argc, char** argv, Fn fn, long limit_ms = 10000)
    {
        if (argc < 3) { fprintf(stderr, "usage\n"); return 2; }
        const long worker = argc > 3 ? atol(argv[3]) : 0, workers = argc > 4 ? atol(argv[4]) : 1;
        std::vector<std::string> in;
        {
            std::ifstream f(argv[1]); std::string l; long n = 0;
            while (std::getline(f, l)) if (n++ % workers == worker) in.push_back(l);
        }
        FILE* out = fopen(argv[2], "w");
        if (!out) return 2;
        setvbuf(out, nullptr, _IOLBF, 1 << 20);
        auto* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        sh->next = 0; sh->current = -1;
        int faults = 0, endless = 0;
        while (sh->next < (long)in.size())
        {
            fflush(out);
            pid_t p = fork();
            if (p < 0) return 2;
            if (p == 0)
            {
                signal(SIGVTALRM, SIG_DFL);
                for (long i = sh->next; i < (long)in.size(); ++i)
                {
                    sh->current = i;
                    arm(limit_ms);
                    std::string r = fn(name_of(in[(size_t)i]), text_of(in[(size_t)i]));
                    arm(0);
                    r += '\n';
                    fwrite(r.data(), 1, r.size(), out);
                    fflush(out);
                    sh->next = i + 1;
                }
                fflush(out);
                _exit(0);
            }
            int st = 0;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
            const long i = sh->current;
            char what[32];
            if (WIFSIGNALED(st)) snprintf(what, sizeof what, WTERMSIG(st) == SIGVTALRM ? "endless" : "signal_%d", WTERMSIG(st));
            else snprintf(what, sizeof what, "exit_%d", WEXITSTATUS(st));
            fprintf(out, "{\"sc\":\"%s\",\"ev\":[{\"e\":\"fault\",\"what\":\"%s\"}]}\n", name_of(in[(size_t)i]).c_str(), what);
            sh->next = i + 1;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) ++endless;
            if (++faults > 40 || endless > 4) { fprintf(stderr, "too many faults\n"); break; }
        }
        fclose(out);
        printf("{\"lines\":%zu,\"faults\":%d}\n", in.size(), faults);
        return 0;
    }
}
