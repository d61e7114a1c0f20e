// Native replay driver: reads lines "index ncalls words...", runs each line in
// a forked child, prints "OK <r words> <k words>" or "CRASH <why>".
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <csignal>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" void zh_share(const void *) {}
struct zh_entry { void (*f)(const float *, const int32_t *, float *, int64_t *); int nf, ni, nr, nk; };
static int zh_main(const zh_entry *tab, int n)
{
    static char line[1 << 16];
    while (fgets(line, sizeof line, stdin)) {
        char *p = line;
        int ix = strtol(p, &p, 10), nc = strtol(p, &p, 10);
        if (ix < 0 || ix >= n) { printf("CRASH bad index\n"); fflush(stdout); continue; }
        const zh_entry &e = tab[ix];
        std::vector<uint32_t> w;
        for (int i = 0; i < nc * (e.nf + e.ni); i++) w.push_back((uint32_t)strtoul(p, &p, 16));
        int fd[2];
        if (pipe(fd)) return 3;
        fflush(stdout);
        pid_t pid = fork();
        if (!pid) {
            close(fd[0]);
            alarm(30);
            struct rlimit cpu = {2, 3};
            setrlimit(RLIMIT_CPU, &cpu);
            // inputs and outputs live in exactly sized heap blocks
            float *a = (float *)malloc(e.nf ? e.nf * 4 : 1);
            int32_t *m = (int32_t *)malloc(e.ni ? e.ni * 4 : 1);
            float *r = (float *)malloc(e.nr ? e.nr * 4 : 1);
            int64_t *k = (int64_t *)malloc(e.nk ? e.nk * 8 : 1);
            for (int i = 0; i < e.nr; i++) { uint32_t b = 0x7fa5a5a5u; memcpy(&r[i], &b, 4); }
            for (int i = 0; i < e.nk; i++) k[i] = (int64_t)0xa5a5a5a5a5a5a5a5ull;
            for (int c = 0; c < nc; c++) {
                for (int i = 0; i < e.nf; i++) memcpy(&a[i], &w[c * (e.nf + e.ni) + i], 4);
                for (int i = 0; i < e.ni; i++) memcpy(&m[i], &w[c * (e.nf + e.ni) + e.nf + i], 4);
                e.f(a, m, r, k);
            }
            std::string s = "OK";
            char b[32];
            for (int i = 0; i < e.nr; i++) { uint32_t x; memcpy(&x, &r[i], 4); snprintf(b, 32, " %08x", x); s += b; }
            for (int i = 0; i < e.nk; i++) { snprintf(b, 32, " %016llx", (unsigned long long)k[i]); s += b; }
            s += "\n";
            if (write(fd[1], s.data(), s.size()) < 0) _exit(4);
            _exit(0);
        }
        close(fd[1]);
        std::string out;
        char buf[4096];
        ssize_t g;
        while ((g = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, g);
        close(fd[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !out.empty()) printf("%s", out.c_str());
        else if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL)) printf("CRASH no end after 2 s of computation\n");
        else if (WIFSIGNALED(status)) printf("CRASH signal %d\n", WTERMSIG(status));
        else printf("CRASH exit %d\n", WIFEXITED(status) ? WEXITSTATUS(status) : -1);
        fflush(stdout);
    }
    return 0;
}
