// A driver that crashes, hangs or throws where it should not says so in its trace.
#pragma once
#include "common.h"
#include <csignal>
#include <sys/time.h>

namespace vp {
    inline Trace *g_trace = nullptr;
    inline const char *g_what = "";

    inline void on_fatal(int sig) {
        char b[160];
        int n = snprintf(b, sizeof(b), "{\"k\":\"crash\",\"sig\":%d,\"at\":\"%s\"}\n", sig, g_what);
        if (g_trace && n > 0) (void) !::write(g_trace->fd, b, n);
        _exit(0);
    }

    // Every case gets `secs` seconds before it counts as a hang.
    inline void tick(const char *what, int secs = 20) {
        g_what = what;
        alarm(secs);
    }

    inline void guard(Trace &t) {
        g_trace = &t;
        static char alt[65536];
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = sizeof(alt);
        sigaltstack(&ss, nullptr);
        struct sigaction sa{};
        sa.sa_handler = on_fatal;
        sa.sa_flags = SA_ONSTACK;
        for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
    }
}
