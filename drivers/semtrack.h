// Remembers the names of the named semaphores the code under test creates, so
// that they can be removed again.
#pragma once
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <semaphore.h>
#include <set>
#include <string>

namespace vp {
    inline std::set<std::string> &sem_names() {
        static auto *s = new std::set<std::string>();
        return *s;
    }

    inline std::mutex &sem_names_mutex() {
        static auto *m = new std::mutex();
        return *m;
    }

    inline void sem_cleanup() {
        for (auto &n: sem_names()) sem_unlink(n.c_str());
        sem_names().clear();
    }
}

extern "C" inline sem_t *vp_real_sem_open(const char *n, int f, mode_t m, unsigned v) {
    using F = sem_t *(*)(const char *, int, ...);
    static F real = (F) dlsym(RTLD_NEXT, "sem_open");
    return real(n, f, m, v);
}

#ifndef VP_NO_SEM_OPEN
extern "C" sem_t *sem_open(const char *name, int flags, ...) {
    mode_t m = 0;
    unsigned v = 0;
    if (flags & O_CREAT) {
        va_list a;
        va_start(a, flags);
        m = va_arg(a, mode_t);
        v = va_arg(a, unsigned);
        va_end(a);
    }
    {
        std::lock_guard<std::mutex> g(vp::sem_names_mutex());
        vp::sem_names().insert(name);
    }
    return vp_real_sem_open(name, flags, m, v);
}
#endif
