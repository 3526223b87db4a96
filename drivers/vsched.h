// A deterministic scheduler for the threads of the code under test. Exactly one
// thread runs at a time; at every synchronisation call (pthread mutexes,
// condition variables, rwlocks, semaphores, joins, futex system calls, static
// initialisation guards) and, when the sources are compiled with
// -fsanitize-coverage=trace-pc-guard, also between any two basic blocks, a
// strategy picks the thread that goes on. When no thread can go on, the run ends
// with a "stuck" line. Include in exactly one translation unit.
#pragma once
#include "common.h"
#include <cerrno>
#include <cstdarg>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <vector>

namespace vs {
    enum St { READY, BLOCKED, IDLE, DONE };

    struct Thr {
        int id;
        St st = READY;
        const void *on = nullptr;  // what it waits for
        const char *why = "";
        bool timed = false, timed_out = false, woken = false;
        uint32_t go = 0;           // futex word of the real hand-over
        void *(*fn)(void *) = nullptr;
        void *arg = nullptr, *ret = nullptr;
        pthread_t real{};
        bool joined = false;
        long prio = 0;
    };

    // choices recorded for systematic exploration, shared with the parent process
    struct Choices {
        uint32_t n, len;           // made so far; length of the prescribed prefix
        uint32_t overflow;
        uint8_t pick[1 << 16], opts[1 << 16], cur[1 << 16];
    };

    struct Mutex {
        int owner = -1;
        int depth = 0;
    };
    struct RW {
        int writer = -1;
        int readers = 0;
    };
    struct Sem {
        long value = 0;
    };

    enum Mode { RANDOM, PCT, SYSTEMATIC };

    inline bool on = false;
    inline int names_fd = -1;              // where names of real semaphores are noted
    inline thread_local int self = -1;
    inline thread_local int quietly = 0;   // no scheduling points inside
    inline std::vector<Thr *> *T;
    inline std::map<const void *, Mutex> *mutexes;
    inline std::map<const void *, RW> *rws;
    inline std::map<const void *, Sem> *sems;
    inline std::map<std::string, sem_t *> *named;
    inline std::map<const void *, int> *guards;
    inline vp::Rng *rng;
    inline Mode mode = RANDOM;
    inline uint64_t gap = 0, mean_gap = 0, points = 0, switches = 0;
    inline std::set<uint64_t> *changes;    // PCT change points
    inline Choices *choices = nullptr;
    inline int spurious = 0;               // percent of condition waits woken for nothing
    inline std::function<void(const std::string &)> *on_stuck;
    inline std::map<int, bool> *fail_create = nullptr;   // thread -> its next pthread_create fails

    template<typename F>
    F real(const char *n) { return (F) dlsym(RTLD_NEXT, n); }

    inline long raw_futex(uint32_t *a, int op, uint32_t v) {
        long r;
        register long r10 __asm__("r10") = 0;
        register long r8 __asm__("r8") = 0;
        register long r9 __asm__("r9") = 0;
        __asm__ volatile("syscall" : "=a"(r) : "a"((long) SYS_futex), "D"(a), "S"((long) op), "d"((long) v), "r"(r10), "r"(r8), "r"(r9)
                : "rcx", "r11", "memory");
        return r;
    }

    inline void give(Thr *t) {
        __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
        raw_futex(&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1);
    }

    inline void await(Thr *t) {
        while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) raw_futex(&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0);
        __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
    }

    inline Thr *me() { return (*T)[self]; }

    inline void new_gap() {
        if (!mean_gap) gap = ~0ull;
        else gap = 1 + rng->below(2 * mean_gap);
    }

    [[noreturn]] inline void stuck() {
        std::vector<std::string> w;
        for (auto t: *T) if (t->st == BLOCKED) w.push_back(vp::J().num("t", t->id).str("why", t->why).done());
        on = false;
        (*on_stuck)(vp::jlist(w));
        _exit(0);
    }

    // The thread that goes on after the current one stopped at a point.
    inline Thr *pick(bool can_stay) {
        points++;
        std::vector<Thr *> c;
        if (can_stay) c.push_back(me());
        for (auto t: *T)
            if (t->id != self || !can_stay)
                if (t->st == READY || (t->st == BLOCKED && t->timed)) {
                    if (!(can_stay && t->id == self)) c.push_back(t);
                }
        if (c.empty()) {
            for (auto t: *T) if (t->st == IDLE) return t;
            stuck();
        }
        // waits that can time out are only chosen when something else cannot go on, or rarely
        size_t firm = 0;
        for (auto t: c) firm += t->st == READY;
        if (firm && firm < c.size() && !(mode == RANDOM && rng->chance(5))) {
            std::vector<Thr *> d;
            for (auto t: c) if (t->st == READY) d.push_back(t);
            c = d;
        }
        if (c.size() == 1) return c[0];
        if (mode == SYSTEMATIC && choices) {
            auto &x = *choices;
            if (x.n >= sizeof(x.pick)) {
                x.overflow = 1;
                return c[0];
            }
            if (x.n >= x.len) x.pick[x.n] = 0;
            x.opts[x.n] = c.size();
            x.cur[x.n] = can_stay;
            return c[x.pick[x.n++] % c.size()];
        }
        if (mode == PCT && points < 300000) {
            if (changes->contains(points) && can_stay) me()->prio = -(long) points;
            Thr *b = c[0];
            for (auto t: c) if (t->prio > b->prio) b = t;
            return b;
        }
        return c[rng->below(c.size())];
    }

    inline void hand(Thr *t) {
        if (t->st == BLOCKED && t->timed) t->timed_out = true;
        t->st = READY;
        if (t->id == self) return;
        switches++;
        Thr *m = me();
        give(t);
        await(m);
    }

    // The current thread may lose control here.
    inline void point() {
        if (!on || self < 0 || quietly) return;
        quietly++;
        new_gap();
        hand(pick(true));
        quietly--;
    }

    // The current thread cannot go on until somebody makes it READY. Returns false on a time-out.
    inline bool block(const void *what, const char *why, bool timed = false) {
        quietly++;
        Thr *m = me();
        m->st = BLOCKED;
        m->on = what;
        m->why = why;
        m->timed = timed;
        m->timed_out = false;
        Thr *t = pick(false);
        hand(t);
        m->timed = false;
        m->on = nullptr;
        quietly--;
        return !m->timed_out;
    }

    inline void wake(const void *what, int n = 1 << 30) {
        std::vector<Thr *> c;
        for (auto t: *T) if (t->st == BLOCKED && t->on == what) c.push_back(t);
        while (n > 0 && !c.empty()) {
            size_t k = mode == SYSTEMATIC ? 0 : rng->below(c.size());
            c[k]->st = READY;
            c[k]->woken = true;
            c[k]->on = nullptr;
            c.erase(c.begin() + k);
            n--;
        }
    }

    // Waits until no other thread can go on.
    inline void settle() {
        quietly++;
        me()->st = IDLE;
        hand(pick(false));
        quietly--;
    }

    // The memory of a mutex says whether it is taken: one that was destroyed
    // while taken and made again at the same address is free.
    inline int &mark(const void *m) { return ((pthread_mutex_t *) m)->__data.__lock; }

    inline void take(const void *m, Mutex &x) {
        x.owner = self;
        x.depth = 1;
        mark(m) = 1;
    }

    inline void drop(const void *m, Mutex &x) {
        x.owner = -1;
        x.depth = 0;
        mark(m) = 0;
    }

    inline bool taken(const void *m, Mutex &x) {
        if (x.owner != -1 && !mark(m)) x = Mutex{};
        return x.owner != -1;
    }

    inline void lock(const void *m, bool recursive = false) {
        point();
        auto &x = (*mutexes)[m];
        if (taken(m, x) && x.owner == self && recursive) {
            x.depth++;
            return;
        }
        while (taken(m, x)) block(m, "mutex");
        take(m, x);
    }

    inline bool trylock(const void *m, bool recursive = false) {
        point();
        auto &x = (*mutexes)[m];
        bool t = taken(m, x);
        if (t && x.owner == self && recursive) {
            x.depth++;
            return true;
        }
        if (t) return false;
        take(m, x);
        return true;
    }

    inline void unlock(const void *m) {
        auto &x = (*mutexes)[m];
        if (--x.depth > 0) return;
        drop(m, x);
        wake(m);
        point();
    }

    // state of semaphores is per name or address; the sem_t itself is not used
    inline Sem &sem(sem_t *s) { return (*sems)[s]; }

    inline void *trampoline(void *p) {
        Thr *t = (Thr *) p;
        self = t->id;
        quietly = 0;
        await(t);
        t->ret = t->fn(t->arg);
        quietly = 1;
        t->st = DONE;
        wake(t);
        Thr *n = pick(false);
        if (n->st == BLOCKED && n->timed) n->timed_out = true;
        n->st = READY;
        self = -1;
        give(n);
        return t->ret;
    }

    struct Plan {
        Mode mode = RANDOM;
        uint64_t seed = 1, mean_gap = 0;
        int depth = 3;             // PCT change points
        uint64_t horizon = 400;    // expected number of points
        Choices *choices = nullptr;
        int spurious = 0;
    };

    // The calling thread becomes thread 0.
    inline void start(const Plan &p, std::function<void(const std::string &)> stuck_fn) {
        T = new std::vector<Thr *>();
        mutexes = new std::map<const void *, Mutex>();
        rws = new std::map<const void *, RW>();
        sems = new std::map<const void *, Sem>();
        named = new std::map<std::string, sem_t *>();
        guards = new std::map<const void *, int>();
        changes = new std::set<uint64_t>();
        rng = new vp::Rng(p.seed);
        mode = p.mode;
        mean_gap = p.mode == SYSTEMATIC ? 0 : p.mean_gap;
        choices = p.choices;
        spurious = p.spurious;
        on_stuck = new std::function<void(const std::string &)>(std::move(stuck_fn));
        for (int k = 0; k < p.depth; k++) changes->insert(1 + rng->below(p.horizon));
        auto t = new Thr();
        t->id = 0;
        t->prio = 1 + rng->below(1000);
        T->push_back(t);
        self = 0;
        new_gap();
        on = true;
    }

    inline bool managed() { return on && self >= 0; }
}

// ---------------------------------------------------------------- interposed
template<typename X>
using type_identity = X;
// no guarded initialisation here: the guards themselves are interposed
#define VS_REAL(name, type) static type_identity<type> r_ = nullptr; if (!r_) r_ = vs::real<type>(name); auto r = r_

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (vs::managed()) {
        vs::lock(m, (m->__data.__kind & 3) == 1);
        return 0;
    }
    if (vs::on) return 0;  // a thread that is ending
    VS_REAL("pthread_mutex_lock", int (*)(pthread_mutex_t *));
    return r(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (vs::managed()) return vs::trylock(m, (m->__data.__kind & 3) == 1) ? 0 : EBUSY;
    if (vs::on) return 0;
    VS_REAL("pthread_mutex_trylock", int (*)(pthread_mutex_t *));
    return r(m);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) {
    return pthread_mutex_lock(m);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) {
    return pthread_mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (vs::managed()) {
        vs::unlock(m);
        return 0;
    }
    if (vs::on) return 0;
    VS_REAL("pthread_mutex_unlock", int (*)(pthread_mutex_t *));
    return r(m);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (vs::managed()) {
        vs::mutexes->erase(m);
        return 0;
    }
    VS_REAL("pthread_mutex_destroy", int (*)(pthread_mutex_t *));
    return r(m);
}

static int vs_cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
    if (vs::spurious && vs::rng->chance(vs::spurious)) {
        vs::unlock(m);
        vs::lock(m);
        return 0;
    }
    // releasing and starting to wait is one step
    auto &x = (*vs::mutexes)[m];
    vs::drop(m, x);
    vs::wake(m);
    bool ok = vs::block(c, "condition", timed);
    while (vs::taken(m, x)) vs::block(m, "mutex");
    vs::take(m, x);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (vs::managed()) return vs_cond_wait(c, m, false);
    VS_REAL("pthread_cond_wait", int (*)(pthread_cond_t *, pthread_mutex_t *));
    return r(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
    if (vs::managed()) return vs_cond_wait(c, m, true);
    VS_REAL("pthread_cond_timedwait", int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *));
    return r(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
    if (vs::managed()) return vs_cond_wait(c, m, true);
    VS_REAL("pthread_cond_clockwait", int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *));
    return r(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (vs::managed()) {
        vs::wake(c, 1);
        vs::point();
        return 0;
    }
    VS_REAL("pthread_cond_signal", int (*)(pthread_cond_t *));
    return r(c);
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (vs::managed()) {
        vs::wake(c);
        vs::point();
        return 0;
    }
    VS_REAL("pthread_cond_broadcast", int (*)(pthread_cond_t *));
    return r(c);
}
int pthread_cond_destroy(pthread_cond_t *c) {
    if (vs::managed()) return 0;
    VS_REAL("pthread_cond_destroy", int (*)(pthread_cond_t *));
    return r(c);
}

int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (vs::managed()) {
        vs::point();
        auto &x = (*vs::rws)[l];
        while (x.writer != -1) vs::block(l, "rwlock");
        x.readers++;
        return 0;
    }
    VS_REAL("pthread_rwlock_rdlock", int (*)(pthread_rwlock_t *));
    return r(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (vs::managed()) {
        vs::point();
        auto &x = (*vs::rws)[l];
        while (x.writer != -1 || x.readers > 0) vs::block(l, "rwlock");
        x.writer = vs::self;
        return 0;
    }
    VS_REAL("pthread_rwlock_wrlock", int (*)(pthread_rwlock_t *));
    return r(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (vs::managed()) {
        auto &x = (*vs::rws)[l];
        if (x.writer == vs::self) x.writer = -1;
        else x.readers--;
        vs::wake(l);
        vs::point();
        return 0;
    }
    VS_REAL("pthread_rwlock_unlock", int (*)(pthread_rwlock_t *));
    return r(l);
}

int pthread_create(pthread_t *id, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    VS_REAL("pthread_create", int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
    if (!vs::managed()) return r(id, a, fn, arg);
    if (vs::fail_create && (*vs::fail_create)[vs::self]) {
        (*vs::fail_create)[vs::self] = false;
        return EAGAIN;
    }
    vs::quietly++;
    auto t = new vs::Thr();
    t->id = vs::T->size();
    t->fn = fn;
    t->arg = arg;
    t->prio = 1 + vs::rng->below(1000);
    vs::T->push_back(t);
    int e = r(&t->real, a, vs::trampoline, t);
    if (e) {
        vs::T->pop_back();
        vs::quietly--;
        return e;
    }
    *id = t->real;
    vs::quietly--;
    vs::point();
    return 0;
}
int pthread_join(pthread_t id, void **ret) {
    VS_REAL("pthread_join", int (*)(pthread_t, void **));
    if (vs::managed()) {
        vs::point();
        for (auto t: *vs::T)
            if (t->real == id && t->id && !t->joined) {
                while (t->st != vs::DONE) vs::block(t, "join");
                t->joined = true;
                break;
            }
    }
    return r(id, ret);
}

sem_t *sem_open(const char *name, int flags, ...) {
    mode_t m = 0;
    unsigned v = 0;
    if (flags & O_CREAT) {
        va_list a;
        va_start(a, flags);
        m = va_arg(a, mode_t);
        v = va_arg(a, unsigned);
        va_end(a);
    }
    if (vs::managed()) {
        vs::point();
        auto it = vs::named->find(name);
        if (it != vs::named->end()) {
            if ((flags & O_CREAT) && (flags & O_EXCL)) {
                errno = EEXIST;
                return SEM_FAILED;
            }
            return it->second;
        }
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return SEM_FAILED;
        }
        auto s = (sem_t *) calloc(1, sizeof(sem_t));
        vs::sem(s).value = v;
        (*vs::named)[name] = s;
        return s;
    }
    if (vs::names_fd >= 0) {
        auto l = std::string(name) + "\n";
        if (write(vs::names_fd, l.data(), l.size())) {}
    }
    using F = sem_t *(*)(const char *, int, ...);
    VS_REAL("sem_open", F);
    return r(name, flags, m, v);
}
int sem_unlink(const char *name) {
    if (vs::managed()) {
        vs::named->erase(name);
        return 0;
    }
    VS_REAL("sem_unlink", int (*)(const char *));
    return r(name);
}
int sem_close(sem_t *s) {
    if (vs::managed()) return 0;
    VS_REAL("sem_close", int (*)(sem_t *));
    return r(s);
}
int sem_init(sem_t *s, int sh, unsigned v) {
    if (vs::managed()) {
        vs::sem(s).value = v;
        return 0;
    }
    VS_REAL("sem_init", int (*)(sem_t *, int, unsigned));
    return r(s, sh, v);
}
int sem_destroy(sem_t *s) {
    if (vs::managed()) return 0;
    VS_REAL("sem_destroy", int (*)(sem_t *));
    return r(s);
}
int sem_wait(sem_t *s) {
    if (vs::managed()) {
        vs::point();
        auto &x = vs::sem(s);
        while (x.value <= 0) vs::block(s, "semaphore");
        x.value--;
        return 0;
    }
    VS_REAL("sem_wait", int (*)(sem_t *));
    return r(s);
}
int sem_trywait(sem_t *s) {
    if (vs::managed()) {
        vs::point();
        auto &x = vs::sem(s);
        if (x.value <= 0) {
            errno = EAGAIN;
            return -1;
        }
        x.value--;
        return 0;
    }
    VS_REAL("sem_trywait", int (*)(sem_t *));
    return r(s);
}
int sem_timedwait(sem_t *s, const struct timespec *t) {
    if (vs::managed()) {
        vs::point();
        auto &x = vs::sem(s);
        while (x.value <= 0)
            if (!vs::block(s, "semaphore", true)) {
                errno = ETIMEDOUT;
                return -1;
            }
        x.value--;
        return 0;
    }
    VS_REAL("sem_timedwait", int (*)(sem_t *, const struct timespec *));
    return r(s, t);
}
int sem_clockwait(sem_t *s, clockid_t, const struct timespec *t) { return sem_timedwait(s, t); }
int sem_post(sem_t *s) {
    if (vs::managed()) {
        vs::sem(s).value++;
        vs::wake(s);
        vs::point();
        return 0;
    }
    VS_REAL("sem_post", int (*)(sem_t *));
    return r(s);
}
int sem_getvalue(sem_t *s, int *v) {
    if (vs::managed()) {
        *v = vs::sem(s).value;
        return 0;
    }
    VS_REAL("sem_getvalue", int (*)(sem_t *, int *));
    return r(s, v);
}

int sched_yield() {
    vs::point();
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (vs::managed()) {
        vs::point();
        return 0;
    }
    VS_REAL("nanosleep", int (*)(const struct timespec *, struct timespec *));
    return r(a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
    if (vs::managed()) {
        vs::point();
        return 0;
    }
    VS_REAL("clock_nanosleep", int (*)(clockid_t, int, const struct timespec *, struct timespec *));
    return r(c, f, a, b);
}
int usleep(useconds_t u) {
    if (vs::managed()) {
        vs::point();
        return 0;
    }
    VS_REAL("usleep", int (*)(useconds_t));
    return r(u);
}

// std::atomic::wait, std::counting_semaphore and friends come here
long syscall(long n, ...) {
    va_list a;
    va_start(a, n);
    long x[6];
    for (long &k: x) k = va_arg(a, long);
    va_end(a);
    if (n == SYS_futex && vs::managed()) {
        int op = x[1] & 127;
        auto addr = (uint32_t *) x[0];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            vs::point();
            if (*addr != (uint32_t) x[2]) {
                errno = EAGAIN;
                return -1;
            }
            if (!vs::block(addr, "futex", x[3] != 0)) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            vs::wake(addr, (int) x[2]);
            vs::point();
            return 1;
        }
    }
    using F = long (*)(long, ...);
    VS_REAL("syscall", F);
    return r(n, x[0], x[1], x[2], x[3], x[4], x[5]);
}

// function-local statics
int __cxa_guard_acquire(uint64_t *g) {
    auto b = (volatile uint8_t *) g;
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    if (vs::managed()) {
        while (b[1] && !b[0]) vs::block(g, "static initialisation");
        if (b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    VS_REAL("__cxa_guard_acquire", int (*)(uint64_t *));
    return r(g);
}
void __cxa_guard_release(uint64_t *g) {
    auto b = (volatile uint8_t *) g;
    if (vs::managed()) {
        b[1] = 0;
        __atomic_store_n(b, 1, __ATOMIC_RELEASE);
        vs::wake(g);
        return;
    }
    VS_REAL("__cxa_guard_release", void (*)(uint64_t *));
    r(g);
}
void __cxa_guard_abort(uint64_t *g) {
    auto b = (volatile uint8_t *) g;
    if (vs::managed()) {
        b[1] = 0;
        vs::wake(g);
        return;
    }
    VS_REAL("__cxa_guard_abort", void (*)(uint64_t *));
    r(g);
}

// between basic blocks of the instrumented sources
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    if (vs::on && vs::self >= 0 && !vs::quietly && --vs::gap == 0) vs::point();
}
}
