// The server as a process of its own (main.cpp as it is), on the loopback
// network, stopped by a signal while clients have requests under way.
// usage: proc <kind> <seed> <runs> <shard> <shards> <out> <dir>
#define VP_NO_SEM_OPEN
#include "semtrack.h"
#include "requests.h"
#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <ctime>
#include <map>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>

#define main hz_main
#include <main.cpp>
#undef main

// Delays at random basic blocks of the sources, in the server only.
static bool noisy;
static uint64_t noise_seed, noise_gap;
static thread_local uint64_t noise_state, noise_left;

static void noise() {
    if (!noisy || !noise_gap) return;
    if (noise_left-- > 0) return;
    if (!noise_state) noise_state = noise_seed ^ (uint64_t) &noise_state;
    noise_state = noise_state * 6364136223846793005ull + 1442695040888963407ull;
    noise_left = (noise_state >> 33) % (2 * noise_gap);
    timespec t{0, (long) ((noise_state >> 20) % 200000)};
    int e = errno;
    nanosleep(&t, nullptr);
    errno = e;
}

// While a server that has ended waits for what it sent to arrive, its other threads stand still.
static std::atomic<bool> frozen;
static std::atomic<pthread_t> ender;

// Named semaphores of this run, whoever opened them.
struct Names {
    std::atomic<bool> up;       // our server has the port
    std::atomic<int> n;
    char v[64][256];
};
static Names *names = (Names *) mmap(nullptr, sizeof(Names), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

static void forget_names() {
    for (int k = 0; k < std::min<int>(names->n, 64); k++) sem_unlink(names->v[k]);
    names->n = 0;
}

extern "C" sem_t *sem_open(const char *name, int flags, ...) {
    va_list a;
    va_start(a, flags);
    mode_t m = va_arg(a, mode_t);
    unsigned v = va_arg(a, unsigned);
    va_end(a);
    int k = names->n++;
    if (k < 64) strncpy(names->v[k], name, 255);
    return vp_real_sem_open(name, flags, m, v);
}

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *) {
    while (frozen && !pthread_equal(pthread_self(), ender)) usleep(1000);
    noise();
}
void __cyg_profile_func_enter(void *, void *) {}
void __cyg_profile_func_exit(void *, void *) {}

int listen(int s, int n) {
    static auto real = (int (*)(int, int)) dlsym(RTLD_NEXT, "listen");
    int x = real(s, n);
    if (!x) names->up = true;
    return x;
}

// what the server sends is on its way at once
int accept(int s, sockaddr *a, socklen_t *n) {
    static auto real = (int (*)(int, sockaddr *, socklen_t *)) dlsym(RTLD_NEXT, "accept");
    int c = real(s, a, n), on = 1;
    if (c >= 0) setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on);
    return c;
}
}

static Trace T;

static double now() {
    timespec t{};
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static sockaddr_in address(int port) {
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return a;
}

static int delays = 0;   // what took so long that hundreds of runs like it would never end

struct Peer {
    int no, fd = -1;
    std::string got, pending;
    bool over = false;

    void pull() {
        char b[4096];
        ssize_t n;
        while (!over && (n = recv(fd, b, sizeof b, MSG_DONTWAIT)) != -1) {
            if (n == 0) over = true;
            got.append(b, std::max<ssize_t>(n, 0));
        }
        if (!over && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) over = true;
    }

    void push() {
        while (!pending.empty()) {
            auto n = ::send(fd, pending.data(), pending.size(), MSG_DONTWAIT | MSG_NOSIGNAL);
            if (n <= 0) return;
            pending.erase(0, n);
        }
    }

    bool wait(size_t n, double secs) {
        for (double until = now() + secs; got.size() < n && !over && now() < until;) {
            pollfd p{fd, POLLIN, 0};
            poll(&p, 1, 10);
            pull();
            if (secs >= 20 && now() > until) delays++;
        }
        return got.size() >= n;
    }
};

struct Life : Requests {
    std::string pwd, dir;
    bool timed = false;
    int lim = 0, port = 0, next = 1;
    pid_t server = -1;
    std::vector<Peer *> ps;
    Client nobody;

    explicit Life(uint64_t seed) : Requests(seed) {}

    static int free_port() {
        static int k = (int) getpid() * 997;
        while (true) {
            int p = 10000 + (k++ % 20000), s = socket(AF_INET, SOCK_STREAM, 0);
            auto a = address(p);
            bool ok = bind(s, (sockaddr *) &a, sizeof a) == 0;
            close(s);
            if (ok) return p;
        }
    }

    bool alive() {
        return server > 0 && waitpid(server, nullptr, WNOHANG) == 0 ? true : (server = -1, false);
    }

    void start() {
        auto gap = r.pick(std::vector<uint64_t>{0, 20, 100, 400, 3000});
        auto seed = r.next();
        int threads = r.range(1, 3);
        for (int tries = 0; tries < 20 && delays < 3; tries++) {
            port = free_port();
            names->up = false;
            server = fork();
            if (!server) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                signal(SIGPIPE, SIG_DFL);
                int null = open("/dev/null", O_RDWR);
                for (int i = 0; i < 3; i++) dup2(null, i);
                rlimit as{6ull << 30, 6ull << 30}, core{0, 0};
                setrlimit(RLIMIT_AS, &as);
                setrlimit(RLIMIT_CORE, &core);
                setenv("HZIP_API_PORT", std::to_string(port).c_str(), 1);
                setenv("HZIP_API_KEY", pwd.c_str(), 1);
                setenv("HZIP_API_THREADS", std::to_string(lim).c_str(), 1);
                setenv("HZIP_API_TIMEOUT", timed ? "1" : r.chance(30) ? "0" : "600", 1);
                setenv("HZIP_PROCESSOR_THREADS", std::to_string(threads).c_str(), 1);
                setenv("HZIP_CACHE_FILE", (dir + "/cache").c_str(), 1);
                setenv("HZIP_CACHE_COUNT", "1", 1);
                setenv("HZIP_CACHE_PAGE_SIZE", "64", 1);
                atexit([]() {
                    ender = pthread_self(), frozen = true;
                    usleep(30000);
                    frozen = false;
                });
                noise_seed = seed, noise_gap = gap, noisy = true;
                const char *argv[] = {"hybridzip", nullptr};
                hz_main(1, argv);
                _exit(97);
            }
            for (double until = now() + 20; now() < until && alive();) {
                if (!names->up) {
                    usleep(300);
                    continue;
                }
                int s = socket(AF_INET, SOCK_STREAM, 0);
                auto a = address(port);
                bool up = connect(s, (sockaddr *) &a, sizeof a) == 0;
                if (up && alive()) {
                    ps.push_back(new Peer{next++, s});
                    return;
                }
                close(s);
                usleep(1000);
            }
            if (server > 0) delays++, kill(server, SIGKILL), waitpid(server, nullptr, 0);
        }
        server = -1;
    }

    static std::string said(Peer *p, size_t from) {
        return p->got.size() == from ? "" : J().num("c", p->no).raw("o", jbytes(p->got.substr(from))).done();
    }

    static void line(const std::vector<std::string> &what, std::vector<std::string> out, const std::vector<int> &closed) {
        std::erase(out, "");
        T(J().str("k", "act").raw("do", jlist(what)).raw("out", jlist(out)).nums("closed", closed)
                  .num("twice", 0).num("stale", 0).num("stray", 0));
    }

    static std::string does(Peer *p, const char *a) { return J().num("c", p->no).str("a", a).done(); }

    bool act(Peer *p, const std::string &what, const std::string &v, size_t expect) {
        J j;
        j.num("c", p->no).str("a", what.c_str());
        if (what == "connect") j.str("f", "");
        if (what == "send") {
            j.raw("v", jbytes(v));
            p->pending += v;
            p->push();
        }
        auto from = what == "connect" ? 0 : p->got.size();
        p->wait(from + expect, 20);
        line({j.done()}, {said(p, from)}, p->over ? std::vector<int>{p->no} : std::vector<int>{});
        return !p->over && p->got.size() == from + expect;
    }

    Peer *another() {
        auto p = new Peer{next++, socket(AF_INET, SOCK_STREAM, 0)};
        auto a = address(port);
        if (connect(p->fd, (sockaddr *) &a, sizeof a)) p->over = true;
        return p;
    }

    bool log_in(Peer *&p) {
        if (!ps.empty()) {
            p = ps.back();
            ps.pop_back();
        } else p = another();
        if (!act(p, "connect", "", 10)) return false;
        auto t = p->got.substr(1, 8);
        for (size_t i = 0; i < pwd.size(); i++) t[i % 8] ^= pwd[i];
        return act(p, "send", t, 25);
    }

    std::string healthy() {
        std::string s;
        for (int n = r.range(20, 400); n > 0; n--) s += (char) 2;
        return s;
    }

    // One more client than the server takes.
    bool crowd() {
        std::vector<Peer *> in(lim - 2);
        for (auto &x: in) if (!log_in(x)) return false;
        auto q = another();
        q->wait(1, r.below(40) * 1e-3);
        line({J().num("c", q->no).str("a", "connect").str("f", "").done()}, {said(q, 0)}, {});
        if (!q->got.empty()) return false;
        auto x = in[r.below(in.size())];
        close(x->fd);
        bool ok = q->wait(10, 20);
        line({does(x, "drop")}, {said(q, 0)}, {x->no});
        return ok;
    }

    // Clients that say nothing any more.
    void silence() {
        start();
        if (server < 0) return;
        Peer *p[2];
        if (!log_in(p[0])) return;
        p[1] = another();
        act(p[1], "connect", "", 10);
        size_t from[2] = {p[0]->got.size(), p[1]->got.size()};
        std::vector<std::string> what, out;
        std::vector<int> closed;
        for (int k = 0; k < 2; k++) {
            p[k]->wait(1 << 20, 30);
            what.push_back(does(p[k], "stall"));
            out.push_back(said(p[k], from[k]));
            if (p[k]->over) closed.push_back(p[k]->no);
        }
        line(what, out, closed);
        Peer *q;
        log_in(q);
        kill(server, SIGKILL);
        waitpid(server, nullptr, 0);
        server = -1;
    }

    bool round() {
        start();
        if (server < 0) {
            delays++;
            T(J().str("k", "stuck").raw("who", "[\"the server does not start\"]"));
            return false;
        }
        Peer *p[2], *q;
        std::vector<std::vector<std::string>> reqs(2);
        for (auto &x: p) if (!log_in(x)) return true;
        if (r.chance(40)) {      // somebody who leaves without looking at the answers
            if (!log_in(q)) return true;
            q->pending = healthy();
            q->push();
            linger hard{1, 0};
            if (r.chance(70)) setsockopt(q->fd, SOL_SOCKET, SO_LINGER, &hard, sizeof hard);
            usleep(r.below(3000));
            close(q->fd);
            line({does(q, "drop")}, {}, {q->no});
        }
        if (r.chance(25) && !crowd()) return true;
        for (int k = 0; k < 2; k++) {
            only = k ? "y.hz" : "x.hz";
            for (int n = r.range(1, 8); n > 0; n--) {
                int x = r.below(100);
                reqs[k].push_back(joined(x < 40 ? encode(&nobody, false) : x < 55 ? encode(&nobody, true) : x < 75 ? write() : x < 90 ? query() : x < 95 ? decode() : read()));
            }
            if (r.chance(20)) reqs[k].back().resize(1 + r.below(reqs[k].back().size()));   // not complete yet
            p[k]->got.clear();
            for (auto &v: reqs[k]) p[k]->pending += v;
            p[k]->push();
        }
        int wait = r.pick(std::vector<int>{0, 50, 200, 500, 1000, 2000, 4000, 10000, 30000});
        for (double until = now() + wait * 1e-6; now() < until;) for (auto x: p) x->push(), x->pull();
        bool still = alive(), done = false;
        if (still) kill(server, r.chance(70) ? SIGTERM : SIGINT);
        for (double until = now() + 60; now() < until && !done; usleep(300)) {
            for (auto x: p) x->push(), x->pull();
            done = !alive();
        }
        if (!done) delays++, kill(server, SIGKILL), waitpid(server, nullptr, 0);
        server = -1;
        std::vector<std::string> v;
        for (int k = 0; k < 2; k++) {
            p[k]->pull();
            std::vector<std::string> z;
            for (auto &x: reqs[k]) z.push_back(jbytes(x));
            v.push_back(J().num("c", p[k]->no).raw("reqs", jlist(z)).raw("o", jbytes(p[k]->got)).done());
            close(p[k]->fd);
        }
        T(J().str("k", "stop").boolean("done", done).boolean("alive", still).raw("cl", jlist(v)));
        // the next owner
        int fd[2];
        if (pipe(fd)) abort();
        fcntl(fd[0], F_SETPIPE_SZ, 1 << 20);
        pid_t c = fork();
        if (!c) {
            alarm(30);
            auto s = jlist(archives_now()) + "\n";
            if (write_all(fd[1], s)) _exit(0);
            _exit(1);
        }
        close(fd[1]);
        std::string s;
        char b[65536];
        for (ssize_t n; (n = ::read(fd[0], b, sizeof b)) > 0;) s.append(b, n);
        close(fd[0]);
        waitpid(c, nullptr, 0);
        if (s.empty() || s.back() != '\n') {
            std::vector<std::string> lost;
            for (int k = 1; k < 3; k++) lost.push_back(J().num("a", k).str("r", "nobody gets it").raw("files", "[]").raw("names", "[]").done());
            s = jlist(lost) + "\n";
            delays++;
        }
        T(J().str("k", "final").raw("ar", s.substr(0, s.size() - 1)).num("all", 1));
        T(J().str("k", "reboot"));
        return true;
    }

    static bool write_all(int fd, const std::string &s) {
        for (size_t i = 0; i < s.size();) {
            auto n = ::write(fd, s.data() + i, s.size() - i);
            if (n <= 0) return false;
            i += n;
        }
        return true;
    }

    void play(bool first) {
        timed = first;
        lim = r.range(3, 5);
        for (int i = r.pick(std::vector<int>{0, 1, 3, 7, 8, 9, 17}); i > 0; i--) pwd += (char) r.range(1, 255);
        auto path = [](const std::string &p, int id) { return J().raw("p", jbytes(p)).num("id", id).done(); };
        T(J().str("k", "new").num("restart", 1).num("lim", lim).boolean("timed", timed).raw("pwd", jbytes(pwd))
                  .raw("paths", jlist({path("x.hz", 1), path("y.hz", 2)})));
        if (timed) return silence();
        for (int n = r.range(1, 3); n > 0; n--) {
            bool go = round();
            if (server > 0) kill(server, SIGKILL), waitpid(server, nullptr, 0), server = -1, go = false;
            if (!go) break;
        }
    }
};

int main(int argc, char **argv) {
    if (argc < 8) return 2;
    std::string kind = argv[1], dir = argv[7];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int total = atoi(argv[3]), shard = atoi(argv[4]), shards = atoi(argv[5]), runs = 0;
    loguru::g_stderr_verbosity = loguru::Verbosity_OFF;
    signal(SIGPIPE, SIG_IGN);
    T.open(argv[6]);
    if (!add_codec<hzcodec::CodecProvider>(0)) return 4;
    for (int n = shard; n < total && delays < 3; n += shards) {
        std::string clean = dir + "/run";
        if (system(("rm -rf '" + clean + "' && mkdir -p '" + clean + "'").c_str())) abort();
        if (chdir(clean.c_str())) abort();
        Life l(seed * 1000003 + n * 17 + 5);
        l.dir = clean;
        l.play(n == shard);
        forget_names();
        runs++;
    }
    T(J().str("k", "runs").num("runs", runs));
    T(J().str("k", "end"));
    return 0;
}
