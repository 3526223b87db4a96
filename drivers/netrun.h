// Runs one history in a process of its own, under the scheduler and with the
// network of vnet.h. Include after those.
#pragma once
#include <fstream>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace vp;

static Trace T;     // of the process that runs the history
static Trace OUT;
static uint64_t runs;

static std::string run(const vs::Plan &plan, const std::string &dir, const std::function<void()> &p) {
    std::string clean = dir + "/run";
    if (system(("rm -rf '" + clean + "' && mkdir -p '" + clean + "'").c_str())) abort();
    int fd[2];
    if (pipe(fd)) abort();
    fcntl(fd[0], F_SETPIPE_SZ, 1 << 20);
    pid_t c = fork();
    if (c == 0) {
        close(fd[0]);
        T.fd = fd[1];
        if (chdir(clean.c_str())) abort();
        std::ofstream("c.hz") << "this is not an archive at all, not even a little";
        rlimit lim{6ull << 30, 6ull << 30};
        setrlimit(RLIMIT_AS, &lim);
        guard(T);
        tick("run", 60);
        vs::fail_create = new std::map<int, bool>();
        vs::start(plan, [](const std::string &who) { T(J().str("k", "stuck").raw("who", who)); });
        try {
            p();
        } catch (std::exception &e) {
            T(J().str("k", "exc").str("at", e.what()));
        }
        vs::on = false;
        _exit(0);
    }
    close(fd[1]);
    std::string out;
    char b[65536];
    for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) out.append(b, k);
    close(fd[0]);
    int st;
    waitpid(c, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) out += "{\"k\":\"crash\",\"sig\":" + std::to_string(st) + ",\"at\":\"run\"}\n";
    runs++;
    return out;
}

static vs::Plan plan_of(uint64_t x, int n) {
    vs::Plan plan;
    plan.seed = x;
    plan.mode = n % 5 == 4 ? vs::PCT : vs::RANDOM;
    plan.mean_gap = std::vector<uint64_t>{0, 400, 40, 3000}[n % 4];
    plan.depth = 1 + n % 4;
    plan.horizon = 20000;
    return plan;
}
