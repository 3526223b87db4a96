// Single transfers of the socket layer against a peer that sends its bytes in
// portions, leaves, stalls or stops reading, at any moment.
// usage: frames <kind> <seed> <runs> <shard> <shards> <out> <dir>
#include "vsched.h"
#include "vnet.h"
#include <thread>
#include "segments.h"
#include "guard.h"
#include "netrun.h"
#include <hzip_core/utils/utils.h>
#include <hzip_network/api/handlers/socket_class.h>
#include <hzip_network/errors/api.h>

struct Sock : hzapi::SocketInterface {
    explicit Sock(int fd) : SocketInterface(fd, "127.0.0.1", 9) {}

    void put(const void *p, size_t n) { HZ_SEND(p, n); }

    void get(void *p, size_t n) { HZ_RECV(p, n); }

    void raw(void *p, size_t n) { t_recv(p, n, false); }

    void sync() { HZ_RECV_SYNC; }

    void bad(const std::string &s) { error(s); }

    void good(const std::string &s) { success(s); }
};

static std::string bytes(Rng &r, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += (char) r.below(256);
    return s;
}

static void transfers(Rng &r) {
    auto c = new vn::Conn();
    c->fd = vn::next_fd++;
    c->accepted = true;
    vn::conns.push_back(c);
    Sock s(c->fd);
    c->timed = r.chance(60);
    vn::portions = true;
    T(J().str("k", "new").num("restart", 1).boolean("timed", c->timed));
    int ops = r.range(1, 6);
    size_t seen = 0;
    for (int k = 0; k < ops; k++) {
        auto op = r.pick(std::vector<std::string>{"put", "get", "get", "raw", "raw", "sync", "bad", "good"});
        size_t n = r.pick(std::vector<size_t>{0, 1, 2, 3, 8, 8, 17, 40, 64});
        if (r.chance(1) && (op == "bad" || op == "good")) n = r.pick(std::vector<size_t>{255, 256, 700, 65535, 65536, 65540});
        if (r.below(1000) < 4 && op != "bad" && op != "good") n = r.pick(std::vector<size_t>{255, 256, 300, 4096, 40000, 65535, 65536, 65540, 70001});
        bool big = n > 200;
        if (big && r.chance(60)) ops = k + 1;
        bool reads = op == "get" || op == "raw", last = k + 1 == ops;
        std::string v = reads || op == "sync" ? "" : bytes(r, n);
        // what the peer does meanwhile
        std::vector<std::string> parts;
        std::string end;
        size_t have = c->in.size(), need = reads ? n : 0;
        if (last && r.chance(60)) end = r.pick(std::vector<std::string>{"eof", "dead", "late"});
        if (end == "late" && !c->timed) end = "eof";
        size_t supply = need > have ? need - have : 0;
        if (!end.empty() && r.chance(80)) supply = supply ? r.below(supply) : 0;
        else if (r.chance(30)) supply += r.below(9);
        for (size_t at = 0; at < supply;) {
            size_t m = r.chance(25) ? supply - at : 1 + r.below(std::min<size_t>(supply - at, n < 200 ? 9 : n / 3));
            parts.push_back(bytes(r, m));
            at += m;
        }
        long budget = -1;
        if (last && r.chance(big ? 70 : 30)) {
            budget = r.below(n + 5);
            c->budget = budget;
            c->passing = r.chance(60);
            c->err = r.pick(std::vector<int>{EAGAIN, EPIPE, ECONNRESET});
        }
        std::vector<std::string> js;
        for (auto &x: parts) js.push_back(jbytes(x));
        auto act = [&]() {
            for (auto &x: parts) vn::give(c, x), vs::point();
            if (end == "eof") c->eof = true;
            if (end == "dead") c->dead = true;
            if (end == "late") c->late = true;
            vn::touch(c);
        };
        bool before = r.chance(30);
        if (before) act();
        std::thread peer;
        if (!before) peer = std::thread(act);
        std::string res = "ok", got;
        auto buf = std::string(n + 16, (char) 0x5a);
        J line;
        line.str("k", "op").str("op", op).raw("v", jbytes(v)).num("n", n).raw("parts", jlist(js)).str("end", end).num("budget", budget);
        try {
            if (op == "put") s.put(v.data(), v.size());
            else if (op == "get") s.get(buf.data(), n);
            else if (op == "raw") s.raw(buf.data(), n);
            else if (op == "sync") s.sync();
            else if (op == "bad") s.bad(v);
            else s.good(v);
        } catch (ApiErrors::ConnectionError &e) {
            res = "conn";
        } catch (std::exception &e) {
            res = "other";
        }
        if (peer.joinable()) peer.join();
        if (reads && res == "ok") got = buf.substr(0, n);
        bool over = buf.substr(n) != std::string(16, (char) 0x5a);
        T(line.str("r", res).raw("got", jbytes(got)).raw("out", jbytes(c->out.substr(seen))).num("left", c->in.size()).boolean("over", over));
        seen = c->out.size();
        if (res != "ok" || last) break;
    }
}

int main(int argc, char **argv) {
    if (argc < 8) return 2;
    std::string dir = argv[7];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int total = atoi(argv[3]), shard = atoi(argv[4]), shards = atoi(argv[5]);
    quiet();
    OUT.open(argv[6]);
    for (int n = shard; n < total; n += shards) {
        uint64_t x = seed * 1000003 + n * 19;
        auto s = run(plan_of(x, n), dir, [&]() {
            Rng r(x);
            for (int i = 0; i < 20; i++) transfers(r);
        });
        OUT.line(s.substr(0, s.size() - 1));
        if (s.find("\"k\":\"crash\"") != std::string::npos) break;
    }
    OUT(J().str("k", "runs").num("runs", runs * 20));
    OUT(J().str("k", "end"));
    return 0;
}
