// Plays clients against the real server, inside one process: the network is
// replaced (vnet.h), the threads run under chosen schedules (vsched.h).
// usage: net <kind> <seed> <runs> <shard> <shards> <out> <dir>
#include <sys/mman.h>
#include "vsched.h"
#include "vnet.h"
#include "archive_util.h"
#include "guard.h"
#include "netrun.h"
#include "requests.h"
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <fstream>
#include <future>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <rainman/rainman.h>
#include <hzip_core/utils/utils.h>
#include <hzip_network/api/api.h>
#include <hzip_network/api/handlers/socket_class.h>
#include <hzip_network/errors/api.h>

using namespace vp;

struct Focus {
    int handshake = 0, life = 0, query = 0, stream = 0, state = 0;
};

struct Game : Requests {
    Focus w;
    std::string kind, pwd;
    int lim, threads;
    bool timed;
    std::vector<Client *> cs;
    std::vector<std::string> old_tokens;
    hzapi::Api *api = nullptr;
    int next = 1;

    explicit Game(uint64_t seed) : Requests(seed) {}

    // -------------------------------------------------- server
    void start_server() {
        api = new hzapi::Api(lim);
        timeval tv{};
        tv.tv_sec = timed ? 100 : 0;
        api->process(threads)->timeout(tv)->protect(pwd);
        auto a = api;
        std::thread([a]() { a->start("127.0.0.1", 1729); }).detach();
        vs::settle();
    }

    // -------------------------------------------------- one act
    std::vector<std::string> subs;

    void sub(const J &j) { subs.push_back(j.done()); }

    J what(Client *c, const char *a) { return J().num("c", c->no).str("a", a); }

    Client *connect(const std::string &fault) {
        auto c = new Client();
        c->no = next++;
        cs.push_back(c);
        sub(what(c, "connect").str("f", fault));
        c->c = vn::connect();
        if (!c->c) {
            c->gone = true;
            return c;
        }
        if (fault == "opt1") c->c->bad_opt = 1;
        else if (fault == "opt2") c->c->bad_opt = 2;
        else if (fault == "thread") c->c->no_thread = true;
        else if (fault == "accept") c->c->no_accept = true, c->untouchable = true;
        return c;
    }

    void send(Client *c, const std::string &v) {
        sub(what(c, "send").raw("v", jbytes(v)));
        vn::give(c->c, v);
    }

    void eof(Client *c) {
        sub(what(c, "eof"));
        c->c->eof = true;
        vn::touch(c->c);
        c->phase = 3;
    }

    void stall(Client *c) {
        sub(what(c, "stall"));
        c->c->late = true;
        vn::touch(c->c);
        c->phase = 3;
    }

    void drop(Client *c) {
        sub(what(c, "drop"));
        c->c->dead = true;
        vn::touch(c->c);
        c->phase = 3;
    }

    void outfail(Client *c, int n) {
        sub(what(c, "outfail").num("n", n));
        c->c->budget = n;
        c->c->passing = r.chance(50);
        c->c->err = c->c->passing || r.chance(50) ? EAGAIN : EPIPE;
    }

    void go() {
        vs::settle();
        std::vector<std::string> outs, closed;
        int twice = 0, stale = 0;
        for (auto c: cs) {
            if (!c->c) continue;
            twice += c->c->closes > 1;
            stale += c->c->stale;
            if (c->gone) continue;
            auto &o = c->c->out;
            if (o.size() > c->seen) {
                auto n = o.substr(c->seen);
                outs.push_back(J().num("c", c->no).raw("o", jbytes(n)).done());
                c->seen = o.size();
                learn(c, n);
            }
            if (c->c->closes) {
                closed.push_back(std::to_string(c->no));
                c->gone = true;
            }
        }
        T(J().str("k", "act").raw("do", jlist(subs)).raw("out", jlist(outs)).raw("closed", jlist(closed))
                  .num("twice", twice).num("stale", stale).num("stray", vn::stray));
        subs.clear();
    }

    void learn(Client *c, const std::string &n) {
        if (c->token.empty()) {
            if (c->c->out.size() < 9) return;
            c->token = c->c->out.substr(1, 8);
            for (size_t i = 0; i < pwd.size(); i++) c->token[i % 8] ^= pwd[i];
            count_token(c->token);
            return;
        }
        c->reply += n;
        if (c->adaptive && c->phase == 2 && (uint8_t) n[0] == 255) {
            c->todo.clear();
            c->phase = 1;
        }
        if (c->todo.empty() && c->phase == 2) c->phase = 1;
    }

    // blocks that were handed to the client
    void harvest(Client *c) {
        auto &s = c->reply;
        if (!c->parse || c->blocks.empty()) return;
        for (size_t start = 0; start < std::min<size_t>(s.size(), 60); start++) {
            size_t at = start;
            std::vector<Tuple> v;
            bool ok = true;
            auto num = [&]() -> uint64_t {
                if (!ok || at + 9 > s.size() || s[at]) {
                    ok = false;
                    return 0;
                }
                at += 9;
                return le(s, at - 8, 8);
            };
            auto blob = [&]() -> std::string {
                auto n = num();
                if (!ok || n > s.size() || at + 1 + n > s.size() || s[at]) {
                    ok = false;
                    return "";
                }
                at += 1 + n;
                return s.substr(at - n, n);
            };
            for (auto o: c->blocks) {
                Tuple t;
                t.o = o;
                t.alg = num();
                t.m = blob();
                t.h = blob();
                t.d = blob();
                v.push_back(t);
            }
            if (ok && at < s.size() && (v[0].alg == alg || v[0].alg == 0)) {
                for (auto &t: v) if (t.alg == alg || (t.alg == 0 && t.d.size() == t.o)) tuples.push_back(t);
                break;
            }
        }
        c->parse = false;
    }

    Pieces request(Client *c) {
        int total = w.query + w.stream + w.state + 6, x = r.below(total);
        if (x < w.query) return query();
        x -= w.query;
        if (x < w.stream) {
            int y = r.below(100);
            return y < 50 ? encode(c, false) : y < 78 ? decode() : y < 97 ? decode_block() : encode(c, true);
        }
        x -= w.stream;
        if (x < w.state) {
            int y = r.below(100);
            return y < 40 ? encode(c, true) : y < 60 ? write() : y < 92 ? read() : encode(c, false);
        }
        x -= w.state;
        if (x < 3) return {chr(2)};
        if (x < 4) return {chr(255)};
        if (x < 5) return {chr(r.pick(std::vector<int>{3, 17, 254}))};
        return {chr(0), chr(r.pick(std::vector<int>{4, 200}))};
    }

    void begin(Client *c, const Pieces &p) {
        c->reply.clear();
        c->phase = 2;
        c->todo.clear();
        int how = r.below(100);
        c->adaptive = how < 40;
        if (how < 25) for (auto &x: p) c->todo.push_back(x);
        else if (how < 40) {
            for (auto &x: p)
                if (!c->todo.empty() && r.chance(60)) c->todo.back() += x;
                else c->todo.push_back(x);
        } else if (how < 80) c->todo.push_back(joined(p));
        else {
            auto s = joined(p);
            for (size_t i = 0; i < s.size();) {
                size_t k = 1 + r.below(std::max<size_t>(2, s.size() / 2));
                c->todo.push_back(s.substr(i, k));
                i += k;
            }
        }
    }

    // the next bytes of a client, empty if it has nothing to say
    std::string turn(Client *c) {
        if (c->phase == 0) {
            if (c->token.empty()) return r.chance(3) ? std::string(8, '\0') : "";
            std::string v = c->token;
            int x = r.below(100), bad = w.handshake ? 45 : 6;
            if (x < bad) {
                switch (r.below(7)) {
                    case 0: v = c->c->out.substr(1, 8); break;                       // what was sent
                    case 1: v = old_tokens.empty() ? std::string(8, 'x') : r.pick(old_tokens); break;
                    case 2: v[r.below(8)] ^= 1 << r.below(8); break;
                    case 3: v = std::string(8, '\0'); break;
                    case 4: for (auto &ch: v) ch = (char) r.below(256); break;
                    case 5: std::reverse(v.begin(), v.end()); break;
                    case 6: v[r.chance(50) ? 7 : 0] ^= 0x80; break;
                }
            }
            if (v == c->token) old_tokens.push_back(v);
            c->phase = 1;
            if (r.chance(w.handshake ? 25 : 3)) {   // in two parts
                c->todo = {v.substr(r.below(8) + 1)};
                c->phase = 2;
                c->reply.clear();
                c->adaptive = false;
                return v.substr(0, 8 - c->todo[0].size());
            }
            if (r.chance(w.handshake ? 30 : 5)) v += joined(request(c));   // and a request at once
            return v;
        }
        if (c->phase == 1) {
            if (c->parse && c->todo.empty()) harvest(c);
            begin(c, request(c));
        }
        if (c->phase == 2 && !c->todo.empty()) {
            auto s = c->todo.front();
            c->todo.pop_front();
            return s;
        }
        return "";
    }

    std::vector<Client *> live() {
        std::vector<Client *> v;
        for (auto c: cs) if (!c->gone && !c->untouchable) v.push_back(c);
        return v;
    }

    void speak(Client *c) {
        auto s = turn(c);
        if (!s.empty()) send(c, s);
        if (c->phase == 2 && c->todo.empty() && c->adaptive) c->phase = 2;   // becomes idle with the reply
    }

    void settle_phases() { for (auto c: cs) if (c->phase == 2 && c->todo.empty()) c->phase = 1; }

    void open_client() {
        std::string fault;
        if (r.chance(w.life ? 25 : 2)) fault = r.pick(std::vector<std::string>{"opt1", "opt2", "thread", "accept"});
        auto c = connect(fault);
        if (r.chance(w.handshake ? 8 : 1)) send(c, std::string(8, (char) r.below(256)));
        if (r.chance(w.life ? 6 : 1)) r.chance(50) ? eof(c) : drop(c);
    }

    void step() {
        auto v = live();
        int most = std::min(lim, 4), wanted = w.life ? most + 2 : most + (r.chance(10) ? 1 : 0);
        if (v.empty() || ((int) v.size() < wanted && r.chance(30))) {
            open_client();
            if (r.chance(w.life ? 30 : 5)) open_client();
            go();
            settle_phases();
            return;
        }
        int trouble = w.life ? 10 : 2;
        if (r.chance(trouble)) {
            auto c = r.pick(v);
            switch (r.below(4)) {
                case 0: drop(c); break;
                case 1: eof(c); break;
                case 2: stall(c); break;
                case 3: outfail(c, r.below(40)); break;
            }
            if (r.chance(30) && c->phase != 3) speak(c);
            go();
            settle_phases();
            return;
        }
        int k = r.chance(25) ? 2 : 1;
        for (int i = 0; i < k && !v.empty(); i++) {
            size_t at = r.below(v.size());
            auto c = v[at];
            v.erase(v.begin() + at);
            if (c->phase == 3) continue;
            speak(c);
            if (w.life && r.chance(4)) drop(c);
        }
        if (!subs.empty()) {
            go();
            settle_phases();
        }
    }

    // everybody leaves
    void leave() {
        for (auto c: live()) drop(c);
        go();
        for (auto c: live()) {     // those that were waiting
            if (c->c->closes) c->gone = true;
        }
    }

    bool log_in(Client *&c) {
        c = connect("");
        if (c->gone) return false;
        go();
        if (c->token.empty()) return false;
        send(c, c->token);
        c->phase = 1;
        go();
        return !c->gone;
    }

    void say(Client *c, const Pieces &p) {
        if (c->gone) return;
        c->adaptive = false;
        send(c, joined(p));
        go();
    }

    void look_at_everything() {
        Client *c;
        if (!log_in(c)) return;
        c->adaptive = false;
        std::string all;
        for (auto ar: {"x.hz", "y.hz"}) {
            if (w.stream || w.query) for (auto &p: {std::string("/a"), lf, std::string("/c"), std::string("/d"), std::string("/d/x"), std::string("/d/y")}) all += joined(decode_file(ar, p));
            if (w.state || w.stream) for (auto &p: {std::string("/s"), ls, std::string("/s/u")}) all += joined(read_state(ar, p));
        }
        if (r.chance(85)) {
            send(c, all);
            go();
        } else for (auto ar: {"x.hz", "y.hz"}) for (auto p: {"/a", "/b", "/d/x", "/d/y"}) say(c, decode_file(ar, p));
    }

    void reboot() {
        leave();
        api->shutdown();
        T(J().str("k", "reboot"));
        cs.clear();
        start_server();
    }

    void final(bool stopped = false) {
        if (!stopped) api->shutdown();
        J j;
        j.str("k", "final").raw("ar", jlist(archives_now(more)));
        if (stopped) j.num("all", 1);
        T(j);
    }

    void play() {
        lim = r.range(1, 3);
        threads = r.range(1, 2);
        timed = r.chance(60);
        int n = r.pick(std::vector<int>{0, 1, 3, 7, 8, 9, 9, 15, 16, 17, 24, 33});
        for (int i = 0; i < n; i++) pwd += (char) r.range(1, 255);
        if (r.chance(15)) pwd = "hybridzip";
        if (r.chance(5)) pwd = std::string("ab\0cd\0\0\0ef", 10);
        if (r.chance(4)) for (int i = r.pick(std::vector<int>{255, 256, 300}); i > 0; i--) pwd += (char) r.range(1, 255);
        if (r.chance(3)) lim = r.pick(std::vector<int>{255, 256, 257, 65536});
        if (r.chance(3)) threads = 256;
        if (r.chance(8)) {   // long names
            lx = "./";
            while (lx.size() < 300) lx += "./";
            lx += "x.hz";
            lf = "/" + std::string(r.range(250, 300), 'n');
            ls = "/" + std::string(r.range(250, 300), 'm');
        }
        if (r.chance(12)) more = r.pick(std::vector<int>{3, 5, 9, 15});
        auto path = [](const std::string &p, int id) { return J().raw("p", jbytes(p)).num("id", id).done(); };
        std::vector<std::string> paths = {path("x.hz", 1), path("./x.hz", 1), path(lx, 1), path("y.hz", 2),
                                          path("no/z.hz", 0), path("", 0), path("c.hz", 0)};
        for (int k = 3; k < 3 + more; k++) paths.push_back(path(std::to_string(k) + ".hz", k));
        T(J().str("k", "new").num("restart", 1).num("lim", lim).boolean("timed", timed).raw("pwd", jbytes(pwd))
                  .raw("paths", jlist(paths)));
        start_server();
        int steps = 30 + r.below(50);
        for (int i = 0; i < steps; i++) {
            step();
            if (r.chance(1)) reboot();
        }
        leave();
        if (r.chance(60)) reboot();
        look_at_everything();
        leave();
        final();
    }

    // The server shuts down while two clients have requests under way, each on an archive of its own.
    void shut_down() {
        Client *cl[2];
        for (auto &c: cl)
            if (!log_in(c)) return;
        std::vector<std::vector<std::string>> reqs(2);
        for (int k = 0; k < 2; k++) {
            auto c = cl[k];
            only = k ? "y.hz" : r.chance(50) ? "x.hz" : lx;
            for (int n = r.range(1, 5); n > 0; n--) {
                int x = r.below(100);
                auto p = x < 40 ? encode(c, false) : x < 55 ? encode(c, true) : x < 75 ? write() : x < 90 ? query() : x < 95 ? decode() : read();
                reqs[k].push_back(joined(p));
            }
            if (r.chance(30)) reqs[k].back().resize(1 + r.below(reqs[k].back().size()));   // not complete yet
        }
        only.clear();
        size_t from[2] = {cl[0]->c->out.size(), cl[1]->c->out.size()};
        bool first = r.chance(20);
        for (int k = 0; k < 2; k++) {
            std::string all;
            for (auto &q: reqs[k]) all += q;
            vn::give(cl[k]->c, all);
            if (!k && first) vs::settle();
        }
        static std::mutex door;
        int wait = r.pick(std::vector<int>{0, 3, 10, 30, 100, 300, 1000});
        auto a = api;
        bool done = false;
        std::thread([&done, a, wait]() {
            for (int i = 0; i < wait; i++) std::scoped_lock<std::mutex> turn(door);
            a->shutdown();
            done = true;
        }).detach();
        vs::settle();
        std::vector<std::string> v;
        for (int k = 0; k < 2; k++) {
            std::vector<std::string> q;
            for (auto &x: reqs[k]) q.push_back(jbytes(x));
            v.push_back(J().num("c", cl[k]->no).raw("reqs", jlist(q)).raw("o", jbytes(cl[k]->c->out.substr(from[k]))).done());
        }
        T(J().str("k", "stop").boolean("done", done).raw("cl", jlist(v)));
        final(true);
    }

    void play_stop() {
        lim = r.range(2, 3);
        threads = r.range(1, 2);
        timed = false;
        auto path = [](const std::string &p, int id) { return J().raw("p", jbytes(p)).num("id", id).done(); };
        T(J().str("k", "new").num("restart", 1).num("lim", lim).boolean("timed", timed).raw("pwd", jbytes(pwd))
                  .raw("paths", jlist({path("x.hz", 1), path("./x.hz", 1), path("y.hz", 2), path("no/z.hz", 0), path("", 0), path("c.hz", 0)})));
        start_server();
        for (int n = r.below(14); n > 0; n--) step();
        leave();
        shut_down();
    }
};

// --------------------------------------------------- one client, real codecs
// A well-behaved client that follows the protocol step by step; requests and
// their results are recorded as wholes.
struct Caller {
    Rng &r;
    vn::Conn *c;
    size_t at = 0;
    bool lost = false;       // the protocol is not followed by the other side
    bool refused = false;    // an error was reported

    Caller(Rng &r, const std::string &pwd) : r(r) {
        c = vn::connect();
        auto t = frame(8);
        for (size_t i = 0; i < pwd.size(); i++) t[i % 8] ^= pwd[i];
        ask(t);
        done();
    }

    bool fine() const { return !lost && !refused; }

    bool status() {          // the status byte of a frame
        if (!fine()) return false;
        vs::settle();
        if (at >= c->out.size()) return lost = true, false;
        int x = (uint8_t) c->out[at++];
        if (x == 0) return true;
        if (x != 255 || c->out.size() < at + 2) return lost = true, false;
        auto n = le(c->out, at, 2);
        if (c->out.size() < at + 2 + n) return lost = true, false;
        at += 2 + n;
        return refused = true, false;
    }

    void ask(const std::string &v) {
        if (!status()) return;
        for (size_t i = 0; i < v.size();) {
            size_t k = r.chance(70) ? v.size() - i : 1 + r.below(v.size() - i);
            vn::give(c, v.substr(i, k));
            i += k;
            if (i < v.size()) vs::settle();
        }
        vs::settle();
    }

    std::string frame(size_t n) {
        if (!status()) return std::string(n < 16 ? n : 0, '\0');
        if (c->out.size() < at + n) {
            lost = true;
            return std::string(n < 16 ? n : 0, '\0');
        }
        at += n;
        return c->out.substr(at - n, n);
    }

    uint64_t num() { return le(frame(8), 0, 8); }

    std::string lengthy() {
        auto n = num();
        return fine() ? frame(n) : "";
    }

    void done() {
        auto n = le(frame(2), 0, 2);
        if (fine()) frame(n);
    }

    void word(int w) { ask(chr(w)); }

    void text(int w, const std::string &s) {
        word(w);
        ask(u16(s.size()));
        ask(s);
    }

    std::string result() {
        auto s = lost ? "lost" : refused ? "err" : "ok";
        refused = false;
        return s;
    }
};

static std::string digest(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char x: s) h = (h ^ x) * 1099511628211ull;
    char b[40];
    snprintf(b, sizeof b, "%016llx-%zu", (unsigned long long) h, s.size());
    return b;
}

struct Codecs {
    Rng r;
    uint64_t bs;
    hzapi::Api *api = nullptr;
    std::vector<Caller *> cs;
    std::string pwd = "secret";
    std::vector<Tuple> tuples;
    std::vector<std::pair<int, std::string>> from;          // archive and state a block was coded with
    std::map<std::pair<int, std::string>, int> version;
    std::vector<int> born;
    std::vector<std::string> states;
    bool wide;               // many entries, long names, many blocks, big states, with the small codec
    int good;                // the algorithm
    std::vector<std::string> files{"/f", "/g", "/d/h", "/d/i"}, names{"/s", "/t", "/d/u"};

    Codecs(uint64_t seed, uint64_t bs, bool wide = false) : r(seed), bs(bs), wide(wide), good(wide ? TOY : 1) {
        if (!wide) return;
        for (auto v: {&files, &names})
            for (size_t n: {254, 255, 256, 257, 300, 1000, 5000, 40000})
                if (r.chance(60)) v->push_back((r.chance(50) ? "/" : "/d/") + std::string(n, (char) ('a' + n % 7)));
    }

    static std::string ar(int a) { return a == 1 ? "x.hz" : "y.hz"; }

    static std::string opt(const std::string &s) { return s.empty() ? "[]" : jlist({jbytes(s)}); }

    std::string file() { return r.pick(files); }

    std::string name() { return r.pick(names); }

    std::string data() {
        if (wide) {
            size_t n = r.pick(std::vector<size_t>{0, 5, 8, 100, 255 * 8, 256 * 8, 256 * 8 + 1, 257 * 8, 300 * 8, 520 * 8});
            std::string s;
            while (s.size() < n) s += (char) (s.size() % BLOCK == 0 || r.chance(1) ? r.below(200) : s.back());
            return s;
        }
        size_t n = r.pick(std::vector<size_t>{0, 1, 2, 39, 40, 41, 64, 80, 128, 200, 333, 600});
        if (bs == 0 && r.chance(30)) n = 2000;
        std::string s;
        int style = r.below(5);
        char a = r.below(256);
        while (s.size() < n) {
            if (style == 0) s += a;
            else if (style == 1) s += (char) r.below(256);
            else if (style == 2) s += "abracadabra ";
            else if (style == 3) s += (char) (s.size() % 7 ? s.back() : r.below(256));
            else s += (char) ('a' + r.below(2));
        }
        s.resize(n);
        return s;
    }

    Caller *who() {
        auto &c = cs[r.below(cs.size())];
        if (r.chance(5)) c = new Caller(r, pwd);
        return c;
    }

    void start() {
        api = new hzapi::Api(12);
        timeval tv{};
        api->process(r.range(1, 2))->timeout(tv)->protect(pwd);
        auto a = api;
        std::thread([a]() { a->start("127.0.0.1", 1729); }).detach();
        vs::settle();
        cs = {new Caller(r, pwd), new Caller(r, pwd)};
    }

    void restart() {
        for (auto c: vn::conns) c->dead = true, vn::touch(c);
        vs::settle();
        api->shutdown();
        T(J().str("k", "again"));
        start();
    }

    void encode() {
        auto c = who();
        int a = r.range(1, 2);
        auto v = data();
        bool pb = r.chance(55), keep = r.chance(80);
        auto p = r.chance(pb ? 70 : 100) ? file() : "", m = r.chance(60) ? name() : "";
        encode(c, a, v, pb, keep, p, m);
    }

    void encode(Caller *c, int a, const std::string &v, bool pb, bool keep, const std::string &p, const std::string &m) {
        if (p.empty() && m.empty()) keep = keep || r.chance(50);
        if (!keep && (!p.empty() || !m.empty() || !pb)) keep = true;
        int alg = r.chance(4) ? 9 : good;
        c->word(0), c->word(0);
        if (keep) c->text(2, ar(a));
        if (!p.empty()) c->text(3, p);
        if (!m.empty()) c->text(1, m);
        c->word(4), c->ask(u64(alg));
        if (pb) c->word(5);
        c->word(0);
        c->ask(u64(v.size()));
        c->ask(v);
        std::vector<std::string> bl;
        size_t b = bs ? bs : 0x400000, first = tuples.size();
        std::vector<Tuple> mine;
        if (pb && alg == good)
            for (size_t i = 0; i < v.size() && c->fine(); i += b) {
                Tuple t;
                t.alg = c->num();
                t.m = c->lengthy();
                t.h = c->lengthy();
                t.d = c->lengthy();
                t.o = std::min(b, v.size() - i);
                mine.push_back(t);
                bl.push_back(J().num("alg", t.alg).str("m", t.alg ? digest(t.m) : "").raw("d", t.alg ? "[]" : jbytes(t.d)).done());
            }
        c->done();
        auto res = c->result();
        if (res == "ok")
            for (auto &t: mine) {
                tuples.push_back(t);
                from.push_back({a, m});
                born.push_back(version[{a, m}]);
            }
        T(J().str("k", "enc").num("a", a).boolean("keep", keep).raw("p", opt(p)).raw("m", opt(m)).boolean("pb", pb).num("alg", alg)
                  .raw("v", jbytes(v)).str("r", res).raw("bl", jlist(bl)).num("first", first + 1));
    }

    void decode() {
        auto c = who();
        int a = r.range(1, 2);
        auto p = file();
        c->word(0), c->word(1), c->word(5), c->text(2, ar(a)), c->text(3, p), c->word(0);
        auto n = c->num();
        std::string v;
        for (uint64_t i = 0; i < n && c->fine(); i++) v += c->lengthy();
        c->done();
        T(J().str("k", "dec").num("a", a).raw("p", opt(p)).raw("v", jbytes(v)).num("n", n).str("r", c->result()));
    }

    void decode_block() {
        if (tuples.empty()) return;
        auto c = who();
        size_t i = r.below(tuples.size());
        auto &t = tuples[i];
        bool addr = t.alg && !from[i].second.empty() && born[i] == version[from[i]] && r.chance(50);
        c->word(0), c->word(1), c->word(5);
        c->word(4), c->ask(u64(t.alg));
        if (addr) c->text(2, ar(from[i].first)), c->text(1, from[i].second);
        else c->word(6), c->ask(u64(t.m.size())), c->ask(t.m);
        c->word(7);
        c->ask(u64(t.h.size())), c->ask(t.h), c->ask(u64(t.d.size())), c->ask(t.d), c->ask(u64(t.o));
        auto v = c->lengthy();
        c->done();
        T(J().str("k", "decb").num("i", i + 1).raw("v", jbytes(v)).str("r", c->result()));
    }

    void train() {
        auto c = who();
        int a = r.range(1, 2), alg = r.chance(8) ? 9 : good;
        auto v = data(), m = name();
        c->word(0), c->word(0), c->text(2, ar(a)), c->text(1, m), c->word(4), c->ask(u64(alg)), c->word(6);
        c->ask(u64(v.size()));
        c->ask(v);
        c->done();
        auto res = c->result();
        version[{a, m}]++;
        T(J().str("k", "train").num("a", a).raw("m", opt(m)).num("alg", alg).raw("v", jbytes(v)).str("r", res));
    }

    void read() {
        auto c = who();
        int a = r.range(1, 2);
        auto m = name();
        c->word(0), c->word(3), c->word(3), c->text(0, ar(a)), c->text(1, m), c->word(2);
        auto alg = c->num();
        auto d = c->lengthy();
        c->done();
        auto res = c->result();
        if (res == "ok" && alg == (uint64_t) good) states.push_back(d);
        T(J().str("k", "read").num("a", a).raw("m", opt(m)).num("alg", alg).str("d", res == "ok" ? digest(d) : "").str("r", res));
    }

    void write() {
        if (states.empty() && !wide) return;
        auto c = who();
        auto m = name();
        std::string d;
        if (!wide) d = r.pick(states);
        else for (int n = r.pick(std::vector<int>{0, 1, 5, 255, 256, 300, 3000, 65535, 65536, 66000}); n > 0; n--) d += (char) r.below(256);
        write(c, r.range(1, 2), m, d);
    }

    void write(Caller *c, int a, const std::string &m, const std::string &d) {
        c->word(0), c->word(2), c->text(0, ar(a)), c->text(1, m), c->word(2), c->ask(u64(good)), c->ask(u64(d.size())), c->ask(d);
        c->done();
        auto res = c->result();
        if (res == "ok") version[{a, m}]++;
        T(J().str("k", "write").num("a", a).raw("m", opt(m)).str("d", digest(d)).str("r", res));
    }

    void remove() {
        auto c = who();
        int a = r.range(1, 2);
        auto p = file();
        c->word(1), c->text(0, ar(a)), c->text(7, p), c->word(4);
        // no news is good news: the next prompt is left for the next request
        if (c->fine() && c->status()) c->at--;
        T(J().str("k", "remove").num("a", a).raw("p", opt(p)).str("r", c->result()));
    }

    std::string place() {
        auto p = r.pick(std::vector<std::string>{"/", "/", "/many", "/d", "/no", r.chance(50) ? file() : name()});
        return p;
    }

    void exists() {
        auto c = who();
        int a = r.range(1, 2);
        auto p = place();
        c->word(1), c->text(0, ar(a)), c->text(7, p), c->word(3), c->word(1);
        auto v = c->frame(1);
        T(J().str("k", "exists").num("a", a).raw("p", jbytes(p)).str("r", c->result()).num("v", v.empty() ? -1 : (uint8_t) v[0]));
    }

    void list() {
        auto c = who();
        int a = r.range(1, 2);
        auto p = place();
        bool fs = r.chance(50);
        c->word(1), c->text(0, ar(a)), c->text(7, p), c->word(3), c->word(fs ? 2 : 8);
        std::vector<std::string> v;
        auto n = c->num();
        for (uint64_t i = 0; i < n && i < 5000 && c->fine(); i++) {
            auto e = c->frame(le(c->frame(2), 0, 2));
            auto l = c->frame(1);
            v.push_back(J().raw("e", jbytes(e)).boolean("leaf", l == chr(1)).done());
        }
        T(J().str("k", "list").num("a", a).boolean("fs", fs).raw("p", jbytes(p)).str("r", c->result()).raw("v", jlist(v)));
    }

    // more entries than one byte can count
    void fill() {
        auto c = cs[0];
        int n = r.pick(std::vector<int>{3, 254, 255, 256, 260, 300}), z = 0;
        for (int i = 0; i < n; i++) {
            if (r.chance(70) || i < 256) write(c, 1, "/many/" + std::to_string(i), std::string(i % 5, 'x'));
            if (i % 16 == 0) tick("run", 120);
        }
        n = r.pick(std::vector<int>{3, 3, 255, 256, 270});
        for (int i = 0; i < n; i++) {
            encode(c, 1, std::string(1 + (z++ % 9), 'q'), false, true, "/many/" + std::to_string(i), "");
            if (i % 16 == 0) tick("run", 120);
        }
    }

    void play(int steps) {
        T(J().str("k", "new").num("restart", 1).num("bs", bs ? bs : 0x400000).num("alg", good));
        start();
        for (int i = 0; i < 3; i++) train();
        if (wide) fill();
        for (int i = 0; i < steps; i++) {
            if (wide) tick("run", 120);
            int x = r.below(100);
            if (r.chance(wide ? 25 : 12)) {
                r.chance(70) ? list() : exists();
                continue;
            }
            if (wide && x >= 55 && x < 70) {
                r.chance(50) ? write() : read();
                continue;
            }
            if (x < 30) encode();
            else if (x < 55) decode();
            else if (x < 70) decode_block();
            else if (x < 79) train();
            else if (x < 88) read();
            else if (x < 92) write();
            else if (x < 96) remove();
            else if (x < 98) restart();
        }
        restart();
        for (int i = 0; i < 8; i++) i < 5 ? decode() : read();
    }
};

int main(int argc, char **argv) {
    if (argc < 8) return 2;
    std::string kind = argv[1], dir = argv[7];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int total = atoi(argv[3]), shard = atoi(argv[4]), shards = atoi(argv[5]);
    quiet();
    OUT.open(argv[6]);
    if (!add_codec<hzcodec::CodecProvider>(0)) {
        fprintf(stderr, "the maps of CodecProvider are not there\n");
        return 4;
    }
    if (kind == "mask") {
        Rng r(seed * 77 + shard);
        auto eight = [](uint64_t v) { return jbytes(u64(v)); };
        for (int n = shard; n < total; n += shards) {
            std::string pwd;
            int len = n % 50 == 49 ? r.pick(std::vector<int>{127, 128, 255, 256, 257, 300, 511, 1000, 1500}) : n % 40;
            for (int k = len; k > 0; k--) pwd += (char) (r.chance(10) ? 255 * r.below(2) : r.below(256));
            uint64_t t = r.chance(10) ? (r.chance(50) ? 0 : ~0ull) : ((uint64_t) r.below(1u << 31) << 33) ^ ((uint64_t) r.below(1u << 31) << 12) ^ r.below(1 << 14);
            auto o = hz_enc_token(pwd, t), back = hz_enc_token(pwd, o);
            OUT(J().str("k", "mask").raw("pwd", jbytes(pwd)).raw("t", eight(t)).raw("o", eight(o)).raw("back", eight(back)));
        }
        OUT(J().str("k", "runs").num("runs", (total - shard + shards - 1) / shards));
        OUT(J().str("k", "end"));
        return 0;
    }
    for (int n = shard; n < total; n += shards) {
        uint64_t x = seed * 1000003 + n * 17 + kind.size();
        auto s = run(plan_of(x, n), dir, [&]() {
            if (kind == "wide") {
                Codecs(x, BLOCK, true).play(60);
                return;
            }
            if (kind == "codec") {
                uint64_t bs = std::vector<uint64_t>{40, 64, 0, 200}[n / 2 % 4];
                add_codec<hzcodec::CodecProvider>(bs);
                Codecs(x, bs).play(24);
                return;
            }
            Game g(x);
            if (kind == "hs") g.w = {1, 0, 3, 1, 1};
            else if (kind == "life") g.w = {0, 1, 6, 3, 2};
            else if (kind == "query") g.w = {0, 0, 40, 14, 8};
            else if (kind == "stream") g.w = {0, 0, 5, 50, 12};
            else g.w = {0, 0, 6, 8, 50};
            if (kind == "stop") {
                g.w = {0, 0, 6, 30, 12};
                g.play_stop();
                return;
            }
            g.kind = kind;
            g.play();
        });
        OUT.line(s.substr(0, s.size() - 1));
        if (s.find("\"k\":\"crash\"") != std::string::npos) break;
    }
    OUT(J().str("k", "runs").num("runs", runs).num("tokens", bits->n).nums("set", std::vector<int>(bits->set, bits->set + 8))
                .nums("clear", std::vector<int>(bits->clear, bits->clear + 8)));
    OUT(J().str("k", "end"));
    return 0;
}
