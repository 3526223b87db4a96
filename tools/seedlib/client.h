// A server in a child process on the loopback, and a client that speaks to it.
#pragma once
#include <hzip_network/api/api.h>
#include <hzip_core/runtime/config.h>
#include <hzip_core/utils/utils.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <poll.h>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

struct Gone : std::runtime_error { using std::runtime_error::runtime_error; };
struct Refused : std::runtime_error { using std::runtime_error::runtime_error; };

struct Server {
    pid_t pid = 0;
    int port = 0;
    std::string key;

    explicit Server(int sessions = 2, int timeout = 3, std::string k = "hybridzip", int workers = 1) : key(std::move(k)) {
        int s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        socklen_t n = sizeof a;
        if (bind(s, (sockaddr *) &a, n) || getsockname(s, (sockaddr *) &a, &n)) _exit(3);
        port = ntohs(a.sin_port);
        close(s);
        fflush(nullptr);
        pid = fork();
        if (pid == 0) {
            loguru::g_stderr_verbosity = -9;
            signal(SIGPIPE, SIG_IGN);
            try {
                (new hzapi::Api(sessions))->process(workers)->protect(key)->timeout(timeval{.tv_sec = timeout})->start("127.0.0.1", port);
            } catch (std::exception &e) { fprintf(stderr, "server: %s\n", e.what()); }
            _exit(3);
        }
    }

    void stop() {
        if (pid) kill(pid, SIGKILL), waitpid(pid, nullptr, 0);
        pid = 0;
    }

    ~Server() { stop(); }
};

static std::string u16(uint64_t n) { return {(const char *) &n, 2}; }
static std::string u64(uint64_t n) { return {(const char *) &n, 8}; }

struct Client {
    int fd = -1;

    explicit Client(const Server &s, bool shake = true, int patience = 8) {
        for (int k = 0; k < 500; k++) {
            fd = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            a.sin_port = htons(s.port);
            if (connect(fd, (sockaddr *) &a, sizeof a) == 0) break;
            close(fd);
            fd = -1;
            usleep(10000);
        }
        if (fd < 0) throw Gone("no server");
        timeval t{.tv_sec = patience};
        setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
        if (shake) {
            auto x = frame(8);
            uint64_t v;
            memcpy(&v, x.data(), 8);
            put(u64(hz_enc_token(s.key, v)));
            success();
        }
    }

    ~Client() { if (fd >= 0) close(fd); }

    std::string read(size_t n) {
        std::string s(n, 0);
        for (size_t at = 0; at < n;) {
            auto r = ::recv(fd, &s[at], n - at, 0);
            if (r <= 0) throw Gone("connection ended or silent");
            at += r;
        }
        return s;
    }

    void raw(const std::string &s) {
        for (size_t at = 0; at < s.size();) {
            auto r = ::send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if (r <= 0) throw Gone("connection ended");
            at += r;
        }
    }

    std::string fault() {
        auto n = read(2);
        return read((uint8_t) n[0] + 256 * (uint8_t) n[1]);
    }

    // the status byte, then n bytes
    std::string frame(size_t n) {
        auto w = read(1);
        if (w[0] == (char) 255) throw Refused(fault());
        if (w[0] != 0) throw Gone("neither success nor error");
        return read(n);
    }

    uint64_t number() {
        uint64_t n;
        memcpy(&n, frame(8).data(), 8);
        return n;
    }

    // answers a request of the server for data
    void put(const std::string &s) {
        frame(0);
        raw(s);
    }

    void word(int w) { put(std::string(1, (char) w)); }

    void text(const std::string &s) {
        put(u16(s.size()));
        put(s);
    }

    void success() {
        auto n = frame(2);
        frame((uint8_t) n[0] + 256 * (uint8_t) n[1]);
    }

    // archive, target: control words of a query
    void query(const std::string &archive, const std::string &target, bool back) {
        word(1);
        word(0), text(archive);
        word(7), text(target);
        if (back) word(3);
    }

    bool exists(const std::string &archive, const std::string &target) {
        query(archive, target, true);
        word(1);
        return frame(1)[0] != 0;
    }

    std::vector<std::pair<std::string, bool>> list(const std::string &archive, const std::string &target, int w = 2) {
        query(archive, target, true);
        word(w);
        std::vector<std::pair<std::string, bool>> v;
        for (auto n = number(); n > 0; n--) {
            auto l = frame(2);
            auto e = frame((uint8_t) l[0] + 256 * (uint8_t) l[1]);
            v.emplace_back(e, frame(1)[0] != 0);
        }
        return v;
    }

    // nothing is answered; an error shows up at the next word
    void remove(const std::string &archive, const std::string &target, int w = 4) {
        query(archive, target, false);
        word(w);
    }

    void health() {
        word(2);
        success();
    }

    // up to the raw bytes of the stream
    void encode(const std::string &archive, const std::string &target, const std::string &state, uint64_t alg, uint64_t size, int w = 0) {
        word(0), word(0);
        word(2), text(archive);
        if (!target.empty()) word(3), text(target);
        if (!state.empty()) word(1), text(state);
        word(4), put(u64(alg));
        word(w);
        put(u64(size));
        frame(0);
    }

    void store(const std::string &archive, const std::string &target, const std::string &data, const std::string &state = "", uint64_t alg = 1) {
        encode(archive, target, state, alg, data.size());
        raw(data);
        success();
    }

    void train(const std::string &archive, const std::string &state, const std::string &data, uint64_t alg = 1) {
        encode(archive, "", state, alg, data.size(), 6);
        raw(data);
        success();
    }

    std::string load(const std::string &archive, const std::string &target) {
        word(0), word(1);
        word(5);
        word(2), text(archive);
        word(3), text(target);
        word(0);
        std::string s;
        for (auto n = number(); n > 0; n--) s += frame(number());
        success();
        return s;
    }

    void write_state(const std::string &archive, const std::string &path, uint64_t alg, const std::string &data) {
        word(0), word(2);
        word(0), text(archive);
        word(1), text(path);
        word(2);
        put(u64(alg)), put(u64(data.size())), put(data);
        success();
    }

    std::pair<uint64_t, std::string> read_state(const std::string &archive, const std::string &path) {
        word(0), word(3);
        word(0), text(archive);
        word(1), text(path);
        word(3), word(2);
        auto a = number();
        auto s = frame(number());
        success();
        return {a, s};
    }

    // whether the server has ended the session
    bool ended(int ms) {
        pollfd p{fd, POLLIN, 0};
        char c;
        return poll(&p, 1, ms) == 1 && ::recv(fd, &c, 1, MSG_PEEK) <= 0;
    }
};
