// Small helpers shared by the drivers: seeded randomness and a JSON-lines trace.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <csignal>
#include <loguru/loguru.hpp>

namespace vp {
    struct Rng {
        uint64_t s;

        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }

        uint64_t next() {
            uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }

        uint64_t below(uint64_t n) { return n ? next() % n : 0; }

        int64_t range(int64_t a, int64_t b) { return a + (int64_t) below(b - a + 1); }

        bool chance(int pct) { return (int) below(100) < pct; }

        template<typename T>
        const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    };

    inline std::string hex64(uint64_t v) {
        char b[24];
        snprintf(b, sizeof(b), "%llx", (unsigned long long) v);
        return b;
    }

    inline std::string hexbytes(const uint8_t *p, size_t n) {
        static const char *d = "0123456789abcdef";
        std::string s;
        s.reserve(2 * n);
        for (size_t i = 0; i < n; i++) {
            s += d[p[i] >> 4];
            s += d[p[i] & 15];
        }
        return s;
    }

    // canonical short name of a byte string: hex when short, else length and a 128-bit FNV-style digest
    inline std::string content(const uint8_t *p, size_t n) {
        if (n <= 40) return hexbytes(p, n);
        uint64_t a = 0xcbf29ce484222325ull, b = 0x9E3779B97F4A7C15ull;
        for (size_t i = 0; i < n; i++) {
            a = (a ^ p[i]) * 0x100000001b3ull;
            b = (b + p[i] + 1) * 0xff51afd7ed558ccdull;
            b ^= b >> 29;
        }
        return "#" + std::to_string(n) + ":" + hex64(a) + ":" + hex64(b);
    }

    // Builds one JSON object.
    class J {
        std::string s = "{";
        bool first = true;

        void key(const char *k) {
            if (!first) s += ',';
            first = false;
            s += '"';
            s += k;
            s += "\":";
        }

    public:
        static std::string q(const std::string &v) {
            std::string o = "\"";
            for (unsigned char c: v) {
                if (c == '"' || c == '\\') {
                    o += '\\';
                    o += (char) c;
                } else if (c < 32 || c > 126) {
                    char b[8];
                    snprintf(b, sizeof(b), "\\u%04x", c);
                    o += b;
                } else o += (char) c;
            }
            return o + "\"";
        }

        J &str(const char *k, const std::string &v) {
            key(k);
            s += q(v);
            return *this;
        }

        J &num(const char *k, long long v) {
            key(k);
            s += std::to_string(v);
            return *this;
        }

        J &boolean(const char *k, bool v) {
            key(k);
            s += v ? "true" : "false";
            return *this;
        }

        J &raw(const char *k, const std::string &v) {
            key(k);
            s += v;
            return *this;
        }

        template<typename It>
        J &nums(const char *k, It b, It e) {
            key(k);
            s += '[';
            for (It i = b; i != e; ++i) {
                if (i != b) s += ',';
                s += std::to_string((long long) *i);
            }
            s += ']';
            return *this;
        }

        template<typename C>
        J &nums(const char *k, const C &c) { return nums(k, c.begin(), c.end()); }

        template<typename C>
        J &strs(const char *k, const C &c) {
            key(k);
            s += '[';
            bool f = true;
            for (auto &x: c) {
                if (!f) s += ',';
                f = false;
                s += q(x);
            }
            s += ']';
            return *this;
        }

        std::string done() const { return s + "}"; }
    };

    inline std::string jlist(const std::vector<std::string> &v) {
        std::string s = "[";
        for (size_t i = 0; i < v.size(); i++) {
            if (i) s += ',';
            s += v[i];
        }
        return s + "]";
    }

    // Trace lines are written with a single write(2) on an O_APPEND descriptor,
    // so that children of the driver can add to the same trace.
    class Trace {
    public:
        int fd = -1;
        std::string buf;

        void open(const char *path) {
            fd = ::open(path, O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0666);
            if (fd < 0) {
                perror(path);
                exit(3);
            }
        }

        void line(const std::string &s) {
            std::string t = s + "\n";
            size_t off = 0;
            while (off < t.size()) {
                ssize_t k = ::write(fd, t.data() + off, t.size() - off);
                if (k <= 0) exit(3);
                off += k;
            }
        }

        void operator()(const J &j) { line(j.done()); }
    };

    inline void quiet() {
        loguru::g_stderr_verbosity = loguru::Verbosity_OFF;
        loguru::g_internal_verbosity = loguru::Verbosity_OFF;
    }
}
