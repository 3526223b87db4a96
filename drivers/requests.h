// A small codec, the words of the protocol, and requests chosen at random.
#pragma once
#include <deque>
#include <functional>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/stat.h>
#include "archive_util.h"
#define private public
#include <hzip_codec/codec_provider.h>
#undef private

using namespace vp;
namespace vn { struct Conn; }

// ------------------------------------------------------------------ a codec
// Blocks of at least two equal bytes shrink to one byte, masked with the coding
// state; a block with the byte 0xEE cannot be coded.
constexpr int TOY = 7, BLOCK = 8, NEVER = 0xEE;

struct Toy : hzcodec::AbstractCodec {
    static void check(const rainman::ptr<HZ_Blob> &b) {
        for (uint64_t i = 0; i < b->o_size; i++) if (b->data[i] == NEVER) throw std::runtime_error("cannot code this");
    }

    static uint8_t key(const rainman::ptr<HZ_MState> &m) { return m->size() ? m->data[0] : 0; }

    rainman::ptr<HZ_Blob> compress(const rainman::ptr<HZ_Blob> &b) override {
        check(b);
        auto n = b->o_size;
        auto m = b->mstate;
        if (m->alg == 0) {
            m = rainman::ptr<HZ_MState>();
            m->data = rainman::ptr<uint8_t>(2);
            m->data[0] = n ? b->data[0] + n : 0;
            m->data[1] = n;
        }
        m->alg = (hzcodec::algorithms::ALGORITHM) TOY;
        bool same = n >= 2;
        for (uint64_t i = 1; i < n; i++) same = same && b->data[i] == b->data[0];
        auto c = rainman::ptr<HZ_Blob>();
        c->o_size = n;
        c->mstate = m;
        if (same) {
            c->size = 1;
            c->data = rainman::ptr<uint8_t>(1);
            c->data[0] = b->data[0] ^ key(m);
            c->header.raw = rainman::ptr<uint8_t>(1);
            c->header.raw[0] = n;
        } else {
            c->size = n + 1;
            c->data = rainman::ptr<uint8_t>(n + 1);
        }
        return c;
    }

    rainman::ptr<HZ_Blob> decompress(const rainman::ptr<HZ_Blob> &b) override {
        if (b->header.size() != 1 || b->size != 1 || b->header.raw[0] != b->o_size) throw std::runtime_error("not a block");
        auto d = rainman::ptr<HZ_Blob>();
        d->o_size = d->size = b->o_size;
        d->mstate = b->mstate;
        d->data = rainman::ptr<uint8_t>(b->o_size);
        for (uint64_t i = 0; i < b->o_size; i++) d->data[i] = b->data[0] ^ key(b->mstate);
        return d;
    }

    rainman::ptr<HZ_MState> train(const rainman::ptr<HZ_Blob> &b) override {
        check(b);
        auto old = b->mstate->alg == 0 ? 0 : b->mstate->size();
        std::string v;
        for (uint64_t i = 0; i < old; i++) v += (char) b->mstate->data[i];
        uint8_t sum = 0;
        for (uint64_t i = 0; i < b->o_size; i++) sum += b->data[i];
        v += (char) sum;
        if (v.size() > 4) v.erase(0, 1);
        auto m = rainman::ptr<HZ_MState>();
        m->alg = (hzcodec::algorithms::ALGORITHM) TOY;
        m->data = rainman::ptr<uint8_t>(v.size());
        memcpy(m->data.pointer(), v.data(), v.size());
        return m;
    }
};

template<typename P>
static bool add_codec(uint64_t victini) {
    using A = hzcodec::algorithms::ALGORITHM;
    if constexpr (requires { P::codec_map[(A) TOY] = new Toy(); P::bsize_map[(A) TOY] = (uint64_t) BLOCK; P::strmap[(A) TOY] = "TOY"; }) {
        P::codec_map[(A) TOY] = new Toy();
        P::bsize_map[(A) TOY] = BLOCK;
        P::strmap[(A) TOY] = "TOY";
        if (victini) P::bsize_map[hzcodec::algorithms::VICTINI] = victini;
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ the wire
static std::string u16(size_t n) { return {(char) n, (char) (n >> 8)}; }

static std::string u64(uint64_t n) {
    std::string s;
    for (int i = 0; i < 8; i++) s += (char) (n >> (8 * i));
    return s;
}

static std::string chr(int c) { return std::string(1, (char) c); }

static uint64_t le(const std::string &s, size_t at, int n) {
    uint64_t v = 0;
    for (int i = n; i > 0; i--) v = v << 8 | (uint8_t) s[at + i - 1];
    return v;
}

struct Tuple {
    uint64_t alg;
    std::string m, h, d;
    uint64_t o;
};

// The bits that were ever set and ever clear in a token, over all runs.
struct TokenBits {
    uint64_t n, set[8], clear[8];
};
static TokenBits *bits = (TokenBits *) mmap(nullptr, sizeof(TokenBits), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

static void count_token(const std::string &t) {
    bits->n++;
    for (int k = 0; k < 8; k++) bits->set[k] |= (uint8_t) t[k], bits->clear[k] |= (uint8_t) ~t[k];
}

struct Client {
    vn::Conn *c = nullptr;
    int no = 0;
    size_t seen = 0;
    std::string token;                 // what it has to return
    int phase = 0;                     // 0 waits for the token, 1 idle, 2 in a request, 3 out of step
    std::deque<std::string> todo;      // rest of the request
    bool gone = false, untouchable = false, adaptive = true, parse = false;
    std::string reply;                 // since the request began
    std::vector<uint64_t> blocks;      // sizes of the blocks a parsed request sends
};
struct Requests {
    Rng r;
    std::string lx = "x.hz", lf = "/b", ls = "/t";   // may be long
    uint64_t alg = TOY;
    std::vector<Tuple> tuples;

    explicit Requests(uint64_t seed) : r(seed) {}

    using Pieces = std::vector<std::string>;

    static void field(Pieces &p, int ctl, const std::string &v) {
        p.push_back(chr(ctl));
        p.push_back(u16(v.size()));
        if (!v.empty()) p.push_back(v);
    }

    std::string only;     // no other archive, and only requests as intended
    int more = 0;         // archives besides x.hz and y.hz: 3.hz, 4.hz, ...

    std::string archive() {
        if (!only.empty()) return only;
        if (r.chance(4)) return r.pick(std::vector<std::string>{"no/z.hz", "", "c.hz", std::string("x.hz\0no", 7), std::string("\0x.hz", 5)});
        if (more && r.chance(55)) return std::to_string(3 + r.below(more)) + ".hz";
        return r.chance(70) ? (r.chance(50) ? "x.hz" : lx) : r.chance(50) ? "y.hz" : "./x.hz";
    }

    std::string file() {
        if (only.empty() && r.chance(4)) return r.pick(std::vector<std::string>{"a", "", "//a", "/a b", "/a\\b", "/a//b", std::string("/a\0/q", 5), "/a/"});
        return r.pick(std::vector<std::string>{"/a", lf, "/d/x", "/d/y", "/d", "/a", "/c"});
    }

    std::string state() {
        if (only.empty() && r.chance(4)) return r.pick(std::vector<std::string>{"s", "", "//s", "/s t", std::string("/s\0/q", 5)});
        return r.pick(std::vector<std::string>{"/s", ls, "/s/u", "/s", ls});
    }

    std::string data(bool may_fail) {
        static const std::vector<int> L = {0, 1, 3, 7, 8, 9, 16, 17, 24, 8, 16};
        std::string s;
        int n = r.pick(L), style = r.below(4);
        char b = r.below(200);
        for (int i = 0; i < n; i++) {
            if (style == 0) s += b;                                         // all equal
            else if (style == 1) s += (char) (b + i / BLOCK);               // equal blocks
            else if (style == 2) s += (char) (i % BLOCK ? s.back() : (r.chance(70) ? b++ : r.below(200)));
            else s += (char) r.below(200);
        }
        if (may_fail && n && r.chance(12)) s[r.below(n)] = (char) NEVER;
        return s;
    }

    bool odd() { return r.chance(only.empty() ? 6 : 0); }

    Pieces shuffled(std::vector<Pieces> v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
        Pieces p;
        for (auto &x: v) p.insert(p.end(), x.begin(), x.end());
        return p;
    }

    static Pieces f(int ctl, const std::string &v) {
        Pieces p;
        field(p, ctl, v);
        return p;
    }

    Pieces query() {
        std::vector<Pieces> v;
        int what = r.pick(std::vector<int>{1, 1, 2, 2, 8, 8, 4, 5, 4, 6});
        if (what != 6) {
            if (!odd()) v.push_back(f(0, archive()));
            if (!odd()) v.push_back(f(7, what == 5 || what == 8 ? (r.chance(15) ? "/" : state()) : what == 2 && r.chance(40) ? "/" : file()));
            if (odd()) v.push_back(f(7, file()));
            if (odd()) v.push_back(f(0, archive()));
        }
        if (!odd()) v.push_back({chr(3)});
        Pieces p = {chr(1)}, q = shuffled(v);
        p.insert(p.end(), q.begin(), q.end());
        if (odd()) p.push_back(chr(r.pick(std::vector<int>{9, 77, 255})));
        else p.push_back(chr(what));
        return p;
    }

    void raw(Pieces &p, Client *c, const std::string &d) {
        p.push_back(u64(d.size()));
        if (!d.empty()) p.push_back(d);
    }

    Pieces encode(Client *c, bool train) {
        std::vector<Pieces> v;
        uint64_t a = !only.empty() ? alg : r.chance(3) ? 9 : r.chance(3) ? 0 : alg;
        bool ar = !odd() && (!only.empty() || r.chance(90)), pb = r.chance(train ? 10 : ar ? 35 : 90);
        bool ad = train ? !odd() : r.chance(40);
        if (ar) v.push_back(f(2, archive()));
        if (!train && !(pb && r.chance(50)) && !odd()) v.push_back(f(3, file()));
        if (ad) v.push_back(f(1, state()));
        if (!odd()) v.push_back({chr(4), u64(a)});
        if (pb) v.push_back({chr(5)});
        if (odd()) v.push_back({chr(r.pick(std::vector<int>{7, 42, 254}))});
        Pieces p = {chr(0), chr(0)}, q = shuffled(v);
        p.insert(p.end(), q.begin(), q.end());
        p.push_back(chr(train ? 6 : 0));
        auto d = data(only.empty());
        if (a == 9) p.push_back(u64(d.size()));
        else raw(p, c, d);
        if (pb && !train && a == alg) {
            c->parse = true;
            c->blocks.clear();
            for (size_t i = 0; i < d.size(); i += BLOCK) c->blocks.push_back(std::min<size_t>(BLOCK, d.size() - i));
        }
        return p;
    }

    Pieces decode_file(const std::string &ar, const std::string &p) {
        Pieces v = {chr(0), chr(1), chr(5)};
        field(v, 2, ar);
        field(v, 3, p);
        v.push_back(chr(0));
        return v;
    }

    Pieces read_state(const std::string &ar, const std::string &p) {
        Pieces v = {chr(0), chr(3), chr(3)};
        field(v, 0, ar);
        field(v, 1, p);
        v.push_back(chr(2));
        return v;
    }

    Pieces decode() {
        std::vector<Pieces> v;
        if (!odd()) v.push_back({chr(5)});
        if (!odd()) v.push_back(f(2, archive()));
        if (!odd()) v.push_back(f(3, file()));
        if (odd()) v.push_back({chr(r.pick(std::vector<int>{8, 99}))});
        if (odd()) v.push_back({chr(4), u64(alg)});
        Pieces p = {chr(0), chr(1)}, q = shuffled(v);
        p.insert(p.end(), q.begin(), q.end());
        p.push_back(chr(0));
        return p;
    }

    Pieces decode_block() {
        Tuple t;
        if (!tuples.empty() && !r.chance(8)) t = r.pick(tuples);
        else t = {(uint64_t) TOY, "k", "\x03", "z", 3};
        std::vector<Pieces> v;
        if (!odd()) v.push_back({chr(5)});
        v.push_back({chr(4), u64(t.alg)});
        bool addr = r.chance(12);
        if (!addr || r.chance(30)) {
            Pieces m = {chr(6), u64(t.m.size())};
            if (!t.m.empty()) m.push_back(t.m);
            v.push_back(m);
        }
        if (addr) {
            auto x = f(2, archive()), y = f(1, state());
            if (odd()) x.clear();
            x.insert(x.end(), y.begin(), y.end());
            v.push_back(x);
        }
        Pieces p = {chr(0), chr(1)}, q = shuffled(v);
        p.insert(p.end(), q.begin(), q.end());
        p.push_back(chr(7));
        for (auto &x: {t.h, t.d}) {
            p.push_back(u64(x.size()));
            if (!x.empty()) p.push_back(x);
        }
        p.push_back(u64(t.o));
        return p;
    }

    Pieces write() {
        std::vector<Pieces> v;
        if (!odd()) v.push_back(f(0, archive()));
        if (!odd()) v.push_back(f(1, state()));
        if (odd()) v.push_back({chr(3)});
        Pieces p = {chr(0), chr(2)}, q = shuffled(v);
        p.insert(p.end(), q.begin(), q.end());
        p.push_back(chr(2));
        p.push_back(u64(r.chance(85) ? TOY : r.below(3)));
        std::string d;
        for (int n = r.below(6); n > 0; n--) d += (char) r.below(256);
        raw(p, nullptr, d);
        return p;
    }

    Pieces read() {
        std::vector<Pieces> v;
        if (!odd()) v.push_back(f(0, archive()));
        if (!odd()) v.push_back(f(1, state()));
        if (!odd()) v.push_back({chr(3)});
        Pieces p = {chr(0), chr(3)}, q = shuffled(v);
        p.insert(p.end(), q.begin(), q.end());
        p.push_back(chr(odd() ? 9 : 2));
        return p;
    }

    static std::string joined(const Pieces &p) {
        std::string s;
        for (auto &x: p) s += x;
        return s;
    }
};

// What is in x.hz and y.hz, and in those after them.
static std::vector<std::string> archives_now(int more = 0) {
    std::vector<std::string> ars;
    int a = 0;
    while (a < 2 + more) {
        a++;
        std::string named = a == 1 ? "x.hz" : a == 2 ? "y.hz" : std::to_string(a) + ".hz";
        const char *name = named.c_str();
        struct stat st{};
        std::vector<std::string> fs, ns;
        std::string res = "ok";
        if (stat(name, &st) == 0) {
            try {
                HZ_Archive ar(name);
                ar.load();
                std::function<void(bool, const std::string &)> walk = [&](bool files, const std::string &at) {
                    for (auto &e: files ? ar.list_file_system(at) : ar.list_mstate_system(at)) {
                        std::string p = (at == "/" ? "" : at) + "/" + e.entry;
                        if (!e.is_leaf) walk(files, p);
                        else if (files) fs.push_back(J().raw("p", jbytes(p)).num("n", ar.read_file_entry(p).blob_ids.size()).done());
                        else {
                            auto m = ar.read_mstate(p);
                            ns.push_back(J().raw("p", jbytes(p)).num("alg", m->alg)
                                                 .raw("d", jbytes(std::string((char *) m->data.pointer(), m->size()))).done());
                        }
                    }
                };
                walk(true, "/");
                walk(false, "/");
                ar.close();
            } catch (std::exception &e) {
                res = "fails";
            }
        }
        ars.push_back(J().num("a", a).str("r", res).raw("files", jlist(fs)).raw("names", jlist(ns)).done());
    }
    return ars;
}
