// Runs scripts of public HZ_Archive operations and records what happens.
// usage: archive <script> <out> <dir>
//   H base|var|one            a new history on a fresh archive file
//   O | F                     open (constructor + load); F: in a forked process
//   Q                         close
//   A m alg n seed            add an unnamed coding state          -> $m
//   J m alg n seed            the same through inject_mstate
//   P path alg n seed         install under a path                 -> $path-hex
//   U path | u ref            uninstall by path | by id
//   C path k (n hn seed ref)* create a file from k blobs
//   W b n hn seed ref         write a blob                         -> $b
//   E path k ref*             create an entry for k blobs
//   D path                    remove a file
//   R path | e path | r ref   read file | entry | blob
//   M path | K path           read coding state | inject by path
//   X f|m path | L f|m path   exists | list
//   S                         everything, by walking the listings
#include "common.h"
#include "guard.h"
#include "segments.h"
#include "semtrack.h"
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <sys/wait.h>
#include <bitio/bitio.h>
#include <hzip_core/utils/utils.h>
#include <hzip_core/utils/validation.h>
#include <hzip_storage/archive/archive.h>

using namespace vp;

static Trace T;
static std::string dir;

static std::string unhex(const std::string &h) {
    std::string s;
    for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char) strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return s;
}

static rainman::ptr<uint8_t> make(uint64_t n, uint64_t seed) {
    auto p = rainman::ptr<uint8_t>(n);
    Rng r(seed);
    int mode = r.below(4);
    for (uint64_t i = 0; i < n; i++) p[i] = mode == 0 ? 0 : mode == 1 ? 0xff : (uint8_t) r.next();
    return p;
}

struct History {
    std::string path, role;
    std::unique_ptr<HZ_Archive> ar;
    bitio::stream *stream = nullptr;
    std::map<std::string, uint64_t> ref;
    std::string last;
    int n = 0;

    uint64_t id(const std::string &r) {
        if (r.rfind("0x", 0) == 0) return strtoull(r.c_str() + 2, nullptr, 16);
        auto it = ref.find(r);
        return it == ref.end() ? 0xdeadull : it->second;
    }

    J ev(const char *k) {
        J j;
        j.str("k", k).num("x", n);
        if (role == "var") j.num("all", 1);
        return j;
    }

    // adds the stored segments if they changed, and writes the line
    void emit(J &j) {
        if (stream && ar) {
            auto &b = stream->shim_bytes();
            auto d = read_segments(b.data(), stream->shim_bits());
            if (d.json != last) {
                j.raw("segs", d.json);
                last = d.json;
            }
        }
        T(j);
    }

    // result of a call: ok, err (a documented error) or exc (anything else)
    template<typename F>
    std::string call(F f) {
        try {
            f();
            return "ok";
        } catch (UtilErrors::ValidationError &e) {
            return "err";
        } catch (ArchiveErrors::InvalidOperationException &e) {
            return "err";
        } catch (ArchiveErrors::FileNotFoundException &e) {
            return "err";
        } catch (ArchiveErrors::BlobNotFoundException &e) {
            return "err";
        } catch (ArchiveErrors::MstateNotFoundException &e) {
            return "err";
        } catch (ArchiveErrors::TargetNotFoundException &e) {
            return "err";
        } catch (std::exception &e) {
            return "exc";
        }
    }

    static std::string bytes(const rainman::ptr<uint8_t> &p, uint64_t n) {
        if (n > p.size()) return "short";
        return content(p.pointer(), n);
    }

    static std::string jstate(const HZ_MState &m) {
        return J().num("alg", (long long) m.alg).num("n", m.size()).str("d", bytes(m.data, m.size())).done();
    }

    static std::string jblob(const HZ_Blob &b) {
        return J().num("hn", b.header.size()).str("h", bytes(b.header.raw, b.header.size())).str("o", hex64(b.o_size))
                .str("ms", hex64(b.mstate_id)).num("n", b.size).str("d", bytes(b.data, b.size)).done();
    }

    static std::string jfull(const HZ_Blob &b) {
        return J().num("hn", b.header.size()).str("h", bytes(b.header.raw, b.header.size())).str("o", hex64(b.o_size))
                .str("ms", hex64(b.mstate_id)).num("n", b.size).str("d", bytes(b.data, b.size))
                .num("alg", (long long) b.mstate->alg).num("mn", b.mstate->size()).str("md", bytes(b.mstate->data, b.mstate->size())).done();
    }

    static rainman::ptr<HZ_MState> mkstate(uint64_t alg, uint64_t n, uint64_t seed) {
        auto m = rainman::ptr<HZ_MState>();
        m->alg = (hzcodec::algorithms::ALGORITHM) alg;
        m->data = make(n, seed);
        return m;
    }

    HZ_Blob mkblob(uint64_t n, uint64_t hn, uint64_t seed, const std::string &r) {
        HZ_Blob b;
        b.data = make(n, seed);
        b.size = n;
        b.header.raw = make(hn, seed + 1);
        Rng q(seed + 2);
        b.o_size = q.chance(50) ? q.below(100000) : q.next();
        b.mstate_id = id(r);
        b.mstate = rainman::ptr<HZ_MState>();
        b.mstate->data = rainman::ptr<uint8_t>(0);
        return b;
    }

    void open() {
        J j = ev("open");
        std::string r = call([&]() {
            ar = std::make_unique<HZ_Archive>(path);
            auto &reg = bitio::shim_registry::get();
            stream = reg.live.empty() ? nullptr : reg.live.back();
            ar->load();
        });
        j.str("r", r);
        if (r != "ok") ar.reset();
        emit(j);
    }

    void close() {
        J j = ev("close");
        std::string r = call([&]() { ar->close(); });
        j.str("r", r);
        ar.reset();
        stream = nullptr;
        std::ifstream f(path, std::ios::binary);
        std::vector<uint8_t> b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        auto d = read_segments(b.data(), b.size() * 8);
        j.raw("segs", d.json).boolean("ended", d.ended);
        last = d.json;
        T(j);
    }

    void walk(bool files, const std::string &at, std::vector<std::string> &out, int depth) {
        if (depth > 12 || out.size() > 2000) throw std::runtime_error("listing does not end");
        auto l = files ? ar->list_file_system(at) : ar->list_mstate_system(at);
        for (auto &e: l) {
            std::string p = (at == "/" ? "" : at) + "/" + e.entry;
            if (!e.is_leaf) walk(files, p, out, depth + 1);
            else if (files) {
                auto f = ar->read_file_entry(p);
                std::vector<std::string> ids, v;
                for (uint64_t i = 0; i < f.blob_ids.size(); i++) ids.push_back(hex64(f.blob_ids[i]));
                auto bl = ar->read_file(p);
                for (uint64_t i = 0; i < f.blob_ids.size(); i++) v.push_back(jfull(bl[i]));
                out.push_back(J().raw("p", jbytes(p)).strs("b", ids).raw("v", jlist(v)).done());
            } else {
                auto m = ar->read_mstate(p);
                out.push_back(J().raw("p", jbytes(p)).raw("v", jstate(*m)).done());
            }
        }
    }

    void learn_name(const std::string &hex, const std::string &p) {
        // the id bound to a path, from the stored bytes
        auto key = std::string("\"p\":") + jbytes(p) + ",\"id\":\"";
        auto d = read_segments(stream->shim_bytes().data(), stream->shim_bits()).json;
        auto at = d.find(key);
        if (at != std::string::npos) ref[hex] = strtoull(d.c_str() + at + key.size(), nullptr, 16);
    }

    void step(const std::string &line) {
        std::istringstream in(line);
        std::string op;
        in >> op;
        n++;
        tick("archive op", 20);
        if (op == "O") return open();
        if (op == "Q") return close();
        if (!ar) return;
        auto path_arg = [&]() {
            std::string h;
            in >> h;
            return h == "-" ? std::string() : h;
        };
        if (op == "A" || op == "J") {
            std::string m;
            uint64_t alg, sz, seed, got = 0;
            in >> m >> alg >> sz >> seed;
            auto ms = mkstate(alg, sz, seed);
            J j = ev("add");
            auto r = call([&]() {
                if (op == "A") got = ar->install_mstate(ms);
                else {
                    auto b = rainman::ptr<HZ_Blob>();
                    ar->inject_mstate(ms, b);
                    got = b->mstate_id;
                }
            });
            if (r == "ok") ref[m] = got;
            j.str("r", r).raw("m", jstate(*ms)).str("id", hex64(got));
            emit(j);
        } else if (op == "P") {
            auto h = path_arg();
            uint64_t alg, sz, seed;
            in >> alg >> sz >> seed;
            auto ms = mkstate(alg, sz, seed);
            J j = ev("install");
            auto r = call([&]() { ar->install_mstate(unhex(h), ms); });
            if (r == "ok") learn_name(h, unhex(h));
            j.str("r", r).raw("p", jbytes(unhex(h))).raw("m", jstate(*ms));
            emit(j);
        } else if (op == "U") {
            auto h = path_arg();
            J j = ev("uninstall");
            j.str("r", call([&]() { ar->uninstall_mstate(unhex(h)); })).raw("p", jbytes(unhex(h)));
            emit(j);
        } else if (op == "u") {
            std::string m;
            in >> m;
            J j = ev("uninstallid");
            uint64_t i = id(m);
            j.str("r", call([&]() { ar->uninstall_mstate(i); })).str("id", hex64(i));
            emit(j);
        } else if (op == "C") {
            auto h = path_arg();
            int k;
            in >> k;
            auto bl = rainman::ptr<HZ_Blob>(k);
            std::vector<std::string> js;
            for (int i = 0; i < k; i++) {
                uint64_t sz, hn, seed;
                std::string m;
                in >> sz >> hn >> seed >> m;
                bl[i] = mkblob(sz, hn, seed, m);
                js.push_back(jblob(bl[i]));
            }
            J j = ev("create");
            auto r = call([&]() { ar->create_file(unhex(h), bl, k); });
            j.str("r", r).raw("p", jbytes(unhex(h))).raw("b", jlist(js));
            if (r == "ok") try {
                    auto f = ar->read_file_entry(unhex(h));
                    for (uint64_t i = 0; i < f.blob_ids.size(); i++) ref[h + "#" + std::to_string(i)] = f.blob_ids[i];
                } catch (std::exception &) {}
            emit(j);
        } else if (op == "W") {
            std::string b, m;
            uint64_t sz, hn, seed, got = 0;
            in >> b >> sz >> hn >> seed >> m;
            auto bl = rainman::ptr<HZ_Blob>();
            *bl = mkblob(sz, hn, seed, m);
            J j = ev("write");
            auto r = call([&]() { got = ar->write_blob(bl); });
            if (r == "ok") ref[b] = got;
            j.str("r", r).raw("b", jblob(*bl)).str("id", hex64(got));
            emit(j);
        } else if (op == "E") {
            auto h = path_arg();
            int k;
            in >> k;
            auto ids = rainman::ptr<uint64_t>(k);
            std::vector<std::string> js;
            for (int i = 0; i < k; i++) {
                std::string b;
                in >> b;
                ids[i] = id(b);
                js.push_back(hex64(ids[i]));
            }
            J j = ev("entry");
            j.str("r", call([&]() { ar->create_file_entry(unhex(h), HZ_ArchiveFile(ids)); })).raw("p", jbytes(unhex(h))).strs("ids", js);
            emit(j);
        } else if (op == "D") {
            auto h = path_arg();
            J j = ev("remove");
            j.str("r", call([&]() { ar->remove_file(unhex(h)); })).raw("p", jbytes(unhex(h)));
            emit(j);
        } else if (op == "R") {
            auto h = path_arg();
            std::vector<std::string> v;
            J j = ev("read");
            j.str("r", call([&]() {
                auto bl = ar->read_file(unhex(h));
                for (uint64_t i = 0; i < bl.size(); i++) v.push_back(jfull(bl[i]));
            })).raw("p", jbytes(unhex(h))).raw("v", jlist(v));
            emit(j);
        } else if (op == "e") {
            auto h = path_arg();
            std::vector<std::string> v;
            J j = ev("readentry");
            j.str("r", call([&]() {
                auto f = ar->read_file_entry(unhex(h));
                for (uint64_t i = 0; i < f.blob_ids.size(); i++) v.push_back(hex64(f.blob_ids[i]));
            })).raw("p", jbytes(unhex(h))).strs("v", v);
            emit(j);
        } else if (op == "r") {
            std::string b, v = "0";
            in >> b;
            uint64_t i = id(b);
            J j = ev("readblob");
            j.str("r", call([&]() { v = jfull(*ar->read_blob(i)); })).str("id", hex64(i)).raw("v", v);
            emit(j);
        } else if (op == "M") {
            auto h = path_arg();
            std::string v = "0";
            J j = ev("readname");
            j.str("r", call([&]() { v = jstate(*ar->read_mstate(unhex(h))); })).raw("p", jbytes(unhex(h))).raw("v", v);
            emit(j);
        } else if (op == "K") {
            auto h = path_arg();
            std::string v = "0";
            uint64_t i = 0;
            J j = ev("inject");
            j.str("r", call([&]() {
                auto b = rainman::ptr<HZ_Blob>();
                ar->inject_mstate(unhex(h), b);
                i = b->mstate_id;
                v = jstate(*b->mstate);
            })).raw("p", jbytes(unhex(h))).str("id", hex64(i)).raw("v", v);
            emit(j);
        } else if (op == "X") {
            std::string t;
            in >> t;
            auto h = path_arg();
            bool v = false;
            J j = ev("exists");
            j.str("r", call([&]() { v = t == "f" ? ar->check_file_exists(unhex(h)) : ar->check_mstate_exists(unhex(h)); }))
                    .str("t", t).raw("p", jbytes(unhex(h))).boolean("v", v);
            emit(j);
        } else if (op == "L") {
            std::string t;
            in >> t;
            auto h = path_arg();
            std::vector<std::string> v;
            J j = ev("list");
            j.str("r", call([&]() {
                for (auto &e: t == "f" ? ar->list_file_system(unhex(h)) : ar->list_mstate_system(unhex(h)))
                    v.push_back(J().raw("e", jbytes(e.entry)).boolean("leaf", e.is_leaf).done());
            })).str("t", t).raw("p", jbytes(unhex(h))).raw("v", jlist(v));
            emit(j);
        } else if (op == "S") {
            std::vector<std::string> f, m;
            J j = ev("snap");
            j.str("r", call([&]() {
                walk(true, "/", f, 0);
                walk(false, "/", m, 0);
            })).raw("files", jlist(f)).raw("names", jlist(m));
            emit(j);
        } else {
            fprintf(stderr, "unknown op %s\n", op.c_str());
            exit(4);
        }
    }

    // Runs the lines from `from` on; an F continues in a forked process.
    void run(const std::vector<std::string> &lines, size_t from) {
        for (size_t i = from; i < lines.size(); i++) {
            if (lines[i] == "F") {
                tick("fork", 120);
                pid_t p = fork();
                if (p == 0) {
                    step("O");
                    run(lines, i + 1);
                    return;
                }
                alarm(0);
                int st;
                waitpid(p, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(5);
                _exit(0);
            }
            step(lines[i]);
        }
    }
};

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    T.open(argv[2]);
    dir = argv[3];
    quiet();
    guard(T);
    std::ifstream in(argv[1]);
    std::vector<std::pair<std::string, std::vector<std::string>>> hs;
    std::string l;
    while (std::getline(in, l)) {
        if (l.empty()) continue;
        if (l[0] == 'H') hs.push_back({l.substr(2), {}});
        else hs.back().second.push_back(l);
    }
    // known before any fork, so that the parent can remove it
    for (size_t h = 0; h < hs.size(); h++) {
        pid_t p = fork();
        std::string path = dir + "/h" + std::to_string(h) + ".hz";
        if (p == 0) {
            History x;
            x.path = path;
            x.role = hs[h].first;
            J j;
            j.str("k", "new").num("h", h);
            if (x.role == "var") j.num("all", 1);
            else j.num("restart", 1);
            T(j);
            x.run(hs[h].second, 0);
            alarm(0);
            sem_cleanup();
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        unlink(path.c_str());
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            T(J().str("k", "crash").num("sig", st).str("at", "history"));
            return 0;
        }
    }
    T(J().str("k", "end"));
    return 0;
}
