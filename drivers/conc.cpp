// Runs small concurrent programs against the components under many schedules
// and records what each one did; identical recordings are kept once.
// usage: conc <kind> <seed> <programs> <schedules> <shard> <shards> <out> <dir>
#include "vsched.h"
#include "archive_util.h"
#include "fake_opencl.h"
#include "guard.h"
#include <fstream>
#include <memory>
#include <regex>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unordered_set>
#include <hzip_codec/processor/processor.h>
#include <hzip_core/opencl/cl_helper.h>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_core/utils/semaphore.h>
#include <hzip_network/api/providers/archive_provider.h>

using namespace vp;

static Trace T;            // in the child: the pipe to the parent
static std::string dir;    // scratch directory of this process
static uint64_t prog_no;

using Program = std::function<void()>;

static void threads(const std::vector<std::function<void()>> &fs) {
    std::vector<std::thread> ts;
    for (auto &f: fs) ts.emplace_back(f);
    for (auto &t: ts) t.join();
}

static J call(int t, const char *op) { return J().str("k", "call").num("t", t).str("op", op); }

static J ret(int t) { return J().str("k", "ret").num("t", t); }

// ------------------------------------------------------------------ semaphore
static Program sem_program(Rng &r) {
    int init = r.below(4), nt = r.range(2, 5);
    std::vector<std::string> ops(nt);
    for (auto &o: ops) for (int k = r.range(1, 3); k > 0; k--) o += r.chance(55) ? 'a' : 'r';
    if (r.chance(30)) {  // many waiters, then releases
        for (int k = 0; k < nt; k++) ops[k] = k < nt - 1 ? "a" : std::string(nt - 1, 'r');
        init = r.below(2);
    }
    uint64_t count = init;
    if (r.chance(4)) count = r.pick(std::vector<uint64_t>{127, 128, 255, 256, 257, 32768, 65535, 65536, 1ull << 31, 1ull << 32, ~0ull - 100});
    return [=]() {
        // more permits than calls in any schedule are all the same
        T(J().str("k", "new").num("restart", 1).num("count", std::min<uint64_t>(count, 1000000)));
        auto s = new Semaphore(count);
        auto left = std::make_shared<int>(nt);
        for (int t = 0; t < nt; t++)
            std::thread([=]() {
                for (char c: ops[t]) {
                    T(call(t, c == 'a' ? "acquire" : "release"));
                    if (c == 'a') s->acquire();
                    else s->release();
                    T(ret(t));
                }
                --*left;
            }).detach();
        for (int k = 0; k < 40; k++) {
            vs::settle();
            T(J().str("k", "quiet"));
            if (!*left) break;
            T(call(99, "release"));
            s->release();
            T(ret(99));
        }
    };
}

// ------------------------------------------------------------------ archive
static std::string hexpath(const char *p) { return jbytes(std::string(p)); }

struct ArchiveOp {
    std::string op, p, id, ms, t;
    uint64_t n = 0, hn = 0, seed = 0;
    int k = 0;  // blobs of a create
};

struct Shared {
    std::unique_ptr<HZ_Archive> ar;
    std::map<std::string, uint64_t> ids;

    uint64_t id(const std::string &s) {
        auto it = ids.find(s);
        return it == ids.end() ? 0xdead : it->second;
    }
};

// On x's own archive, or on another instance of the file f.
static void archive_op(Shared &x, int t, const ArchiveOp &o, HZ_Archive *at = nullptr, const char *f = nullptr, const char *by = nullptr) {
    J j = call(t, o.op.c_str());
    if (f) j.str("f", f).str("by", by);
    if (!o.p.empty()) j.raw("p", jbytes(o.p));
    if (!o.id.empty()) j.str("id", o.id);
    if (!o.t.empty()) j.str("t2", o.t);
    std::string v;
    rainman::ptr<HZ_MState> ms;
    rainman::ptr<HZ_Blob> blobs(0);
    {
        if (o.op == "add" || o.op == "install") {
            ms = make_state(1 + o.seed % 3, o.n, o.seed);
            j.raw("m", state_json(*ms));
        } else if (o.op == "create" || o.op == "write") {
            int k = o.op == "write" ? 1 : o.k;
            blobs = rainman::ptr<HZ_Blob>(k);
            std::vector<std::string> bs;
            for (int i = 0; i < k; i++) {
                blobs[i] = make_blob(o.n + i, o.hn, o.seed + i, x.id(o.ms));
                bs.push_back(blob_json(blobs[i]).str("ms", o.ms).str("id", o.id + "#" + std::to_string(i)).done());
            }
            j.raw("b", jlist(bs));
        }
    }
    T(j);
    bool gone = false;
    auto r = outcome([&]() {
        auto &a = at ? *at : *x.ar;
        if (o.op == "add") x.ids[o.id] = a.install_mstate(ms);
        else if (o.op == "install") a.install_mstate(o.p, ms);
        else if (o.op == "create") a.create_file(o.p, blobs, blobs.size());
        else if (o.op == "write") {
            auto b = rainman::ptr<HZ_Blob>();
            *b = blobs[0];
            auto i = a.write_blob(b);
            x.ids[o.id + "#0"] = i;
        } else if (o.op == "remove") a.remove_file(o.p);
        else if (o.op == "uninstall") a.uninstall_mstate(o.p);
        else if (o.op == "uninstallid") a.uninstall_mstate(x.id(o.id));
        else if (o.op == "read") {
            rainman::ptr<HZ_Blob> b(0);
            try {
                b = a.read_file(o.p);
            } catch (ArchiveErrors::FileNotFoundException &) {
                gone = true;
                return;
            }
            std::vector<std::string> vs;
            for (uint64_t i = 0; i < b.size(); i++) vs.push_back(full_json(b[i]).done());
            v = jlist(vs);
        } else if (o.op == "readblob") v = full_json(*a.read_blob(x.id(o.id))).done();
        else if (o.op == "readname") v = state_json(*a.read_mstate(o.p));
        else if (o.op == "inject") {
            auto b = rainman::ptr<HZ_Blob>();
            a.inject_mstate(o.p, b);
            v = state_json(*b->mstate);
        } else if (o.op == "exists") v = (o.t == "f" ? a.check_file_exists(o.p) : a.check_mstate_exists(o.p)) ? "true" : "false";
        else if (o.op == "list") {
            std::vector<std::string> vs;
            for (auto &e: o.t == "f" ? a.list_file_system(o.p) : a.list_mstate_system(o.p))
                vs.push_back(J().raw("e", jbytes(e.entry)).boolean("leaf", e.is_leaf).done());
            v = jlist(vs);
        } else abort();
    });
    J q = ret(t).str("r", gone ? "gone" : r);
    if (r == "ok" && !v.empty()) q.raw("v", v);
    T(q);
}

// does the text at i belong to a field with ids?
static bool is_id(const std::string &s, size_t i) {
    for (auto f: {"\"id\":\"", "\"ms\":\""}) if (i >= strlen(f) && s.compare(i - strlen(f), strlen(f), f) == 0) return true;
    auto q = s.rfind('[', i), b = s.rfind(']', i);
    return q != std::string::npos && q >= 4 && (b == std::string::npos || b < q) && s.compare(q - 4, 4, "\"b\":") == 0;
}

static void final_line(HZ_Archive &ar, bitio::stream *s, const char *file = nullptr) {
    std::vector<std::string> f, n;
    auto r = outcome([&]() {
        walk_tree(ar, true, "/", f);
        walk_tree(ar, false, "/", n);
    });
    // ids are drawn at random: number them in order of appearance
    std::string segs = read_segments(s->shim_bytes().data(), s->shim_bits()).json, out;
    std::map<std::string, size_t> no;
    for (size_t i = 0; i < segs.size();) {
        size_t j = i;
        while (j < segs.size() && isxdigit((unsigned char) segs[j])) j++;
        if (j - i >= 10 && i && segs[i - 1] == '"' && j < segs.size() && segs[j] == '"' && is_id(segs, i))
            out += "i" + std::to_string(no.emplace(segs.substr(i, j - i), no.size()).first->second);
        else out.append(segs, i, std::max(j, i + 1) - i);
        i = std::max(j, i + 1);
    }
    J j;
    j.str("k", "final").str("r", r).raw("files", jlist(f)).raw("names", jlist(n)).raw("segs", out);
    if (file) j.str("f", file);
    T(j);
}

struct Archiving {
    std::vector<ArchiveOp> setup;
    std::vector<std::vector<ArchiveOp>> prog;
};

static Archiving archive_ops(Rng &r, int most = 3) {
    // everybody at the same entry, or all over the place
    bool hot = r.chance(55);
    const std::vector<std::string> files = hot ? std::vector<std::string>{"/d/x"} : std::vector<std::string>{"/a", "/b", "/d/x", "/d/y", "/d"},
            names = hot ? std::vector<std::string>{"/n"} : std::vector<std::string>{"/n", "/k", "/k/z"};
    int lean = hot ? r.below(3) : 0;
    auto sz = [&]() { return r.pick(std::vector<uint64_t>{0, 1, 3, 9, 10, 20}); };
    int uid = 0;
    auto gen = [&](const std::vector<std::string> &states) {
        ArchiveOp o;
        o.seed = r.below(1 << 20);
        o.n = sz();
        o.id = "o" + std::to_string(uid++);
        o.p = r.pick(files);
        o.ms = r.pick(states);
        int what = r.below(17);
        if (lean == 1) what = r.pick(std::vector<int>{0, 3, 6, 6, 13, 15, 16});
        if (lean == 2) what = r.pick(std::vector<int>{8, 9, 10, 12, 12, 13, 15});
        switch (what) {
            case 0: case 1: case 2:
                o.op = "create";
                o.k = r.below(hot ? 4 : 3);
                o.hn = sz();
                if (r.chance(hot ? 3 : 10)) o.ms = "none";
                if (r.chance(hot ? 3 : 10)) o.p = "//bad";
                break;
            case 3: case 4: case 5:
                o.op = "remove";
                break;
            case 6: case 7:
                o.op = "read";
                break;
            case 8:
                o.op = "write";
                o.p = "";
                break;
            case 9:
                o.op = "install";
                o.p = r.pick(names);
                break;
            case 10:
                o.op = "uninstall";
                o.p = r.pick(names);
                break;
            case 11:
                o.op = "uninstallid";
                o.p = "";
                o.id = r.pick(states);
                break;
            case 12:
                o.op = r.chance(50) ? "readname" : "inject";
                o.p = r.pick(names);
                break;
            case 13: case 14:
                o.op = "exists";
                o.t = r.chance(70) ? "f" : "m";
                if (o.t == "m") o.p = r.pick(names);
                break;
            case 15:
                o.op = "list";
                o.t = r.chance(70) ? "f" : "m";
                o.p = r.chance(60) ? "/" : o.t == "f" ? "/d" : "/k";
                break;
            default:
                o.op = "readblob";
                o.p = "";
                o.id = "s4#0";
        }
        return o;
    };
    std::vector<ArchiveOp> setup;
    auto mk = [&](const char *op, const char *p, const char *id, const char *ms, int k) {
        ArchiveOp o;
        o.op = op;
        o.p = p;
        o.id = id;
        o.ms = ms;
        o.k = k;
        o.n = sz();
        o.hn = o.op == "create" ? sz() : 0;
        o.seed = r.below(1 << 20);
        setup.push_back(o);
    };
    mk("add", "", "m0", "", 0);
    mk("add", "", "m1", "", 0);
    if (r.chance(70)) mk("install", "/n", "m2", "", 0);
    if (r.chance(60)) mk("create", "/a", "s0", "m0", 1);
    if (r.chance(lean == 1 ? 90 : 60)) mk("create", "/d/x", "s1", r.chance(50) ? "m1" : "m0", hot ? 3 : 2);
    if (r.chance(50)) mk("write", "", "s4", "m1", 1);
    if (r.chance(30)) mk("remove", "/a", "", "", 0);
    std::vector<std::vector<ArchiveOp>> prog(r.range(2, most));
    for (auto &p: prog) for (int k = r.range(1, 3); k > 0; k--) p.push_back(gen({"m0", "m1"}));
    return {setup, prog};
}

static Program archive_program(Rng &r) {
    auto todo = archive_ops(r);
    auto setup = todo.setup;
    auto prog = todo.prog;
    return [=]() {
        std::string path = dir + "/p.hz";
        unlink(path.c_str());
        T(J().str("k", "new").num("restart", 1));
        Shared x;
        x.ar = std::make_unique<HZ_Archive>(path);
        auto s = newest_stream();
        x.ar->load();
        for (auto &o: setup) archive_op(x, 50, o);
        std::vector<std::function<void()>> fs;
        for (size_t t = 0; t < prog.size(); t++)
            fs.push_back([&, t]() { for (auto &o: prog[t]) archive_op(x, t, o); });
        threads(fs);
        final_line(*x.ar, s);
        x.ar->close();
        x.ar.reset();
        x.ar = std::make_unique<HZ_Archive>(path);
        s = newest_stream();
        x.ar->load();
        final_line(*x.ar, s);
        x.ar->close();
    };
}

// ------------------------------------------------------------------ opening
static void raw_file(const std::string &p, const std::vector<uint8_t> &b) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write((const char *) b.data(), b.size());
}

static void prepare_files(bool exist) {
    for (auto n: {"x.hz", "y.hz", "bad.hz"}) unlink((dir + "/" + n).c_str());
    mkdir((dir + "/sub").c_str(), 0777);
    mkdir((dir + "/folder.hz").c_str(), 0777);
    // a version this program does not know
    raw_file(dir + "/bad.hz", {1, 0, 0, 0, 0, 0, 0, 0, 0x20, 0, 9, 9, 9, 0xff});
    unlink((dir + "/link.hz").c_str());
    if (exist) {
        HZ_Archive a(dir + "/x.hz");
        a.close();
        if (symlink("x.hz", (dir + "/link.hz").c_str())) {}
    }
    if (chdir(dir.c_str())) abort();
}

static std::string spelling(Rng &r, const std::string &f, bool exist) {
    switch (r.below(exist && f == "x.hz" ? 7 : 6)) {
        case 0: return dir + "/" + f;
        case 1: return f;
        case 2: return "./" + f;
        case 3: return dir + "/sub/../" + f;
        case 4: return dir + "//" + f;
        case 5: return "sub/./../" + f;
        default: return "link.hz";
    }
}

static Program open_program(Rng &r) {
    bool exist = r.chance(40);
    struct Use {
        std::string f, spell;
        bool twice, add, load;
    };
    std::vector<std::vector<Use>> prog(r.range(2, 4));
    for (auto &p: prog)
        for (int k = r.range(1, 2); k > 0; k--) {
            std::string f = r.pick(std::vector<std::string>{"x.hz", "x.hz", "x.hz", "y.hz", "bad.hz", "folder.hz"});
            p.push_back({f, spelling(r, f, exist), r.chance(30), r.chance(70), true});
        }
    return [=]() {
        vs::quietly++;
        prepare_files(exist);
        vs::quietly--;
        T(J().str("k", "new").num("restart", 1));
        std::vector<std::function<void()>> fs;
        for (int t = 0; t < (int) prog.size(); t++)
            fs.push_back([&, t]() {
                int n = 0;
                for (auto &u: prog[t]) {
                    std::unique_ptr<HZ_Archive> a;
                    T(call(t, "open").str("f", u.f));
                    std::string r;
                    try {
                        a = std::make_unique<HZ_Archive>(u.spell);
                        a->load();
                        r = "ok";
                    } catch (std::exception &) {
                        r = "err";
                    }
                    std::vector<std::string> seen;
                    if (r == "ok") for (auto &e: a->list_file_system("/")) seen.push_back(e.entry);
                    T(ret(t).str("r", r).strs("seen", seen));
                    if (r != "ok") continue;
                    std::string name = "t" + std::to_string(t) + "n" + std::to_string(n++);
                    if (u.add) {
                        T(call(t, "put").str("name", name));
                        auto rr = outcome([&]() { a->create_file("/" + name, rainman::ptr<HZ_Blob>(0), 0); });
                        T(ret(t).str("r", rr));
                    }
                    T(call(t, "close"));
                    auto rc = outcome([&]() {
                        a->close();
                        if (u.twice) a->close();
                    });
                    T(ret(t).str("r", rc));
                }
            });
        threads(fs);
        T(J().str("k", "quiet"));
    };
}

static Program provide_program(Rng &r) {
    bool exist = r.chance(40);
    struct Ask {
        std::string f, spell;
    };
    std::vector<std::vector<Ask>> prog(r.range(2, 4));
    for (auto &p: prog)
        for (int k = r.range(1, 3); k > 0; k--) {
            std::string f = r.pick(std::vector<std::string>{"x.hz", "x.hz", "x.hz", "y.hz", "y.hz", "bad.hz", "folder.hz"});
            p.push_back({f, spelling(r, f, exist)});
        }
    // as many archives as a server may have to keep
    std::vector<std::string> all = {"x.hz", "y.hz"};
    if (r.chance(6)) for (int n = r.pick(std::vector<int>{3, 7, 15, 31}); n >= 0; n--) all.push_back("z" + std::to_string(n) + ".hz");
    for (size_t k = 2; k < all.size(); k++) {
        auto &p = prog[k % prog.size()];
        p.insert(p.begin() + r.below(p.size() + 1), {all[k], spelling(r, all[k], false)});
    }
    return [=]() {
        vs::quietly++;
        prepare_files(exist);
        for (size_t k = 2; k < all.size(); k++) unlink((dir + "/" + all[k]).c_str());
        vs::quietly--;
        T(J().str("k", "new").num("restart", 1));
        auto pv = new hzapi::ArchiveProvider();
        std::map<HZ_Archive *, int> inst;
        std::vector<rainman::ptr<HZ_Archive>> keep;
        std::vector<std::function<void()>> fs;
        auto one = [&](int t, const Ask &u) {
            T(call(t, "provide").str("f", u.f));
            std::string r = "ok";
            int i = -1;
            try {
                auto a = pv->provide(u.spell);
                keep.push_back(a);
                i = inst.emplace(a.pointer(), inst.size()).first->second;
                a->check_file_exists("/a");
            } catch (std::exception &) {
                r = "err";
            }
            T(ret(t).str("r", r).num("i", i));
        };
        for (int t = 0; t < (int) prog.size(); t++)
            fs.push_back([&, t]() { for (auto &u: prog[t]) one(t, u); });
        threads(fs);
        for (auto &f: all) one(20, {f, dir + "/" + f});
        T(call(20, "closeall"));
        pv->close();
        T(ret(20).str("r", "ok").num("i", -1));
        auto after = all;
        after.push_back("bad.hz");
        for (auto &f: after) {
            // given back: can be opened again by anybody
            T(call(20, "open").str("f", f));
            std::string rr = "ok";
            try {
                HZ_Archive a(dir + "/" + f);
                a.load();
                a.close();
            } catch (std::exception &) {
                rr = "err";
            }
            T(ret(20).str("r", rr).strs("seen", std::vector<std::string>{}));
            if (rr == "ok") {
                T(call(20, "close"));
                T(ret(20).str("r", "ok"));
            }
        }
        T(J().str("k", "quiet"));
    };
}

// Archives are closed, one by one or by the provider, while others use them.
static Program closing_program(Rng &r) {
    bool provider = r.chance(60), late = r.chance(30);
    const char *names[] = {"x.hz", "y.hz"};
    int nf = provider && r.chance(45) ? 2 : 1;
    std::vector<Archiving> todo;
    for (int f = 0; f < nf; f++) todo.push_back(archive_ops(r, 2));
    struct Use {
        int f;
        std::string spell;
        ArchiveOp op;
    };
    // sessions go from one archive to the other
    std::vector<std::vector<Use>> prog(2);
    for (int t = 0; t < 2; t++)
        for (int k = r.range(1, 3); k > 0; k--) {
            int f = r.below(nf);
            auto &ops = todo[f].prog[t];
            prog[t].push_back({f, spelling(r, names[f], false), ops[std::min<size_t>(k, ops.size()) - 1]});
            prog[t].back().op.id += ops[std::min<size_t>(k, ops.size()) - 1].op == "uninstallid" || prog[t].back().op.id[0] != 'o' ? "" : "t" + std::to_string(t) + std::to_string(k);
        }
    bool outsider = r.chance(50), again = r.chance(40);
    int of = r.below(nf);
    auto ospell = spelling(r, names[of], false);
    std::vector<ArchiveOp> oops = {todo[of].prog[0][0]};
    oops[0].id += oops[0].id[0] == 'o' ? "out" : "";
    return [=]() {
        vs::quietly++;
        prepare_files(false);
        vs::quietly--;
        T(J().str("k", "new").num("restart", 1));
        auto pv = new hzapi::ArchiveProvider();
        auto x = new Shared[2];
        rainman::ptr<HZ_Archive> own(0);
        auto provide = [&](int t, int f, const std::string &spell) -> rainman::ptr<HZ_Archive> {
            T(call(t, "provide").str("f", names[f]));
            rainman::ptr<HZ_Archive> a(0);
            auto res = outcome([&]() {
                if (provider) a = pv->provide(spell);
                else {
                    if (!own.size()) {
                        own = rainman::ptr<HZ_Archive>(1, spell);
                        own->load();
                    }
                    a = own;
                }
            });
            T(ret(t).str("r", res == "ok" ? "ok" : "err"));    // of whatever type
            return a;
        };
        bool early[2];
        for (int f = 0; f < nf; f++) {
            early[f] = !late || !provider;
            if (!early[f]) continue;
            auto a = provide(50, f, dir + "/" + names[f]);
            for (auto &o: todo[f].setup) archive_op(x[f], 50, o, a.pointer(), names[f], "in");
        }
        std::vector<std::function<void()>> fs;
        for (int t = 0; t < 2; t++)
            fs.push_back([&, t]() {
                rainman::ptr<HZ_Archive> a(0);
                int have = -1;
                for (auto &u: prog[t]) {
                    if (have != u.f && provider) a = provide(t, u.f, u.spell);
                    else if (have != u.f) a = own;
                    have = a.size() ? u.f : -1;
                    if (have >= 0) archive_op(x[u.f], t, u.op, a.pointer(), names[u.f], "in");
                }
            });
        auto closer = [&](int t0) {
            if (provider) {
                for (int f = 0; f < nf; f++) T(call(t0 + f, "close").str("f", names[f]));
                auto res = outcome([&]() { pv->close(); });
                for (int f = 0; f < nf; f++) T(ret(t0 + f).str("r", res));
            } else {
                T(call(t0, "close").str("f", names[0]));
                T(ret(t0).str("r", outcome([&]() { own->close(); })));
            }
        };
        fs.push_back([&]() { closer(90); });
        if (again) fs.push_back([&]() { closer(94); });
        if (outsider)
            fs.push_back([&]() {
                T(call(20, "open").str("f", names[of]));
                std::unique_ptr<HZ_Archive> a;
                auto res = outcome([&]() {
                    a = std::make_unique<HZ_Archive>(ospell);
                    a->load();
                });
                T(ret(20).str("r", res));
                if (res != "ok") return;
                for (auto &o: oops) archive_op(x[of], 20, o, a.get(), names[of], "out");
                T(call(20, "leave").str("f", names[of]));
                T(ret(20).str("r", outcome([&]() { a->close(); })));
            });
        threads(fs);
        // what the next owners find
        for (int f = 0; f < nf; f++) {
            auto a = std::make_unique<HZ_Archive>(dir + "/" + names[f]);
            auto s = newest_stream();
            a->load();
            final_line(*a, s, names[f]);
            a->close();
        }
    };
}

// Real processes with the real named semaphore; lines are written by single
// write calls to one file.
static void processes(Rng &r, int rounds) {
    prepare_files(false);
    T(J().str("k", "new").num("restart", 1));
    std::vector<pid_t> ps;
    int n = r.range(2, 4);
    for (int t = 0; t < n; t++) {
        uint64_t seed = r.next();
        pid_t c = fork();
        if (c == 0) {
            Rng q(seed);
            for (int k = 0; k < rounds; k++) {
                std::string f = q.pick(std::vector<std::string>{"x.hz", "x.hz", "x.hz", "bad.hz"}), sp = spelling(q, f, false);
                T(call(t, "open").str("f", f));
                std::unique_ptr<HZ_Archive> a;
                std::string rr = "ok";
                try {
                    a = std::make_unique<HZ_Archive>(sp);
                    a->load();
                } catch (std::exception &) {
                    rr = "err";
                }
                std::vector<std::string> names;
                if (rr == "ok") for (auto &e: a->list_file_system("/")) names.push_back(e.entry);
                T(ret(t).str("r", rr).strs("seen", names));
                if (rr != "ok") continue;
                usleep(q.below(1500));
                std::string name = "p" + std::to_string(t) + "n" + std::to_string(k);
                T(call(t, "put").str("name", name));
                auto pr = outcome([&]() { a->create_file("/" + name, rainman::ptr<HZ_Blob>(0), 0); });
                T(ret(t).str("r", pr));
                T(call(t, "close"));
                auto rc = outcome([&]() {
                    a->close();
                    if (q.chance(30)) a->close();
                });
                T(ret(t).str("r", rc));
                usleep(q.below(500));
            }
            _exit(0);
        }
        ps.push_back(c);
    }
    // all of them together have a minute
    size_t left = ps.size();
    bool crashed = false;
    for (int w = 0; w < 60000 && left; w++) {
        for (auto &p: ps) {
            int st;
            if (p > 0 && waitpid(p, &st, WNOHANG) == p) {
                p = 0;
                left--;
                crashed |= !WIFEXITED(st) || WEXITSTATUS(st);
            }
        }
        if (left) usleep(1000);
    }
    for (auto p: ps)
        if (p > 0) {
            kill(p, SIGKILL);
            waitpid(p, nullptr, 0);
        }
    if (crashed) T(J().str("k", "crash").str("at", "a process"));
    else if (left) T(J().str("k", "stuck").raw("who", "[]"));
    else T(J().str("k", "quiet"));
}

// ------------------------------------------------------------------ jobs
static int job_depth[256];

struct JobSpec {
    std::string kind, addr, cb;  // cb: none, ok, throw, throwint
    int alg = 0;
    bool archive = true, text = true;
    uint64_t n = 0, seed = 0;
    std::vector<std::string> deaf;   // the reports nobody wants
};

static Program jobs_program(Rng &r, bool heavy) {
    int n = r.range(1, 3), nj = r.range(2, 6);
    uint64_t slots = n;
    if (r.chance(4)) slots = r.pick(std::vector<uint64_t>{255, 256, 257, 65536, 1ull << 32}), n = 255;
    std::vector<JobSpec> jobs;
    bool some_deaf = r.chance(25);
    for (int k = 0; k < nj; k++) {
        JobSpec j;
        if (some_deaf) for (auto w: {"id", "success", "error", "completed"}) if (r.chance(35)) j.deaf.push_back(w);
        j.n = r.pick(std::vector<uint64_t>{1, 2, 7, 30, 200});
        j.seed = r.below(1 << 20);
        j.archive = r.chance(80);
        j.cb = r.pick(std::vector<std::string>{"none", "ok", "ok", "throw", "throwint"});
        switch (r.below(6)) {
            case 0: case 1: case 2:
                j.kind = "encode";
                j.alg = r.pick(std::vector<int>{0, 0, 0, 7, 2});
                if (r.chance(30)) j.addr = r.chance(60) ? "/t0" : "/none";
                break;
            case 3: case 4:
                j.kind = "decode";
                j.alg = r.pick(std::vector<int>{0, 0, 0, 7});
                break;
            default:
                j.kind = "train";
                j.alg = r.pick(std::vector<int>{0, 7, 0});
                j.addr = r.pick(std::vector<std::string>{"", "/t0", "/t0", "/new", "/t0/x"});
        }
        if (heavy && k == 0) {
            j.kind = r.chance(40) ? "encode" : "train";
            j.alg = 1;
            j.addr = j.kind == "train" ? r.pick(std::vector<std::string>{"/new", "/new", "/t0/x"}) : "";
            j.archive = j.kind == "train" || r.chance(30);
            j.cb = "ok";
            j.n = 30;
        }
        jobs.push_back(j);
    }
    bool cycle = r.chance(50);
    return [=]() {
        std::string path = dir + "/p.hz";
        unlink(path.c_str());
        T(J().str("k", "new").num("restart", 1).num("n", n));
        auto arp = rainman::ptr<HZ_Archive>(1, path);
        arp->load();
        arp->install_mstate("/t0", make_state(0, 5, 77));
        auto names = [&](const char *k) {
            std::vector<std::string> v;
            for (auto &e: arp->list_mstate_system("/")) {
                if (!e.is_leaf) {
                    v.push_back(J().raw("p", jbytes("/" + e.entry)).raw("v", "0").done());
                    continue;
                }
                v.push_back(J().raw("p", jbytes("/" + e.entry)).raw("v", state_json(*arp->read_mstate("/" + e.entry))).done());
            }
            T(J().str("k", k).raw("names", jlist(v)));
        };
        names("names");
        auto proc = new HZ_Processor(slots);
        for (int k = 0; k < (int) jobs.size(); k++) {
            auto &s = jobs[k];
            auto job = rainman::ptr<HZ_Job>();
            auto codec = rainman::ptr<HZ_CodecJob>();
            auto stub = rainman::ptr<HZ_JobStub>();
            codec->algorithm = (hzcodec::algorithms::ALGORITHM) s.alg;
            codec->job_type = s.kind == "encode" ? HZ_CodecJob::ENCODE : s.kind == "decode" ? HZ_CodecJob::DECODE : HZ_CodecJob::TRAIN;
            if (s.archive) codec->archive = rainman::option<rainman::ptr<HZ_Archive>>(arp);
            if (!s.addr.empty()) codec->mstate_addr = rainman::option<std::string>(s.addr);
            auto blob = rainman::ptr<HZ_Blob>();
            blob->data = make_bytes(s.n, s.seed);
            blob->size = s.n;
            blob->o_size = s.n;
            blob->mstate = rainman::ptr<HZ_MState>();
            codec->blob = blob;
            if (s.cb != "none")
                codec->blob_callback = [k, cb = s.cb](rainman::ptr<HZ_Blob> b) {
                    T(J().str("k", "cb").num("j", k).num("t", vs::self).str("w", "blob"));
                    for (int z = 0; z < 3; z++) vs::point();
                    T(J().str("k", "cb").num("j", k).num("t", vs::self).str("w", "blobend"));
                    if (cb == "throw") throw std::runtime_error("no");
                    if (cb == "throwint") throw 5;
                };
            codec->blob_id_callback = [k](uint64_t) { T(J().str("k", "cb").num("j", k).num("t", vs::self).str("w", "id")); };
            auto heard = [&](const char *w) { return std::find(s.deaf.begin(), s.deaf.end(), w) == s.deaf.end(); };
            auto say = [k](const char *w) {
                return [k, w](const std::string &) { T(J().str("k", "cb").num("j", k).num("t", vs::self).str("w", w)); };
            };
            if (!heard("id")) codec->blob_id_callback = nullptr;
            if (heard("success")) stub->on_success = say("success");
            if (heard("error")) stub->on_error = say("error");
            if (heard("completed")) stub->on_completed = [k]() { T(J().str("k", "cb").num("j", k).num("t", vs::self).str("w", "completed")); };
            job->type = HZ_Job::CODEC;
            job->codec = codec;
            job->stub = stub;
            T(J().str("k", "job").num("j", k).str("kind", s.kind).str("addr", s.addr).str("cb", s.cb).num("alg", s.alg)
                      .boolean("archive", s.archive).num("n", s.n).raw("deaf", [&]() {
                          std::vector<std::string> v;
                          for (auto &w: s.deaf) v.push_back("\"" + w + "\"");
                          return jlist(v);
                      }()));
            proc->run(job);
            if (cycle) {
                T(J().str("k", "cycle"));
                proc->cycle();
            }
        }
        vs::settle();
        T(J().str("k", "idle"));
        names("after");
    };
}

// Entry to and exit from the codecs, by symbol name.
static bool is_codec(void *f) {
    static std::map<void *, bool> *known = new std::map<void *, bool>();
    auto it = known->find(f);
    if (it != known->end()) return it->second;
    Dl_info i{};
    bool b = false;
    if (dladdr(f, &i) && i.dli_sname) {
        std::string s = i.dli_sname;
        b = s.find("7hzcodec") != std::string::npos &&
            (s.find("8compress") != std::string::npos || s.find("10decompress") != std::string::npos || s.find("5train") != std::string::npos) &&
            s.find("AbstractCodec") == std::string::npos;
    }
    return (*known)[f] = b;
}

extern "C" void __cyg_profile_func_enter(void *f, void *) {
    if (!vs::on || vs::self < 0 || vs::quietly) return;
    vs::quietly++;
    bool c = is_codec(f);
    if (c) {
        if (job_depth[vs::self & 255]++ == 0) T(J().str("k", "enter").num("t", vs::self));
    }
    vs::quietly--;
    if (c) vs::point();
}

extern "C" void __cyg_profile_func_exit(void *f, void *) {
    if (!vs::on || vs::self < 0 || vs::quietly) return;
    vs::quietly++;
    bool c = is_codec(f);
    vs::quietly--;
    if (c) {
        vs::point();
        vs::quietly++;
        if (--job_depth[vs::self & 255] == 0) T(J().str("k", "leave").num("t", vs::self));
        vs::quietly--;
    }
}

// ------------------------------------------------------------------ caches
static Program cache_program(Rng &r) {
    std::vector<std::tuple<int, int, int>> phases;  // resources, threads, calls per thread
    for (int k = r.range(1, 3); k > 0; k--) {
        phases.push_back({r.range(1, 5), r.range(1, 4), r.range(1, 4)});
        if (r.chance(3)) phases.back() = {r.range(250, 300), 2, 160};
    }
    return [=]() {
        T(J().str("k", "new").num("restart", 1));
        int gen = 0;
        for (auto [n, nt, calls]: phases) {
            std::string base = "c" + std::to_string(gen++);
            hzruntime::CacheProvider::init_cache(base, n, 64 * gen);
            T(J().str("k", "config").num("n", n));
            std::map<std::mutex *, int> locks;
            std::vector<std::function<void()>> fs;
            for (int t = 0; t < nt; t++)
                fs.push_back([&, t, calls = calls, n = n]() {
                    for (int c = 0; c < calls; c++) {
                        T(call(t, "get"));
                        auto p = hzruntime::CacheProvider::get_cache();
                        vs::quietly++;
                        // the resource is named after its position
                        std::string nm = p.first.shim_name(), pre = base + ".rain.";
                        int i = -1;
                        for (int z = 0; z < n; z++) if (nm == pre + std::to_string(z)) i = z;
                        int l = locks.emplace(&p.second, locks.size()).first->second;
                        bool page = p.first.shim_page() == (uint64_t) 64 * gen;
                        vs::quietly--;
                        T(ret(t).str("r", page ? "ok" : "other page size").num("i", i).num("l", l));
                        std::scoped_lock<std::mutex> hold(p.second);
                        vs::point();
                    }
                });
            threads(fs);
        }
    };
}

// ------------------------------------------------------------------ OpenCL programs
static Program opencl_program(Rng &r) {
    struct Op {
        std::string op, name, re;
        std::vector<std::string> matching;
    };
    std::vector<std::vector<std::string>> devs;
    int id = 0;
    for (int k = r.range(0, 2); k > 0; k--) {
        devs.emplace_back();
        for (int d = r.range(0, 3); d > 0; d--) devs.back().push_back((r.chance(50) ? "gpu" : "cpu") + std::to_string(id++));
    }
    std::vector<std::string> all;
    for (auto &p: devs) for (auto &d: p) all.push_back(d);
    std::string failing = r.chance(25) && !all.empty() ? r.pick(all) : "";
    auto gen = [&](bool structural) {
        Op o;
        int x = r.below(100);
        o.name = r.pick(std::vector<std::string>{"p", "q"});
        if (structural && x < 12) o.op = "load";
        else if (structural && x < 24) {
            o.op = "filter";
            o.re = r.pick(std::vector<std::string>{"gpu", "cpu", "u[0-1]", ".*", "^gpu0$", "none"});
            for (auto &d: all) if (std::regex_search(d, std::regex(o.re))) o.matching.push_back(d);
        } else if (x < 50) o.op = "register";
        else if (x < 92) o.op = "get";
        else o.op = "devices";
        return o;
    };
    std::vector<Op> setup;
    if (r.chance(90)) setup.push_back({"load", "", "", {}});
    if (r.chance(70)) setup.push_back({"register", "p", "", {}});
    if (r.chance(30)) setup.push_back({"get", "p", "", {}});
    bool structural = r.chance(60);
    for (int k = r.below(6); k > 0; k--) setup.push_back(gen(true));
    std::vector<std::vector<Op>> prog(r.range(2, 3));
    for (auto &p: prog) for (int k = r.range(1, 3); k > 0; k--) p.push_back(gen(structural));
    // later the platform can have fewer devices
    auto later = devs;
    if (r.chance(40)) for (auto &p: later) if (!p.empty()) p.pop_back();
    std::vector<std::string> all2;
    for (auto &p: later) for (auto &d: p) all2.push_back(d);
    return [=]() {
        T(J().str("k", "new").num("restart", 1));
        fakecl_set(devs);
        fakecl_fail_build_on(failing);
        T(J().str("k", "platform").strs("all", all).str("failing", failing));
        std::map<std::mutex *, int> locks;
        auto one = [&](int t, const Op &o) {
            J c = call(t, o.op.c_str());
            if (!o.name.empty()) c.str("name", o.name);
            if (o.op == "filter") c.strs("m", o.matching);
            T(c);
            std::string r = "ok", dev;
            int l = -1;
            std::vector<std::string> ds;
            try {
                if (o.op == "load") hzopencl::DeviceProvider::load_devices();
                else if (o.op == "filter") hzopencl::DeviceProvider::filter_devices(o.re);
                else if (o.op == "register") hzopencl::ProgramProvider::register_program(o.name, "source of " + o.name);
                else if (o.op == "devices") {
                    for (auto &d: hzopencl::DeviceProvider::get_devices()) ds.push_back(d.getInfo<CL_DEVICE_NAME>());
                } else {
                    auto p = hzopencl::ProgramProvider::get(o.name);
                    vs::quietly++;
                    auto dv = p.first.getInfo<CL_PROGRAM_DEVICES>();
                    dev = dv.size() == 1 ? dv[0].getInfo<CL_DEVICE_NAME>() : "?";
                    if (p.first.getInfo<CL_PROGRAM_SOURCE>() != "source of " + o.name) dev += "/other program";
                    l = locks.emplace(&p.second, locks.size()).first->second;
                    vs::quietly--;
                }
            } catch (std::exception &) {
                r = "err";
            }
            J q = ret(t).str("r", r);
            if (o.op == "get") q.str("dev", dev).num("l", l);
            if (o.op == "devices") q.strs("ds", ds);
            T(q);
        };
        for (auto &o: setup) one(50, o);
        fakecl_set(later);
        T(J().str("k", "platform").strs("all", all2).str("failing", failing));
        std::vector<std::function<void()>> fs;
        for (int t = 0; t < (int) prog.size(); t++)
            fs.push_back([&, t]() { for (auto &o: prog[t]) one(t, o); });
        threads(fs);
        one(50, {"register", "p", "", {}});
        for (int k = 0; k < 3; k++) one(50, {"get", "p", "", {}});
    };
}

// ------------------------------------------------------------------ running
static std::unordered_set<std::string> seen;
static Trace OUT;
static uint64_t runs, kept;

// One schedule in a child process. Returns what it recorded.
static std::string run(const vs::Plan &plan, const Program &p) {
    int fd[2];
    if (pipe(fd)) abort();
    fcntl(fd[0], F_SETPIPE_SZ, 1 << 20);
    pid_t c = fork();
    if (c == 0) {
        close(fd[0]);
        T.fd = fd[1];
        guard(T);
        tick("schedule", 60);
        vs::start(plan, [](const std::string &who) { T(J().str("k", "stuck").raw("who", who)); });
        try {
            p();
        } catch (std::exception &e) {
            T(J().str("k", "exc").str("at", e.what()));
        }
        vs::on = false;
        _exit(0);
    }
    close(fd[1]);
    std::string out;
    char b[65536];
    for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) out.append(b, k);
    close(fd[0]);
    int st;
    waitpid(c, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) out += "{\"k\":\"crash\",\"sig\":" + std::to_string(st) + ",\"at\":\"schedule\"}\n";
    runs++;
    return out;
}

// Returns false after a crash, stuck or exc line: the rest would say the same.
static bool keep(const std::string &s) {
    if (!seen.insert(s).second) return true;
    kept++;
    size_t a = 0;
    while (a < s.size()) {
        auto b = s.find('\n', a);
        OUT.line(s.substr(a, b - a));
        a = b + 1;
    }
    return s.find("\"k\":\"crash\"") == std::string::npos && s.find("\"k\":\"exc\"") == std::string::npos;
}

int main(int argc, char **argv) {
    if (argc < 9) return 2;
    std::string kind = argv[1];
    uint64_t seed = strtoull(argv[2], nullptr, 10);
    int programs = atoi(argv[3]), schedules = atoi(argv[4]), shard = atoi(argv[5]), shards = atoi(argv[6]);
    dir = argv[8];
    quiet();
    auto shared = (vs::Choices *) mmap(nullptr, sizeof(vs::Choices), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bool fine = true;
    if (kind == "process") {
        T.open(argv[7]);
        vs::names_fd = open((dir + "/names").c_str(), O_WRONLY | O_CREAT | O_APPEND | O_TRUNC, 0666);
        for (int n = shard; n < programs; n += shards) {
            Rng r(seed * 1000003 + n * 17);
            processes(r, schedules);
            runs++;
        }
        T(J().str("k", "runs").num("runs", runs).num("kept", runs));
        T(J().str("k", "end"));
        std::ifstream names(dir + "/names");
        for (std::string l; std::getline(names, l);) sem_unlink(l.c_str());
        return 0;
    }
    OUT.open(argv[7]);
    for (int n = shard; n < programs && fine; n += shards) {
        Rng r(seed * 1000003 + n * 17 + kind.size());
        prog_no = n;
        Program p;
        if (kind == "sem") p = sem_program(r);
        else if (kind == "archive") p = archive_program(r);
        else if (kind == "open") p = open_program(r);
        else if (kind == "provide") p = provide_program(r);
        else if (kind == "closing") p = closing_program(r);
        else if (kind == "jobs") p = jobs_program(r, false);
        else if (kind == "heavyjobs") p = jobs_program(r, true);
        else if (kind == "cache") p = cache_program(r);
        else if (kind == "cl") p = opencl_program(r);
        else return 2;
        seen.clear();
        // systematically, with at most two preemptions
        int sys = schedules / 2;
        shared->len = 0;
        for (int k = 0; k < sys && fine; k++) {
            vs::Plan plan;
            plan.mode = vs::SYSTEMATIC;
            plan.choices = shared;
            plan.seed = 1;
            shared->n = 0;
            shared->overflow = 0;
            fine = keep(run(plan, p));
            int pre = 0;
            std::vector<int> before(shared->n + 1, 0);
            for (uint32_t i = 0; i < shared->n; i++) {
                before[i] = pre;
                if (shared->cur[i] && shared->pick[i]) pre++;
            }
            int at = (int) shared->n - 1;
            for (; at >= 0; at--)
                if (shared->pick[at] + 1 < shared->opts[at] && (!shared->cur[at] || shared->pick[at] || before[at] < 2)) break;
            if (at < 0) break;
            shared->pick[at]++;
            shared->len = at + 1;
        }
        // at random, also between basic blocks
        for (int k = 0; k < schedules - sys && fine; k++) {
            vs::Plan plan;
            plan.seed = seed * 7919 + n * 131 + k;
            plan.mode = k % 3 == 2 ? vs::PCT : vs::RANDOM;
            plan.mean_gap = std::vector<uint64_t>{0, 4, 40, 400, 20, 3000}[k % 6];
            plan.depth = 1 + k % 4;
            plan.horizon = std::vector<uint64_t>{40, 200, 1000}[k % 3];
            plan.spurious = kind == "sem" && k % 4 == 1 ? 10 : 0;
            fine = keep(run(plan, p));
        }
    }
    OUT(J().str("k", "runs").num("runs", runs).num("kept", kept));
    OUT(J().str("k", "end"));
    return 0;
}
