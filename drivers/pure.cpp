// Records what the pure functions of the repository do, one JSON line per case.
// usage: pure <kind> <seed> <cases> <shard> <shards> <out>
#include "common.h"
#include "guard.h"
#include <algorithm>
#include <map>
#include <set>
#include <sys/wait.h>
#include <filesystem>
#include <bitio/bitio.h>
#include <rainman/rainman.h>
#include <hzip_core/blob/blob.h>
#include <hzip_core/utils/utils.h>
#include <hzip_core/utils/stack.h>
#include <hzip_core/utils/validation.h>
#include <hzip_core/utils/fsutils.h>
#include <hzip_core/preprocessor/zigzag.h>
#include <hzip_core/preprocessor/delta.h>
#include <hzip_core/preprocessor/burrows_wheeler.h>
#include <hzip_core/preprocessor/move_to_front.h>
#include <hzip_core/preprocessor/color.h>
#include <hzip_core/models/paeth.h>
#include <hzip_core/kernel/hzrans/hzrans64.h>
#include <hzip_core/kernel/hzrans/hzrans64_codec.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_codec/codec_provider.h>
#include <hzip_codec/compressors.h>
#include "terminal.h"
#include "fake_opencl.h"
#include <hzip_core/opencl/cl_helper.h>

using namespace vp;

static Trace T;
static int shard, shards;
static long counter = 0;
static long cases;

// Spreads the cases over the shards.
static bool mine() { return (counter++ % shards) == shard; }

static std::string list(const std::vector<long long> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) {
        if (i) s += ',';
        s += std::to_string(v[i]);
    }
    return s + "]";
}

// 75 bits as five 15-bit digits, least significant first
static std::string limbs(uint64_t v) {
    std::vector<long long> d;
    for (int i = 0; i < 5; i++) {
        d.push_back(v & 0x7fff);
        v >>= 15;
    }
    return list(d);
}

// ------------------------------------------------------------ block sorting
template<typename M>
static void bwt_case(const std::vector<int> &s, uint64_t K) {
    tick("bwt");
    rainman::ptr<int16_t> d(s.size());
    for (size_t i = 0; i < s.size(); i++) d[i] = s[i];
    J j;
    j.str("k", "bwt").num("a", K);
    try {
        auto t = hztrans::BurrowsWheelerTransformer<int16_t, M>(d, K);
        uint64_t ix = t.transform();
        std::vector<int> o;
        for (size_t i = 0; i < s.size(); i++) o.push_back(d[i]);
        rainman::ptr<int16_t> e(s.size());
        for (size_t i = 0; i < s.size(); i++) e[i] = d[i];
        hztrans::BurrowsWheelerTransformer<int16_t, M>(e, K).invert(ix);
        std::vector<int> v;
        for (size_t i = 0; i < s.size(); i++) v.push_back(e[i]);
        j.num("ix", (long long) (ix > 0x7fffffff ? 0x7fffffff : ix)).num("n", s.size());
        if (s.size() <= 160) j.nums("s", s).nums("o", o).nums("v", v);
        else {
            std::vector<uint8_t> sb(s.begin(), s.end()), vb(v.begin(), v.end());
            bool range = true;
            for (int x: v) range = range && x >= 0 && x < 256;
            auto so = o;
            std::sort(so.begin(), so.end());
            auto ss = s;
            std::sort(ss.begin(), ss.end());
            std::vector<uint8_t> sob(so.begin(), so.end()), ssb(ss.begin(), ss.end());
            j.str("sd", content(sb.data(), sb.size())).str("vd", range ? content(vb.data(), vb.size()) : "range")
                    .str("ms", content(ssb.data(), ssb.size())).str("mo", content(sob.data(), sob.size()));
        }
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    T(j);
}

static void mtf_case(const std::vector<int> &s, uint64_t K) {
    tick("mtf");
    rainman::ptr<int16_t> d(s.size());
    for (size_t i = 0; i < s.size(); i++) d[i] = s[i];
    J j;
    j.str("k", "mtf").num("a", K).nums("s", s);
    try {
        auto t = hztrans::MoveToFrontTransformer<int16_t>(d, K);
        t.transform();
        std::vector<int> o, v, v2;
        for (size_t i = 0; i < s.size(); i++) o.push_back(d[i]);
        rainman::ptr<int16_t> e(s.size());
        for (size_t i = 0; i < s.size(); i++) e[i] = d[i];
        hztrans::MoveToFrontTransformer<int16_t>(e, K).invert();
        for (size_t i = 0; i < s.size(); i++) v.push_back(e[i]);
        t.invert();  // the same object, after a transform
        for (size_t i = 0; i < s.size(); i++) v2.push_back(d[i]);
        t.transform();
        std::vector<int> o2;
        for (size_t i = 0; i < s.size(); i++) o2.push_back(d[i]);
        j.nums("o", o).nums("v", v).nums("v2", v2).nums("o2", o2);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    T(j);
}

static void gen_strings(int maxlen, int alpha, const std::function<void(const std::vector<int> &)> &f) {
    std::vector<int> s;
    std::function<void()> rec = [&]() {
        f(s);
        if ((int) s.size() == maxlen) return;
        for (int c = 0; c < alpha; c++) {
            s.push_back(c);
            rec();
            s.pop_back();
        }
    };
    rec();
}

static std::vector<int> structured(Rng &r, size_t n, int alpha) {
    std::vector<int> s(n);
    int mode = r.below(6);
    int period = 1 + r.below(7), a = r.below(alpha), b = r.below(alpha);
    for (size_t i = 0; i < n; i++) {
        switch (mode) {
            case 0: s[i] = r.below(alpha); break;
            case 1: s[i] = a; break;
            case 2: s[i] = (i % period) ? a : b; break;
            case 3: s[i] = r.chance(95) ? a : r.below(alpha); break;
            case 4: s[i] = i % alpha; break;
            default: s[i] = (alpha - 1) - (i % alpha); break;
        }
    }
    return s;
}

// long sequences: what came back as a whole, and the output in some places
static void mtf_long(Rng &r, size_t n, int alpha) {
    tick("mtf-long");
    std::vector<int> s(n);
    int recent = std::min(alpha, 12), base = r.below(alpha - recent + 1);
    for (auto &x: s) x = r.chance(2) ? r.below(alpha) : base + r.below(recent);
    rainman::ptr<int16_t> d(n);
    for (size_t i = 0; i < n; i++) d[i] = s[i];
    J j;
    j.str("k", "mtfl").num("n", n);
    try {
        auto t = hztrans::MoveToFrontTransformer<int16_t>(d, 0x100);
        t.transform();
        std::string at;
        for (size_t from: {(size_t) 0, n / 2, (size_t) 32700, (size_t) 65500, n - 100}) {
            if (from + 100 > n) continue;
            std::vector<int> a, o;
            for (size_t i = from; i < from + 100; i++) a.push_back(s[i]), o.push_back(d[i]);
            at += (at.empty() ? "" : ",") + J().nums("s", a).nums("o", o).done();
        }
        t.invert();
        std::vector<uint8_t> sb(s.begin(), s.end()), vb(n);
        bool range = true;
        for (size_t i = 0; i < n; i++) {
            range = range && d[i] >= 0 && d[i] < 256;
            vb[i] = d[i];
        }
        j.raw("at", "[" + at + "]").str("sd", content(sb.data(), n)).str("vd", range ? content(vb.data(), n) : "range");
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    T(j);
}

static void run_bwt(Rng &r) {
    gen_strings(6, 3, [&](const std::vector<int> &s) { if (mine()) bwt_case<int32_t>(s, 3); });
    gen_strings(4, 4, [&](const std::vector<int> &s) { if (mine()) bwt_case<int32_t>(s, 0x100); });
    for (int c: {0, 1, 127, 128, 254, 255})
        for (int n: {1, 2, 3, 4, 5, 7, 8, 12})
            if (mine()) bwt_case<int32_t>(std::vector<int>(n, c), 0x100);
    for (long i = 0; i < cases; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        int alpha = q.pick(std::vector<int>{1, 2, 3, 4, 16, 256, 256});
        size_t n = q.chance(70) ? q.below(14) : q.chance(70) ? q.below(120) : q.chance(80) ? 160 + q.below(1500) : q.below(30000);
        bwt_case<int32_t>(structured(q, n, alpha), q.chance(70) ? 0x100 : alpha);
        if (q.chance(40)) mtf_case(structured(q, q.below(60), alpha), q.chance(50) ? 0x100 : alpha);
    }
    std::vector<int> all(256), rall(256);
    for (int i = 0; i < 256; i++) {
        all[i] = i;
        rall[i] = 255 - i;
    }
    if (mine()) bwt_case<int32_t>(all, 0x100);
    if (mine()) bwt_case<int32_t>(rall, 0x100);
    if (mine()) mtf_case(all, 0x100);
    if (mine()) mtf_case(rall, 0x100);
    gen_strings(5, 3, [&](const std::vector<int> &s) { if (mine()) mtf_case(s, 3); });
    for (size_t n: {65535, 65536, 65537, 70001})
        for (int alpha: {2, 256}) {
            if (mine()) bwt_case<int32_t>(structured(r, n, alpha), 0x100);
            if (mine()) mtf_long(r, n, alpha);
        }
    // the row of the string is among the first or the last, up to the largest block
    for (size_t n: {40000, 70001, 140000, 300000, 1100000, 4194304}) {
        for (int first: {0, 255}) {
            if (!mine()) continue;
            std::vector<int> s(n);
            for (auto &x: s) x = 1 + r.below(254);
            s[0] = first;
            bwt_case<int32_t>(s, 0x100);
        }
        if (n > 100000 && mine()) mtf_long(r, n, 256);
    }
    for (int K: {257, 300, 600}) if (mine()) mtf_case(structured(r, 40, K), K);
}

// ------------------------------------------------------------ zig-zag
static void zz_case(uint32_t w, uint32_t h) {
    tick("zigzag");
    std::vector<long long> seq, pre, post;
    uint64_t cap = (uint64_t) w * h + 3;
    auto t = hztrans::ZigZagTransformer(w, h);
    bool ended = false;
    auto it = t.begin();
    uint64_t n = 0;
    while (n < cap) {
        if (!(it != t.end())) {
            ended = true;
            break;
        }
        auto p = *it;
        seq.push_back(p.x);
        seq.push_back(p.y);
        ++it;
        n++;
    }
    bool eq = it == t.end();
    // pre- and post-increment, as values
    auto a = t.begin();
    auto b = t.begin();
    for (uint64_t i = 0; i + 1 < (uint64_t) w * h && i < 400; i++) {
        auto x = ++a;
        pre.push_back(x.x);
        pre.push_back(x.y);
        auto y = b++;
        post.push_back(y.x);
        post.push_back(y.y);
    }
    // which positions compare equal and which different
    std::vector<long long> same, other;
    if ((uint64_t) w * h <= 20) {
        std::vector<hztrans::ZigZagTransformer::const_iterator> at;
        auto p = t.begin();
        for (uint64_t i = 0; i <= (uint64_t) w * h; i++) {
            at.push_back(p);
            if (i < (uint64_t) w * h) ++p;
        }
        for (size_t i = 0; i < at.size(); i++)
            for (size_t k = 0; k < at.size(); k++) {
                same.push_back(at[i] == at[k]);
                other.push_back(at[i] != at[k]);
            }
    }
    T(J().str("k", "zz").nums("same", same).nums("other", other).num("w", w).num("h", h).nums("q", seq).boolean("end", ended && eq).nums("pre", pre).nums("post", post));
}

static void run_zz(Rng &r) {
    int lim = cases > 2000 ? 20 : 11;
    for (int w = 0; w <= lim; w++)
        for (int h = 0; h <= lim; h++)
            if (mine()) zz_case(w, h);
    for (int n: {0, 1, 2, 63, 64, 255, 256, 257, 300}) {
        if (mine()) zz_case(1, n);
        if (mine()) zz_case(n, 1);
        if (n < 100 || cases > 2000) {
            if (mine()) zz_case(2, n);
            if (mine()) zz_case(n, 2);
        }
    }
    for (long i = 0; i < cases / 8; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        zz_case(1 + q.below(40), 1 + q.below(40));
    }
    // sides around 2^16: all steps are made, the ones around powers of two are recorded
    for (auto [w, h]: std::vector<std::pair<uint32_t, uint32_t>>{{70000, 1}, {1, 70000}, {65536, 2}, {2, 65537}, {33000, 3}, {300, 300}, {3, 33000}}) {
        if (!mine()) continue;
        tick("zigzag-long");
        auto t = hztrans::ZigZagTransformer(w, h);
        uint64_t cap = (uint64_t) w * h + 3, n = 0;
        std::vector<std::vector<long long>> parts;
        auto wanted = [&](uint64_t k) {
            uint64_t m = k & 0x7fff;
            return k < 4 || m < 6 || m > 0x7ff9 || k + 8 > (uint64_t) w * h;
        };
        for (auto it = t.begin(); it != t.end() && n < cap; ++it, n++) {
            if (!wanted(n)) continue;
            if (n == 0 || !wanted(n - 1)) parts.emplace_back();
            auto p = *it;
            parts.back().push_back(p.x);
            parts.back().push_back(p.y);
        }
        std::vector<std::string> ps;
        for (auto &v: parts) {
            std::vector<std::string> x;
            for (auto c: v) x.push_back(std::to_string(c));
            ps.push_back(jlist(x));
        }
        T(J().str("k", "zzl").num("w", w).num("h", h).num("n", n).raw("parts", jlist(ps)));
    }
    // huge sides: only the first steps can be followed
    for (auto [w, h]: std::vector<std::pair<uint32_t, uint32_t>>{{70000, 2}, {2, 70000}, {0xffffffffu, 3}, {3, 0xffffffffu}, {0xffffffffu, 0xffffffffu}}) {
        if (!mine()) continue;
        tick("zigzag-big");
        auto t = hztrans::ZigZagTransformer(w, h);
        std::vector<long long> seq;
        int k = 0;
        for (auto it = t.begin(); it != t.end() && k < 60; ++it, k++) {
            auto p = *it;
            seq.push_back(p.x);
            seq.push_back(p.y);
        }
        T(J().str("k", "zzp").num("w", std::min(w, 0x7fffffffu)).num("h", std::min(h, 0x7fffffffu)).nums("q", seq));
    }
}

// ------------------------------------------------------------ delta
static std::string halves(const std::vector<int> &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) {
        uint32_t u = (uint32_t) v[i];
        if (i) s += ',';
        s += "[" + std::to_string(u >> 16) + "," + std::to_string(u & 0xffff) + "]";
    }
    return s + "]";
}

static void delta_case(const std::vector<int> &v) {
    tick("delta");
    const int G = 8;
    bool intact = true, same = true;
    std::vector<int> t1, i1;
    for (int round = 0; round < 2; round++) {
        int canary = round ? 0x5a5a1234 : -77;
        std::vector<int> buf(v.size() + 2 * G, canary);
        std::copy(v.begin(), v.end(), buf.begin() + G);
        hztrans::DeltaTransformer d(buf.data() + G, v.size());
        d.transform();
        std::vector<int> t(buf.begin() + G, buf.begin() + G + v.size());
        for (int g = 0; g < G; g++) intact = intact && buf[g] == canary && buf[G + v.size() + g] == canary;
        hztrans::DeltaTransformer d2(buf.data() + G, v.size());
        d2.invert();
        std::vector<int> i(buf.begin() + G, buf.begin() + G + v.size());
        for (int g = 0; g < G; g++) intact = intact && buf[g] == canary && buf[G + v.size() + g] == canary;
        if (round == 0) {
            t1 = t;
            i1 = i;
        } else same = same && t == t1 && i == i1;
    }
    // invert alone, on data that is not the image of this transform
    std::vector<int> w = v;
    hztrans::DeltaTransformer d(w.data(), w.size());
    d.invert();
    T(J().str("k", "delta").raw("a", halves(v)).raw("t", halves(t1)).raw("v", halves(i1)).raw("u", halves(w))
              .boolean("intact", intact).boolean("same", same));
}

// long arrays: recorded in some places, with the element before each
static void delta_long(Rng &q, size_t n) {
    tick("delta-long");
    std::vector<int> a(n);
    for (auto &x: a) x = (int) q.next();
    auto t = a;
    hztrans::DeltaTransformer(t.data(), n).transform();
    auto v = t;
    hztrans::DeltaTransformer(v.data(), n).invert();
    auto u = a;
    hztrans::DeltaTransformer(u.data(), n).invert();
    std::vector<std::string> parts;
    auto part = [&](const std::vector<int> &x, size_t from) { return halves(std::vector<int>(x.begin() + from, x.begin() + from + 8)); };
    for (size_t from: {(size_t) 0, (size_t) 32764, (size_t) 65531, n / 2, n - 8})
        if (from + 8 <= n)
            parts.push_back(J().num("from", from).raw("a", part(a, from)).raw("t", part(t, from)).raw("v", part(v, from)).raw("u", part(u, from)).done());
    T(J().str("k", "dl").num("n", n).boolean("back", v == a).raw("parts", jlist(parts)));
}

static void run_delta(Rng &r) {
    for (size_t n: {65534, 65535, 65536, 65537, 65540, 70000, 131080}) if (mine()) delta_long(r, n);
    std::vector<int> ends = {0, 1, -1, INT32_MAX, INT32_MIN, 65535, 65536};
    gen_strings(3, (int) ends.size(), [&](const std::vector<int> &s) {
        if (!mine()) return;
        std::vector<int> v;
        for (int x: s) v.push_back(ends[x]);
        delta_case(v);
    });
    for (long i = 0; i < cases; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        size_t n = q.chance(80) ? q.below(20) : q.below(400);
        std::vector<int> v(n);
        int mode = q.below(4);
        for (auto &x: v) x = mode == 0 ? (int) q.next() : mode == 1 ? q.pick(ends) : mode == 2 ? (int) q.below(256) : (int) (q.next() & 0xffff) - 32768;
        delta_case(v);
    }
}

// ------------------------------------------------------------ OpenCL
// Who does the work: whatever the program chooses, the processor, or a device.
enum By {
    ANY, HOST, DEVICE
};
static const char *by_name[] = {"any", "host", "device"};

static void devices(const std::string &dir) {
    fakecl_set({{"gpu0", "gpu1"}, {"acc"}});
    fakecl_run(dir);
    hzopencl::DeviceProvider::load_devices();
}

static void device_setup(Rng &q) {
    hzruntime::Config::opencl_kernels = q.pick(std::vector<uint64_t>{1, 2, 3, 5, 7, 16, 32, 64, 1000});
    fakecl_schedule(q.below(1000000), q.pick(std::vector<size_t>{1, 2, 4, 32, 64}));
}

// ------------------------------------------------------------ colour
static rainman::ptr<uint16_t> forth(hztrans::LinearU16XColorTransformer &t, By by, const rainman::ptr<uint16_t> &b, bool ip) {
    return by == HOST ? t.cpu_rgb_to_ycocg(b, ip) : by == DEVICE ? t.opencl_rgb_to_ycocg(b, ip) : t.rgb_to_ycocg(b, ip);
}

static rainman::ptr<uint16_t> back_again(hztrans::LinearU16XColorTransformer &t, By by, const rainman::ptr<uint16_t> &b, bool ip) {
    return by == HOST ? t.cpu_ycocg_to_rgb(b, ip) : by == DEVICE ? t.opencl_ycocg_to_rgb(b, ip) : t.ycocg_to_rgb(b, ip);
}

// Images that are large enough for a device: all samples are compared with what
// the processor makes of them, and some are recorded.
static void lin_big(Rng &q, uint64_t w, uint64_t h, int bd, bool ip) {
    tick("color-big");
    device_setup(q);
    uint64_t lz = w * h, n = 3 * lz;
    std::vector<uint16_t> in(n);
    for (auto &x: in) x = q.next() & ((1 << bd) - 1);
    auto fresh = [&]() {
        auto b = rainman::ptr<uint16_t>(n);
        for (uint64_t i = 0; i < n; i++) b[i] = in[i];
        return b;
    };
    J j;
    j.str("k", "lin").num("bd", bd).boolean("ip", ip).str("by", "big").num("w", w).num("h", h);
    hzruntime::Config::opencl_support_enabled = q.chance(75);
    try {
        auto t = hztrans::LinearU16XColorTransformer(w, h, bd);
        auto buf = fresh();
        auto o = t.rgb_to_ycocg(buf, ip);
        std::vector<uint64_t> at;
        for (int i = 0; i < 60; i++) at.push_back(q.below(lz));
        for (uint64_t i: {0, 1, 2}) at.push_back(i), at.push_back(lz - 1 - i);
        std::vector<int> a, ov, keep, back, f;
        auto sample = [&](const auto &b, std::vector<int> &v) {
            for (int k = 0; k < 3; k++) for (auto i: at) v.push_back(b[i + k * lz]);
        };
        sample(in, a), sample(o, ov), sample(buf, keep);
        auto c = fresh();
        auto p = t.cpu_rgb_to_ycocg(c, false), r = t.cpu_ycocg_to_rgb(c, false);
        bool same = true, kept = true;
        for (uint64_t i = 0; i < n; i++) same = same && o[i] == p[i], kept = kept && buf[i] == (ip ? o[i] : in[i]);
        auto s = t.ycocg_to_rgb(c, true);
        for (uint64_t i = 0; i < n; i++) same = same && s[i] == r[i];
        auto fw = t.rgb_to_ycocg(s, true);
        sample(fw, f);
        auto b = t.ycocg_to_rgb(o, ip);
        sample(b, back);
        for (uint64_t i = 0; i < n; i++) same = same && b[i] == in[i] && fw[i] == in[i];
        j.num("n", at.size()).nums("a", a).nums("o", ov).nums("s", keep).nums("v", back).nums("f", f).boolean("same", same && kept);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    hzruntime::Config::opencl_support_enabled = false;
    j.boolean("dmg", fakecl_damaged());
    T(j);
}

static void lin_case(Rng &q, int bd, uint64_t w, uint64_t h, bool inplace, By by, int fill) {
    tick("color");
    if (by == DEVICE) device_setup(q);
    uint64_t n = 3 * w * h;
    std::vector<int> in(n);
    int m = (1 << bd) - 1;
    for (auto &x: in)
        x = fill == 0 ? q.below(m + 1) : fill == 1 ? (q.chance(50) ? m : 0) : fill == 2 ? m - (int) q.below(std::min(m + 1, 3)) : (int) q.below(std::min(m + 1, 3));
    auto buf = rainman::ptr<uint16_t>(n);
    for (uint64_t i = 0; i < n; i++) buf[i] = in[i];
    auto t = hztrans::LinearU16XColorTransformer(w, h, bd);
    J j;
    j.str("k", "lin").num("bd", bd).num("n", w * h).nums("a", in).boolean("ip", inplace).str("by", by_name[by]);
    try {
        auto o = forth(t, by, buf, inplace);
        std::vector<int> ov, keep, back;
        for (uint64_t i = 0; i < n; i++) ov.push_back(o[i]);
        for (uint64_t i = 0; i < n; i++) keep.push_back(buf[i]);
        auto b = back_again(t, by, o, inplace);
        for (uint64_t i = 0; i < n; i++) back.push_back(b[i]);
        j.nums("o", ov).nums("s", keep).nums("v", back);
        // the inverse of arbitrary data, and forward again
        auto c = rainman::ptr<uint16_t>(n);
        for (uint64_t i = 0; i < n; i++) c[i] = in[i];
        auto iv = back_again(t, by, c, false);
        auto fw = forth(t, by, iv, true);
        std::vector<int> f;
        for (uint64_t i = 0; i < n; i++) f.push_back(fw[i]);
        j.nums("f", f);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    j.boolean("dmg", fakecl_damaged());
    T(j);
}

template<typename I>
static void px_case(const char *name, I a, I b, I c, bool enumCtor) {
    tick("pixel");
    using namespace hztrans;
    auto fw = enumCtor ? RGBColorTransformer<I>(RGB_TO_YCOCG) : RGBColorTransformer<I>(YCOCG, false);
    auto bw = enumCtor ? RGBColorTransformer<I>(YCOCG_TO_RGB) : RGBColorTransformer<I>(YCOCG, true);
    auto p = ColorTransformPixel<I>{a, b, c};
    auto o = fw.transform(p);
    auto v = bw.transform(o);
    auto z = fw.transform(bw.transform(p));
    auto h = [](I x) { return hex64((uint64_t) (int64_t) x); };
    J j;
    j.str("k", "px").str("t", name).strs("a", std::vector<std::string>{h(a), h(b), h(c)})
            .strs("v", std::vector<std::string>{h(v.x), h(v.y), h(v.z)})
            .strs("z", std::vector<std::string>{h(z.x), h(z.y), h(z.z)});
    auto small = [](I x) { return x >= 0 && (uint64_t) x <= 30; };
    bool sm = small(a) && small(b) && small(c) && std::is_signed_v<I>;
    j.boolean("small", sm);
    std::vector<long long> sa, so;
    if (sm) {
        sa = {(long long) a, (long long) b, (long long) c};
        so = {(long long) o.x, (long long) o.y, (long long) o.z};
    }
    j.nums("sa", sa).nums("so", so);
    T(j);
}

template<typename I>
static void px_type(const char *name, Rng &r, long n) {
    std::vector<I> ends = {0, 1, (I) -1, std::numeric_limits<I>::max(), std::numeric_limits<I>::min(),
                           (I) (std::numeric_limits<I>::max() - 1), (I) (std::numeric_limits<I>::max() / 2)};
    for (auto a: ends)
        for (auto b: ends)
            for (auto c: ends)
                if (mine()) px_case<I>(name, a, b, c, r.chance(50));
    for (long i = 0; i < n; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        bool sm = q.chance(40);
        auto g = [&]() { return sm ? (I) q.below(31) : (I) q.next(); };
        px_case<I>(name, g(), g(), g(), q.chance(50));
    }
}

static void run_color(Rng &r) {
    for (long i = 0; i < cases; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        int bd = 1 + q.below(16);
        uint64_t w = q.below(6), h = q.below(5);
        By by = w * h && q.chance(30) ? DEVICE : q.chance(30) ? HOST : ANY;
        if (by == DEVICE && q.chance(30)) w *= q.range(1, 9);
        lin_case(q, bd, w, h, q.chance(50), by, q.below(4));
    }
    for (long i = 0; i < 2 + cases / 5000; i++) {
        Rng q = Rng(r.next());
        uint64_t w = q.pick(std::vector<uint64_t>{1000, 1001, 1000001, 4, 1024});
        uint64_t h = w == 1000001 ? 1 : 1000000 / w + (w == 1000 ? q.below(2) : 1 + q.below(3));
        int bd = q.chance(50) ? 16 : 1 + q.below(16);
        if (mine()) lin_big(q, w, h, bd, q.chance(50));
    }
    for (auto [w, h]: std::vector<std::pair<uint64_t, uint64_t>>{{1, 65535}, {65536, 1}, {1, 65537}, {66000, 1}, {1, 70001}, {257, 256}}) {
        Rng q = Rng(r.next());
        if (mine()) lin_big(q, w, h, 1 + q.below(16), q.chance(50));
    }
    // every pixel of small depths
    for (int bd = 1; bd <= 3; bd++) {
        int m = 1 << bd;
        uint64_t n = (uint64_t) m * m * m;
        for (int ip = 0; ip < 2; ip++) {
            if (!mine()) continue;
            auto buf = rainman::ptr<uint16_t>(3 * n);
            std::vector<int> in(3 * n);
            for (uint64_t i = 0; i < n; i++) {
                in[i] = i % m;
                in[i + n] = (i / m) % m;
                in[i + 2 * n] = i / m / m;
            }
            for (uint64_t i = 0; i < 3 * n; i++) buf[i] = in[i];
            tick("color-all");
            auto t = hztrans::LinearU16XColorTransformer(n, 1, bd);
            auto o = t.rgb_to_ycocg(buf, ip);
            std::vector<int> ov, keep, back, f;
            for (uint64_t i = 0; i < 3 * n; i++) ov.push_back(o[i]);
            for (uint64_t i = 0; i < 3 * n; i++) keep.push_back(buf[i]);
            auto b = t.ycocg_to_rgb(o, ip);
            for (uint64_t i = 0; i < 3 * n; i++) back.push_back(b[i]);
            T(J().str("k", "lin").num("bd", bd).num("n", n).nums("a", in).boolean("ip", ip).nums("o", ov).nums("s", keep)
                      .nums("v", back).nums("f", in).str("by", "any").boolean("dmg", fakecl_damaged()));
        }
    }
    px_type<int8_t>("i8", r, cases / 8);
    px_type<uint8_t>("u8", r, cases / 8);
    px_type<int16_t>("i16", r, cases / 8);
    px_type<uint16_t>("u16", r, cases / 8);
    px_type<uint32_t>("u32", r, cases / 8);
    px_type<uint64_t>("u64", r, cases / 8);
    px_type<int32_t>("i32", r, cases / 8);
    px_type<int64_t>("i64", r, cases / 8);
    if (mine()) {
        using namespace hztrans;
        for (int t = 0; t < 4; t++) {
            std::string res = "ok";
            try {
                RGBColorTransformer<int>(static_cast<HZ_COLOR_TRANSFORM>(t)).transform({1, 2, 3});
            } catch (std::exception &) {
                res = "err";
            }
            T(J().str("k", "undef").num("t", t).str("r", res));
        }
        for (int s = 0; s < 2; s++)
            for (int rev = 0; rev < 2; rev++) {
                std::string res = "ok";
                try {
                    RGBColorTransformer<int>(static_cast<HZ_COLOR_SPACE>(s), rev).transform({1, 2, 3});
                } catch (std::exception &) {
                    res = "err";
                }
                T(J().str("k", "undef").num("t", s * 2 + rev).str("r", res));
            }
    }
}

// ------------------------------------------------------------ Paeth
static void paeth_big(Rng &q, uint64_t w, uint64_t h, uint64_t nc, int bd, bool ip) {
    tick("paeth-big");
    using namespace hzmodels;
    device_setup(q);
    uint64_t n = w * h * nc;
    std::vector<uint16_t> in(n);
    int flat = q.chance(50) ? 0xffff : 7;
    uint16_t base = q.next();
    for (auto &x: in) x = (base + (q.next() & flat)) & ((1 << bd) - 1);
    auto fresh = [&]() {
        auto b = rainman::ptr<uint16_t>(n);
        for (uint64_t i = 0; i < n; i++) b[i] = in[i];
        return b;
    };
    J j;
    j.str("k", "ps").num("bd", bd).boolean("ip", ip).num("w", w).num("h", h).num("c", nc);
    hzruntime::Config::opencl_support_enabled = q.chance(75);
    try {
        auto buf = fresh();
        auto o = LinearU16PaethDifferential::filter(buf, w, h, nc, ip, bd);
        auto p = LinearU16PaethDifferential::cpu_filter(fresh(), w, h, nc, false, bd);
        bool same = true;
        for (uint64_t i = 0; i < n; i++) same = same && o[i] == p[i] && buf[i] == (ip ? o[i] : in[i]);
        std::vector<std::string> at;
        for (int i = 0; i < 120; i++) {
            uint64_t c = q.below(nc), y = q.chance(15) ? 0 : q.below(h), x = q.chance(15) ? 0 : q.below(w), k = (c * h + y) * w + x;
            std::vector<int> v = {(int) (x > 0), (int) (y > 0), in[k], x ? in[k - 1] : 0, y ? in[k - w] : 0, x && y ? in[k - w - 1] : 0, o[k]};
            at.push_back(list(std::vector<long long>(v.begin(), v.end())));
        }
        j.boolean("same", same).raw("at", jlist(at));
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    hzruntime::Config::opencl_support_enabled = false;
    j.boolean("dmg", fakecl_damaged());
    T(j);
}

static void paeth_case(Rng &q, int bd, int w, int h, int nc, bool ip, By by, int fill) {
    tick("paeth");
    using namespace hzmodels;
    if (by == DEVICE) device_setup(q);
    int n = w * h * nc, m = (1 << bd) - 1;
    std::vector<int> in(n);
    int base = q.below(m + 1);
    for (auto &x: in)
        x = fill == 0 ? q.below(m + 1) : fill == 1 ? (q.chance(50) ? m : 0) : fill == 2 ? (base + (int) q.below(5)) & m : (int) q.below(std::min(m + 1, 4));
    auto buf = rainman::ptr<uint16_t>(n);
    for (int i = 0; i < n; i++) buf[i] = in[i];
    J j;
    j.str("k", "pf").num("bd", bd).num("w", w).num("h", h).num("c", nc).nums("a", in).boolean("ip", ip);
    try {
        auto o = by == HOST ? LinearU16PaethDifferential::cpu_filter(buf, w, h, nc, ip, bd)
                : by == DEVICE ? LinearU16PaethDifferential::opencl_filter(buf, w, h, nc, ip, bd)
                : LinearU16PaethDifferential::filter(buf, w, h, nc, ip, bd);
        std::vector<int> ov, keep;
        for (int i = 0; i < n; i++) ov.push_back(o[i]);
        for (int i = 0; i < n; i++) keep.push_back(buf[i]);
        j.nums("o", ov).nums("s", keep);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    j.str("by", by_name[by]).boolean("dmg", fakecl_damaged());
    T(j);
}

template<typename I>
static void pm_case(Rng &q, int w, int h, int nc, int m, bool neg) {
    tick("paeth-model");
    int n = w * h * nc;
    auto buf = rainman::ptr<I>(n);
    std::vector<long long> in, out;
    for (int i = 0; i < n; i++) {
        long long v = (long long) q.below(m + 1) - (neg ? m / 2 : 0);
        buf[i] = v;
        in.push_back(v);
    }
    J j;
    j.str("k", "pm").num("w", w).num("h", h).num("c", nc).nums("a", in);
    try {
        for (int c = 0; c < nc; c++) {
            hzmodels::PaethModel<I> p(buf, w, h, c);
            for (int y = 0; y < h; y++)
                for (int x = 0; x < w; x++) out.push_back(p.predict(x, y));
        }
        j.nums("o", out);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    T(j);
}

static void run_paeth(Rng &r) {
    // all 2x2 images of two bits
    for (int v = 0; v < 256; v++) {
        if (!mine()) continue;
        tick("paeth-all");
        auto buf = rainman::ptr<uint16_t>(4);
        std::vector<int> in, ov;
        for (int i = 0; i < 4; i++) in.push_back((v >> (2 * i)) & 3);
        for (int i = 0; i < 4; i++) buf[i] = in[i];
        auto o = hzmodels::LinearU16PaethDifferential::filter(buf, 2, 2, 1, v & 1, 2);
        std::vector<int> keep;
        for (int i = 0; i < 4; i++) ov.push_back(o[i]);
        for (int i = 0; i < 4; i++) keep.push_back(buf[i]);
        T(J().str("k", "pf").num("bd", 2).num("w", 2).num("h", 2).num("c", 1).nums("a", in).boolean("ip", v & 1).nums("o", ov).nums("s", keep)
                  .boolean("dmg", fakecl_damaged()));
    }
    for (long i = 0; i < cases; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        int bd = q.chance(30) ? 16 : 1 + q.below(16);
        int w = q.below(7), h = q.below(7), nc = q.below(5);
        By by = w * h && q.chance(30) ? DEVICE : q.chance(30) ? HOST : ANY;
        if (by == DEVICE && q.chance(30)) w *= q.range(1, 6);
        paeth_case(q, bd, w, h, nc, q.chance(50), by, q.below(4));
        if (q.chance(60)) {
            int m = q.pick(std::vector<int>{1, 3, 7, 255, 65535});
            if (q.chance(50)) pm_case<int32_t>(q, q.below(6), q.below(6), q.below(4), m, q.chance(30));
            else pm_case<int64_t>(q, q.below(6), q.below(6), q.below(4), m, q.chance(30));
        }
    }
    if (mine()) paeth_case(r, 16, 120, 3, 1, true, ANY, 0);
    if (mine()) paeth_case(r, 8, 3, 120, 2, false, ANY, 0);
    for (long i = 0; i < 16 + cases / 500; i++) {
        Rng q = Rng(r.next());
        uint64_t w = q.pick(std::vector<uint64_t>{1, 2, 3, 64, 128, 255, 49153}), nc = q.range(1, 4);
        uint64_t h = std::max<uint64_t>(1, 49152 / (w * nc) + q.below(4) * 40);
        int bd = q.chance(50) ? 16 : 1 + q.below(16);
        if (mine()) paeth_big(q, w, h, nc, bd, q.chance(50));
    }
    for (auto [w, h]: std::vector<std::pair<uint64_t, uint64_t>>{{1, 65537}, {65537, 1}, {2, 70001}, {70001, 2}, {257, 256}}) {
        Rng q = Rng(r.next());
        if (mine()) paeth_big(q, w, h, q.range(1, 3), 1 + q.below(16), q.chance(50));
    }
}

// ------------------------------------------------------------ integer codes
static void run_codes(Rng &r) {
    std::vector<uint64_t> marks;
    for (int b = 0; b < 31; b++)
        for (int d: {-1, 0, 1}) {
            long long v = (1ll << b) + d;
            if (v >= 0 && v < (1ll << 31)) marks.push_back(v);
        }
    marks.push_back(0x7fffffff);
    for (uint64_t v = 0; v < 260; v++) marks.push_back(v);
    auto eg = [&](const std::vector<uint64_t> &vals) {
        tick("elias-gamma");
        std::vector<bin_t> bins;
        std::vector<long long> ends, in, got, at;
        long long bits = 0;
        for (auto v: vals) {
            auto b = hz_elias_gamma(v);
            bins.push_back(b);
            bits += b.n;
            ends.push_back(bits);
            in.push_back(v);
        }
        auto raw = hz_vecbin_to_raw(bins);
        auto st = bitio::stream(raw.pointer(), raw.size());
        long long pos = 0;
        J j;
        j.str("k", "eg").nums("a", in).nums("e", ends);
        try {
            for (size_t i = 0; i < vals.size(); i++) {
                auto b = hz_elias_gamma_inv([&](uint64_t n) {
                    pos += n;
                    return st.read(n);
                });
                got.push_back(b.obj > 0x7fffffff ? -1 : (long long) b.obj);
                at.push_back(pos);
            }
        } catch (std::exception &e) {
            j.str("exc", e.what());
        }
        j.nums("v", got).nums("p", at).num("bytes", raw.size());
        T(j);
    };
    auto un = [&](const std::vector<uint64_t> &vals) {
        tick("unary");
        std::vector<int> bitv;
        std::vector<long long> ends, in, got, at;
        bool runaway = false;
        uint64_t total = 0;
        for (auto v: vals) total += v;
        try {
            for (auto v: vals) {
                hz_unary_write(v, [&](uint64_t o, uint8_t n) {
                    for (int k = n - 1; k >= 0; k--) bitv.push_back((o >> k) & 1);
                    if (bitv.size() > total + 64) throw std::runtime_error("runaway");
                });
                ends.push_back(bitv.size());
                in.push_back(v);
            }
        } catch (std::exception &e) {
            runaway = true;
        }
        size_t pos = 0;
        if (!runaway)
            try {
                for (size_t i = 0; i < vals.size(); i++) {
                    got.push_back(hz_unary_read([&](uint8_t n) {
                        uint64_t x = 0;
                        while (n--) x = x * 2 + bitv.at(pos++);
                        return x;
                    }));
                    at.push_back(pos);
                }
            } catch (std::exception &e) {
                runaway = true;
            }
        T(J().str("k", "un").nums("a", in).nums("e", ends).nums("v", got).nums("p", at).boolean("bad", runaway));
    };
    for (size_t i = 0; i < marks.size(); i++)
        if (mine()) eg({marks[i]});
    for (uint64_t v = 1; v <= 140; v++)
        if (mine()) un({v});
    for (long i = 0; i < cases; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        std::vector<uint64_t> a, b;
        for (int k = q.below(12); k >= 0; k--) a.push_back(q.chance(60) ? q.pick(marks) : q.below(1ull << (1 + q.below(31))));
        eg(a);
        for (int k = q.below(10); k >= 0; k--) b.push_back(1 + q.below(q.chance(80) ? 9 : 200));
        un(b);
        // words
        std::vector<std::string> w64;
        {
            tick("words");
            uint64_t v = q.chance(40) ? q.next() : q.chance(50) ? (1ull << q.below(64)) - q.below(2) : q.below(256);
            auto buf = rainman::ptr<uint8_t>(8);
            for (int z = 0; z < 8; z++) buf[z] = 0xa5 ^ (z * 37);
            hz_u64_to_u8buf(v, buf);
            uint64_t back = hz_u8buf_to_u64(buf);
            T(J().str("k", "w64").str("a", hex64(v)).str("v", hex64(back)));
            uint64_t n = q.below(9);
            auto a32 = rainman::ptr<uint32_t>(n);
            std::vector<std::string> x, y;
            for (uint64_t t = 0; t < n; t++) {
                a32[t] = q.chance(70) ? (uint32_t) q.next() : (uint32_t) q.below(3) - 1;
                x.push_back(hex64(a32[t]));
            }
            auto a8 = hz_u32_to_u8ptr(a32, n);
            auto b32 = hz_u8_to_u32ptr(a8, n * 4);
            for (uint64_t t = 0; t < n; t++) y.push_back(hex64(b32[t]));
            T(J().str("k", "w32").strs("a", x).strs("v", y).num("n8", a8.size()).num("n32", b32.size()));
            uint64_t m = q.below(14);
            auto p8 = rainman::ptr<uint8_t>(m);
            std::vector<int> bi, bo;
            for (uint64_t t = 0; t < m; t++) bi.push_back(p8[t] = q.below(256));
            J j;
            j.str("k", "b32").nums("a", bi);
            try {
                auto p32 = hz_u8_to_u32ptr(p8, m);
                auto q8 = hz_u32_to_u8ptr(p32, p32.size());
                for (uint64_t t = 0; t < q8.size(); t++) bo.push_back(q8[t]);
                j.nums("v", bo);
            } catch (std::exception &e) {
                j.str("exc", e.what());
            }
            T(j);
        }
        {
            tick("params");
            HZ_Params p;
            std::vector<std::string> in, out;
            int n = q.below(6);
            auto rs = [&]() {
                std::string s;
                for (int t = q.chance(10) ? 300 : q.below(9); t > 0; t--) s += (char) (q.chance(50) ? q.below(256) : 'a' + q.below(3));
                return s;
            };
            for (int t = 0; t < n; t++) {
                std::string k = rs(), v = rs();
                p.params[k] = v;
            }
            auto fmt = [](const std::unordered_map<std::string, std::string> &m) {
                std::map<std::string, std::string> o(m.begin(), m.end());
                std::vector<std::string> v;
                for (auto &[a, b]: o)
                    v.push_back(content((const uint8_t *) a.data(), a.size()) + "=" + content((const uint8_t *) b.data(), b.size()));
                return v;
            };
            J j;
            j.str("k", "pmap").strs("a", fmt(p.params));
            try {
                auto raw = p.to_byte_array();
                auto p2 = HZ_Params::from_byte_array(raw);
                j.strs("v", fmt(p2.params));
            } catch (std::exception &e) {
                j.str("exc", e.what());
            }
            T(j);
        }
    }
}

// ------------------------------------------------------------ stack
static void run_stack(Rng &r) {
    // Values are consecutive numbers; bulk operations keep the trace short.
    for (long c = 0; c < std::max(1l, cases / 40); c++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        tick("stack", 60);
        HZ_Stack<uint32_t> s;
        T(J().str("k", "snew"));
        uint32_t next = 1;
        long depth = 0;
        bool big = q.chance(60);
        int ops = big ? 14 : 60;
        for (int i = 0; i < ops; i++) {
            long cnt;
            bool push = depth == 0 ? q.chance(75) : q.chance(50);
            if (!big) cnt = q.below(4);
            else {
                // aim at the neighbourhood of a buffer boundary, or anywhere
                long b = 65536 * q.below(4), target = b + q.range(-2, 2);
                if (q.chance(25)) target = 0;
                if (q.chance(15)) target = q.below(200000);
                if (target < 0) target = 0;
                push = target >= depth;
                cnt = push ? target - depth : depth - target;
            }
            if (push) {
                for (long k = 0; k < cnt; k++) s.push(next + k);
                depth += cnt;
            } else {
                bool over = q.chance(20);
                if (over) cnt += 1;
                if (!big || over) cnt = std::min(cnt, depth + 2);
                for (long k = 0; k < cnt; k++) s.pop();
                depth = std::max(0l, depth - cnt);
            }
            bool e = s.empty();
            // reading the top of an empty stack is not allowed
            long top = depth > 0 && !e ? (long) s.top() : -1;
            T(J().str("k", push ? "push" : "pop").num("n", cnt).num("v", next).num("size", s.size()).boolean("e", e).num("top", top));
            if (push) next += cnt;
        }
        // drain, looking at every top near the boundaries
        while (depth > 0) {
            long step = 1;
            long off = depth % 65536;
            if (off > 3 && off < 65533) step = big ? off - 3 : 1;
            if (step > depth) step = depth;
            for (long k = 0; k < step; k++) s.pop();
            depth -= step;
            bool e = s.empty();
            long top = depth > 0 && !e ? (long) s.top() : -1;
            T(J().str("k", "pop").num("n", step).num("v", next).num("size", s.size()).boolean("e", e).num("top", top));
        }
        s.push(next);
        T(J().str("k", "push").num("n", 1).num("v", next).num("size", s.size()).boolean("e", s.empty()).num("top", s.empty() ? -1 : (long) s.top()));
    }
}

// ------------------------------------------------------------ paths, sizes, file helpers
static void path_case(const std::string &s) {
    tick("path");
    std::string res = "ok";
    try {
        hz_validate_path(s);
    } catch (UtilErrors::ValidationError &) {
        res = "err";
    } catch (std::exception &) {
        res = "exc";
    }
    std::vector<int> b;
    for (unsigned char c: s) b.push_back(c);
    T(J().str("k", "path").nums("s", b).str("r", res));
}

static void run_text(Rng &r, const std::string &dir) {
    const std::vector<int> al = {'/', '\\', ' ', 0, 'a'};
    gen_strings(cases > 2000 ? 6 : 4, 5, [&](const std::vector<int> &x) {
        if (!mine()) return;
        std::string s;
        for (int c: x) s += (char) al[c];
        path_case(s);
    });
    // long paths, with a defect, if any, near a power of two or at the end
    for (size_t n: {127, 128, 129, 255, 256, 257, 258, 300, 700, 4097})
        for (int k = 0; k < 4; k++) {
            if (!mine()) continue;
            std::string s = "/" + std::string(n - 1, 'p');
            for (size_t i = 40; i < n; i += 41) s[i] = '/';
            size_t at = r.chance(50) ? n - 1 - r.below(3) : 254 + r.below(6);
            if (at >= n) at = n - 1;
            if (k == 1) s[at] = r.pick(std::vector<char>{' ', '\\', 0});
            if (k == 2) s[at] = s[at - 1] = '/';
            if (k == 3) s[at] = '/';
            path_case(s);
        }
    for (long i = 0; i < cases; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        std::string s = q.chance(85) ? "/" : "";
        int n = q.chance(90) ? q.below(16) : 100 + q.below(200);
        for (int k = 0; k < n; k++) {
            int c = q.chance(20) ? '/' : q.chance(4) ? q.pick(al) : q.chance(10) ? (int) q.below(256) : 'a' + (int) q.below(26);
            s += (char) c;
        }
        path_case(s);
        // every other byte value must be accepted in the middle
        path_case(std::string("/x") + (char) (i & 255) + "y");
        // sizes
        static const char *suf[] = {"kb", "mb", "gb", "b"};
        tick("size");
        const char *sf = suf[q.below(4)];
        uint64_t v = q.chance(40) ? q.below(2000) : q.chance(50) ? q.below(1ull << 31) : q.below(16);
        uint64_t got = 0;
        std::string res = "ok";
        try {
            got = conv_to_bytes(std::to_string(v) + sf);
        } catch (std::exception &) {
            res = "exc";
        }
        T(J().str("k", "size").num("n", v).str("u", sf).str("r", res).raw("v", limbs(got)));
    }
    // files, in a private directory
    namespace fs = std::filesystem;
    std::string d = dir + "/fs" + std::to_string(shard);
    fs::create_directories(d);
    for (long i = 0; i < 40 + cases / 10; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        tick("fsutils");
        std::string p = d + "/f" + std::to_string(q.below(4));
        int state = q.below(4);  // what is there before
        long sz = 0;
        fs::remove_all(p);
        if (state == 1) fs::create_directory(p);
        if (state == 2 || state == 3) {
            sz = state == 2 ? 0 : q.pick(std::vector<int>{1, 2, 7, 511, 4096, 70000});
            FILE *f = fopen(p.c_str(), "wb");
            for (long k = 0; k < sz; k++) fputc('x', f);
            fclose(f);
            // sizes that need more than 32 bits, without using the space
            if (state == 3 && q.chance(20)) {
                sz = (q.range(2, 9) << 30) + q.below(5) - 2;
                if (truncate(p.c_str(), sz)) sz = fs::file_size(p);
            }
        }
        int missing = q.chance(15);
        std::string link = p + ".link";
        fs::remove(link);
        bool linked = !missing && q.chance(25);
        if (linked) fs::create_symlink(p, link);
        std::string target = missing ? d + "/no/such/dir/f" : linked ? link : p;
        int act = q.below(3);  // 0 look, 1 create, 2 delete
        std::string res = "ok";
        bool ex = false;
        long size = -1;
        try {
            if (act == 1) fsutils::create_empty_file(target);
            if (act == 2) {
                // never delete a directory here
                if (state == 1 && !missing) act = 0;
                else fsutils::delete_file_if_exists(target);
            }
            ex = fsutils::check_if_file_exists(target);
            size = state == 1 && !missing ? -1 : (long) fsutils::get_file_size(target);
        } catch (std::exception &) {
            res = "exc";
        }
        T(J().str("k", "fs").num("st", missing ? 0 : state).raw("sz", limbs(sz)).boolean("miss", missing).num("act", act).str("r", res).boolean("ex", ex)
                  .raw("size", limbs(std::max(size, 0l))).boolean("sized", size >= 0));
    }
    fs::remove_all(d);
}

// ------------------------------------------------------------ configuration
static void run_config(Rng &r) {
    using namespace hzruntime;
    struct V {
        const char *name;
        std::vector<std::string> vals;
    };
    const std::vector<V> vars = {
            {"HZIP_CACHE_FILE", {"cachefile", "x"}},
            {"HZIP_CACHE_PAGE_SIZE", {"4096", "131072", "1"}},
            {"HZIP_CACHE_COUNT", {"1", "2", "7"}},
            {"HZIP_API_THREADS", {"1", "3", "70000", "4294967301"}},
            {"HZIP_API_PORT", {"1", "8080", "65535"}},
            {"HZIP_API_TIMEOUT", {"0", "1", "3600", "100000", "4294967295"}},
            {"HZIP_API_KEY", {"k", "secret key", "", std::string(300, 'k') + "/#=:\x7f"}},
            {"HZIP_PROCESSOR_THREADS", {"1", "2", "65552", "4294967298"}},
            {"HZIP_MAX_MEM_USAGE", {"0", "1048576", "1099511627776"}},
            {"HZIP_OPENCL_KERNELS", {"1", "64", "1024", "66000", "4294967304"}},
    };
    auto observe = [&](const char *k, const std::map<std::string, std::string> &env, const std::map<std::string, std::string> &before) {
        // one lap of the cache provider
        std::vector<std::string> names;
        std::vector<std::string> pages;
        std::set<const void *> locks;
        for (int i = 0; i < 40; i++) {
            auto p = CacheProvider::get_cache();
            std::string n = p.first.shim_name();
            if (!names.empty() && n == names[0]) break;
            names.push_back(n);
            pages.push_back(std::to_string(p.first.shim_page()));
            locks.insert(&p.second);
        }
        std::string e = "{", b = "{";
        bool f = true;
        for (auto &v: vars) {
            if (!f) {
                e += ',';
                b += ',';
            }
            f = false;
            auto get = [&](const std::map<std::string, std::string> &m) {
                auto it = m.find(v.name);
                return it == m.end() ? std::string("[]") : "[" + J::q(it->second) + "]";
            };
            e += J::q(v.name) + ":" + get(env);
            b += J::q(v.name) + ":" + get(before);
        }
        T(J().str("k", k).raw("env", e + "}").raw("before", b + "}")
                  .str("threads", std::to_string(Config::api_threads)).str("port", std::to_string(Config::api_port))
                  .str("timeout", std::to_string(Config::api_timeout)).str("key", Config::api_key)
                  .str("proc", std::to_string(Config::processor_threads)).str("mem", std::to_string(Config::host_max_memory))
                  .str("kernels", std::to_string(Config::opencl_kernels)).strs("caches", names).strs("pages", pages)
                  .num("locks", locks.size()));
    };
    auto pickenv = [&](Rng &q, uint64_t mask) {
        std::map<std::string, std::string> env;
        for (size_t v = 0; v < vars.size(); v++)
            if (mask >> v & 1) env[vars[v].name] = q.pick(vars[v].vals);
        return env;
    };
    auto apply = [&](const std::map<std::string, std::string> &env) {
        for (auto &v: vars) unsetenv(v.name);
        unsetenv("HZIP_OPENCL_DEVICE_REGEX");
        for (auto &[k, v]: env) setenv(k.c_str(), v.c_str(), 1);
    };
    std::vector<uint64_t> masks;
    for (uint64_t m = 0; m < (1u << vars.size()); m++) masks.push_back(m);
    long limit = std::min<long>(masks.size(), cases);
    for (long i = 0; i < limit; i++) {
        Rng q = Rng(r.next());
        uint64_t m = limit == (long) masks.size() ? masks[i]
                     : i < (long) vars.size() ? 1ull << i : i < 2 * (long) vars.size() ? (masks.size() - 1) ^ (1ull << (i - vars.size()))
                     : i == 2 * (long) vars.size() ? 0 : q.below(masks.size());
        if (!mine()) continue;
        tick("config");
        pid_t p = fork();
        if (p == 0) {
            auto env = pickenv(q, m);
            apply(env);
            try {
                Config::configure();
                observe("cfg", env, {});
                // configure again with another environment, in the same process
                auto env2 = pickenv(q, q.below(masks.size()));
                apply(env2);
                Config::configure();
                observe("cfg2", env2, env);
            } catch (std::exception &e) {
                T(J().str("k", "exc").str("what", e.what()));
            }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) T(J().str("k", "crash").num("sig", st).str("at", "config"));
    }
}

// ------------------------------------------------------------ entropy coder
static void ftable_case(Rng &q) {
    tick("ftable");
    uint64_t scale = 1 + q.below(24);
    uint64_t maxn = std::min<uint64_t>(1ull << scale, 24);
    uint64_t n = 1 + q.below(maxn);
    if (q.chance(2)) {  // more symbols than a byte can name
        scale = 11 + q.below(14);
        n = 250 + q.below(60);
    }
    std::vector<uint64_t> f(n);
    int mode = q.below(5);
    for (auto &x: f)
        x = mode == 0 ? q.below(10) : mode == 1 ? q.below(1u << 20) : mode == 2 ? 0 : mode == 3 ? (q.chance(80) ? 0 : q.below(1u << 16)) : 7;
    if (mode == 3) f[q.below(n)] = (1u << 25) + q.below(1000);
    hzrans64_t st;
    hzrans64_codec_init(&st, n, scale);
    hzrans64_create_ftable_nf(&st, f.data());
    std::vector<long long> o, cum, inv, fi;
    for (uint64_t i = 0; i < n; i++) {
        fi.push_back(f[i]);
        o.push_back(st.ftable[i] > 0x7fffffff ? -1 : (long long) st.ftable[i]);
    }
    for (uint64_t i = 0; i < n; i++) {
        hzrans64_add_to_seq(&st, i);
        cum.push_back(st.bs);
        // the first and the last slot of the symbol lead back to it
        if (st.ls > 0 && st.ls <= (1ull << scale)) {
            inv.push_back(hzrans64_inv_bs(&st, st.bs));
            inv.push_back(hzrans64_inv_bs(&st, st.bs + st.ls - 1));
        } else {
            inv.push_back(-1);
            inv.push_back(-1);
        }
    }
    T(J().str("k", "ft").num("scale", scale).nums("f", fi).nums("t", o).nums("c", cum).nums("i", inv));
    hzrans64_destroy(&st);
}

// step by step: every encoder step with its words, then every decoder step
static void rans_case(Rng &q, size_t len) {
    tick("rans");
    uint64_t scale = q.chance(30) ? 24 : 1 + q.below(31);
    uint64_t total = 1ull << scale;
    uint64_t n = 1 + q.below(std::min<uint64_t>(total, 12));
    // a random partition of the table into n non-empty parts
    std::set<uint64_t> cuts;
    while (cuts.size() < n - 1) {
        uint64_t c = q.chance(40) ? 1 + q.below(std::min<uint64_t>(total - 1, 2 * n)) : q.chance(50) ? total - 1 - q.below(std::min<uint64_t>(total - 1, 2 * n)) : 1 + q.below(total - 1);
        if (c >= 1 && c < total) cuts.insert(c);
    }
    std::vector<uint64_t> bs = {0};
    for (auto c: cuts) bs.push_back(c);
    std::vector<uint64_t> ls;
    for (size_t i = 0; i < n; i++) ls.push_back((i + 1 < n ? bs[i + 1] : total) - bs[i]);
    std::vector<int> syms(len);
    int fav = q.below(n);
    for (auto &s: syms) s = q.chance(50) ? fav : q.below(n);
    hzrans64_t st;
    hzrans64_codec_init(&st, n, scale);
    HZ_Stack<uint32_t> out;
    T(J().str("k", "rnew").num("scale", scale).raw("x", limbs(st.x)).raw("lb", limbs(st.lower_bound)));
    std::vector<uint32_t> words;
    for (size_t i = len; i-- > 0;) {
        st.ls = ls[syms[i]];
        st.bs = bs[syms[i]];
        uint64_t before = out.size();
        hzrans64_encode_s(&st, &out);
        uint64_t emitted = out.size() - before;
        T(J().str("k", "enc").num("s", syms[i]).raw("ls", limbs(st.ls)).raw("bs", limbs(st.bs)).raw("x", limbs(st.x)).num("em", emitted)
                  .raw("w", limbs(emitted ? out.top() : 0)).num("cnt", st.count));
    }
    hzrans64_enc_flush(&st, &out);
    rainman::ptr<uint32_t> data(out.size());
    std::vector<std::string> fw;
    for (uint64_t i = 0; !out.empty(); i++) {
        data[i] = out.top();
        if (i < 2) fw.push_back(limbs(out.top()));
        out.pop();
    }
    T(J().str("k", "flush").num("n", data.size()).num("cnt", st.count).raw("w", jlist(fw)));
    hzrans64_t ds;
    hzrans64_codec_init(&ds, n, scale);
    try {
        hzrans64_dec_load_state(&ds, data);
        T(J().str("k", "load").raw("x", limbs(ds.x)).num("cnt", ds.count));
        for (size_t i = 0; i < len; i++) {
            uint64_t slot = ds.x & ds.mask;
            size_t s = 0;
            while (s + 1 < n && bs[s + 1] <= slot) s++;
            ds.ls = ls[s];
            ds.bs = bs[s];
            hzrans64_decode_s(&ds, data);
            T(J().str("k", "dec").num("s", s).raw("x", limbs(ds.x)).num("cnt", ds.count));
        }
    } catch (std::exception &e) {
        T(J().str("k", "exc").str("what", e.what()));
    }
    T(J().str("k", "rend").raw("x", limbs(ds.x)).num("cnt", ds.count).num("n", data.size()));
    hzrans64_destroy(&st);
    hzrans64_destroy(&ds);
}

// single steps from states of the driver's choosing: the ends of the state's range and the state at which a word leaves
static void rans_steps(Rng &q, size_t len) {
    tick("rans-step");
    for (size_t k = 0; k < len; k++) {
        uint64_t scale = q.chance(30) ? 24 : 1 + q.below(31);
        uint64_t total = 1ull << scale;
        uint64_t ls = q.chance(20) ? total : q.chance(30) ? 1 + q.below(std::min<uint64_t>(total, 8)) : 1 + q.below(total);
        uint64_t bs = q.chance(30) ? total - ls : q.below(total - ls + 1);
        uint64_t lower = 1ull << 31, top = 1ull << 63, edge = ls << (63 - scale);
        uint64_t x;
        switch (q.below(8)) {
            case 0: x = edge; break;
            case 1: x = edge - 1; break;
            case 2: x = edge + 1 + q.below(3); break;
            case 3: x = lower; break;
            case 4: x = top - 1 - q.below(2); break;
            case 5: x = edge + q.below(1ull << 32); break;
            default: x = lower + q.next() % (top - lower);
        }
        if (x < lower || x >= top) x = lower + q.below(3);
        hzrans64_t st;
        hzrans64_codec_init(&st, 2, scale);
        HZ_Stack<uint32_t> out;
        st.x = x;
        st.ls = ls;
        st.bs = bs;
        J j;
        j.str("k", "step").num("scale", scale).raw("ls", limbs(ls)).raw("bs", limbs(bs)).raw("x", limbs(x));
        try {
            hzrans64_encode_s(&st, &out);
            uint64_t em = out.size();
            uint32_t w = em ? out.top() : 0;
            j.raw("y", limbs(st.x)).num("em", em).raw("w", limbs(w)).num("cnt", st.count);
            rainman::ptr<uint32_t> data(2);
            data[0] = w;
            data[1] = 0;
            hzrans64_t ds;
            hzrans64_codec_init(&ds, 2, scale);
            ds.x = st.x;
            ds.ls = ls;
            ds.bs = bs;
            ds.count = 0;
            hzrans64_decode_s(&ds, data);
            j.raw("z", limbs(ds.x)).num("used", ds.count);
            hzrans64_destroy(&ds);
        } catch (std::exception &e) {
            j.str("exc", e.what());
        }
        hzrans64_destroy(&st);
        T(j);
    }
}

// the codec objects, with tables that change from symbol to symbol
static void codec_case(Rng &q, size_t len) {
    tick("rans-codec");
    // a scale above 31 is taken as 31
    uint64_t asked = q.chance(50) ? 24 : q.chance(70) ? 8 + q.below(16) : 28 + q.below(8);
    uint64_t scale = std::min<uint64_t>(asked, 31);
    uint64_t n = 2 + q.below(20);
    int ntab = 1 + q.below(3);
    std::vector<std::vector<uint64_t>> ls(ntab, std::vector<uint64_t>(n)), bs(ntab, std::vector<uint64_t>(n));
    J j;
    j.str("k", "codec").num("n", len);
    try {
        for (int t = 0; t < ntab; t++) {
            hzrans64_t st;
            hzrans64_codec_init(&st, n, scale);
            std::vector<uint64_t> f(n);
            for (auto &x: f) x = q.chance(30) ? 0 : q.below(1u << (1 + q.below(16)));
            hzrans64_create_ftable_nf(&st, f.data());
            for (uint64_t s = 0; s < n; s++) {
                hzrans64_add_to_seq(&st, s);
                ls[t][s] = st.ls;
                bs[t][s] = st.bs;
            }
            hzrans64_destroy(&st);
        }
        std::vector<int> syms(len);
        for (auto &s: syms) s = q.chance(60) ? 0 : q.below(n);
        uint64_t idx = len, lo = 1ull << 31, hi = 0;
        hzrans64_encoder_output eo;
        {
            auto enc = hzrans64_encoder();
            enc.set_header(n, asked, len);
            enc.set_distribution(rainman::ptr<uint64_t>(n));
            enc.set_cross_encoder([&](const rainman::ptr<hzrans64_t> &st, const rainman::ptr<HZ_Stack<uint32_t>> &) {
                idx--;
                lo = std::min(lo, st->x);
                hi = std::max(hi, st->x);
                st->ls = ls[idx % ntab][syms[idx]];
                st->bs = bs[idx % ntab][syms[idx]];
            });
            enc.set_size(len);
            eo = enc.encode();
        }
        auto sym = rainman::ptr<uint64_t>();
        uint64_t di = 0;
        auto dec = hzrans64_decoder();
        dec.set_header(n, asked, len);
        dec.set_distribution(rainman::ptr<uint64_t>(n));
        dec.override_symbol_ptr(sym);
        uint64_t lastx = 0;
        dec.set_cross_decoder([&](const rainman::ptr<hzrans64_t> &st, const rainman::ptr<HZ_Stack<uint32_t>> &) {
            uint64_t slot = st->x & st->mask;
            int t = di % ntab;
            uint64_t s = 0;
            while (s + 1 < n && bs[t][s + 1] <= slot) s++;
            st->ls = ls[t][s];
            st->bs = bs[t][s];
            *sym = s;
            di++;
        });
        auto od = dec.decode(eo.data);
        std::vector<int> got;
        for (uint64_t i = 0; i < od.n; i++) got.push_back((int) od.data[i]);
        if (len <= 60) j.nums("s", syms).nums("v", got);
        else {
            std::vector<uint8_t> a(syms.begin(), syms.end()), b(got.begin(), got.end());
            j.strs("s", std::vector<std::string>{content(a.data(), a.size())}).strs("v", std::vector<std::string>{content(b.data(), b.size())});
        }
        j.num("words", eo.n).num("size", eo.data.size()).num("on", od.n).raw("lo", limbs(lo)).raw("hi", limbs(hi));
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    T(j);
}

static void run_rans(Rng &r) {
    for (size_t n: {65536, 70001, 140000, 1100000, 4194304}) if (mine()) codec_case(r, n);
    for (long i = 0; i < cases; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        ftable_case(q);
        if (i % 3 == 0) rans_case(q, q.chance(50) ? q.below(6) : q.below(24));
        if (i % 3 == 1) rans_steps(q, 6);
        if (i % 4 == 0) codec_case(q, q.chance(30) ? q.below(4) : q.chance(80) ? q.below(60) : q.below(4000));
    }
}

// ------------------------------------------------------------ codecs
static std::string bytes(const rainman::ptr<uint8_t> &p, uint64_t n) {
    if (n > p.size()) return "short";
    return content(p.pointer(), n);
}

static void block_case(Rng &q, const std::vector<int> &s, hzcodec::algorithms::ALGORITHM alg, int mode) {
    // mode 0: own state; 1: state trained on other data; 2: trained twice; 3: tables whose powers of two keep the
    // coder's state on the first slot of a symbol
    tick("codec", 60);
    J j;
    j.str("k", "blk").num("alg", alg).num("n", s.size()).num("mode", mode);
    auto mk = [&](const std::vector<int> &d) {
        auto b = rainman::ptr<HZ_Blob>();
        b->data = rainman::ptr<uint8_t>(d.size());
        for (size_t i = 0; i < d.size(); i++) b->data[i] = d[i];
        b->size = d.size();
        b->o_size = d.size();
        return b;
    };
    try {
        auto codec = hzcodec::CodecProvider::algorithm_to_codec(alg);
        auto b = mk(s);
        auto orig = bytes(b->data, s.size());
        j.str("in", orig);
        std::string trained = "";
        rainman::ptr<HZ_MState> shared;
        if (mode) {
            if (mode == 3) {
                shared = rainman::ptr<HZ_MState>();
                shared->alg = alg;
                shared->data = rainman::ptr<uint8_t>(65537 << 3);
                auto ms = bitio::stream(shared->data.pointer(), shared->data.size());
                uint64_t peak = (1ull << (19 + q.below(5))) - 1, rest = 16776960 - peak;
                bool flat = q.chance(10);
                for (int x = 0; x < 0x100; x++) {
                    bool even = flat || (x && q.chance(70));
                    for (int y = 0; y < 0x100; y++)
                        ms.write(even ? 1 : y == 0 ? peak : rest / 255 + ((uint64_t) y <= rest % 255 ? 1 : 0), 0x40);
                }
            } else for (int k = 0; k < mode; k++) {
                auto tb = mk(structured(q, q.below(300), 256));
                if (k) tb->mstate = shared;
                shared = codec->train(tb);
            }
            trained = bytes(shared->data, shared->size());
            // a copy, as an archive would hand out
            auto c = rainman::ptr<HZ_MState>();
            c->alg = shared->alg;
            c->data = rainman::ptr<uint8_t>(shared->size());
            for (uint64_t i = 0; i < shared->size(); i++) c->data[i] = shared->data[i];
            b->mstate = c;
        }
        auto z = codec->compress(b);
        j.str("after", bytes(b->data, s.size()));
        z->evaluate(b->data);
        bool raw = !z->status;
        j.boolean("raw", raw).num("size", z->size).num("osize", z->o_size).num("malg", z->mstate->alg);
        if (mode && !raw) {
            // compressing must not disturb the shared state
            j.boolean("shared", bytes(z->mstate->data, z->mstate->size()) == trained);
        } else j.boolean("shared", true);
        // only what would be stored survives: header, data, sizes and state
        auto w = rainman::ptr<HZ_Blob>();
        w->header.raw = rainman::ptr<uint8_t>(z->header.size());
        for (uint64_t i = 0; i < z->header.size(); i++) w->header.raw[i] = z->header.raw[i];
        w->size = z->size;
        w->o_size = z->o_size;
        w->data = rainman::ptr<uint8_t>(z->size);
        for (uint64_t i = 0; i < z->size; i++) w->data[i] = z->data[i];
        w->mstate = rainman::ptr<HZ_MState>();
        w->mstate->alg = z->mstate->alg;
        w->mstate->data = rainman::ptr<uint8_t>(z->mstate->size());
        for (uint64_t i = 0; i < z->mstate->size(); i++) w->mstate->data[i] = z->mstate->data[i];
        auto d = hzcodec::CodecProvider::algorithm_to_codec(w->mstate->alg)->decompress(w);
        j.str("out", bytes(d->data, d->o_size)).num("outn", d->o_size);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    T(j);
}

static void run_codec(Rng &r) {
    using namespace hzcodec::algorithms;
    if (mine()) {
        for (uint64_t a = 0; a < 12; a++) {
            auto g = [&](auto f) {
                try {
                    return std::string(f());
                } catch (std::exception &) {
                    return std::string("err");
                }
            };
            auto alg = (ALGORITHM) a;
            std::string nm = g([&]() { return hzcodec::CodecProvider::algorithm_to_str(alg); });
            std::string cd = g([&]() {
                auto c = hzcodec::CodecProvider::algorithm_to_codec(alg);
                return dynamic_cast<hzcodec::Uncompressed *>(c) ? "Uncompressed" : dynamic_cast<hzcodec::Victini *>(c) ? "Victini"
                       : dynamic_cast<hzcodec::Sharingan *>(c) ? "Sharingan" : "other";
            });
            std::string bs = g([&]() { return hex64(hzcodec::CodecProvider::algorithm_to_bsize(alg)); });
            T(J().str("k", "alg").num("a", a).str("name", nm).str("codec", cd).str("bsize", bs));
        }
        // Sharingan is not finished; its number is only looked up here.
    }
    gen_strings(3, 3, [&](const std::vector<int> &s) {
        if (mine()) block_case(r, s, UNCOMPRESSED, 0);
    });
    for (int len = 0; len <= 4; len++)
        for (int c: {0, 1, 255})
            for (int m = 0; m < 2; m++)
                if (mine()) block_case(r, std::vector<int>(len, c), VICTINI, m);
    for (int n: {65536, 66000, 70001, 140000})
        if (mine()) block_case(r, structured(r, n, n & 1 ? 3 : 200), VICTINI, n & 1);
    // the row of a block is among the first or the last, at sizes beyond every power of two up to the largest block
    for (int n: {300, 40000, 66000, 140000, 270000, 540000, 1100000, 2200000, 4194304}) {
        for (int first: {0, 255}) {
            if (!mine()) continue;
            std::vector<int> s(n);
            for (auto &x: s) x = 1 + r.below(n & 1 ? 250 : 60);
            s[0] = first;
            block_case(r, s, VICTINI, 0);
        }
    }
    for (long i = 0; i < cases; i++) {
        Rng q = Rng(r.next());
        if (!mine()) continue;
        int alpha = q.pick(std::vector<int>{1, 2, 4, 64, 256, 256});
        size_t n = q.chance(40) ? q.below(64) : q.chance(80) ? q.below(3000) : q.below(40000);
        auto s = structured(q, n, alpha);
        int off = q.chance(30) ? 256 - alpha : 0;
        for (auto &x: s) x += off;
        auto alg = q.chance(85) ? VICTINI : UNCOMPRESSED;
        int mode = alg == VICTINI ? q.below(4) : 0;
        if (mode == 3) {
            s.resize(std::min<size_t>(s.size(), 4000));
            if (q.chance(70)) for (auto &x: s) x = s[0];
        }
        block_case(q, s, alg, mode);
    }
}

int main(int argc, char **argv) {
    if (argc < 7) return 2;
    std::string kind = argv[1];
    Rng r(strtoull(argv[2], nullptr, 10) ^ std::hash<std::string>{}(kind) % 1000003);
    cases = atol(argv[3]);
    shard = atoi(argv[4]);
    shards = atoi(argv[5]);
    T.open(argv[6]);
    quiet();
    guard(T);
    try {
        if (kind == "bwt") run_bwt(r);
        else if (kind == "zigzag") run_zz(r);
        else if (kind == "delta") run_delta(r);
        else if (kind == "color") devices(argv[7]), run_color(r);
        else if (kind == "paeth") devices(argv[7]), run_paeth(r);
        else if (kind == "codes") run_codes(r);
        else if (kind == "stack") run_stack(r);
        else if (kind == "text") run_text(r, argv[7]);
        else if (kind == "config") run_config(r);
        else if (kind == "rans") run_rans(r);
        else if (kind == "codec") run_codec(r);
        else return 2;
    } catch (std::exception &e) {
        T(J().str("k", "exc").str("what", e.what()).str("at", g_what));
    }
    alarm(0);
    T(J().str("k", "end"));
    fflush(stdout);
    _exit(0);
}
