// Records how images are read, modelled and compressed, one JSON line per case.
// usage: image <kind> <seed> <cases> <shard> <shards> <out> <scratch>
#include "common.h"
#include "guard.h"
#include "fake_opencl.h"
#include <png.h>
#include <sys/mman.h>
#include <unistd.h>
#include <rainman/rainman.h>
#include <hzip_core/preprocessor/png_bundle.h>
#include <hzip_core/preprocessor/transforms.h>
#include <hzip_core/models/paeth.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_core/kernel/hzrans/hzrans64.h>
#include <hzip_codec/compressors.h>
#include <hzip_codec/sharingan/state_transition.h>
#include <hzip_core/opencl/cl_helper.h>

using namespace vp;

static Trace T;
static int shard, shards;
static long counter = 0;
static long cases;

static bool mine() { return (counter++ % shards) == shard; }

// ------------------------------------------------------------ images
struct Image {
    uint32_t w = 1, h = 1;
    int bd = 8, ct = 0, il = 0;
    std::vector<png_color> pal;
    std::vector<uint16_t> a;    // row by row, pixel by pixel, channel by channel

    int nc() const { return ct == 2 ? 3 : ct == 4 ? 2 : ct == 6 ? 4 : 1; }

    uint64_t n() const { return (uint64_t) w * h; }
};

static void fill(Rng &q, Image &m) {
    m.a.resize(m.n() * m.nc());
    int top = m.ct == 3 ? (int) m.pal.size() : 1 << m.bd;
    int how = q.below(5), base = q.below(top), few = std::min(top, 1 + (int) q.below(5)), slope = q.below(9);
    for (uint64_t k = 0; k < m.a.size(); k++) {
        uint64_t x = k / m.nc() % m.w, y = k / m.nc() / m.w;
        m.a[k] = how == 0 ? q.below(top) : how == 1 ? base : how == 2 ? (base + q.below(few)) % top
                : how == 3 ? (base + slope * x + y * 3 + q.below(2)) % top : (q.chance(50) ? 0 : top - 1);
    }
}

static Image draw(Rng &q, uint32_t w, uint32_t h) {
    Image m;
    m.w = w, m.h = h;
    m.ct = q.pick(std::vector<int>{0, 2, 3, 4, 6});
    m.bd = m.ct == 0 ? 1 << q.below(5) : m.ct == 3 ? 1 << q.below(4) : q.chance(50) ? 8 : 16;
    m.il = q.chance(35);
    if (m.ct == 3) {
        int n = q.chance(30) ? 1 << m.bd : 1 + q.below(1 << m.bd);
        for (int i = 0; i < n; i++) m.pal.push_back({(png_byte) q.next(), (png_byte) q.next(), (png_byte) q.next()});
    }
    fill(q, m);
    return m;
}

static std::vector<uint8_t> write_png(Rng &q, const Image &m) {
    std::vector<uint8_t> out;
    auto p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
    auto i = png_create_info_struct(p);
    png_set_write_fn(p, &out, [](png_structp s, png_bytep d, png_size_t n) {
        auto v = (std::vector<uint8_t> *) png_get_io_ptr(s);
        v->insert(v->end(), d, d + n);
    }, [](png_structp) {});
    if (q.chance(40)) png_set_compression_buffer_size(p, 20 + q.below(200));    // several IDAT chunks
    png_set_compression_level(p, q.below(10));
    png_set_filter(p, 0, q.pick(std::vector<int>{PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH, PNG_ALL_FILTERS}));
    png_set_IHDR(p, i, m.w, m.h, m.bd, m.ct, m.il ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT,
                 PNG_FILTER_TYPE_DEFAULT);
    std::vector<png_color> pal = m.pal;
    if (m.ct == 2 && q.chance(20)) pal = {{1, 2, 3}, {4, 5, 6}};   // only suggested colours
    if (!pal.empty()) png_set_PLTE(p, i, pal.data(), (int) pal.size());
    // what does not belong to the samples
    if (q.chance(25)) png_set_gAMA_fixed(p, i, 45455);
    if (q.chance(25) && m.ct == 3) {
        std::vector<png_byte> t(1 + q.below(m.pal.size()), 7);
        png_set_tRNS(p, i, t.data(), (int) t.size(), nullptr);
    } else if (q.chance(25) && (m.ct == 0 || m.ct == 2)) {
        png_color_16 c{};
        c.gray = m.a[0], c.red = m.a[0];
        if (m.ct == 2) c.green = m.a[1], c.blue = m.a[2];
        png_set_tRNS(p, i, nullptr, 0, &c);
    }
    if (q.chance(20) && m.bd == 8 && m.ct == 2) {
        png_color_8 s{};
        s.red = s.green = s.blue = 5;
        png_set_sBIT(p, i, &s);
    }
    if (q.chance(25)) png_set_pHYs(p, i, 3, 4, 1);
    png_write_info(p, i);
    if (m.bd < 8) png_set_packing(p);
    std::vector<std::vector<uint8_t>> rows(m.h);
    std::vector<png_bytep> rp;
    uint64_t per = (uint64_t) m.w * m.nc();
    for (uint32_t y = 0; y < m.h; y++) {
        for (uint64_t k = 0; k < per; k++) {
            uint16_t v = m.a[y * per + k];
            if (m.bd == 16) rows[y].push_back(v >> 8);
            rows[y].push_back(v);
        }
        rp.push_back(rows[y].data());
    }
    png_write_image(p, rp.data());
    png_write_end(p, i);
    png_destroy_write_struct(&p, &i);
    return out;
}

// Bytes that end where the next page cannot be touched.
struct Guarded {
    uint8_t *base;
    size_t len;
    uint8_t *at;

    explicit Guarded(const std::vector<uint8_t> &v) {
        len = ((v.size() + 4095) / 4096 + 1) * 4096;
        base = (uint8_t *) mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) abort();
        at = base + len - 4096 - v.size();
        std::copy(v.begin(), v.end(), at);
        mprotect(base + len - 4096, 4096, PROT_NONE);
    }

    Guarded(const Guarded &) = delete;

    ~Guarded() { munmap(base, len); }
};

static std::vector<int> flat(const std::vector<png_color> &p) {
    std::vector<int> v;
    for (auto c: p) v.push_back(c.red), v.push_back(c.green), v.push_back(c.blue);
    return v;
}

static J &facts(J &j, const Image &m) {
    return j.num("w", m.w).num("h", m.h).num("bd", m.bd).num("ct", m.ct).num("il", m.il).num("nc", m.nc()).nums("pal", flat(m.pal));
}

static std::string got(const PNGBundle &b, const Image &m, Rng *sample = nullptr) {
    J g;
    g.num("w", b.ihdr.width).num("h", b.ihdr.height).num("bd", b.ihdr.bit_depth).num("ct", b.ihdr.color_type).num("il", b.ihdr.interlace_method)
            .num("cm", b.ihdr.compression_method).num("fm", b.ihdr.filter_method).num("nc", b.nchannels);
    std::vector<png_color> pal;
    if (m.ct == 3) for (uint64_t k = 0; k < b.plte.colors.size(); k++) pal.push_back(b.plte.colors[k]);
    g.nums("pal", flat(pal));
    uint64_t n = m.n() * m.nc();
    g.boolean("room", b.buf.size() >= n);
    if (b.buf.size() < n) return g.done();
    if (!sample) {
        std::vector<int> o;
        for (uint64_t k = 0; k < n; k++) o.push_back(b.buf[k]);
        g.nums("o", o);
    } else {
        std::vector<int> at;    // plane, row, column, what is there, what should be
        for (int k = 0; k < 60; k++) {
            uint64_t z = sample->below(m.nc()), y = k == 0 ? m.h - 1 : sample->below(m.h), x = k == 0 ? m.w - 1 : sample->below(m.w);
            at.push_back(b.buf[z * m.n() + y * m.w + x]);
            at.push_back(m.a[(y * m.w + x) * m.nc() + z]);
        }
        bool same = true;
        for (uint64_t z = 0; z < (uint64_t) m.nc(); z++)
            for (uint64_t k = 0; k < m.n(); k++) same = same && b.buf[z * m.n() + k] == m.a[k * m.nc() + z];
        g.nums("at", at).boolean("same", same);
    }
    return g.done();
}

static void png_case(Rng &q, const Image &m) {
    tick("png");
    auto bytes = write_png(q, m);
    Guarded g(bytes);
    J j;
    j.str("k", "png");
    facts(j, m);
    bool large = m.a.size() > 700;
    if (!large) j.nums("a", m.a);
    try {
        auto b = PNGBundleBuilder(rainman::ptr<uint8_t>(g.at, bytes.size())).read_bundle();
        j.raw("got", got(b, m, large ? &q : nullptr));
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    T(j);
}

struct Chunk {
    size_t at, n;   // the length field, the data
    std::string type;
};

static std::vector<Chunk> chunks(const std::vector<uint8_t> &b) {
    std::vector<Chunk> c;
    for (size_t p = 8; p + 12 <= b.size();) {
        size_t n = b[p] << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3];
        c.push_back({p, n, std::string(b.begin() + p + 4, b.begin() + p + 8)});
        p += n + 12;
    }
    return c;
}

// Images that are cut off or damaged.
static void bad_case(Rng &q, const Image &m) {
    tick("png-bad");
    auto bytes = write_png(q, m);
    auto cs = chunks(bytes);
    for (int t = 0; t < 4; t++) {
        auto b = bytes;
        std::string how;
        if (q.chance(60)) {
            size_t n = q.chance(30) ? q.below(40) : q.chance(30) ? cs.back().at - 1 - q.below(6) : q.below(cs.back().at);
            b.resize(std::min(n, cs.back().at - 1));
            how = "cut";
        } else {
            std::vector<Chunk> own;
            for (auto &c: cs) if (c.type == "IHDR" || c.type == "IDAT" || (c.type == "PLTE" && m.ct == 3)) own.push_back(c);
            auto c = q.pick(own);
            size_t at = q.chance(15) ? q.below(8) : c.at + 8 + q.below(c.n + 4);
            b[at] ^= 1 << q.below(8);
            how = "damaged";
        }
        Guarded g(b);
        J j;
        j.str("k", "bad").str("how", how).num("n", b.size()).num("of", bytes.size());
        try {
            PNGBundleBuilder(rainman::ptr<uint8_t>(g.at, b.size())).read_bundle();
            j.str("r", "ok");
        } catch (rainman::shim_bounds &e) {
            j.str("r", "beyond");
        } catch (std::exception &e) {
            j.str("r", "error");
        }
        T(j);
    }
    // no image at all
    std::vector<uint8_t> junk(q.below(60));
    for (auto &x: junk) x = q.next();
    Guarded g(junk);
    J j;
    j.str("k", "bad").str("how", "junk").num("n", junk.size()).num("of", 0);
    try {
        PNGBundleBuilder(rainman::ptr<uint8_t>(g.at, junk.size())).read_bundle();
        j.str("r", "ok");
    } catch (rainman::shim_bounds &e) {
        j.str("r", "beyond");
    } catch (std::exception &e) {
        j.str("r", "error");
    }
    T(j);
}

static void run_png(Rng &r) {
    // every kind of image, small, at every size around a byte of pixels
    for (int ct: {0, 2, 3, 4, 6})
        for (int bd: {1, 2, 4, 8, 16})
            for (int il: {0, 1})
                for (int w: {1, 2, 3, 7, 8, 9, 16, 17}) {
                    Rng q(r.next());
                    if ((ct != 0 && ct != 3 && bd < 8) || (ct == 3 && bd == 16)) continue;
                    if (!mine()) continue;
                    Image m;
                    m.w = w, m.h = 1 + q.below(10), m.bd = bd, m.ct = ct, m.il = il;
                    if (ct == 3) for (int i = 0; i < 1 << bd; i++) m.pal.push_back({(png_byte) (i * 3), (png_byte) q.next(), (png_byte) (255 - i)});
                    m.a.resize(m.n() * m.nc());
                    for (auto &x: m.a) x = q.below(1 << bd);
                    png_case(q, m);
                }
    for (long i = 0; i < cases; i++) {
        Rng q(r.next());
        if (!mine()) continue;
        png_case(q, draw(q, 1 + q.below(14), 1 + q.below(12)));
    }
    for (long i = 0; i < 8 + cases / 12; i++) {
        Rng q(r.next());
        if (!mine()) continue;
        switch (q.below(4)) {
            case 0: png_case(q, draw(q, 60000 + q.below(9000), 1 + q.below(3))); break;
            case 1: png_case(q, draw(q, 1 + q.below(3), 60000 + q.below(9000))); break;
            default: png_case(q, draw(q, 1 + q.below(700), 1 + q.below(500)));
        }
    }
    for (long i = 0; i < cases; i++) {
        Rng q(r.next());
        if (!mine()) continue;
        bad_case(q, draw(q, 1 + q.below(20), 1 + q.below(20)));
    }
}

// ------------------------------------------------------------ the model of the samples
struct Pair {
    long long b, l;
};

struct Params {
    uint64_t cw, ch;
    int order;
    uint64_t rate;
};

enum Way { HOST, DEVICE, FIXED, ANY };
static const char *way_name[] = {"host", "device", "fixed", "any"};

struct Fixed {
    rainman::ptr3d<uint64_t> maps;
    rainman::ptr2d<uint64_t> dists;
};

static PNGBundle bundle_of(const Image &m, const std::vector<uint16_t> &planes) {
    auto buf = rainman::ptr<uint16_t>(planes.size());
    for (size_t i = 0; i < planes.size(); i++) buf[i] = planes[i];
    PNGBundle b(buf, m.nc());
    b.ihdr.width = m.w, b.ihdr.height = m.h, b.ihdr.bit_depth = m.bd, b.ihdr.color_type = m.ct;
    return b;
}

// The model's frequencies, which are turned into tables in place: drawn afresh from a seed.
static Fixed fixed_model(uint64_t seed, int nc) {
    Rng q(seed);
    Fixed f;
    f.maps = rainman::make_ptr3d<uint64_t>(nc, 256, 256);
    f.dists = rainman::ptr2d<uint64_t>(nc, 256);
    for (int c = 0; c < nc; c++) {
        int d = q.pick(std::vector<int>{0, 2, 50, 100});
        for (int i = 0; i < 256; i++) for (int k = 0; k < 256; k++) f.maps[c][i][k] = q.chance(d) ? q.below(1 << q.below(16)) : 0;
        for (int k = 0; k < 256; k++) f.dists[c][k] = q.chance(d) ? q.below(1 << q.below(16)) : 0;
    }
    return f;
}

static std::vector<Pair> pairs_of(const Image &m, const std::vector<uint16_t> &planes, const Params &p, Way way, uint64_t seed) {
    auto b = bundle_of(m, planes);
    auto s = SharinganStateTransition(b, p.cw, p.ch, p.order, p.rate);
    if (way == FIXED) {
        auto f = fixed_model(seed, m.nc());
        s.inject_model(f.maps, f.dists);
    }
    auto [v, mx] = way == FIXED ? s.static_precode() : way == HOST ? s.cpu_dynamic_precode()
            : way == DEVICE ? s.opencl_dynamic_precode() : s.dynamic_precode();
    rainman::virtual_array<SSTPair> a = v;
    std::vector<Pair> out;
    for (uint64_t i = 0; i < a.size(); i++) out.push_back({a[i].bs, a[i].ls});
    return out;
}

static Params params(Rng &q, const Image &m) {
    auto side = [&](uint64_t n) -> uint64_t {
        return q.chance(30) ? 1 + q.below(n + 2) : q.chance(30) ? n : q.pick(std::vector<uint64_t>{1, 2, 3, 4, 7, 8, 64, 100});
    };
    return {side(m.w), side(m.h), (int) q.range(0, 4), q.pick(std::vector<uint64_t>{0, 1, 2, 32, 33, 1000, 1 << 20})};
}

static Image plain(Rng &q, uint32_t w, uint32_t h) {
    Image m;
    m.w = w, m.h = h;
    m.bd = q.pick(std::vector<int>{8, 8, 16, 16, 4, 1, 2});
    m.ct = m.bd < 8 ? 0 : q.pick(std::vector<int>{0, 2, 4, 6});
    fill(q, m);
    return m;
}

// One place of the sequence of an image with every value its symbol may have.
static void probe_case(Rng &q, const Image &m, Way way) {
    tick("probe", 60);
    auto p = params(q, m);
    if (way == DEVICE) fakecl_schedule(q.below(1000000), q.pick(std::vector<size_t>{1, 2, 4, 32, 64}));
    if (way == DEVICE) p.cw = std::max<uint64_t>(p.cw, (m.w + 3) / 4), p.ch = std::max<uint64_t>(p.ch, (m.h + 3) / 4);
    uint64_t n = m.n() * m.nc(), seed = q.next();
    bool deep = m.bd > 8;
    std::vector<uint16_t> planes(n);
    for (uint64_t i = 0; i < n; i++) planes[i] = m.a[i];
    J j;
    j.str("k", "probe").str("by", way_name[way]).num("w", m.w).num("h", m.h).num("nc", m.nc()).num("bd", m.bd)
            .num("cw", p.cw).num("ch", p.ch).num("order", p.order).num("rate", p.rate);
    try {
        auto base = pairs_of(m, planes, p, way, seed);
        j.num("n", base.size());
        bool low = deep && q.chance(50);
        uint64_t at = q.chance(25) ? n - 1 - q.below(std::min<uint64_t>(n, m.w)) : q.below(n);
        uint64_t slot = low ? n + at : at;
        j.num("at", slot);
        std::vector<int> bs, ls;
        bool before = true, repeats = true;
        int own = low ? planes[at] & 255 : deep ? planes[at] >> 8 : planes[at];
        int top = low || deep ? 256 : 1 << m.bd;
        // a symbol that the depth does not allow has its share of the table as well
        if (q.chance(50)) top = 256;
        j.num("own", own);
        for (int s = 0; s < 256 && s < top; s++) {
            auto v = planes;
            v[at] = low ? (v[at] & 0xff00) | s : deep ? (v[at] & 255) | s << 8 : s;
            // what follows does not matter either
            uint64_t later = at + 1;
            if (s != own && q.chance(50))
                for (uint64_t i = later; i < n; i++) {
                    uint16_t x = deep ? q.next() & 0xffff : q.below(1 << m.bd);
                    v[i] = low ? (v[i] & 0xff00) | (x & 255) : x;
                }
            auto r = pairs_of(m, v, p, way, seed);
            before = before && r.size() == base.size();
            for (uint64_t i = 0; before && i < slot && i < r.size(); i++) {
                // for a high byte only the high bytes come before
                before = r[i].b == base[i].b && r[i].l == base[i].l;
            }
            if (slot < r.size()) bs.push_back(r[slot].b), ls.push_back(r[slot].l);
            if (s == own) for (uint64_t i = 0; repeats && i < r.size(); i++) repeats = r[i].b == base[i].b && r[i].l == base[i].l;
        }
        j.boolean("before", before).boolean("repeats", repeats).boolean("all", top == 256).nums("b", bs).nums("l", ls);
        j.num("ob", slot < base.size() ? base[slot].b : -1).num("ol", slot < base.size() ? base[slot].l : -1);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    j.boolean("dmg", fakecl_damaged());
    T(j);
}

// Every way of computing the adaptive sequence gives the same one.
static void same_case(Rng &q, const Image &m, Way way, bool big) {
    tick("precode-same", 60);
    auto p = params(q, m);
    if (big) p = {64, 64, (int) q.range(1, 3), 32};
    p.cw = std::max<uint64_t>(p.cw, (m.w + 7) / 8), p.ch = std::max<uint64_t>(p.ch, (m.h + 7) / 8);
    if (big) p.cw = p.ch = 64;
    fakecl_schedule(q.below(1000000), q.pick(std::vector<size_t>{1, 2, 4, 32, 64}));
    std::vector<uint16_t> planes(m.a.begin(), m.a.end());
    J j;
    j.str("k", "same").str("by", way_name[way]).num("w", m.w).num("h", m.h).num("nc", m.nc()).num("bd", m.bd)
            .num("cw", p.cw).num("ch", p.ch).num("order", p.order).num("rate", p.rate);
    hzruntime::Config::opencl_support_enabled = q.chance(70);
    try {
        auto a = pairs_of(m, planes, p, HOST, 0), b = pairs_of(m, planes, p, way, 0);
        bool same = a.size() == b.size();
        for (uint64_t i = 0; same && i < a.size(); i++) same = a[i].b == b[i].b && a[i].l == b[i].l;
        j.num("n", b.size()).boolean("same", same);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    hzruntime::Config::opencl_support_enabled = false;
    j.boolean("dmg", fakecl_damaged());
    T(j);
}

static void run_precode(Rng &r) {
    for (long i = 0; i < cases; i++) {
        Rng q(r.next());
        if (!mine()) continue;
        probe_case(q, plain(q, 1 + q.below(7), 1 + q.below(6)), q.chance(60) ? HOST : q.chance(50) ? FIXED : DEVICE);
    }
    for (long i = 0; i < cases / 2; i++) {
        Rng q(r.next());
        if (!mine()) continue;
        bool b = q.chance(20);
        same_case(q, plain(q, 1 + q.below(b ? 90 : 12), 1 + q.below(b ? 70 : 12)), q.chance(80) ? DEVICE : ANY, false);
    }
    for (int i = 0; i < 2; i++) {
        Rng q(r.next());
        if (!mine()) continue;
        Image m;
        m.w = 1000 + q.below(30), m.h = 1001, m.bd = i ? 16 : 8;
        fill(q, m);
        same_case(q, m, ANY, true);
    }
}

// ------------------------------------------------------------ compressed images
static void blob_case(Rng &q, const Image &m) {
    tick("image-blob", 60);
    auto bytes = write_png(q, m);
    auto p = params(q, m);
    bool defaults = q.chance(30);
    auto blob = rainman::ptr<HZ_Blob>();
    blob->data = rainman::ptr<uint8_t>(bytes.size());
    for (size_t i = 0; i < bytes.size(); i++) blob->data[i] = bytes[i];
    blob->o_size = blob->size = bytes.size();
    if (defaults) p = {64, 64, 3, 32};
    else {
        blob->codec_params.params["chunk_width"] = std::to_string(p.cw);
        blob->codec_params.params["chunk_height"] = std::to_string(p.ch);
        blob->codec_params.params["locality_context_order"] = std::to_string(p.order);
        blob->codec_params.params["learning_rate"] = std::to_string(p.rate);
    }
    J j;
    j.str("k", "img");
    facts(j, m).nums("a", m.a).num("len", bytes.size());
    try {
        auto c = hzcodec::Sharingan().compress(blob);
        std::vector<int> hdr;
        for (uint64_t i = 0; i < c->header.raw.size(); i++) hdr.push_back(c->header.raw[i]);
        j.nums("hdr", hdr).num("osize", c->o_size).num("size", c->size).num("alg", c->mstate->alg).num("room", c->data.size());
        bool kept = blob->data.size() == bytes.size();
        for (size_t i = 0; kept && i < bytes.size(); i++) kept = blob->data[i] == bytes[i];
        j.boolean("kept", kept);
        // the planes the stream is about
        uint64_t n = m.n() * m.nc();
        auto buf = rainman::ptr<uint16_t>(n);
        for (uint64_t z = 0; z < (uint64_t) m.nc(); z++)
            for (uint64_t k = 0; k < m.n(); k++) buf[z * m.n() + k] = m.a[k * m.nc() + z];
        if (m.ct == 2 || m.ct == 6) hztrans::LinearU16XColorTransformer(m.w, m.h, m.bd).rgb_to_ycocg(buf, true);
        if (m.ct != 3) hzmodels::LinearU16PaethDifferential::filter(buf, m.w, m.h, m.nc(), true, m.bd);
        std::vector<uint16_t> planes(n);
        for (uint64_t i = 0; i < n; i++) planes[i] = buf[i];
        auto pr = pairs_of(m, planes, p, HOST, 0);
        // the stream, symbol by symbol
        uint64_t words = c->size / 4;
        auto w = rainman::ptr<uint32_t>(words + 2);
        for (uint64_t i = 0; i < words && i * 4 + 3 < c->data.size(); i++) {
            auto d = c->data.pointer() + 4 * i;
            w[i] = (uint32_t) d[0] << 24 | (uint32_t) d[1] << 16 | (uint32_t) d[2] << 8 | d[3];
        }
        hzrans64_t s;
        hzrans64_codec_init(&s, 256, 24);
        hzrans64_dec_load_state(&s, w);
        std::vector<int> slots, bs, ls;
        bool short_ = false;
        for (auto &x: pr) {
            slots.push_back(s.x & 0xffffff);
            bs.push_back(x.b), ls.push_back(x.l);
            if (s.count > words || slots.back() < x.b || slots.back() >= x.b + x.l) {
                short_ = true;
                break;
            }
            s.ls = x.l, s.bs = x.b;
            hzrans64_decode_s(&s, w);
        }
        j.nums("p", planes).nums("s", slots).nums("b", bs).nums("l", ls).boolean("stopped", short_);
        j.boolean("whole", s.x == s.lower_bound && s.count == words);
    } catch (std::exception &e) {
        j.str("exc", e.what());
    }
    T(j);
}

static void run_image(Rng &r) {
    for (int i = 0; i < 20; i++) {
        Rng q(r.next());
        if (!mine()) continue;
        blob_case(q, draw(q, 1 + q.below(60), 1 + q.below(4)));
    }
    for (long i = 0; i < cases; i++) {
        Rng q(r.next());
        if (!mine()) continue;
        blob_case(q, draw(q, 1 + q.below(9), 1 + q.below(8)));
    }
}

int main(int argc, char **argv) {
    if (argc < 8) return 2;
    std::string kind = argv[1];
    Rng r(strtoull(argv[2], nullptr, 10) ^ std::hash<std::string>{}(kind) % 1000003);
    cases = atol(argv[3]);
    shard = atoi(argv[4]);
    shards = atoi(argv[5]);
    T.open(argv[6]);
    quiet();
    guard(T);
    try {
        hzruntime::CacheProvider::init_cache(std::string(argv[7]) + "/cache", 2, 4194304);
        fakecl_set({{"gpu0", "gpu1"}, {"acc"}});
        fakecl_run(argv[7]);
        hzopencl::DeviceProvider::load_devices();
        if (kind == "png") run_png(r);
        else if (kind == "precode") run_precode(r);
        else if (kind == "image") run_image(r);
        else return 2;
    } catch (std::exception &e) {
        T(J().str("k", "exc").str("what", e.what()).str("at", g_what));
    }
    alarm(0);
    T(J().str("k", "end"));
    fflush(stdout);
    _exit(0);
}
