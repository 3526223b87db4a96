// Making and describing coding states, blobs and archives, for several drivers.
#pragma once
#include "common.h"
#include "segments.h"
#include <map>
#include <bitio/bitio.h>
#include <hzip_core/utils/validation.h>
#include <hzip_storage/archive/archive.h>

namespace vp {
    inline rainman::ptr<uint8_t> make_bytes(uint64_t n, uint64_t seed) {
        auto p = rainman::ptr<uint8_t>(n);
        Rng r(seed);
        int mode = r.below(4);
        for (uint64_t i = 0; i < n; i++) p[i] = mode == 0 ? 0 : mode == 1 ? 0xff : (uint8_t) r.next();
        return p;
    }

    inline std::string pbytes(const rainman::ptr<uint8_t> &p, uint64_t n) {
        return n > p.size() ? "short" : content(p.pointer(), n);
    }

    inline rainman::ptr<HZ_MState> make_state(uint64_t alg, uint64_t n, uint64_t seed) {
        auto m = rainman::ptr<HZ_MState>();
        m->alg = (hzcodec::algorithms::ALGORITHM) alg;
        m->data = make_bytes(n, seed);
        return m;
    }

    inline std::string state_json(const HZ_MState &m) {
        return J().num("alg", (long long) m.alg).num("n", m.size()).str("d", pbytes(m.data, m.size())).done();
    }

    inline HZ_Blob make_blob(uint64_t n, uint64_t hn, uint64_t seed, uint64_t ms) {
        HZ_Blob b;
        b.data = make_bytes(n, seed);
        b.size = n;
        b.header.raw = make_bytes(hn, seed + 1);
        b.o_size = seed & 0xffff;
        b.mstate_id = ms;
        b.mstate = rainman::ptr<HZ_MState>();
        b.mstate->data = rainman::ptr<uint8_t>(0);
        return b;
    }

    // ok, err (a documented error) or exc (anything else)
    template<typename F>
    std::string outcome(F f) {
        try {
            f();
            return "ok";
        } catch (UtilErrors::ValidationError &e) {
            return "err";
        } catch (ArchiveErrors::InvalidOperationException &e) {
            return "err";
        } catch (ArchiveErrors::FileNotFoundException &e) {
            return "err";
        } catch (ArchiveErrors::BlobNotFoundException &e) {
            return "err";
        } catch (ArchiveErrors::MstateNotFoundException &e) {
            return "err";
        } catch (ArchiveErrors::TargetNotFoundException &e) {
            return "err";
        } catch (std::exception &e) {
            return "exc";
        }
    }

    // contents of a blob; ids are left to the caller
    inline J blob_json(const HZ_Blob &b) {
        return J().num("hn", b.header.size()).str("h", pbytes(b.header.raw, b.header.size())).str("o", hex64(b.o_size))
                .num("n", b.size).str("d", pbytes(b.data, b.size));
    }

    inline J full_json(const HZ_Blob &b) {
        return blob_json(b).num("alg", (long long) b.mstate->alg).num("mn", b.mstate->size()).str("md", pbytes(b.mstate->data, b.mstate->size()));
    }

    inline void walk_tree(HZ_Archive &ar, bool files, const std::string &at, std::vector<std::string> &out, int depth = 0) {
        if (depth > 12 || out.size() > 2000) throw std::runtime_error("listing does not end");
        for (auto &e: files ? ar.list_file_system(at) : ar.list_mstate_system(at)) {
            std::string p = (at == "/" ? "" : at) + "/" + e.entry;
            if (!e.is_leaf) walk_tree(ar, files, p, out, depth + 1);
            else if (files) {
                std::vector<std::string> v;
                auto bl = ar.read_file(p);
                auto f = ar.read_file_entry(p);
                for (uint64_t i = 0; i < f.blob_ids.size(); i++) v.push_back(full_json(bl[i]).done());
                out.push_back(J().raw("p", jbytes(p)).raw("v", jlist(v)).done());
            } else out.push_back(J().raw("p", jbytes(p)).raw("v", state_json(*ar.read_mstate(p))).done());
        }
    }

    inline bitio::stream *newest_stream() {
        auto &reg = bitio::shim_registry::get();
        return reg.live.empty() ? nullptr : reg.live.back();
    }

    inline std::map<std::string, uint64_t> bound_ids(bitio::stream *s) {
        std::map<std::string, uint64_t> m;
        auto d = read_segments(s->shim_bytes().data(), s->shim_bits()).json;
        size_t at = 0;
        while ((at = d.find("\"k\":\"AUX\"", at)) != std::string::npos) {
            auto a = d.find("\"p\":", at) + 4, b = d.find(",\"id\":\"", a);
            m[d.substr(a, b - a)] = strtoull(d.c_str() + b + 7, nullptr, 16);
            at = b;
        }
        return m;
    }
}
