// An independent reader of the archive format, from bytes.
#pragma once
#include "common.h"

namespace vp {
    struct Bits {
        const uint8_t *p;
        uint64_t n, at = 0;
        bool bad = false;

        Bits(const uint8_t *p, uint64_t bits) : p(p), n(bits) {}

        uint64_t get(unsigned k) {
            uint64_t v = 0;
            if (at + k > n || at + k < at) {
                bad = true;
                at += k;
                return 0;
            }
            for (unsigned i = 0; i < k; i++, at++) v = v << 1 | ((p[at >> 3] >> (7 - (at & 7))) & 1);
            return v;
        }

        std::vector<uint8_t> bytes(uint64_t k) {
            std::vector<uint8_t> v;
            if (k > n || at + 8 * k > n) {
                bad = true;
                return v;
            }
            v.reserve(k);
            for (uint64_t i = 0; i < k; i++) v.push_back(get(8));
            return v;
        }
    };

    inline std::string jbytes(const std::vector<uint8_t> &v) {
        std::string s = "[";
        for (size_t i = 0; i < v.size(); i++) {
            if (i) s += ',';
            s += std::to_string(v[i]);
        }
        return s + "]";
    }

    inline std::string jbytes(const std::string &t) { return jbytes(std::vector<uint8_t>(t.begin(), t.end())); }

    struct SegmentDump {
        std::string json;
        bool ended = false;  // end marker right after the last segment
        int count = 0;
    };

    inline SegmentDump read_segments(const uint8_t *p, uint64_t bits) {
        SegmentDump d;
        std::vector<std::string> out;
        Bits b(p, bits);
        while (true) {
            uint64_t sof = b.at;
            if (bits - sof < 8) break;
            uint64_t marker = b.get(8);
            if (marker == 0xff) {
                d.ended = true;
                break;
            }
            J j;
            if (bits - sof < 72 || out.size() > 3000) {
                out.push_back(J().str("k", "BAD").num("s", sof).num("l", 0).str("why", "cut off").done());
                break;
            }
            uint64_t len = b.get(64), start = b.at;
            if (len > bits - start) {
                out.push_back(J().str("k", "BAD").num("s", sof).num("l", 0).str("why", "reaches past the end").done());
                break;
            }
            Bits in(p, start + len);
            in.at = start;
            std::string why;
            auto hex = [](const std::vector<uint8_t> &v) { return content(v.data(), v.size()); };
            switch (marker) {
                case 0:
                    j.str("k", "EMPTY").num("s", sof).num("l", len);
                    in.at = start + len;
                    break;
                case 1: {
                    uint64_t t = in.get(8);
                    if (t == 0) j.str("k", "VERSION").num("s", sof).num("l", len).num("v", in.get(24));
                    else if (t == 1) {
                        uint64_t n = in.get(64);
                        auto path = in.bytes(n);
                        uint64_t c = in.get(58);
                        std::vector<std::string> ids;
                        for (uint64_t i = 0; i < c && !in.bad; i++) ids.push_back(hex64(in.get(64)));
                        j.str("k", "FILE").num("s", sof).num("l", len).raw("p", jbytes(path)).strs("b", ids);
                    } else if (t == 2) {
                        uint64_t n = in.get(64);
                        auto path = in.bytes(n);
                        j.str("k", "AUX").num("s", sof).num("l", len).raw("p", jbytes(path)).str("id", hex64(in.get(64)));
                    } else why = "unknown entry type";
                    break;
                }
                case 2: {
                    auto id = hex64(in.get(64));
                    uint64_t hn = in.get(64);
                    auto h = in.bytes(hn);
                    auto o = hex64(in.get(64));
                    auto ms = hex64(in.get(64));
                    uint64_t n = in.get(64);
                    auto dt = in.bytes(n);
                    j.str("k", "BLOB").num("s", sof).num("l", len).str("id", id).num("hn", hn & 0x7fffffff).str("h", hex(h)).str("o", o)
                            .str("ms", ms).num("n", n & 0x7fffffff).str("d", hex(dt));
                    break;
                }
                case 3: {
                    auto id = hex64(in.get(64));
                    uint64_t alg = in.get(64);
                    uint64_t n = in.get(64);
                    auto dt = in.bytes(n);
                    j.str("k", "MSTATE").num("s", sof).num("l", len).str("id", id).num("alg", alg & 0x7fffffff).num("n", n & 0x7fffffff).str("d", hex(dt));
                    break;
                }
                default:
                    why = "unknown marker";
            }
            if (why.empty() && in.bad) why = "body longer than its length";
            if (why.empty() && in.at != start + len) why = "body shorter than its length";
            if (!why.empty()) out.push_back(J().str("k", "BAD").num("s", sof).num("l", len & 0x7fffffff).str("why", why).done());
            else out.push_back(j.done());
            b.at = start + len;
        }
        d.count = out.size();
        d.json = jlist(out);
        return d;
    }
}
