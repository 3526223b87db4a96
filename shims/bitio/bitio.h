// Stand-in for the missing submodule other/bitio (see DESIGN.md, "Stand-ins").
// A bit-addressed stream, most significant bit first, over a caller-owned byte
// buffer or over a FILE*. In FILE mode the contents are held in memory from the
// first access on and written out by flush().
#ifndef VERIF_SHIM_BITIO_H
#define VERIF_SHIM_BITIO_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

namespace bitio {
    struct bitio_exception : public std::runtime_error {
        explicit bitio_exception(const std::string &m) : std::runtime_error("bitio: " + m) {}
    };

    class stream;

    // Lets a harness look at the current contents of the FILE-backed streams.
    struct shim_registry {
        std::mutex m;
        std::vector<stream *> live;

        static shim_registry &get() {
            static shim_registry *r = new shim_registry();
            return *r;
        }
    };

    class stream {
    private:
        FILE *_fp = nullptr;
        uint8_t *_ext = nullptr;
        std::vector<uint8_t> _own;
        uint64_t _bits = 0;   // number of valid bits
        uint64_t _pos = 0;

        uint8_t *buf() { return _ext ? _ext : _own.data(); }

        bool _loaded = false;

        void load() {
            if (_loaded || !_fp) return;
            _loaded = true;
            fseek(_fp, 0, SEEK_END);
            long n = ftell(_fp);
            fseek(_fp, 0, SEEK_SET);
            _own.resize(n > 0 ? n : 0);
            if (n > 0 && fread(_own.data(), 1, n, _fp) != (size_t) n) throw bitio_exception("short read");
            _bits = (uint64_t) _own.size() * 8;
        }

        void forget() {
            if (_fp) {
                auto &r = shim_registry::get();
                std::lock_guard<std::mutex> g(r.m);
                for (size_t i = 0; i < r.live.size(); i++)
                    if (r.live[i] == this) {
                        r.live.erase(r.live.begin() + i);
                        break;
                    }
            }
        }

    public:
        stream() = default;

        explicit stream(FILE *fp) : _fp(fp) {
            if (!fp) throw bitio_exception("null file");
            auto &r = shim_registry::get();
            std::lock_guard<std::mutex> g(r.m);
            r.live.push_back(this);
        }

        stream(uint8_t *raw, uint64_t size) : _ext(raw), _bits(size * 8) {}

        stream(const stream &) = delete;

        stream &operator=(const stream &) = delete;

        ~stream() {
            forget();
            if (_fp) fclose(_fp);
        }

        uint64_t read(uint64_t n) {
            if (n > 64) throw bitio_exception("read of more than 64 bits");
            load();
            if (_pos + n > _bits || _pos + n < _pos) throw bitio_exception("read past the end");
            uint64_t v = 0;
            uint8_t *b = buf();
            while (n) {
                if (!(_pos & 7) && n >= 8) {
                    v = (v << 8) | b[_pos >> 3];
                    _pos += 8;
                    n -= 8;
                } else {
                    v = (v << 1) | ((b[_pos >> 3] >> (7 - (_pos & 7))) & 1);
                    _pos++;
                    n--;
                }
            }
            return v;
        }

        void write(uint64_t obj, uint64_t n) {
            if (n > 64) throw bitio_exception("write of more than 64 bits");
            load();
            if (_pos + n > _bits) {
                if (_ext) throw bitio_exception("write past the end");
                _own.resize((_pos + n + 7) / 8, 0);
                _bits = _pos + n;
            }
            uint8_t *b = buf();
            while (n) {
                if (!(_pos & 7) && n >= 8) {
                    b[_pos >> 3] = (obj >> (n - 8)) & 0xff;
                    _pos += 8;
                    n -= 8;
                } else {
                    uint8_t bit = (obj >> (n - 1)) & 1;
                    uint8_t sh = 7 - (_pos & 7);
                    b[_pos >> 3] = (b[_pos >> 3] & ~(1u << sh)) | (bit << sh);
                    _pos++;
                    n--;
                }
            }
        }

        void seek(int64_t n) { _pos += n; }

        void seek_to(uint64_t n) { _pos = n; }

        void flush() {
            if (_fp) {
                load();
                fseek(_fp, 0, SEEK_SET);
                if (!_own.empty()) fwrite(_own.data(), 1, _own.size(), _fp);
                fflush(_fp);
            }
        }

        // harness access only
        const std::vector<uint8_t> &shim_bytes() {
            load();
            return _own;
        }

        uint64_t shim_bits() {
            load();
            return _bits;
        }

        FILE *shim_file() const { return _fp; }
    };
}

#endif
