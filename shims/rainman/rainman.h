// Stand-in for the missing submodule other/rainman (see DESIGN.md, "Stand-ins").
// ptr<T>: shared, sized, value-initialised array; ptr<T>() owns one element;
// ptr<T>(T*, n) refers to storage owned by somebody else.
#ifndef VERIF_SHIM_RAINMAN_H
#define VERIF_SHIM_RAINMAN_H

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace rainman {
    struct shim_bounds : public std::out_of_range {
        explicit shim_bounds(const std::string &m) : std::out_of_range("rainman: " + m) {}
    };

    template<typename T>
    class ptr {
    private:
        std::shared_ptr<void> _hold;
        T *_p = nullptr;
        uint64_t _n = 0;

        template<typename... A>
        void make(uint64_t n, A &&... args) {
            size_t bytes = sizeof(T) * (n ? n : 1);
            if (n && bytes / n != sizeof(T)) throw std::bad_alloc();
            void *raw = std::calloc(1, bytes);
            if (!raw) throw std::bad_alloc();
            T *p = static_cast<T *>(raw);
            uint64_t i = 0;
            if constexpr (!(std::is_trivially_default_constructible_v<T> && sizeof...(A) == 0)) {
                try {
                    for (; i < n; i++) new(p + i) T(args...);
                } catch (...) {
                    while (i) p[--i].~T();
                    std::free(raw);
                    throw;
                }
            }
            _hold = std::shared_ptr<void>(raw, [n](void *q) {
                if constexpr (!std::is_trivially_destructible_v<T>) {
                    T *t = static_cast<T *>(q);
                    for (uint64_t k = n; k > 0; k--) t[k - 1].~T();
                }
                std::free(q);
            });
            _p = p;
            _n = n;
        }

    public:
        ptr() {
            if constexpr (std::is_default_constructible_v<T>) make(1);
        }

        template<typename I, typename... A, typename = std::enable_if_t<std::is_integral_v<I> || std::is_enum_v<I>>>
        explicit ptr(I n, A &&... args) { make((uint64_t) n, std::forward<A>(args)...); }

        ptr(T *p, uint64_t n = 1) : _p(p), _n(n) {}

        // view into storage that somebody else keeps alive
        ptr(std::shared_ptr<void> hold, T *p, uint64_t n) : _hold(std::move(hold)), _p(p), _n(n) {}

        ptr(const ptr &) = default;

        ptr &operator=(const ptr &) = default;

        template<typename U, typename = std::enable_if_t<std::is_base_of_v<T, U> && !std::is_same_v<T, U>>>
        ptr(const ptr<U> &o) : _hold(o.shim_hold()), _p(o.pointer()), _n(o.size()) {}

        T *pointer() const { return _p; }

        uint64_t size() const { return _n; }

        const std::shared_ptr<void> &shim_hold() const { return _hold; }

        T &operator[](uint64_t i) const {
#ifdef VERIF_BOUNDS
            if (i >= _n) throw shim_bounds("index " + std::to_string(i) + " of " + std::to_string(_n));
#endif
            return _p[i];
        }

        T &operator*() const { return *_p; }

        T *operator->() const { return _p; }

        bool operator==(const ptr &o) const { return _p == o._p; }

        bool operator!=(const ptr &o) const { return _p != o._p; }
    };

    template<typename T>
    class option {
    private:
        bool _some = false;
        T _v{};
    public:
        option() = default;

        option(T v) : _some(true), _v(std::move(v)) {}

        bool is_some() const { return _some; }

        bool is_none() const { return !_some; }

        T inner() const {
            if (!_some) throw std::runtime_error("rainman: inner() of an empty option");
            return _v;
        }
    };

    struct shim_alloc_stats {
        std::atomic<uint64_t> cur{0};
        std::atomic<uint64_t> peak{~0ull};
    };

    class Allocator {
    private:
        struct hdr {
            uint64_t bytes;
            uint64_t n;
            uint64_t pad[2];
        };

        static shim_alloc_stats &st() {
            static shim_alloc_stats *s = new shim_alloc_stats();
            return *s;
        }

        void *raw(uint64_t bytes, uint64_t n) const {
            hdr *h = static_cast<hdr *>(std::calloc(1, sizeof(hdr) + bytes));
            if (!h) throw std::bad_alloc();
            h->bytes = bytes;
            h->n = n;
            st().cur += bytes;
            return h + 1;
        }

    public:
        Allocator() = default;

        template<typename T>
        T *rmalloc(uint64_t n) const { return static_cast<T *>(raw(sizeof(T) * n, n)); }

        template<typename T, typename... A>
        T *rnew(uint64_t n, A &&... args) const {
            T *p = static_cast<T *>(raw(sizeof(T) * n, n));
            for (uint64_t i = 0; i < n; i++) new(p + i) T(args...);
            return p;
        }

        template<typename T>
        void rfree(T *p) const {
            if (!p) return;
            hdr *h = reinterpret_cast<hdr *>(const_cast<std::remove_cv_t<T> *>(p)) - 1;
            for (uint64_t i = h->n; i > 0; i--) p[i - 1].~T();
            st().cur -= h->bytes;
            std::free(h);
        }

        uint64_t peak_size() const { return st().peak; }

        void peak_size(uint64_t n) const { st().peak = n; }

        uint64_t alloc_size() const { return st().cur; }
    };

    using memmgr = Allocator;

    template<typename T>
    class ptr2d {
    private:
        ptr<T> _p;
        uint64_t _a = 0, _b = 0;
    public:
        ptr2d() : _p(0) {}

        ptr2d(uint64_t a, uint64_t b) : _p(a * b), _a(a), _b(b) {}

        ptr2d(ptr<T> p, uint64_t a, uint64_t b) : _p(p), _a(a), _b(b) {}

        ptr<T> operator[](uint64_t i) const {
#ifdef VERIF_BOUNDS
            if (i >= _a) throw shim_bounds("row " + std::to_string(i) + " of " + std::to_string(_a));
#endif
            return ptr<T>(_p.shim_hold(), _p.pointer() + i * _b, _b);
        }

        T *pointer() const { return _p.pointer(); }

        ptr<T> inner() const { return _p; }

        uint64_t size() const { return _a; }
    };

    template<typename T>
    class ptr3d {
    private:
        ptr<T> _p;
        uint64_t _a = 0, _b = 0, _c = 0;
    public:
        ptr3d() : _p(0) {}

        ptr3d(uint64_t a, uint64_t b, uint64_t c) : _p(a * b * c), _a(a), _b(b), _c(c) {}

        ptr2d<T> operator[](uint64_t i) const {
#ifdef VERIF_BOUNDS
            if (i >= _a) throw shim_bounds("plane " + std::to_string(i) + " of " + std::to_string(_a));
#endif
            return ptr2d<T>(ptr<T>(_p.shim_hold(), _p.pointer() + i * _b * _c, _b * _c), _b, _c);
        }

        T *pointer() const { return _p.pointer(); }

        ptr<T> inner() const { return _p; }
    };

    template<typename T>
    ptr2d<T> make_ptr2d(uint64_t a, uint64_t b) { return ptr2d<T>(a, b); }

    template<typename T>
    ptr3d<T> make_ptr3d(uint64_t a, uint64_t b, uint64_t c) { return ptr3d<T>(a, b, c); }
}

#include "cache.h"

#endif
