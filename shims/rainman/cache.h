// Stand-in for rainman's disk cache: virtual arrays are held in memory.
#ifndef VERIF_SHIM_RAINMAN_CACHE_H
#define VERIF_SHIM_RAINMAN_CACHE_H

#include <memory>
#include <string>
#include <vector>
#include "rainman.h"

namespace rainman {
    class cache {
    private:
        std::string _name;
        uint64_t _page = 0;
    public:
        cache() = default;

        cache(std::string name, uint64_t page_size) : _name(std::move(name)), _page(page_size) {}

        const std::string &shim_name() const { return _name; }

        uint64_t shim_page() const { return _page; }
    };

    template<typename T>
    class virtual_array {
    private:
        std::shared_ptr<std::vector<T>> _v;

    public:
        virtual_array() : _v(std::make_shared<std::vector<T>>()) {}

        virtual_array(cache &, uint64_t n) : _v(std::make_shared<std::vector<T>>(n)) {}

        virtual_array(ptr<cache>, uint64_t n) : _v(std::make_shared<std::vector<T>>(n)) {}

        void set(T val, uint64_t i) { _v->at(i) = val; }

        T get(uint64_t i) const { return _v->at(i); }

        T &operator[](uint64_t i) const { return _v->at(i); }

        uint64_t size() const { return _v->size(); }
    };
}

#endif
