// The contents of the golden files, from their numbers.
#pragma once
#include "zoo.hpp"
namespace golden {
    using namespace zoo;
    static const uint64_t sizes[] = {1, 90, 700, 3000, 9000, 40000, 90000};
    template <typename K> void make(unsigned kind, unsigned k, input& in) {
        rng_t r(mon::mix(20240 + kind, k)); uint64_t m = sizes[k];
        if (std::string(K::name()).find("mappable") == 0) m = m / 8 + 1;
        else if (std::string(K::name()).find("topk") == 0 || std::string(K::name()) == "user structure") m = m / 4 + 1;
        do { in = input(); K::make(r, m, in); } while (k >= 2 && in.bits.size() + in.ints.size() < sizes[k] / 60);
    }
}
