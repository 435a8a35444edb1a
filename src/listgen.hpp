// Integer sequences for the compressed lists.
#pragma once
#include "gen.hpp"
namespace gen {
    static const unsigned n_list_patterns = 10;
    // values of at most `bits` bits and at most `maxv`
    inline std::vector<uint64_t> int_list(rng_t& r, uint64_t n, unsigned bits, uint64_t maxv, unsigned kind, std::string& nm) {
        std::vector<uint64_t> v(n);
        uint64_t cap = bits >= 64 ? UINT64_MAX : (uint64_t(1) << bits) - 1; cap = std::min(cap, maxv);
        #define CAP(x) std::min<uint64_t>((x), cap)
        switch (kind) {
        case 0: nm = "all-lengths"; for (size_t i = 0; i < n; ++i) v[i] = CAP(any_value(r, bits)); break;
        case 1: nm = "zeros"; break;
        case 2: nm = "maximum"; std::fill(v.begin(), v.end(), cap); break;
        case 3: nm = "small"; for (size_t i = 0; i < n; ++i) v[i] = CAP(r.below(8)); break;
        case 4: { nm = "rare-large"; for (size_t i = 0; i < n; ++i) v[i] = r.chance(.01) ? cap - CAP(r.below(4)) : CAP(r.below(3)); break; }
        case 5: { nm = "blocks"; for (size_t i = 0; i < n; ) { uint64_t k = 1 + r.below(1500); bool big = r.coin(); while (k-- && i < n) v[i++] = big ? cap - CAP(r.below(9)) : CAP(r.below(2)); } break; }
        case 6: { nm = "powers"; for (size_t i = 0; i < n; ++i) { uint64_t p = uint64_t(1) << r.below(bits ? bits : 1); v[i] = CAP(p + r.below(4) - 2 + (p < 2 ? 2 : 0)); } break; }
        case 7: { nm = "uniform"; for (size_t i = 0; i < n; ++i) v[i] = CAP(r.bits(bits)); break; }
        case 8: { nm = "one-large"; if (n) v[r.below(n)] = cap; break; }
        default: { nm = "ramp"; for (size_t i = 0; i < n; ++i) v[i] = CAP(i); }
        }
        #undef CAP
        return v;
    }
}
