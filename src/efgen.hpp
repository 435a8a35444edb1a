// Non-decreasing sequences for Elias-Fano: every low-bit width, duplicates, clusters, long gaps.
#pragma once
#include "gen.hpp"
namespace gen {
    struct ef_input { uint64_t n; std::vector<uint64_t> v; std::string name; };
    // strict: all elements below n
    inline ef_input ef_sequence(rng_t& r, uint64_t maxm, bool strict) {
        ef_input e;
        uint64_t m = r.chance(.03) ? 0 : 1 + any_size(r, maxm - 1);
        unsigned kind = (unsigned)r.below(12);
        uint64_t n;
        if (m == 0) n = r.below(3000);
        else {
            // pick the low width first, then a universe that gives it
            unsigned l = (unsigned)r.below(64); if (r.chance(.25)) l = 0; if (r.chance(.15)) l = 63 - (unsigned)r.below(12);
            __uint128_t lo = __uint128_t(m) << l, hi = (__uint128_t(m) << (l + 1)) - 1;
            if (l == 0 && r.coin()) lo = 1;
            if (hi > UINT64_MAX) hi = UINT64_MAX;
            if (lo > UINT64_MAX) lo = UINT64_MAX;
            switch (r.below(4)) { case 0: n = uint64_t(lo); break; case 1: n = uint64_t(hi); break; default: n = r.range(uint64_t(lo), uint64_t(hi)); }
            if (r.chance(.03)) n = UINT64_MAX - r.below(3);
        }
        if (strict && n == 0 && m) n = 1;
        e.n = n;
        uint64_t top = strict ? (n ? n - 1 : 0) : n; // largest element allowed
        std::vector<uint64_t>& v = e.v; v.reserve(m);
        #define R(a, b) r.range((a), (b))
        switch (kind) {
        case 0: case 1: case 2: e.name = "uniform"; for (uint64_t i = 0; i < m; ++i) v.push_back(top == UINT64_MAX ? r.next() : r.below(top + 1)); break;
        case 3: { e.name = "all-equal"; uint64_t x = r.coin() ? top : R(0, top); v.assign(m, x); break; }
        case 4: { e.name = "start-cluster"; uint64_t w = std::min<uint64_t>(top, 2 * m); for (uint64_t i = 0; i < m; ++i) v.push_back(R(0, w)); break; }
        case 5: { e.name = "end-cluster"; uint64_t w = std::min<uint64_t>(top, 2 * m); for (uint64_t i = 0; i < m; ++i) v.push_back(top - R(0, w)); break; }
        case 6: { e.name = "two-clusters"; uint64_t w = std::min<uint64_t>(top, m); for (uint64_t i = 0; i < m; ++i) v.push_back(r.coin() ? R(0, w) : top - R(0, w)); break; }
        case 7: { e.name = "arithmetic"; uint64_t st = m > 1 ? top / (m - 1) : 0; uint64_t off = r.coin() ? 0 : R(0, top - st * (m ? m - 1 : 0)); for (uint64_t i = 0; i < m; ++i) v.push_back(off + st * i); break; }
        case 8: { e.name = "runs-of-equal"; while (v.size() < m) { uint64_t x = R(0, top); uint64_t k = 1 + r.below(r.coin() ? 5 : 300); while (k-- && v.size() < m) v.push_back(x); } break; }
        case 9: { e.name = "consecutive-runs"; while (v.size() < m) { uint64_t x = R(0, top); uint64_t k = 1 + r.below(200); while (k-- && v.size() < m) { v.push_back(x); if (x < top) ++x; } } break; }
        case 10: { e.name = "geometric"; for (uint64_t i = 0; i < m; ++i) { uint64_t x = any_value(r, 64); v.push_back(std::min(x, top)); } break; }
        default: { e.name = "with-extremes"; for (uint64_t i = 0; i < m; ++i) v.push_back(R(0, top)); if (m) v[0] = 0; if (m > 1) v[m - 1] = top; }
        }
        #undef R
        std::sort(v.begin(), v.end());
        return e;
    }
}
