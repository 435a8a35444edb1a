// Workload generators: inputs aimed at the structural boundaries of the library.
#pragma once
#include "mon.hpp"

namespace gen {
    using mon::rng_t;
    typedef std::vector<uint8_t> bits_t;

    inline std::string num(uint64_t v) { char b[32]; snprintf(b, 32, "%llu", (unsigned long long)v); return b; }

    inline uint64_t edge_size(rng_t& r, uint64_t maxn) {
        static const uint64_t base[] = {1, 2, 8, 16, 32, 56, 64, 128, 192, 256, 320, 448, 512, 576, 768, 1024, 1536, 2048, 3072, 4096,
                                        6144, 8192, 12288, 16384, 24576, 32768, 40960, 49152, 65536, 73728, 81920, 131072, 196608, 262144, 524288, 1048576, 2097152,
                                        4194304, 8388608};
        for (int tries = 0; tries < 64; ++tries) {
            uint64_t b = base[r.below(sizeof(base) / sizeof(base[0]))];
            int64_t d = int64_t(r.below(5)) - 2;
            if (r.chance(0.1)) d *= 8;
            if (int64_t(b) + d < 0) continue;
            uint64_t n = uint64_t(int64_t(b) + d);
            if (n <= maxn) return n;
        }
        return r.below(maxn + 1);
    }
    inline uint64_t any_size(rng_t& r, uint64_t maxn) {
        switch (r.below(6)) {
        case 0: return r.below(std::min<uint64_t>(maxn, 20) + 1);
        case 1: return r.below(std::min<uint64_t>(maxn, 700) + 1);
        case 2: return r.below(maxn + 1);
        default: return edge_size(r, maxn);
        }
    }

    static const unsigned n_bit_patterns = 15;
    // kinds of bit sequences; `name` receives a readable description
    inline bits_t bit_pattern(rng_t& r, uint64_t n, unsigned kind, std::string& name) {
        bits_t v(n);
        switch (kind) {
        case 0: { name = "uniform"; for (size_t i = 0; i < n; ++i) v[i] = r.coin(); break; }
        case 1: { double p = 1.0 / double(uint64_t(1) << r.range(2, 14)); name = "sparse"; for (size_t i = 0; i < n; ++i) v[i] = r.chance(p); break; }
        case 2: { double p = 1.0 / double(uint64_t(1) << r.range(2, 14)); name = "dense"; for (size_t i = 0; i < n; ++i) v[i] = !r.chance(p); break; }
        case 3: { name = "zeros"; break; }
        case 4: { name = "ones"; std::fill(v.begin(), v.end(), 1); break; }
        case 5: { name = "alternating"; for (size_t i = 0; i < n; ++i) v[i] = i & 1; break; }
        case 6: case 7: { // runs
            name = "runs"; uint64_t maxrun = uint64_t(1) << r.range(1, 14); bool b = r.coin();
            for (size_t i = 0; i < n; ) { uint64_t l = 1 + r.below(maxrun); if (r.chance(.3)) l = 64 * (1 + r.below(20));
                for (; l && i < n; --l, ++i) v[i] = b; b = !b; }
            break; }
        case 8: case 9: case 10: { // chunks with their own mode
            static const uint64_t cs[] = {64, 64, 256, 512, 512, 1024, 8192, 65536};
            uint64_t c = cs[r.below(8)]; name = "chunks" + num(c);
            for (size_t i = 0; i < n; i += c) {
                size_t e = std::min<size_t>(n, i + c);
                switch (r.below(9)) {
                case 0: break;
                case 1: case 2: for (size_t j = i; j < e; ++j) v[j] = 1; break;
                case 3: v[i] = 1; break;
                case 4: v[e - 1] = 1; break;
                case 5: for (size_t j = i; j < e; ++j) v[j] = 1; v[i] = 0; break;
                case 6: for (size_t j = i; j < e; ++j) v[j] = 1; v[e - 1] = 0; break;
                case 7: { double p = r.chance(.5) ? .02 : .98; for (size_t j = i; j < e; ++j) v[j] = r.chance(p); break; }
                default: for (size_t j = i; j < e; ++j) v[j] = r.coin();
                }
            }
            break; }
        case 11: { name = "singleton"; if (n) v[r.below(n)] = 1; break; }
        case 12: { name = "single-zero"; std::fill(v.begin(), v.end(), 1); if (n) v[r.below(n)] = 0; break; }
        case 13: { name = "periodic"; uint64_t p = 1 + r.below(130); uint64_t ph = r.below(p); for (size_t i = 0; i < n; ++i) v[i] = (i % p) == ph; if (r.coin()) for (size_t i = 0; i < n; ++i) v[i] ^= 1; break; }
        default: { name = "halves"; uint64_t c = n ? r.below(n) : 0; bool f = r.coin(); for (size_t i = 0; i < n; ++i) v[i] = uint8_t((i < c) == f); if (r.coin()) for (uint64_t k = 0; k < 8 && n; ++k) v[r.below(n)] ^= 1; }
        }
        return v;
    }

    // values whose bit lengths cover 0..maxbits
    inline uint64_t any_value(rng_t& r, unsigned maxbits) {
        unsigned b = (unsigned)r.below(maxbits + 1);
        uint64_t v = r.bits(b);
        if (b) switch (r.below(4)) {
            case 0: v = uint64_t(1) << (b - 1); break;
            case 1: v = (b == 64) ? uint64_t(-1) : (uint64_t(1) << b) - 1; break;
            default: v |= uint64_t(1) << (b - 1);
        }
        return v;
    }

    // ------------------------------------------------------ balanced parentheses
    inline bool is_balanced(bits_t const& v) {
        int64_t e = 0;
        for (size_t i = 0; i < v.size(); ++i) { e += v[i] ? 1 : -1; if (e < 0) return false; }
        return e == 0;
    }
    static const unsigned n_bp_patterns = 16;
    // balanced sequence of about n symbols. If rooted, the first symbol encloses everything.
    inline bits_t bp_pattern(rng_t& r, uint64_t n, unsigned kind, std::string& name) {
        bits_t v; n &= ~uint64_t(1);
        if (n < 2) { name = "empty"; return v; }
        v.reserve(n);
        // helper: random walk from current excess to a target length with a step chooser, closed at the end
        int64_t e = 0;
        struct push_t { bits_t& v; int64_t& e; void operator()(bool b) { v.push_back(b); e += b ? 1 : -1; } } push = {v, e};
        uint64_t target = n;
        #define CAN_OPEN (uint64_t(e) + 1 + v.size() + 1 <= target)
        switch (kind) {
        case 0: { name = "uniform-walk";
            while (v.size() < target) { bool o = r.coin(); if (e == 0) o = true; if (!CAN_OPEN) o = false; push(o); } break; }
        case 1: { name = "path"; for (uint64_t i = 0; i < n / 2; ++i) push(1); for (uint64_t i = 0; i < n / 2; ++i) push(0); break; }
        case 2: { name = "flat"; for (uint64_t i = 0; i < n / 2; ++i) { push(1); push(0); } break; }
        case 3: { name = "rooted-flat"; push(1); while (v.size() + 3 <= n) { push(1); push(0); } push(0); break; }
        case 4: { name = "paths"; while (v.size() < target) { uint64_t left = (target - v.size()) / 2; uint64_t d = 1 + r.below(std::min<uint64_t>(left, uint64_t(1) << r.range(1, 15)));
                for (uint64_t i = 0; i < d; ++i) push(1); for (uint64_t i = 0; i < d; ++i) push(0); } break; }
        case 5: { name = "rooted-walk"; push(1);
            while (v.size() + 1 < target) { bool o = r.coin(); if (e <= 1) o = true; if (!(uint64_t(e) + 1 + v.size() + 1 <= target)) o = false; push(o); }
            while (e > 0) push(0); break; }
        case 6: case 7: { // drifting mountains: piecewise slopes
            name = "mountains"; double p = .5; uint64_t left = 0;
            while (v.size() < target) { if (!left) { static const double ps[] = {.05, .2, .45, .5, .55, .8, .95, 1.0, 0.0}; p = ps[r.below(9)]; left = 1 + r.below(uint64_t(1) << r.range(3, 14)); }
                --left; bool o = r.chance(p); if (e == 0) o = true; if (!CAN_OPEN) o = false; push(o); } break; }
        case 8: case 9: { // sawtooth between few levels on top of a base depth: many ties
            name = "sawtooth"; uint64_t base = r.below(n / 8 + 1); int64_t amp = int64_t(1 + r.below(uint64_t(1) << r.range(0, 10)));
            for (uint64_t i = 0; i < base; ++i) push(1);
            int64_t lo = int64_t(base), hi = lo + amp; bool up = true;
            while (v.size() < target) { if (e >= hi) up = false; if (e <= lo) up = true; if (r.chance(.002)) up = !up; bool o = up; if (e == 0) o = true; if (!CAN_OPEN) o = false; push(o); if (!CAN_OPEN) break; }
            while (e > 0) push(0);
            break; }
        case 10: { // deep stem with leaves: excess stays high, matches are very far
            name = "comb"; uint64_t lp = 1 + r.below(4);
            while (CAN_OPEN && v.size() < n / 2) { push(1); for (uint64_t k = 0; k < r.below(lp + 1) && v.size() + uint64_t(e) + 2 <= target; ++k) { push(1); push(0); } }
            while (e > 0) { if (v.size() + uint64_t(e) + 2 <= target && r.chance(.3)) { push(1); push(0); } push(0); } break; }
        case 11: { // aligned plateaus: whole 64/256/8192 chunks of opens / closes / pairs
            static const uint64_t cs[] = {64, 256, 512, 4096, 8192}; uint64_t c = cs[r.below(5)]; name = "aligned" + num(c);
            if (r.coin()) { uint64_t k = r.below(3); for (uint64_t i = 0; i < k && CAN_OPEN; ++i) push(1); }
            while (v.size() < target) { unsigned m = (unsigned)r.below(4);
                for (uint64_t i = 0; i < c && v.size() < target; ++i) { bool o = m == 0 ? true : m == 1 ? false : m == 2 ? !(i & 1) : r.coin(); if (e == 0) o = true; if (!CAN_OPEN) o = false; push(o); } }
            break; }
        case 13: case 14: case 15: { // every chunk (word, block, superblock) has a chosen minimum, with many ties between chunks
            uint64_t c = kind == 13 ? 64 : kind == 14 ? 256 : 8192; name = "chunk-minima" + num(c);
            uint64_t levels = 1 + r.below(4); int64_t base = int64_t(r.below(c / 2 + 1)) & ~int64_t(1); uint64_t amp = 1 + r.below(c / 3);
            for (uint64_t i = 0; i < c; ++i) push(1);
            while (v.size() + c + uint64_t(e) + c <= target || v.size() < 3 * c) {
                if (v.size() > 4 * target + 8 * c) break;
                int64_t t = std::min<int64_t>(base + int64_t(r.below(levels)), e), s2 = t + int64_t(r.below(amp + 1)); if ((s2 - e) & 1) ++s2;
                uint64_t need = uint64_t(e - t) + uint64_t(s2 - t); if (need > c) { t = e; s2 = e; need = 0; }
                uint64_t fill = (c - need) / 2, f1 = r.below(fill + 1), f2 = r.coin() ? 0 : r.below(fill - f1 + 1), f3 = fill - f1 - f2;
                for (uint64_t i = 0; i < f1; ++i) { push(1); push(0); } while (e > t) push(0);
                for (uint64_t i = 0; i < f2; ++i) { push(1); push(0); } while (e < s2) push(1);
                for (uint64_t i = 0; i < f3; ++i) { push(1); push(0); }
            }
            break; }
        default: { // binary-tree-like (DFUDS of a random heap over few keys)
            name = "dfuds"; uint64_t m = n / 2 - 1; std::vector<uint64_t> stack; bits_t w; uint64_t keys = uint64_t(1) << r.below(12);
            for (uint64_t i = 0; i < m; ++i) { w.push_back(0); uint64_t x = r.below(keys); while (!stack.empty() && x < stack.back()) { stack.pop_back(); w.push_back(1); } stack.push_back(x); }
            w.push_back(0); while (!stack.empty()) { stack.pop_back(); w.push_back(1); } w.push_back(1);
            std::reverse(w.begin(), w.end()); v.swap(w); e = 0; }
        }
        #undef CAN_OPEN
        while (e > 0) { v.push_back(0); --e; }
        return v;
    }

    inline std::string head(bits_t const& v, size_t k = 24) {
        std::string s; for (size_t i = 0; i < v.size() && i < k; ++i) s += v[i] ? '1' : '0'; if (v.size() > k) s += ".."; return s;
    }

    // interesting positions in [0, n]
    inline std::vector<uint64_t> edge_positions(rng_t& r, uint64_t n, size_t extra) {
        std::vector<uint64_t> p;
        static const uint64_t steps[] = {64, 256, 512, 1024, 8192, 65536, 262144};
        for (size_t s = 0; s < 7; ++s) {
            uint64_t cnt = n / steps[s];
            for (uint64_t k = 0; k <= cnt && k < 24; ++k) {
                uint64_t m = (cnt < 24 ? k : r.below(cnt + 1)) * steps[s];
                for (int d = -1; d <= 1; ++d) if (int64_t(m) + d >= 0 && m + uint64_t(int64_t(d)) <= n) p.push_back(m + uint64_t(int64_t(d)));
            }
        }
        for (size_t i = 0; i < extra; ++i) p.push_back(r.below(n + 1));
        p.push_back(0); p.push_back(n);
        std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
        return p;
    }
}
