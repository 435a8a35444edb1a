// C24: variable-byte code, signed/natural mapping and ceiling division.
#include "gen.hpp"
#include <deque>
#include "util.hpp"
#include "mappable_vector.hpp"
#include "vbyte.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;

static size_t ref_len(uint64_t v) { size_t l = 1; while (v >>= 7) ++l; return l; }

static uint64_t any64(rng_t& r) {
    switch (r.below(6)) {
    case 0: return r.next();
    case 1: { unsigned k = (unsigned)r.below(10); uint64_t p = k >= 10 ? 0 : uint64_t(1) << (7 * k); return p + r.below(5) - 2; }
    case 2: return uint64_t(0) - r.below(5);
    case 3: { unsigned k = (unsigned)r.below(64); return (uint64_t(1) << k) + r.below(5) - 2; }
    case 4: { uint64_t w = 0; for (int i = 0; i < 10; ++i) w = (w << 7) | (r.chance(.5) ? (r.coin() ? 0 : 127) : r.below(128)); return w; }
    default: return any_value(r, 64);
    }
}

template <typename V> static void check_vbyte(std::vector<uint64_t> const& vals, rng_t& r, V& v) {
    // surroundings that continue or terminate codes
    for (uint64_t k = r.below(4); k; --k) v.push_back(uint8_t(r.next()));
    std::vector<size_t> off;
    for (size_t i = 0; i < vals.size(); ++i) {
        size_t before = v.size(); off.push_back(before);
        size_t want = ref_len(vals[i]);
        MON_EQ("vbyte_size", vals[i], 0, want, vbyte_size(vals[i]));
        std::vector<uint8_t> prev; for (size_t j = before > 12 ? before - 12 : 0; j < before; ++j) prev.push_back(uint8_t(v[j]));
        MON_EQ("append_vbyte", vals[i], 0, want, append_vbyte(v, vals[i]));
        MON_EQ("bytes appended", vals[i], 0, before + want, v.size());
        for (size_t j = 0; j < prev.size(); ++j) MON_EQ("bytes before kept", i, j, prev[prev.size() - 1 - j], uint8_t(v[before - 1 - j]));
        if (r.chance(.2)) v.push_back(uint8_t(r.coin() ? 0xFF : r.next()));
    }
    for (size_t i = 0; i < vals.size(); ++i) {
        size_t x = size_t(r.next());
        MON_EQ("decode_vbyte.length", vals[i], off[i], ref_len(vals[i]), decode_vbyte(v, off[i], x));
        MON_EQ("decode_vbyte", vals[i], off[i], vals[i], x);
    }
}
static std::string seen_len;

static void one(uint64_t id, rng_t& r) {
    std::vector<uint64_t> vals;
    if (id == 0) { for (unsigned k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) vals.push_back((uint64_t(1) << k) + uint64_t(int64_t(d))); }
    else if (id == 1) { for (uint64_t i = 0; i < 70000; ++i) vals.push_back(i); }
    else { uint64_t n = 1 + r.below(4000); for (uint64_t i = 0; i < n; ++i) vals.push_back(any64(r)); }
    mon::describe(num(vals.size()) + " values");
    for (size_t i = 0; i < vals.size(); ++i) mon::hit("vbyte length " + num(ref_len(vals[i])));
    switch (id % 3) {
    case 0: { std::vector<uint8_t> v; check_vbyte(vals, r, v);
        mapper::mappable_vector<uint8_t> m(v); size_t o = 0; // decode from a mappable vector, at every offset that holds a complete code
        std::vector<uint8_t> w; for (size_t i = 0; i < vals.size(); ++i) append_vbyte(w, vals[i]);
        mapper::mappable_vector<uint8_t> mw(w);
        for (size_t i = 0; i < vals.size(); ++i) { size_t x; size_t l = decode_vbyte(mw, o, x); MON_EQ("decode_vbyte(mappable)", o, i, vals[i], x); o += l; }
        MON_EQ("decoded length", 0, 0, w.size(), o); (void)m; break; }
    case 1: { std::deque<uint8_t> v; check_vbyte(vals, r, v); break; }
    default: { std::string v; check_vbyte(vals, r, v); }
    }
    // int2nat: 0, -1, 1, -2, 2 ...
    for (size_t i = 0; i < vals.size(); ++i) {
        uint64_t nat = vals[i];
        __int128 want = (nat & 1) ? -(__int128)(nat >> 1) - 1 : (__int128)(nat >> 1);
        MON_EQ("nat2int", nat, 0, uint64_t(int64_t(want)), uint64_t(util::nat2int(nat)));
        MON_EQ("int2nat(nat2int)", nat, 0, nat, util::int2nat(util::nat2int(nat)));
        int64_t s = int64_t(vals[i]);
        uint64_t wn = s >= 0 ? 2 * uint64_t(s) : uint64_t(-(2 * (__int128)s) - 1);
        MON_EQ("int2nat", uint64_t(s), 0, wn, util::int2nat(s));
        MON_EQ("nat2int(int2nat)", uint64_t(s), 0, uint64_t(s), uint64_t(util::nat2int(util::int2nat(s))));
        uint64_t d = any64(r); if (!d) d = 1;
        if (vals[i] <= UINT64_MAX - (d - 1)) { __uint128_t q = ((__uint128_t)vals[i] + d - 1) / d; MON_EQ("ceil_div", vals[i], d, uint64_t(q), util::ceil_div(vals[i], d)); }
        uint32_t d32 = uint32_t(1 + (d & 0xffff)), v32 = uint32_t(vals[i] & 0x7fffffff);
        MON_EQ("ceil_div(32)", v32, d32, (uint64_t(v32) + d32 - 1) / d32, util::ceil_div(v32, d32));
        MON_EQ("ceil_div(64,32)", v32, d32, (uint64_t(v32) + d32 - 1) / d32, util::ceil_div(uint64_t(v32), d32));
        MON_EQ("ceil_div(int const)", v32, 64, (uint64_t(v32) + 63) / 64, util::ceil_div(uint64_t(v32), 64));
    }
    mon::nontrivial(mon::hash_vec(vals));
}
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().n(300, 12000), one); }
