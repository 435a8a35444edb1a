// C05: darray0/darray1 over a bit_vector and the incrementally filled darray64, against the list of positions.
#include "gen.hpp"
#include "darray.hpp"
#include "darray64.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;

// positions grouped in blocks of 1024 whose span is chosen around the dense/sparse threshold
static std::vector<uint64_t> block_positions(rng_t& r, std::string& nm, uint64_t maxblocks) {
    static const uint64_t spans[] = {1023, 1024, 4096, 40000, 65534, 65535, 65536, 65537, 66000, 131071, 131072, 200000};
    std::vector<uint64_t> v; uint64_t cur = r.chance(.5) ? 0 : r.below(70000);
    uint64_t blocks = 1 + r.below(maxblocks); nm = "spans";
    for (uint64_t b = 0; b < blocks; ++b) {
        uint64_t cnt = 1024; if (b + 1 == blocks) cnt = r.chance(.2) ? 1024 : r.chance(.3) ? 1 + r.below(40) : 1 + r.below(1024);
        uint64_t span = spans[r.below(12)];
        nm += "/" + num(span);
        if (span + 1 < cnt) span = cnt - 1;
        if (cnt == 1) { v.push_back(cur); cur += 1 + r.below(100000); continue; }
        std::set<uint64_t> in; in.insert(0); in.insert(span);
        unsigned how = (unsigned)r.below(5);
        uint64_t k = 1, kb = 1;
        while (in.size() < cnt) {
            if (how == 0) in.insert(k++);                         // all in front
            else if (how == 1) in.insert(span - k++);             // all at the end
            else if (how == 2) in.insert(r.below(span + 1));      // spread
            else if (how == 3) { uint64_t c = (r.below(8) + 1) * (span / 9); for (int j = 0; j < 20 && in.size() < cnt; ++j) in.insert(std::min(span, c + r.below(300))); if (r.chance(.2)) in.insert(r.below(span + 1)); }
            else { if (r.coin()) in.insert(std::min(span, k++)); else in.insert(span - std::min(span, kb++)); }
        }
        for (std::set<uint64_t>::iterator i = in.begin(); i != in.end(); ++i) v.push_back(cur + *i);
        if (cnt == 1024) mon::hit(span < 65536 ? "block below the sparse threshold" : "block at or above the sparse threshold");
        if (span == 65535) mon::hit("block span 65535"); if (span == 65536) mon::hit("block span 65536");
        cur += span + 1 + (r.coin() ? 0 : r.below(300));
    }
    return v;
}

static void check_darray(bits_t const& m, rng_t& r) {
    bit_vector bv(m);
    std::vector<uint64_t> pos[2];
    for (uint64_t i = 0; i < m.size(); ++i) pos[m[i]].push_back(i);
    MON_OP("darray1.ctor", m.size(), 0); darray1 d1(bv);
    MON_OP("darray0.ctor", m.size(), 0); darray0 d0(bv);
    MON_EQ("darray1.num_positions", 0, 0, pos[1].size(), d1.num_positions());
    MON_EQ("darray0.num_positions", 0, 0, pos[0].size(), d0.num_positions());
    for (int b = 0; b < 2; ++b) {
        std::vector<uint64_t> ks;
        if (pos[b].size() <= 20000) for (uint64_t i = 0; i < pos[b].size(); ++i) ks.push_back(i); else ks = edge_positions(r, pos[b].size() - 1, 3000);
        for (size_t k = 0; k < ks.size(); ++k) {
            if (b) MON_EQ("darray1.select", ks[k], 0, pos[1][ks[k]], d1.select(bv, ks[k]));
            else MON_EQ("darray0.select", ks[k], 0, pos[0][ks[k]], d0.select(bv, ks[k]));
        }
    }
}

static void check_darray64(rng_t& r, uint64_t cnt, unsigned mode) {
    darray64::builder b; bits_t m; std::vector<uint64_t> pos;
    for (uint64_t i = 0; i < cnt; ++i) {
        uint64_t z = mode == 0 ? r.below(64) : mode == 1 ? 63 : mode == 2 ? 0 : mode == 3 ? r.below(3) : ((i / 700) % 2 ? 63 : 0);
        MON_OP("darray64.append1", i, z);
        if (!z && r.coin()) b.append1(); else b.append1(z);
        m.resize(m.size() + z, 0); pos.push_back(m.size()); m.push_back(1);
    }
    mon::nontrivial(mon::mix(mon::hash_vec(m), 64));
    darray64 d(&b);
    MON_EQ("darray64.num_ones", 0, 0, cnt, d.num_ones());
    MON_EQ("darray64.bits.size", 0, 0, m.size(), d.bits().size());
    for (uint64_t i = 0; i < m.size(); ++i) MON_EQ("darray64.bits", i, 0, m[i], d.bits()[i]);
    for (uint64_t i = 0; i < cnt; ++i) MON_EQ("darray64.select", i, 0, pos[i], d.select(i));
    if (mode == 1 && cnt >= 1024) mon::hit("darray64 block of maximal sparsity");
}

static void da_case(uint64_t id, rng_t& r) {
    if (id < 11) {
        mon::describe("every sequence of length " + num(id));
        for (uint64_t x = 0; x < (uint64_t(1) << id); ++x) { bits_t m; for (uint64_t i = 0; i < id; ++i) m.push_back((x >> i) & 1); check_darray(m, r); mon::nontrivial(mon::mix(id, x)); }
        return;
    }
    std::string nm;
    switch (id % 4) {
    case 0: { // sparse blocks
        std::vector<uint64_t> v = block_positions(r, nm, 7);
        bits_t m(v.back() + 1 + (r.coin() ? 0 : r.below(200000)), 0); for (size_t i = 0; i < v.size(); ++i) m[v[i]] = 1;
        if (r.coin()) { nm += " complemented"; for (size_t i = 0; i < m.size(); ++i) m[i] ^= 1; }
        mon::describe(nm + " n=" + num(m.size())); mon::nontrivial(mon::hash_vec(m)); check_darray(m, r); break; }
    case 1: { uint64_t cnt = id % 12 == 1 ? 1000 + r.below(4000) : any_size(r, 3000); unsigned mode = (unsigned)r.below(5); mon::describe("darray64 n=" + num(cnt) + " mode " + num(mode)); check_darray64(r, cnt, mode); break; }
    default: { uint64_t n = any_size(r, id % 24 == 2 ? 1500000 : id % 6 == 2 ? 200000 : 12000); bits_t m = bit_pattern(r, n, (unsigned)((id / 4) % n_bit_patterns), nm);
        mon::describe(nm + " n=" + num(n) + " " + head(m)); mon::nontrivial(mon::hash_vec(m)); check_darray(m, r); }
    }
}

// more than 2^32 positions: every position but one in each 64, at h(word)
static void many_positions(rng_t& r) {
    uint64_t words = (uint64_t(1) << 26) + (uint64_t(1) << 21), salt = r.next(), n = words * 64, m = words * 63; mon::describe("n=" + num(n) + " positions=" + num(m)); mon::nontrivial(mon::mix(n, salt)); mon::hit("more than 2^32 positions");
    #define HOLE(w) (mon::mix(w, salt) & 63)
    bit_vector bv; { bit_vector_builder b; b.reserve(n); for (uint64_t w = 0; w < words; ++w) b.append_bits(~(uint64_t(1) << HOLE(w)), 64); bit_vector(&b).swap(bv); }
    darray1 d(bv); MON_EQ("darray1.num_positions", 0, 0, m, d.num_positions());
    for (int k = 0; k < 200000; ++k) { uint64_t i = k == 0 ? m - 1 : r.chance(.4) ? m - 1 - r.below(1 << 24) : r.below(m), w = i / 63, j = i % 63; MON_EQ("darray1.select", i, 0, w * 64 + j + (j >= HOLE(w)), d.select(bv, i)); }
    darray0 z(bv); MON_EQ("darray0.num_positions", 0, 0, words, z.num_positions());
    for (int k = 0; k < 200000; ++k) { uint64_t i = k == 0 ? words - 1 : r.chance(.4) ? words - 1 - r.below(1 << 20) : r.below(words); MON_EQ("darray0.select", i, 0, i * 64 + HOLE(i), z.select(bv, i)); }
}
// darray64 with more than 2^32 bits, then one with more than 2^32 positions
static void long_darray64(rng_t& r, bool dense) {
    uint64_t salt = r.next(), m = dense ? (uint64_t(1) << 32) + (uint64_t(1) << 20) : (uint64_t(1) << 32) / 48; mon::describe("darray64 positions=" + num(m)); mon::nontrivial(mon::mix(m, salt)); mon::hit(dense ? "darray64 with more than 2^32 positions" : "darray64 beyond 2^32 bits");
    darray64::builder b; std::vector<uint64_t> at; uint64_t p = 0;
    if (dense) { for (uint64_t i = 0; i < m; ++i) b.append1(i % 1024 ? 0 : 1 + (HOLE(i / 1024) % 63)); }
    else for (uint64_t i = 0; i < m; ++i) { uint64_t z = mon::mix(i, salt) % 4 ? 63 : mon::mix(i, salt) >> 58; b.append1(z); p += z; if (i % 1024 == 0) at.push_back(p); ++p; }
    if (dense) for (uint64_t k = 0; k * 1024 < m; ++k) { p += 1 + (HOLE(k) % 63); at.push_back(p); p += 1024; }
    darray64 d(&b); MON_EQ("darray64.num_ones", 0, 0, m, d.num_ones());
    for (int k = 0; k < 20000; ++k) { uint64_t c = k == 0 ? at.size() - 1 : r.chance(.4) ? at.size() - 1 - r.below(at.size() / 64) : r.below(at.size()), q = at[c];
        if (dense) { for (int j = 0; j < 6; ++j) { uint64_t i = std::min(m - 1, c * 1024 + r.below(1024)); MON_EQ("darray64.select", i, 0, q + i % 1024, d.select(i)); } }
        else for (uint64_t i = c * 1024, e = std::min(m, i + 1024); i < e; ++i) { if (i % 1024) q += mon::mix(i, salt) % 4 ? 63 : mon::mix(i, salt) >> 58; if (i % 31 == k % 31 || i + 1 == e) MON_EQ("darray64.select", i, 0, q, d.select(i)); ++q; } }
    #undef HOLE
}
static void huge_case(uint64_t id, rng_t& r) {
    if (id == 2) { many_positions(r); return; }
    if (id >= 3) { long_darray64(r, id == 4); return; }
    // positions beyond 2^32, dense and sparse blocks there
    uint64_t base = (uint64_t(1) << 32) - 3000; bool neg = id & 1;
    std::vector<uint64_t> v; v.push_back(5); 
    uint64_t cur = base; for (int i = 0; i < 6000; ++i) { v.push_back(cur); cur += i < 4000 ? 1 + r.below(3) : 1 + r.below(200); }
    uint64_t n = cur + r.below(100);
    mon::describe("n=" + num(n)); mon::nontrivial(mon::mix(n, id)); mon::hit("vectors beyond 2^32 bits");
    bit_vector_builder b(n, neg); for (size_t i = 0; i < v.size(); ++i) b.set(v[i], !neg);
    bit_vector bv(&b);
    if (neg) { darray0 d(bv); MON_EQ("darray0.num_positions", 0, 0, v.size(), d.num_positions()); for (size_t i = 0; i < v.size(); ++i) MON_EQ("darray0.select", i, 0, v[i], d.select(bv, i)); }
    else { darray1 d(bv); MON_EQ("darray1.num_positions", 0, 0, v.size(), d.num_positions()); for (size_t i = 0; i < v.size(); ++i) MON_EQ("darray1.select", i, 0, v[i], d.select(bv, i)); }
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (opt().huge()) return mon::run_cases(5, huge_case);
    return mon::run_cases(11 + opt().n(2500, 30000), da_case);
}
