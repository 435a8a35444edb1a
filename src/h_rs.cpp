// C04: rank/select of rs_bit_vector against counting over the plain bits.
#include "gen.hpp"
#include "rs_bit_vector.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;

static void check_rs(bits_t const& m, rs_bit_vector const& v, std::vector<uint64_t> const& cum, std::vector<uint64_t> const& ones, std::vector<uint64_t> const& zeros, rng_t& r) {
    uint64_t n = m.size();
    MON_EQ("size", 0, 0, n, v.size());
    MON_EQ("num_ones", 0, 0, ones.size(), v.num_ones());
    MON_EQ("num_zeros", 0, 0, zeros.size(), v.num_zeros());
    bool all = n <= 6000;
    std::vector<uint64_t> pos;
    if (all) for (uint64_t i = 0; i <= n; ++i) pos.push_back(i); else pos = edge_positions(r, n, 400);
    for (size_t k = 0; k < pos.size(); ++k) {
        uint64_t p = pos[k];
        MON_EQ("rank", p, 0, cum[p], v.rank(p));
        MON_EQ("rank0", p, 0, p - cum[p], v.rank0(p));
        if (p < n) MON_EQ("operator[]", p, 0, m[p], v[p]);
    }
    for (int b = 0; b < 2; ++b) {
        std::vector<uint64_t> const& o = b ? ones : zeros;
        std::vector<uint64_t> ks;
        if (o.size() <= 6000) for (uint64_t i = 0; i < o.size(); ++i) ks.push_back(i);
        else ks = edge_positions(r, o.size() - 1, 500);
        for (size_t k = 0; k < ks.size(); ++k) {
            uint64_t i = ks[k];
            if (b) MON_EQ("select", i, 0, o[i], v.select(i)); else MON_EQ("select0", i, 0, o[i], v.select0(i));
        }
        if (o.size() > 2048) mon::hit(b ? "more than two select hints" : "more than two select0 hints");
    }
    // single 512-bit blocks that hold more than a hint's worth cannot exist; runs of empty blocks do
}

static bits_t hint_pattern(rng_t& r, std::string& nm) {
    // ones placed so that cumulated counts straddle the hint thresholds at block boundaries
    bits_t m; nm = "hint-boundaries";
    uint64_t blocks = 2 + r.below(60), total = 0;
    for (uint64_t b = 0; b < blocks; ++b) {
        uint64_t want;
        switch (r.below(6)) {
        case 0: want = 0; break; case 1: want = 512; break;
        case 2: case 3: { uint64_t next = (total / 1024 + 1) * 1024; uint64_t d = next - total; int64_t w = int64_t(d) + int64_t(r.below(3)) - 1; want = w < 0 ? 0 : w > 512 ? 512 : uint64_t(w); break; }
        case 4: want = 511; break; default: want = r.below(513);
        }
        bits_t blk(512); std::vector<uint16_t> perm(512); for (int i = 0; i < 512; ++i) perm[i] = uint16_t(i);
        if (r.coin()) for (int i = 511; i > 0; --i) std::swap(perm[i], perm[r.below(i + 1)]);
        else if (r.coin()) std::reverse(perm.begin(), perm.end());
        for (uint64_t i = 0; i < want; ++i) blk[perm[i]] = 1;
        m.insert(m.end(), blk.begin(), blk.end()); total += want;
    }
    if (r.coin()) m.resize(m.size() - r.below(600) % m.size());
    if (r.coin()) for (size_t i = 0; i < m.size(); ++i) m[i] ^= 1;
    return m;
}

static void rs_case(uint64_t id, rng_t& r) {
    if (id < 12) {
        mon::describe("every sequence of length " + num(id));
        for (uint64_t x = 0; x < (uint64_t(1) << id); ++x) {
            bits_t m; for (uint64_t i = 0; i < id; ++i) m.push_back((x >> i) & 1);
            std::vector<uint64_t> cum(1, 0), ones, zeros; for (uint64_t i = 0; i < id; ++i) { cum.push_back(cum.back() + m[i]); (m[i] ? ones : zeros).push_back(i); }
            rs_bit_vector v(m, x & 1, x & 2); check_rs(m, v, cum, ones, zeros, r); mon::nontrivial(mon::mix(id, x));
        }
        return;
    }
    std::string nm; bits_t m;
    if (id % 3 == 0) m = hint_pattern(r, nm);
    else { uint64_t n = any_size(r, id % 40 == 1 ? 2200000 : id % 8 == 1 ? 150000 : 9000); m = bit_pattern(r, n, (unsigned)((id / 3) % n_bit_patterns), nm); }
    uint64_t n = m.size();
    std::vector<uint64_t> cum(n + 1), ones, zeros;
    for (uint64_t i = 0; i < n; ++i) { cum[i + 1] = cum[i] + m[i]; (m[i] ? ones : zeros).push_back(i); }
    mon::nontrivial(mon::hash_vec(m));
    for (int h = 0; h < 4; ++h) {
        mon::describe(nm + " n=" + num(n) + " ones=" + num(ones.size()) + " hints=" + num(h) + " " + head(m));
        MON_OP("rs_bit_vector.ctor", n, h);
        if (r.coin()) { bit_vector_builder b; for (uint64_t i = 0; i < n; ++i) b.push_back(m[i]); rs_bit_vector v(&b, h & 1, h & 2); check_rs(m, v, cum, ones, zeros, r); }
        else { rs_bit_vector v(m, h & 1, h & 2); check_rs(m, v, cum, ones, zeros, r); }
        mon::hit("hints=" + num(h));
    }
}

static void huge_case(uint64_t id, rng_t& r) {
    uint64_t n = (uint64_t(1) << 32) + 5000 + r.below(3000);
    bool fill = id & 1;
    mon::describe("n=" + num(n) + (fill ? " ones with few zeros" : " zeros with few ones"));
    std::set<uint64_t> ex; for (int i = 0; i < 6000; ++i) ex.insert(r.chance(.5) ? r.below(n) : (uint64_t(1) << 32) - 2500 + r.below(5000));
    std::vector<uint64_t> v(ex.begin(), ex.end());
    for (int h = 0; h < 2; ++h) {
        bit_vector_builder b(n, fill); for (size_t i = 0; i < v.size(); ++i) b.set(v[i], !fill);
        rs_bit_vector rs(&b, h == 0, h == 0);
        mon::nontrivial(mon::mix(id, h + 99)); mon::hit("vectors beyond 2^32 bits");
        MON_EQ("num_ones", n, h, fill ? n - v.size() : v.size(), rs.num_ones());
        MON_EQ("rank", n, h, rs.num_ones(), rs.rank(n));
        for (int k = 0; k < 20000; ++k) {
            uint64_t p = r.coin() ? r.below(n + 1) : (uint64_t(1) << 32) - 3000 + r.below(6000);
            uint64_t e = uint64_t(std::lower_bound(v.begin(), v.end(), p) - v.begin());
            MON_EQ("rank", p, h, fill ? p - e : e, rs.rank(p));
            MON_EQ("rank0", p, h, fill ? e : p - e, rs.rank0(p));
        }
        for (size_t i = 0; i < v.size(); i += 3) MON_EQ(fill ? "select0" : "select", i, h, v[i], fill ? rs.select0(i) : rs.select(i));
        for (int k = 0; k < 20000; ++k) { // the filler bits: position x such that x - exceptions before = k
            uint64_t cnt = n - v.size(); uint64_t kk = r.coin() ? r.below(cnt) : cnt - 1 - r.below(6000);
            uint64_t lo = 0, hi = v.size(); // number of exceptions before the answer
            while (lo < hi) { uint64_t mid = (lo + hi) / 2; if (v[mid] - mid <= kk) lo = mid + 1; else hi = mid; }
            uint64_t p = kk + lo;
            if (fill) MON_EQ("select", kk, h, p, rs.select(kk)); else MON_EQ("select0", kk, h, p, rs.select0(kk));
        }
    }
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (opt().huge()) return mon::run_cases(2, huge_case);
    return mon::run_cases(12 + opt().n(5000, 60000), rs_case);
}
