// C06 / C07: Elias-Fano against the plain sorted sequence.
#include "efgen.hpp"
#include "elias_fano.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;

static void check_access(elias_fano const& ef, std::vector<uint64_t> const& v, uint64_t n, rng_t& r) {
    uint64_t m = v.size();
    MON_EQ("ef.size", 0, 0, n, ef.size());
    MON_EQ("ef.num_ones", 0, 0, m, ef.num_ones());
    std::vector<uint64_t> ks;
    if (m <= 5000) for (uint64_t i = 0; i < m; ++i) ks.push_back(i); else ks = edge_positions(r, m - 1, 1500);
    for (size_t k = 0; k < ks.size(); ++k) {
        uint64_t i = ks[k];
        MON_EQ("ef.select", i, 0, v[i], ef.select(i));
        MON_EQ("ef.delta", i, 0, i ? v[i] - v[i - 1] : v[i], ef.delta(i));
        if (i + 1 < m) {
            MON_OP("ef.select_range", i, 0);
            std::pair<uint64_t, uint64_t> p = ef.select_range(i);
            MON_EQ("ef.select_range.first", i, 0, v[i], p.first);
            MON_EQ("ef.select_range.second", i, 0, v[i + 1], p.second);
        }
    }
}

static void check_rank(elias_fano const& ef, std::vector<uint64_t> const& v, uint64_t n, rng_t& r) {
    std::vector<uint64_t> pos;
    if (n <= 2500) for (uint64_t i = 0; i <= n; ++i) pos.push_back(i);
    else {
        pos.push_back(0); pos.push_back(1); pos.push_back(n); pos.push_back(n - 1);
        for (int k = 0; k < 250; ++k) {
            if (!v.empty()) { uint64_t x = v[r.below(v.size())]; for (int d = -1; d <= 1; ++d) { uint64_t y = x + uint64_t(int64_t(d)); if (y <= n) pos.push_back(y); } }
            pos.push_back(n == UINT64_MAX ? r.next() : r.below(n + 1));
            unsigned s = (unsigned)r.below(64); uint64_t q = (r.below(n) >> s) << s; pos.push_back(q); if (q) pos.push_back(q - 1);
        }
    }
    for (size_t k = 0; k < pos.size(); ++k) {
        uint64_t p = pos[k];
        size_t lb = size_t(std::lower_bound(v.begin(), v.end(), p) - v.begin());
        MON_EQ("ef.rank", p, 0, lb, ef.rank(p));
        if (p < n) {
            bool in = lb < v.size() && v[lb] == p;
            MON_EQ("ef.operator[]", p, 0, in, ef[p]);
            size_t ub = size_t(std::upper_bound(v.begin(), v.end(), p) - v.begin());
            if (ub) MON_EQ("ef.predecessor1", p, 0, v[ub - 1], ef.predecessor1(p));
            if (lb < v.size()) MON_EQ("ef.successor1", p, 0, v[lb], ef.successor1(p));
            if (in && ub - lb > 1) mon::hit("query on a repeated element");
        }
    }
}

static void check_enum(elias_fano const& ef, std::vector<uint64_t> const& v, rng_t& r) {
    uint64_t m = v.size();
    if (!m) { elias_fano::select_enumerator e(ef, 0); (void)e; mon::hit("enumerator over an empty sequence"); return; }
    std::vector<uint64_t> st;
    if (m <= 60) for (uint64_t i = 0; i < m; ++i) st.push_back(i);
    else { st.push_back(0); st.push_back(m - 1); st.push_back(m - 2); for (int k = 0; k < 24; ++k) { st.push_back(r.below(m)); st.push_back(std::min<uint64_t>(m - 1, (r.below(m) / 64) * 64 + r.below(3))); } }
    for (size_t k = 0; k < st.size(); ++k) {
        uint64_t lim = (k < 2 || r.chance(.1)) ? m : std::min<uint64_t>(m, st[k] + 300);
        MON_OP("ef.select_enumerator", st[k], 0);
        elias_fano::select_enumerator e(ef, st[k]);
        uint64_t fork = st[k] + r.below(lim - st[k]);
        for (uint64_t i = st[k]; i < lim; ++i) {
            if (i == fork) { elias_fano::select_enumerator f = e; for (uint64_t j = i; j < std::min(m, i + 70); ++j) MON_EQ("ef.enumerator.next(copy)", st[k], j, v[j], f.next()); }
            MON_EQ("ef.enumerator.next", st[k], i, v[i], e.next());
        }
        if (lim == m) mon::hit("enumerated to the last element");
    }
}

static std::string lowbits(uint64_t n, uint64_t m) { unsigned l = 0; if (m && n / m) { uint64_t q = n / m; while (q >>= 1) ++l; } return num(l); }

static void observe(elias_fano const& ef, std::vector<uint64_t> const& v, uint64_t n, bool rankable, rng_t& r) {
    if (opt().prop == "C07") { MON_EQ("ef.num_ones", 0, 0, v.size(), ef.num_ones()); check_enum(ef, v, r); return; }
    check_access(ef, v, n, r);
    if (rankable) { check_rank(ef, v, n, r); mon::hit("with rank index"); } else mon::hit("without rank index");
}

static void ef_case(uint64_t id, rng_t& r) {
    if (id < 7) { // every non-decreasing sequence of up to 4 elements over a small universe
        uint64_t n = id + 1; mon::describe("every sequence of <= 4 elements below " + num(n));
        for (uint64_t m = 0; m <= 4; ++m) {
            std::vector<uint64_t> v(m, 0);
            while (true) {
                elias_fano::elias_fano_builder b(n, m); for (uint64_t i = 0; i < m; ++i) b.push_back(v[i]);
                elias_fano ef(&b, true); observe(ef, v, n, true, r); mon::nontrivial(mon::mix(mon::hash_vec(v), n));
                uint64_t k = m; while (k && v[k - 1] == n - 1) --k; if (!k) break;
                ++v[k - 1]; for (uint64_t j = k; j < m; ++j) v[j] = v[k - 1];
            }
        }
        return;
    }
    if (id % 4 == 0) { // from a bit vector
        std::string nm; uint64_t nn = any_size(r, id % 32 == 0 ? 400000 : 5000);
        bits_t m = bit_pattern(r, nn, (unsigned)((id / 4) % n_bit_patterns), nm);
        std::vector<uint64_t> v; for (uint64_t i = 0; i < nn; ++i) if (m[i]) v.push_back(i);
        mon::describe("bits " + nm + " n=" + num(nn) + " m=" + num(v.size())); mon::nontrivial(mon::hash_vec(m));
        bool rk = r.chance(.8);
        bit_vector_builder b; for (uint64_t i = 0; i < nn; ++i) b.push_back(m[i]);
        MON_OP("elias_fano(builder)", nn, v.size()); elias_fano ef(&b, rk); mon::hit("built from a bit vector");
        observe(ef, v, nn, rk, r); return;
    }
    bool rk = r.chance(.7);
    ef_input e = ef_sequence(r, id % 100 == 1 ? 300000 : id % 10 == 1 ? 20000 : 1500, rk);
    uint64_t m = e.v.size();
    uint64_t cap = m; // the announced length may exceed what is pushed
    if (r.chance(.1) && m) { cap = m + r.below(m + 3); }
    mon::describe(e.name + " n=" + num(e.n) + " m=" + num(m) + "/" + num(cap) + " l=" + lowbits(e.n, cap) + (m ? " first " + num(e.v[0]) + " last " + num(e.v.back()) : ""));
    mon::nontrivial(mon::mix(mon::hash_vec(e.v), e.n)); mon::hit("low width " + lowbits(e.n, cap));
    MON_OP("elias_fano_builder", e.n, cap);
    elias_fano::elias_fano_builder b(e.n, cap);
    for (uint64_t i = 0; i < m; ++i) b.push_back(e.v[i]);
    MON_OP("elias_fano", e.n, m);
    elias_fano ef(&b, rk);
    observe(ef, e.v, e.n, rk, r);
}

// more than 2^32 elements: group g holds sixteen elements, the first h(g) equal to g and the others to g + 1
struct grouped { uint64_t salt; unsigned h(uint64_t g) const { return unsigned(mon::mix(g, salt) & 15); } uint64_t at(uint64_t i) const { return (i >> 4) + ((i & 15) >= h(i >> 4)); }
    uint64_t rank(uint64_t x) const { return x ? 16 * (x - 1) + h(x - 1) : 0; } };
static void many_elements(rng_t& r) {
    uint64_t groups = (uint64_t(1) << 28) + (uint64_t(1) << 18), m = groups * 16, n = groups + 1 + r.below(100); grouped f = {r.next()};
    mon::describe("m=" + num(m) + " n=" + num(n)); mon::nontrivial(m); mon::hit("more than 2^32 elements"); elias_fano ef; bool rk = opt().prop == "C06";
    { elias_fano::elias_fano_builder b(n, m); for (uint64_t g = 0; g < groups; ++g) { unsigned h = f.h(g); for (unsigned j = 0; j < 16; ++j) b.push_back(g + (j >= h)); } elias_fano(&b, rk).swap(ef); }
    MON_EQ("ef.num_ones", 0, 0, m, ef.num_ones()); MON_EQ("ef.size", 0, 0, n, ef.size());
    for (int k = 0; k < 50000; ++k) { uint64_t i = k == 0 ? m - 1 : r.chance(.4) ? m - 1 - r.below(1 << 22) : r.below(m); MON_EQ("ef.select", i, 0, f.at(i), ef.select(i)); MON_EQ("ef.delta", i, 0, i ? f.at(i) - f.at(i - 1) : f.at(0), ef.delta(i));
        if (i + 1 < m) { std::pair<uint64_t, uint64_t> p = ef.select_range(i); MON_EQ("ef.select_range.first", i, 0, f.at(i), p.first); MON_EQ("ef.select_range.second", i, 0, f.at(i + 1), p.second); } }
    if (rk) for (int k = 0; k < 50000; ++k) { uint64_t x = r.chance(.4) ? groups - 1 - r.below(1 << 18) : 2 + r.below(groups - 2); MON_EQ("ef.rank", x, 0, f.rank(x), ef.rank(x)); MON_EQ("ef.operator[]", x, 0, f.rank(x + 1) > f.rank(x), ef[x]); MON_EQ("ef.predecessor1", x, 0, f.at(f.rank(x + 1) - 1), ef.predecessor1(x)); MON_EQ("ef.successor1", x, 0, f.at(f.rank(x)), ef.successor1(x)); }
    for (int k = 0; k < 300; ++k) { uint64_t i = k == 0 ? m - 200 : r.chance(.4) ? m - 200 - r.below(1 << 22) : r.chance(.3) ? (uint64_t(1) << 32) - r.below(200) : r.below(m - 200); elias_fano::select_enumerator e(ef, i); for (int j = 0; j < 200; ++j, ++i) MON_EQ("ef.enumerator.next", i, 0, f.at(i), e.next()); }
    if (!rk) { elias_fano::select_enumerator e(ef, 0); uint64_t bad = m; for (uint64_t i = 0; i < m; ++i) if (e.next() != f.at(i)) { bad = i; break; } MON_EQ("ef.enumerator from the first to the last", 0, 0, m, bad); }
}
static void huge_case(uint64_t id, rng_t& r) { // more than 2^32 high bits / low bits
    if (id == 2) { many_elements(r); return; }
    if (id == 0) { // elements of 36 low bits: low part beyond 2^32 bits
        uint64_t m = (uint64_t(1) << 27) - (uint64_t(1) << 20), n = UINT64_MAX; 
        mon::describe("m=" + num(m) + " n=2^64-1"); uint64_t step = n / m;
        elias_fano::elias_fano_builder b(n, m); for (uint64_t i = 0; i < m; ++i) b.push_back(i * step + (i * 0x9E3779B97F4A7C15ULL) % step);
        elias_fano ef(&b, false); mon::hit("low part beyond 2^32 bits"); mon::nontrivial(m);
        for (int k = 0; k < 100000; ++k) { uint64_t i = k == 0 ? m - 1 : r.chance(.2) ? m - 1 - r.below(1 << 20) : r.below(m); uint64_t x = i * step + (i * 0x9E3779B97F4A7C15ULL) % step; MON_EQ("ef.select", i, 0, x, ef.select(i)); }
        for (int k = 0; k < 200; ++k) { uint64_t i = k == 0 ? m - 200 : r.chance(.3) ? m - 200 - r.below(1 << 20) : r.below(m - 200); elias_fano::select_enumerator e(ef, i); for (int j = 0; j < 200; ++j, ++i) { uint64_t x = i * step + (i * 0x9E3779B97F4A7C15ULL) % step; MON_EQ("ef.enumerator.next", i, 0, x, e.next()); } }
    } else { // high part beyond 2^32 bits
        uint64_t n = (uint64_t(1) << 32) - 1, m = n; mon::describe("universe 2^32-1 announced as dense"); mon::nontrivial(n); mon::hit("high part beyond 2^32 bits");
        // announced length m = n gives l = 0 and high bits of 2n; few elements are pushed
        std::vector<uint64_t> v; for (int i = 0; i < 3000; ++i) v.push_back(r.coin() ? r.below(n) : n - 1 - r.below(5000)); std::sort(v.begin(), v.end());
        elias_fano::elias_fano_builder b(n, m); for (size_t i = 0; i < v.size(); ++i) b.push_back(v[i]);
        elias_fano ef(&b, false); check_access(ef, v, n, r); check_enum(ef, v, r);
    }
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (opt().huge()) return mon::run_cases(3, huge_case);
    return mon::run_cases(7 + opt().n(6000, 80000), ef_case);
}
