// C10 / C11: bp_vector against a stack matcher, prefix sums and a sparse table.
#include "gen.hpp"
#include "bp_vector.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;

struct oracle {
    bits_t const& m; uint64_t n;
    std::vector<uint32_t> match, encl; // encl: position of the tightest enclosing opening, or -1
    std::vector<int32_t> exc;          // n + 1 prefix excesses
    std::vector<std::vector<uint32_t> > table; // leftmost argmin over 2^k positions
    explicit oracle(bits_t const& b, bool with_match, bool with_rmq) : m(b), n(b.size()), exc(n + 1) {
        for (uint64_t i = 0; i < n; ++i) exc[i + 1] = exc[i] + (m[i] ? 1 : -1);
        if (with_match) {
            match.assign(n, 0); encl.assign(n, uint32_t(-1)); std::vector<uint32_t> st;
            for (uint64_t i = 0; i < n; ++i) {
                if (m[i]) { encl[i] = st.empty() ? uint32_t(-1) : st.back(); st.push_back(uint32_t(i)); }
                else { match[i] = st.back(); match[st.back()] = uint32_t(i); st.pop_back(); }
            }
        }
        if (with_rmq) {
            table.push_back(std::vector<uint32_t>(n + 1)); for (uint64_t i = 0; i <= n; ++i) table[0][i] = uint32_t(i);
            for (uint64_t k = 1; (uint64_t(1) << k) <= n + 1; ++k) {
                uint64_t len = n + 2 - (uint64_t(1) << k); table.push_back(std::vector<uint32_t>(len));
                for (uint64_t i = 0; i < len; ++i) { uint32_t a = table[k - 1][i], b2 = table[k - 1][i + (uint64_t(1) << (k - 1))]; table[k][i] = exc[b2] < exc[a] ? b2 : a; }
            }
        }
    }
    uint64_t argmin(uint64_t a, uint64_t b) const { // inclusive
        unsigned k = 0; while ((uint64_t(2) << k) <= b - a + 1) ++k;
        uint32_t x = table[k][a], y = table[k][b + 1 - (uint64_t(1) << k)];
        return exc[y] < exc[x] ? y : x;
    }
};

static const char* dist_name(uint64_t d) { return d < 64 ? "match within a word" : d < 256 ? "match within 256" : d < 8192 ? "match within 8192" : d < 8192 * 4 ? "match within 4 superblocks" : "match over 4 superblocks away"; }

static void check_match(bp_vector const& v, oracle const& o, rng_t& r) {
    uint64_t n = o.n;
    std::vector<uint64_t> pos;
    if (n <= 12000) for (uint64_t i = 0; i < n; ++i) pos.push_back(i); else pos = edge_positions(r, n - 1, 3000);
    for (size_t k = 0; k < pos.size(); ++k) {
        uint64_t p = pos[k];
        if (o.m[p]) {
            MON_EQ("find_close", p, n, o.match[p], v.find_close(p));
            mon::hit(dist_name(o.match[p] - p));
            if (o.encl[p] != uint32_t(-1)) { MON_EQ("enclose", p, n, o.encl[p], v.enclose(p)); if (p - o.encl[p] > 8192) mon::hit("enclosing parenthesis beyond a superblock"); }
        } else MON_EQ("find_open", p, n, o.match[p], v.find_open(p));
    }
}

static void one_rmq(bp_vector const& v, oracle const& o, uint64_t a, uint64_t b) {
    uint64_t e = o.argmin(a, b);
    bp_vector::excess_t got = 12345;
    MON_EQ("excess_rmq", a, b, e, v.excess_rmq(a, b, got));
    MON_EQ("excess_rmq.minimum", a, b, int64_t(o.exc[e]), int64_t(got));
    uint64_t la = a / 8192, lb = b / 8192;
    mon::hit(lb - la > 8 ? "rmq over > 8 superblocks" : lb - la > 1 ? "rmq over whole superblocks" : b / 256 - a / 256 > 1 ? "rmq over whole blocks" : "rmq within neighbouring blocks");
}
static void check_excess(bp_vector const& v, oracle const& o, rng_t& r) {
    uint64_t n = o.n;
    std::vector<uint64_t> pos = edge_positions(r, n, 300);
    if (n <= 12000) { pos.clear(); for (uint64_t i = 0; i <= n; ++i) pos.push_back(i); }
    for (size_t k = 0; k < pos.size(); ++k) MON_EQ("excess", pos[k], n, int64_t(o.exc[pos[k]]), int64_t(v.excess(pos[k])));
    if (n <= 90) { for (uint64_t a = 0; a <= n; ++a) for (uint64_t b = a; b <= n; ++b) one_rmq(v, o, a, b); return; }
    std::vector<uint64_t> ed = edge_positions(r, n, 60);
    for (int k = 0, K = n > 100000 ? 4000 : 1200; k < K; ++k) {
        uint64_t a, b;
        switch (r.below(6)) {
        case 0: a = ed[r.below(ed.size())]; b = ed[r.below(ed.size())]; break;
        case 1: a = r.below(n + 1); b = std::min(n, a + r.below(130)); break;
        case 2: a = r.below(n + 1); b = std::min(n, a + r.below(1200)); break;
        case 3: a = r.below(n + 1); b = std::min(n, a + r.below(20000)); break;
        case 4: a = ed[r.below(ed.size())]; b = r.below(n + 1); break;
        default: a = r.below(n + 1); b = r.below(n + 1);
        }
        if (a > b) std::swap(a, b);
        one_rmq(v, o, a, b);
        if (k % 8 == 0) MON_EQ("excess_rmq(2)", a, b, o.argmin(a, b), v.excess_rmq(a, b));
    }
    one_rmq(v, o, 0, n); one_rmq(v, o, n, n); one_rmq(v, o, 1, n - 1);
}

static void observe(bits_t const& m, rng_t& r, unsigned h) {
    bool mt = opt().prop == "C10";
    oracle o(m, mt, !mt);
    MON_OP("bp_vector.ctor", m.size(), h);
    if (h & 4) { bit_vector_builder b; for (size_t i = 0; i < m.size(); ++i) b.push_back(m[i]); bp_vector v(&b, h & 1, h & 2); MON_EQ("size", 0, 0, m.size(), v.size()); if (mt) check_match(v, o, r); else check_excess(v, o, r); }
    else { bp_vector v(m, h & 1, h & 2); MON_EQ("size", 0, 0, m.size(), v.size()); if (mt) check_match(v, o, r); else check_excess(v, o, r); }
}

static void bp_case(uint64_t id, rng_t& r) {
    if (id < 8) { // every balanced sequence of 2*id symbols
        uint64_t n = 2 * id; uint64_t cnt = 0;
        for (uint64_t x = 0; x < (uint64_t(1) << n); ++x) { bits_t m; for (uint64_t i = 0; i < n; ++i) m.push_back((x >> i) & 1); if (!is_balanced(m)) continue; observe(m, r, (unsigned)(x >> 1) & 7); mon::nontrivial(mon::mix(n, x)); ++cnt; }
        mon::describe("every balanced sequence of length " + num(n) + ": " + num(cnt)); return;
    }
    if (id < 8 + 64) { // a small tree pushed to every offset in a word, and across word/block borders, under a deep or flat prefix
        uint64_t off = id - 8;
        for (int depth = 0; depth < 2; ++depth) for (int base = 0; base < 4; ++base) {
            static const uint64_t bases[] = {0, 192, 448, 8128}; uint64_t lead = bases[base] + off; bits_t m;
            if (depth) m.assign(lead, 1); else { for (uint64_t i = 0; i + 1 < lead; i += 2) { m.push_back(1); m.push_back(0); } if (lead % 2) m.push_back(1); }
            std::string nm; bits_t t = bp_pattern(r, 2 + r.below(400), (unsigned)r.below(n_bp_patterns), nm); m.insert(m.end(), t.begin(), t.end());
            int64_t e = 0; for (size_t i = 0; i < m.size(); ++i) e += m[i] ? 1 : -1; while (e-- > 0) m.push_back(0);
            mon::describe("lead " + num(lead) + (depth ? " deep" : " flat") + " + " + nm); observe(m, r, (unsigned)r.below(8)); mon::nontrivial(mon::hash_vec(m));
        }
        return;
    }
    std::string nm; uint64_t maxn = id % 64 == 0 ? 1500000 : id % 8 == 0 ? 180000 : id % 2 ? 3000 : 20000;
    uint64_t n = (id % 8 == 0 && r.chance(.7)) ? r.range(maxn / 3, maxn) : any_size(r, maxn);
    bits_t m = bp_pattern(r, n, id % 8 == 0 ? (unsigned)((id / 8) % n_bp_patterns) : (unsigned)((id / 2) % n_bp_patterns), nm);
    unsigned h = (unsigned)r.below(8);
    int32_t e = 0, mx = 0; for (size_t i = 0; i < m.size(); ++i) { e += m[i] ? 1 : -1; mx = std::max(mx, e); }
    mon::describe(nm + " n=" + num(m.size()) + " depth=" + num(uint64_t(mx)) + " h=" + num(h) + " " + head(m)); mon::nontrivial(mon::hash_vec(m));
    if (mx > 32767) mon::hit("depth over 32767");
    if (m.size() > 8192 * 16) mon::hit("more than 16 superblocks");
    observe(m, r, h);
}

// beyond 2^31 parentheses: a root over many shallow children, with a few deep excursions
static void huge_case(uint64_t id, rng_t& r) {
    uint64_t dlen = 500000;
    // 2^31 and a bit more (negative as a 32-bit excess), or 2^32 and a bit (as a 32-bit excess less than the depth)
    uint64_t units = id ? (uint64_t(1) << 25) + 5000 : (uint64_t(1) << 26) - 6 * dlen / 64 + 1500; // of 64 symbols
    mon::describe(id ? "more than 2^31 parentheses" : "more than 2^32 parentheses"); mon::nontrivial(id + 77);
    bit_vector_builder b; b.reserve(units * 64 + 3000000);
    b.push_back(1); // root
    std::vector<uint64_t> deep;
    for (uint64_t i = 0; i < units; ++i) {
        if (i == 1000 || i == units / 2 || i + 100 == units) { deep.push_back(b.size()); b.one_extend(dlen); b.zero_extend(dlen); }
        b.append_bits(0x5555555555555555ULL, 64);
    }
    b.push_back(0); uint64_t n = b.size();
    bp_vector v(&b);
    mon::hit(id ? "more than 2^31 parentheses" : "more than 2^32 parentheses");
    MON_EQ("size", 0, 0, n, v.size());
    if (opt().prop == "C10") {
        MON_EQ("find_close", 0, n, n - 1, v.find_close(0)); MON_EQ("find_open", n - 1, n, 0, v.find_open(n - 1));
        for (size_t d = 0; d < deep.size(); ++d) for (int k = 0; k < 3000; ++k) { uint64_t j = k < 2 ? (k ? dlen - 1 : 0) : r.below(dlen); uint64_t p = deep[d] + j, q = deep[d] + 2 * dlen - 1 - j;
            MON_EQ("find_close", p, n, q, v.find_close(p)); MON_EQ("find_open", q, n, p, v.find_open(q)); MON_EQ("enclose", p, n, j ? p - 1 : 0, v.enclose(p)); }
        for (int k = 0; k < 3000; ++k) { uint64_t p = 1 + 64 * r.below(900) + 2 * r.below(32); MON_EQ("find_close", p, n, p + 1, v.find_close(p)); MON_EQ("enclose", p, n, 0, v.enclose(p)); 
            uint64_t q = n - 2 - 2 * r.below(3000); MON_EQ("find_open", q, n, q - 1, v.find_open(q)); MON_EQ("enclose", q - 1, n, 0, v.enclose(q - 1)); }
    } else {
        for (int k = 0; k < 6000; ++k) { uint64_t d = deep[r.below(3)]; uint64_t j = r.below(dlen); MON_EQ("excess", d + j, n, 1 + int64_t(j), int64_t(v.excess(d + j)));
            bp_vector::excess_t g; uint64_t a = d + j, bb = d + j + r.below(2 * (dlen - j)); MON_EQ("excess_rmq", a, bb, a, v.excess_rmq(a, bb, g)); MON_EQ("excess_rmq.minimum", a, bb, 1 + int64_t(j), int64_t(g)); }
        for (int k = 0; k < 200; ++k) { uint64_t j = 1 + r.below(dlen - 1); bp_vector::excess_t g; MON_EQ("excess_rmq", deep[0] + j, n - 1, deep[0] + 2 * dlen, v.excess_rmq(deep[0] + j, n - 1, g)); MON_EQ("excess_rmq.minimum", 0, 0, 1, int64_t(g)); 
            MON_EQ("excess_rmq", deep[0] + j, n, n, v.excess_rmq(deep[0] + j, n, g)); MON_EQ("excess_rmq.minimum", 0, 0, 0, int64_t(g)); }
    }
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (opt().huge()) return mon::run_cases(2, huge_case);
    return mon::run_cases(72 + opt().n(opt().prop == "C10" ? 4000 : 3000, 40000), bp_case);
}
