// C01 (builder and reads), C02 (predecessor/successor), C03 (enumerators): bit_vector against a plain bit array.
#include "gen.hpp"
#include <list>
#include <deque>
#include "bit_vector.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;

static uint64_t model_field(bits_t const& m, uint64_t pos, uint64_t len) { // zero padded past the end
    uint64_t v = 0;
    for (uint64_t i = 0; i < len; ++i) if (pos + i < m.size() && m[pos + i]) v |= uint64_t(1) << i;
    return v;
}

static void check_reads(bits_t const& m, bit_vector const& bv, rng_t& r) {
    uint64_t n = m.size();
    MON_EQ("bit_vector.size", 0, 0, n, bv.size());
    MON_EQ("bit_vector.data.size", 0, 0, (n + 63) / 64, bv.data().size());
    bool all = n <= 3000;
    std::vector<uint64_t> pos;
    if (all) for (uint64_t i = 0; i <= n; ++i) pos.push_back(i); else pos = edge_positions(r, n, 600);
    for (uint64_t i = 0; i < n; ++i) MON_EQ("bit_vector.operator[]", i, 0, m[i], bv[i]);
    for (uint64_t w = 0; w * 64 < n; ++w) MON_EQ("bit_vector.data[]", w, 0, model_field(m, w * 64, 64), bv.data()[w]);
    for (size_t k = 0; k < pos.size(); ++k) {
        uint64_t p = pos[k];
        if (p < n) MON_EQ("bit_vector.get_word", p, 0, model_field(m, p, 64), bv.get_word(p));
        if (p / 8 + 8 <= ((n + 63) / 64) * 8) {
            MON_EQ("bit_vector.get_word56", p, 0, model_field(m, p, 56), bv.get_word56(p) & ((uint64_t(1) << 56) - 1));
        }
        uint64_t left = n - p;
        uint64_t lens[8] = {0, 1, 63, 64, left, r.below(65), r.below(65), 64 - p % 64};
        for (int j = 0; j < 8; ++j) {
            uint64_t l = lens[j];
            if (l > 64 || l > left) continue;
            MON_EQ("bit_vector.get_bits", p, l, model_field(m, p, l), bv.get_bits(p, l));
        }
    }
}

// ------------------------------------------------------------------ C01
static void append_model(bits_t& m, uint64_t bits, uint64_t len) { for (uint64_t i = 0; i < len; ++i) m.push_back((bits >> i) & 1); }
static uint64_t low(uint64_t v, uint64_t len) { return len == 64 ? v : v & ((uint64_t(1) << len) - 1); }
static uint64_t any_word(rng_t& r) {
    switch (r.below(6)) { case 0: return 0; case 1: return uint64_t(-1); case 2: return uint64_t(1) << r.below(64); case 3: return ~(uint64_t(1) << r.below(64)); default: return r.next(); }
}

struct script { bit_vector_builder* b; bits_t m; std::string trace; };

static void start(script& s, rng_t& r, uint64_t maxn) {
    unsigned k = (unsigned)r.below(4);
    uint64_t n = (k == 0) ? 0 : any_size(r, maxn);
    bool init = r.coin();
    MON_OP("builder.ctor", n, init);
    if (k == 0 && r.coin()) s.b = new bit_vector_builder();
    else if (k == 1) { s.b = new bit_vector_builder(n); init = false; }
    else s.b = new bit_vector_builder(n, init);
    s.m.assign(n, init);
    s.trace = "b(" + num(n) + "," + (init ? "1" : "0") + ")";
}

static void step(script& s, rng_t& r, uint64_t maxn, int depth);

static void grow(script& s, rng_t& r, uint64_t maxn, int depth, int steps) { for (int i = 0; i < steps; ++i) step(s, r, maxn, depth); }

static void step(script& s, rng_t& r, uint64_t maxn, int depth) {
    bit_vector_builder& b = *s.b;
    uint64_t n = s.m.size();
    unsigned op = (unsigned)r.below(depth > 0 ? 12 : 10);
    std::string t;
    switch (op) {
    case 0: { uint64_t k = 1 + r.below(70); t = "pb*" + num(k); for (uint64_t i = 0; i < k; ++i) { bool v = r.coin(); MON_OP("builder.push_back", i, v); b.push_back(v); s.m.push_back(v); } break; }
    case 1: case 2: { uint64_t len = r.chance(.25) ? 64 : r.chance(.2) ? 64 - n % 64 : r.below(65); uint64_t w = low(any_word(r), len); t = "ab" + num(len);
        MON_OP("builder.append_bits", w, len); b.append_bits(w, len); append_model(s.m, w, len); break; }
    case 3: { uint64_t k = r.coin() ? r.below(130) : r.chance(.3) ? (64 - n % 64) % 64 : any_size(r, maxn / 4); t = "z" + num(k); MON_OP("builder.zero_extend", k, 0); b.zero_extend(k); s.m.resize(n + k, 0); break; }
    case 4: { uint64_t k = r.coin() ? r.below(130) : r.chance(.3) ? (64 - n % 64) % 64 : any_size(r, maxn / 4); t = "o" + num(k); MON_OP("builder.one_extend", k, 0); b.one_extend(k); s.m.resize(n + k, 1); break; }
    case 5: { if (!n) return; uint64_t k = 1 + r.below(20); t = "set*" + num(k); for (uint64_t i = 0; i < k; ++i) { uint64_t p = r.chance(.2) ? n - 1 : r.below(n); bool v = r.coin(); MON_OP("builder.set", p, v); b.set(p, v); s.m[p] = v; } break; }
    case 6: { uint64_t k = 1 + r.below(12); t = "sb*" + num(k); for (uint64_t i = 0; i < k; ++i) { uint64_t len = r.chance(.2) ? 64 : r.below(65); if (len > n) continue; uint64_t p = r.chance(.2) ? n - len : r.chance(.3) ? (r.below(n - len + 1) & ~uint64_t(63)) : r.below(n - len + 1);
            uint64_t w = low(any_word(r), len); MON_OP("builder.set_bits", p, len); b.set_bits(p, w, len); for (uint64_t j = 0; j < len; ++j) s.m[p + j] = (w >> j) & 1; } break; }
    case 7: { t = "rev"; MON_OP("builder.reverse", n, 0); b.reverse(); std::reverse(s.m.begin(), s.m.end()); break; }
    case 8: { uint64_t k = r.below(3) == 0 ? r.below(n + 1) : n + r.below(5000); t = "res" + num(k); MON_OP("builder.reserve", k, 0); b.reserve(k); break; }
    case 9: { uint64_t k = r.below(3); t = "pb" + num(k); for (uint64_t i = 0; i < k; ++i) { MON_OP("builder.push_back", i, 1); b.push_back(1); s.m.push_back(1); } break; }
    default: {
        script o; start(o, r, std::min<uint64_t>(maxn, 400)); grow(o, r, 300, depth - 1, (int)r.below(4));
        if (op == 10) {
            t = "app" + num(o.m.size()); MON_OP("builder.append", o.m.size(), n);
            b.append(*o.b); s.m.insert(s.m.end(), o.m.begin(), o.m.end());
            MON_EQ("builder.append.rhs-size", 0, 0, o.m.size(), o.b->size());
            bit_vector kept(o.b); // the right-hand side is unchanged
            for (uint64_t i = 0; i < o.m.size(); ++i) MON_EQ("builder.append.rhs", i, 0, o.m[i], kept[i]);
            delete o.b;
        } else {
            t = "swap"; MON_OP("builder.swap", n, o.m.size());
            if (r.coin()) b.swap(*o.b); else o.b->swap(b);
            s.m.swap(o.m);
            grow(o, r, 200, 0, 1); // keep using the other one
            bit_vector kept(o.b);
            MON_EQ("builder.swap.other-size", 0, 0, o.m.size(), kept.size());
            for (uint64_t i = 0; i < o.m.size(); ++i) MON_EQ("builder.swap.other", i, 0, o.m[i], kept[i]);
            delete o.b;
        }
    }
    }
    if (s.trace.size() < 1500) s.trace += " " + t;
    mon::describe(s.trace);
    MON_EQ("builder.size", 0, 0, s.m.size(), s.b->size());
}

template <typename C> static void check_range(C const& c, bits_t const& m, rng_t& r, const char* what) {
    mon::describe(std::string("range ") + what + " n=" + num(m.size()) + " " + head(m));
    MON_OP("bit_vector(range)", m.size(), 0);
    bit_vector bv(c);
    check_reads(m, bv, r);
    mon::hit(std::string("range:") + what);
}

struct truthy { int v; operator bool() const { return v > 2; } };

static void c01_case(uint64_t id, rng_t& r) {
    const uint64_t exh = 11, pairs = 66;
    if (id < exh) { // every bit sequence of this length, three construction ways
        uint64_t n = id;
        for (uint64_t v = 0; v < (uint64_t(1) << n); ++v) {
            bits_t m; append_model(m, v, n);
            { bit_vector bv(m); check_reads(m, bv, r); }
            { bit_vector_builder b; b.append_bits(v, n); bit_vector bv(&b); check_reads(m, bv, r); }
            { bit_vector_builder b(n, v & 1); for (uint64_t i = 0; i < n; ++i) b.set(i, m[i]); b.reverse(); bits_t q(m.rbegin(), m.rend()); bit_vector bv(&b); check_reads(q, bv, r); }
            mon::nontrivial(mon::mix(n, v));
        }
        mon::describe("every sequence of length " + num(n));
        return;
    }
    id -= exh;
    if (id < pairs) { // every (offset in word, field length) pair, both fills
        uint64_t shift = id;
        mon::describe("fields at offset " + num(shift));
        for (uint64_t len = 0; len <= 64; ++len) for (int f = 0; f < 2; ++f) {
            uint64_t w = low(f ? ~r.next() : r.next(), len);
            { bit_vector_builder b; bits_t m; for (uint64_t i = 0; i < shift; ++i) { b.push_back(f); m.push_back(uint8_t(f)); }
              MON_OP("builder.append_bits", shift, len); b.append_bits(w, len); append_model(m, w, len);
              uint64_t tail = r.below(64); MON_OP("builder.append_bits", shift + len, tail); b.append_bits(low(~uint64_t(0), tail), tail); append_model(m, low(~uint64_t(0), tail), tail);
              bit_vector bv(&b); check_reads(m, bv, r); }
            { uint64_t n = shift + len + r.below(140); bit_vector_builder b(n, f); bits_t m(n, uint8_t(f));
              MON_OP("builder.set_bits", shift, len); b.set_bits(shift, w, len); for (uint64_t j = 0; j < len; ++j) m[shift + j] = (w >> j) & 1;
              if (n) { b.push_back(!f); m.push_back(!f); }
              bit_vector bv(&b); check_reads(m, bv, r); }
            { uint64_t rn = len + 64 * r.below(3); bit_vector_builder a, c; bits_t m; for (uint64_t i = 0; i < shift; ++i) { bool v = r.coin(); a.push_back(v); m.push_back(v); }
              for (uint64_t i = 0; i < rn; ++i) { bool v = r.coin(); c.push_back(v); m.push_back(v); }
              MON_OP("builder.append", shift, rn); a.append(c); a.push_back(1); m.push_back(1); bit_vector bv(&a); check_reads(m, bv, r); }
            mon::nontrivial(mon::mix(shift * 65 + len, w));
        }
        mon::hit("offset-length-pairs", 65);
        return;
    }
    id -= pairs;
    if (id % 4 == 0) { // ranges
        std::string nm; uint64_t n = any_size(r, id % 16 == 0 ? 70000 : 3000);
        bits_t m = bit_pattern(r, n, (unsigned)r.below(n_bit_patterns), nm);
        mon::nontrivial(mon::hash_vec(m));
        switch (r.below(8)) {
        case 0: { std::vector<bool> c(m.begin(), m.end()); check_range(c, m, r, "vector<bool>"); break; }
        case 1: check_range(m, m, r, "vector<uint8_t>"); break;
        case 2: { std::vector<int64_t> c(n); for (size_t i = 0; i < n; ++i) { static const int64_t tv[] = {1, -1, 2, 256, int64_t(1) << 32, INT64_MIN}; c[i] = m[i] ? tv[r.below(6)] : 0; } check_range(c, m, r, "vector<int64_t>"); break; }
        case 3: { std::list<int> c; for (size_t i = 0; i < n; ++i) c.push_back(m[i] ? 4 : 0); check_range(c, m, r, "list<int>"); break; }
        case 4: { std::deque<double> c; for (size_t i = 0; i < n; ++i) c.push_back(m[i] ? 0.25 : 0.0); check_range(c, m, r, "deque<double>"); break; }
        case 5: { std::vector<truthy> c(n); for (size_t i = 0; i < n; ++i) c[i].v = m[i] ? 3 + int(r.below(5)) : int(r.below(3)); check_range(c, m, r, "vector<class>"); break; }
        case 6: { std::vector<uint16_t> c(n); for (size_t i = 0; i < n; ++i) c[i] = m[i] ? uint16_t(1 << r.below(16)) : 0; check_range(boost::make_iterator_range(c.data(), c.data() + n), m, r, "iterator_range<uint16_t*>"); break; }
        default: { std::string c; for (size_t i = 0; i < n; ++i) c += m[i] ? char(-3) : char(0); check_range(c, m, r, "string"); break; }
        }
        return;
    }
    uint64_t maxn = id % 13 == 1 ? 40000 : id % 3 == 0 ? 3000 : 300;
    script s; start(s, r, maxn);
    grow(s, r, maxn, 2, 2 + (int)r.below(14));
    mon::nontrivial(mon::hash_vec(s.m));
    mon::hit("builder-scripts");
    MON_OP("bit_vector(builder)", s.m.size(), 0);
    bit_vector bv(s.b);
    delete s.b;
    check_reads(s.m, bv, r);
}

// ------------------------------------------------------------------ C02
static void check_neighbours(bits_t const& m, bit_vector const& bv, rng_t& r) {
    uint64_t n = m.size();
    const uint64_t none = uint64_t(-1);
    std::vector<uint64_t> p[2], s[2];
    for (int b = 0; b < 2; ++b) {
        p[b].resize(n); s[b].resize(n); uint64_t last = none;
        for (uint64_t i = 0; i < n; ++i) { if (m[i] == b) last = i; p[b][i] = last; }
        last = none;
        for (uint64_t i = n; i-- > 0; ) { if (m[i] == b) last = i; s[b][i] = last; }
    }
    std::vector<uint64_t> pos;
    if (n <= 70000) for (uint64_t i = 0; i < n; ++i) pos.push_back(i);
    else { pos = edge_positions(r, n - 1, 5000); }
    for (size_t k = 0; k < pos.size(); ++k) {
        uint64_t i = pos[k];
        if (p[0][i] != none) MON_EQ("predecessor0", i, 0, p[0][i], bv.predecessor0(i));
        if (p[1][i] != none) MON_EQ("predecessor1", i, 0, p[1][i], bv.predecessor1(i));
        if (s[0][i] != none) MON_EQ("successor0", i, 0, s[0][i], bv.successor0(i));
        if (s[1][i] != none) MON_EQ("successor1", i, 0, s[1][i], bv.successor1(i));
        if (p[1][i] != none && i - p[1][i] >= 128) mon::hit("jump over >= 2 whole words");
    }
}

static void c02_case(uint64_t id, rng_t& r) {
    if (id < 13) {
        for (uint64_t v = 0; v < (uint64_t(1) << id); ++v) { bits_t m; append_model(m, v, id); bit_vector bv(m); check_neighbours(m, bv, r); mon::nontrivial(mon::mix(id, v)); }
        mon::describe("every sequence of length " + num(id)); return;
    }
    if (id < 16) { // single marker at every position of a few words, both polarities
        uint64_t n = id == 13 ? 64 : id == 14 ? 200 : 320; mon::describe("single bit at every position, n=" + num(n));
        for (uint64_t p = 0; p < n; ++p) for (int f = 0; f < 2; ++f) { bits_t m(n, uint8_t(f)); m[p] = !f; bit_vector bv(m); check_neighbours(m, bv, r); mon::nontrivial(mon::mix(n * 2 + f, p)); }
        return;
    }
    std::string nm; uint64_t n = any_size(r, id % 11 == 0 ? 600000 : 9000);
    bits_t m = bit_pattern(r, n, (unsigned)(id % n_bit_patterns), nm);
    mon::describe(nm + " n=" + num(n) + " " + head(m));
    mon::nontrivial(mon::hash_vec(m));
    bit_vector bv(m);
    check_neighbours(m, bv, r);
}

// ------------------------------------------------------------------ C03
struct enum_model { bit_vector::enumerator e; uint64_t p; };
struct unary_model { bit_vector::unary_enumerator e; uint64_t p, f; }; // position; ones at or after f are still to come

static void drive_bits(bits_t const& m, bit_vector const& bv, rng_t& r, uint64_t startpos, int steps, unsigned mode) {
    uint64_t n = m.size();
    std::vector<uint64_t> next1(n + 1, uint64_t(-1));
    for (uint64_t i = n; i-- > 0; ) next1[i] = m[i] ? i : next1[i + 1];
    std::vector<enum_model> es;
    MON_OP("enumerator.ctor", startpos, 0);
    enum_model e0 = {bit_vector::enumerator(bv, startpos), startpos};
    es.push_back(e0);
    for (int k = 0; k < steps; ++k) {
        size_t wh = r.below(es.size());
        if (es.size() < 4 && r.chance(.02)) { es.push_back(es[wh]); mon::hit("enumerator copied"); }
        enum_model& e = es[wh];
        unsigned op = mode < 3 ? mode : (unsigned)r.below(4);
        if (op == 3) op = r.below(3);
        if (op == 0) {
            if (e.p >= n) continue;
            MON_EQ("enumerator.next", e.p, 0, m[e.p], e.e.next()); e.p += 1;
        } else if (op == 1) {
            uint64_t l = r.chance(.2) ? 64 : r.chance(.1) ? 0 : r.chance(.3) ? 64 - e.p % 64 : r.below(65);
            l = std::min<uint64_t>(l, n - e.p);
            uint64_t at = e.p;
            MON_EQ("enumerator.take", at, l, model_field(m, at, l), e.e.take(l)); e.p += l;
            if (l == 64) mon::hit("take(64)");
        } else {
            uint64_t q = next1[e.p]; if (q == uint64_t(-1)) continue;
            uint64_t at = e.p;
            MON_EQ("enumerator.skip_zeros", at, 0, q - at, e.e.skip_zeros()); e.p = q + 1;
            if (q - at > 128) mon::hit("zero run longer than two words skipped");
        }
        MON_EQ("enumerator.position", k, 0, e.p, e.e.position());
    }
}

static void drive_unary(bits_t const& m, bit_vector const& bv, rng_t& r, uint64_t startpos, int steps, unsigned mode) {
    uint64_t n = m.size();
    std::vector<uint64_t> ones, zeros;
    for (uint64_t i = 0; i < n; ++i) (m[i] ? ones : zeros).push_back(i);
    std::vector<unary_model> es;
    MON_OP("unary_enumerator.ctor", startpos, 0);
    unary_model e0 = {bit_vector::unary_enumerator(bv, startpos), startpos, startpos};
    es.push_back(e0);
    for (int k = 0; k < steps; ++k) {
        size_t wh = r.below(es.size());
        if (es.size() < 4 && r.chance(.02)) { es.push_back(es[wh]); mon::hit("unary enumerator copied"); }
        unary_model& e = es[wh];
        size_t i1 = size_t(std::lower_bound(ones.begin(), ones.end(), e.f) - ones.begin());
        uint64_t rest1 = ones.size() - i1;
        size_t i0 = size_t(std::lower_bound(zeros.begin(), zeros.end(), e.p) - zeros.begin());
        bool cleared = e.f == e.p + 1 && m[e.p]; // the current position was a one, already returned
        uint64_t rest0 = zeros.size() - i0 + (cleared ? 1 : 0);
        unsigned op = mode < 4 ? mode : (unsigned)r.below(4);
        uint64_t at = e.p;
        if (op == 0) {
            if (!rest1) continue;
            MON_EQ("unary.next", at, 0, ones[i1], e.e.next()); e.p = ones[i1]; e.f = e.p + 1;
        } else if (op == 1 || op == 2) {
            if (!rest1) continue;
            uint64_t kk = r.chance(.3) ? 0 : r.below(std::min<uint64_t>(rest1, r.coin() ? 5 : r.coin() ? 300 : rest1));
            if (op == 1) { MON_OP("unary.skip", at, kk); e.e.skip(kk); e.p = e.f = ones[i1 + kk]; MON_EQ("unary.skip", at, kk, e.p, e.e.position()); if (kk > 128) mon::hit("skip over > 128 ones"); }
            else MON_EQ("unary.skip_no_move", at, kk, ones[i1 + kk], e.e.skip_no_move(kk));
        } else {
            if (!rest0) continue;
            uint64_t kk = r.chance(.3) ? 0 : r.below(std::min<uint64_t>(rest0, r.coin() ? 5 : r.coin() ? 300 : rest0));
            uint64_t z;
            if (cleared) z = kk == 0 ? e.p : zeros[i0 + kk - 1]; else z = zeros[i0 + kk];
            if (cleared) mon::hit("skip0 from a one already returned");
            MON_OP("unary.skip0", at, kk); e.e.skip0(kk);
            if (z != e.p || !cleared) e.f = z;
            e.p = z;
            MON_EQ("unary.skip0", at, kk, e.p, e.e.position());
        }
        MON_EQ("unary.position", k, 0, e.p, e.e.position());
    }
}

static void c03_case(uint64_t id, rng_t& r) {
    std::string nm; uint64_t n = id < 40 ? id * 7 : any_size(r, id % 9 == 0 ? 80000 : 2500);
    bits_t m = bit_pattern(r, n, (unsigned)(id % n_bit_patterns), nm);
    mon::describe(nm + " n=" + num(n) + " " + head(m));
    mon::nontrivial(mon::hash_vec(m));
    bit_vector bv(m);
    if (!n) { bit_vector::enumerator e(bv, 0); MON_EQ("enumerator.take", 0, 0, 0, e.take(0)); return; }
    int runs = n < 300 ? 16 : 8;
    for (int k = 0; k < runs; ++k) {
        uint64_t st = k == 0 ? 0 : k == 1 ? n - 1 : r.chance(.4) ? std::min(n - 1, r.below(n) & ~uint64_t(63)) : r.below(n);
        drive_bits(m, bv, r, k == 2 ? n : st, 250, (unsigned)k % 5);
        drive_unary(m, bv, r, st, 250, (unsigned)k % 7);
    }
    if (id % 5 == 0) { // complete traversals
        bit_vector::enumerator e(bv, 0); for (uint64_t i = 0; i < n; ++i) MON_EQ("enumerator.next", i, 0, m[i], e.next());
        bit_vector::unary_enumerator u(bv, 0); for (uint64_t i = 0; i < n; ++i) if (m[i]) MON_EQ("unary.next", i, 0, i, u.next());
    }
}

// ------------------------------------------------------------------ more than 2^32 bits
static void huge_case(uint64_t id, rng_t& r) {
    const uint64_t n = (uint64_t(1) << 32) + 1000 + r.below(500);
    bool fill = id & 1;
    mon::describe("n=" + num(n) + (fill ? " ones with few zeros" : " zeros with few ones"));
    std::set<uint64_t> s; // positions that differ from the fill
    for (int i = 0; i < 400; ++i) s.insert(r.chance(.5) ? r.below(n) : (uint64_t(1) << 32) - 300 + r.below(1200));
    s.insert(0); s.insert(n - 1);
    bit_vector_builder b(id >= 2 ? 10 : n, fill);
    if (id >= 2) { if (fill) b.one_extend(n - 10); else b.zero_extend(n - 10); }
    for (std::set<uint64_t>::iterator i = s.begin(); i != s.end(); ++i) b.set(*i, !fill);
    MON_EQ("builder.size", 0, 0, n, b.size());
    bit_vector bv(&b);
    MON_EQ("bit_vector.size", 0, 0, n, bv.size());
    mon::nontrivial(mon::mix(n, id)); mon::hit("vectors beyond 2^32 bits");
    std::vector<uint64_t> v(s.begin(), s.end());
    for (size_t i = 0; i < v.size(); ++i) {
        uint64_t p = v[i];
        MON_EQ("bit_vector.operator[]", p, 0, !fill, bv[p]);
        if (p + 1 < n) MON_EQ("bit_vector.operator[]", p + 1, 0, fill ? !s.count(p + 1) : s.count(p + 1), bv[p + 1]);
        uint64_t f = 0; for (uint64_t j = 0; j < 64; ++j) if (p + j < n && (s.count(p + j) != 0) != fill) f |= uint64_t(1) << j;
        MON_EQ("bit_vector.get_word", p, 0, f, bv.get_word(p));
        if (p + 64 <= n) MON_EQ("bit_vector.get_bits", p, 64, f, bv.get_bits(p, 64));
        if (opt().prop == "C02" && i + 1 < v.size()) {
            uint64_t mid = p + 1 + r.below(v[i + 1] - p);
            if (mid != v[i + 1]) MON_EQ("predecessor", mid, 0, p, fill ? bv.predecessor0(mid) : bv.predecessor1(mid));
            MON_EQ("successor", mid, 0, v[i + 1], fill ? bv.successor0(mid) : bv.successor1(mid));
        }
    }
    if (opt().prop == "C03" && !fill) {
        bit_vector::unary_enumerator u(bv, 0); for (size_t i = 0; i < v.size(); ++i) MON_EQ("unary.next", i, 0, v[i], u.next());
        bit_vector::unary_enumerator w(bv, 1); w.skip(v.size() - 2); MON_EQ("unary.skip", v.size() - 2, 0, v.back(), w.position());
        bit_vector::unary_enumerator z(bv, 0); z.skip0(uint64_t(1) << 31); 
        { uint64_t cnt = 0, pos = 0; size_t j = 0; uint64_t k = uint64_t(1) << 31; // k-th zero
          pos = k; while (j < v.size() && v[j] <= pos) { ++j; ++pos; } (void)cnt; MON_EQ("unary.skip0", k, 0, pos, z.position()); }
        bit_vector::enumerator e(bv, 1); uint64_t p = 1; for (size_t i = 1; i < v.size(); ++i) { MON_EQ("enumerator.skip_zeros", p, 0, v[i] - p, e.skip_zeros()); p = v[i] + 1; MON_EQ("enumerator.position", i, 0, p, e.position()); }
    }
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (opt().huge()) return mon::run_cases(opt().thorough() ? 4 : 2, huge_case);
    if (opt().prop == "C01") return mon::run_cases(77 + opt().n(8000, 120000), c01_case);
    if (opt().prop == "C02") return mon::run_cases(16 + opt().n(6000, 80000), c02_case);
    if (opt().prop == "C03") return mon::run_cases(opt().n(6000, 80000), c03_case);
    return 3;
}
