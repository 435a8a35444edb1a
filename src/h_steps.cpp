// C27: program steps per query.  The library is compiled with -fsanitize-coverage=trace-pc, which calls the function
// below at every edge of its control flow graph; the number of calls during a query is compared with A + B log2(size).
// Storage taken and bytes moved by memcpy and memmove (linked with --wrap) count as steps too: one per 16 bytes.
// C30: the bytes each query allocates and the depth of the stack at its edges, on the same workloads.
#define NOCOV __attribute__((no_sanitize("coverage")))
#define ALLOC_ATTR NOCOV
#include <cstdint>
#include <cstddef>
static volatile uint64_t g_steps;
#define ALLOC_NOTE(n) (g_steps = g_steps + (n) / 16)
extern "C" { void* __real_memcpy(void*, void const*, size_t); void* __real_memmove(void*, void const*, size_t);
NOCOV void* __wrap_memcpy(void* d, void const* s, size_t n) { g_steps = g_steps + n / 16; return __real_memcpy(d, s, n); }
NOCOV void* __wrap_memmove(void* d, void const* s, size_t n) { g_steps = g_steps + n / 16; return __real_memmove(d, s, n); } }
#include "alloc.hpp"
#include "zoo.hpp"
using namespace zoo;
using mon::opt;

static char* volatile g_low; // the deepest stack address seen at an edge
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { g_steps = g_steps + 1; char* f = static_cast<char*>(__builtin_frame_address(0)); if (f < g_low) g_low = f; }

static double lg(uint64_t n) { double l = 1; while (n >>= 1) ++l; return l; }
NOCOV static void judge(const char* op, uint64_t a, uint64_t n, uint64_t steps, double lim, std::map<std::string, uint64_t>& mx) {
    uint64_t& m = mx[op]; if (steps > m) m = steps;
    MON_TRUE("steps within the bound", a, n, double(steps) <= lim, op << "(" << a << ") on size " << n << " took " << steps << " steps; the bound is " << uint64_t(lim));
}
static std::map<std::string, uint64_t> g_max;
static bool g_memory;
NOCOV static uint64_t mem_start() { g_low = static_cast<char*>(__builtin_frame_address(0)); alloc::state_t& s = alloc::state(); s.peak = s.live_bytes; s.on = true; return s.live_bytes; }
NOCOV static void mem_judge(const char* op, uint64_t a, uint64_t n, uint64_t base, std::map<std::string, uint64_t>& mx) {
    alloc::state_t& s = alloc::state(); s.on = false; uint64_t took = s.peak - base;
    char* here = static_cast<char*>(__builtin_frame_address(0)); uint64_t deep = g_low < here ? uint64_t(here - g_low) : 0;
    { uint64_t& d = mx["stack"]; if (deep > d) d = deep; mon::hit("stack measured", deep != 0); }
    MON_TRUE("stack within the bound", a, n, deep <= 16384, op << "(" << a << ") on size " << n << " went " << deep << " bytes deep into the stack; the bound is 16384");
    if (!strncmp(op, "build", 5) || !strcmp(op, "darray64 append")) return; // h_mem judges these
    uint64_t& m = mx[op]; if (took > m) m = took;
    uint64_t lim = !strncmp(op, "top-k", 5) ? 4096 + 400 * a : 4096;
    MON_TRUE("memory within the bound", a, n, took <= lim, op << "(" << a << ") on size " << n << " allocated " << took << " bytes; the bound is " << lim);
}
// a statement, what it is, its argument, the structure's size and the bound
#define STEPS(OP, A, N, LIM, CODE) do { mon::set_op(OP, uint64_t(A), uint64_t(N)); uint64_t s0_ = g_steps, b_ = g_memory ? mem_start() : 0; CODE; \
    if (g_memory) { mon::hit("memory measured"); mem_judge(OP, uint64_t(A), uint64_t(N), b_, g_max); } else { uint64_t d_ = g_steps - s0_; judge(OP, uint64_t(A), uint64_t(N), d_, (LIM), g_max); } } while (0)
static volatile uint64_t g_sink;

// bit sequences in which a position is far from anything the directories know
static bits_t hostile_bits(rng_t& r, uint64_t n, std::string& name) {
    unsigned k = (unsigned)r.below(8); bits_t v(n);
    switch (k) {
    case 0: name = "two clusters"; for (uint64_t i = 0; i < n / 64; ++i) v[i] = v[n - 1 - i] = 1; break;
    case 1: name = "one cluster"; for (uint64_t i = n / 2; i < n / 2 + n / 100; ++i) v[i] = 1; break;
    case 2: { name = "wide subblocks"; for (uint64_t b = 0; b + 66000 < n; b += 66000) { for (uint64_t j = 0; j < 16; ++j) v[b + j] = 1; for (uint64_t j = 0; j < 1008; ++j) v[b + 64000 + j] = 1; } break; }
    case 3: { name = "sparse blocks"; for (uint64_t i = 0; i < n; i += 61 + r.below(9)) v[i] = 1; break; }
    case 4: { name = "few ones"; for (int i = 0; i < 40 && n; ++i) v[r.below(n)] = 1; break; }
    case 5: { name = "few zeros"; std::fill(v.begin(), v.end(), 1); for (int i = 0; i < 40 && n; ++i) v[r.below(n)] = 0; break; }
    default: return gen::bit_pattern(r, n, (unsigned)r.below(gen::n_bit_patterns), name);
    }
    return v;
}
static uint64_t big_size(rng_t& r) { uint64_t top = opt().thorough() ? 26 : 24; return r.chance(.35) ? (uint64_t(1) << r.range(top - 2, top)) + r.below(1000) : uint64_t(1) << r.range(7, 20); }
static const int Q = 60;

template <typename D> void dir_steps(const char* op, D const& d, bit_vector const& bv, rng_t& r, uint64_t n) {
    for (int i = 0; i < Q && d.num_positions(); ++i) { uint64_t k = i == 0 ? d.num_positions() - 1 : r.below(d.num_positions()); STEPS(op, k, n, 6200, g_sink = d.select(bv, k)); } }

template <typename V> static uint64_t nth(V const& b, uint64_t k) { for (uint64_t i = 0; i < b.size(); ++i) if (b[i] && !k--) return i; return b.size(); }
static void pos_dist(bit_vector const& v, bits_t const& b, rng_t& r, uint64_t n) {
    for (int i = 0; i < 20; ++i) {
        uint64_t p = r.below(n), q = p; while (q && !b[q]) --q; if (b[q]) STEPS("predecessor1", p, n, 60 + 20. * double((p - q) / 64 + 1), g_sink = v.predecessor1(p));
        q = p; while (q && b[q]) --q; if (!b[q]) STEPS("predecessor0", p, n, 60 + 20. * double((p - q) / 64 + 1), g_sink = v.predecessor0(p));
        q = p; while (q < n && !b[q]) ++q; if (q < n) STEPS("successor1", p, n, 60 + 20. * double((q - p) / 64 + 1), g_sink = v.successor1(p));
        q = p; while (q < n && b[q]) ++q; if (q < n) STEPS("successor0", p, n, 60 + 20. * double((q - p) / 64 + 1), g_sink = v.successor0(p));
    }
}
static void bits_case(rng_t& r) {
    uint64_t n = big_size(r); std::string nm; bits_t b = hostile_bits(r, n, nm); uint64_t ones = 0; for (size_t i = 0; i < n; ++i) ones += b[i];
    mon::describe("bits " + nm + " n=" + num(n)); mon::nontrivial(mon::hash_vec(b)); double L = lg(n);
    for (unsigned h = 0; h < 4; ++h) {
        rs_bit_vector v; { rs_bit_vector t; STEPS("build rs_bit_vector", h, n, 30. * double(n) + 2000, rs_bit_vector(b, h & 1, h & 2).swap(t)); t.swap(v); }
        for (int i = 0; i < Q; ++i) {
            uint64_t p = i == 0 ? n : r.below(n + 1); STEPS("rank", p, n, 100, g_sink = v.rank(p)); STEPS("rank0", p, n, 100, g_sink = v.rank0(p));
            if (ones) { uint64_t k = i == 0 ? ones - 1 : r.below(ones); STEPS("select", k, n, 60 + 6 * L, g_sink = v.select(k)); }
            if (n - ones) { uint64_t k = i == 0 ? n - ones - 1 : r.below(n - ones); STEPS("select0", k, n, 60 + 6 * L, g_sink = v.select0(k)); }
        }
        if (h) continue;
        bit_vector const& bv = v;
        // neighbours: work in proportion to the distance in words
        pos_dist(bv, b, r, n);
        { uint64_t words = n / 64 + 1; bit_vector::unary_enumerator e(bv, 0); uint64_t c = 0; STEPS("unary enumerator to the end", ones, n, 40. * double(ones + words) + 200, for (uint64_t i = 0; i < ones; ++i) c += e.next()); g_sink = c; }
        if (ones) { uint64_t k = r.below(ones); bit_vector::unary_enumerator e(bv, 0); uint64_t p = nth(b, k); STEPS("unary enumerator skip", k, n, 200 + 20. * double(p / 64 + 1), e.skip(k)); }
        { bit_vector::enumerator e(bv, 0); uint64_t c = 0; STEPS("enumerator to the end", n, n, 20. * double(n) + 200, for (uint64_t i = 0; i < n; ++i) c += e.next()); g_sink = c; }
    }
    bit_vector bv; { bit_vector_builder bb; bits_to_builder(b, bb, 0); bit_vector(&bb).swap(bv); }
    darray1 d1; darray0 d0; STEPS("build darray1", ones, n, 40. * double(ones + n / 64) + 2000, darray1(bv).swap(d1)); STEPS("build darray0", ones, n, 40. * double(n) + 2000, darray0(bv).swap(d0));
    dir_steps("darray1 select", d1, bv, r, n); dir_steps("darray0 select", d0, bv, r, n);
    elias_fano ef; { bit_vector_builder bb; bits_to_builder(b, bb, 0); STEPS("build elias_fano", ones, n, 60. * double(n) + 5000, elias_fano(&bb, r.coin()).swap(ef)); }
    // gaps and pairs pass the words between the two elements in the high bits: at most two bits for each average gap
    std::vector<uint64_t> pos; for (uint64_t i = 0; i < n; ++i) if (b[i]) pos.push_back(i);
    for (int i = 0; i < Q && ones; ++i) { uint64_t k = i == 0 ? ones - 1 : r.below(ones); if (i == 1) for (uint64_t j = 1; j < ones; ++j) if (pos[j] - pos[j - 1] > pos[k] - (k ? pos[k - 1] : 0)) k = j; // the longest gap
        double avg = std::max(1., double(n) / double(ones)), gap = double(pos[k] - (k ? pos[k - 1] : 0)) * 2 / avg / 64, next = k + 1 < ones ? double(pos[k + 1] - pos[k]) * 2 / avg / 64 : 0;
        STEPS("elias_fano select", k, n, 6300, g_sink = ef.select(k)); STEPS("elias_fano delta", k, n, 6400 + 20 * gap, g_sink = ef.delta(k)); if (k + 1 < ones) STEPS("elias_fano select_range", k, n, 6400 + 20 * next, g_sink = ef.select_range(k).first); }
    { uint64_t c = 0; STEPS("elias_fano enumeration", ones, n, 60. * double(ones) + 9000, elias_fano::select_enumerator e(ef, 0); for (uint64_t i = 0; i < ones; ++i) c += e.next()); g_sink = c; }
}

// builders: work in proportion to the words written, whatever is already there
static void builder_case(rng_t& r) {
    uint64_t n = big_size(r); std::string nm; bits_t b = gen::bit_pattern(r, n, (unsigned)r.below(gen::n_bit_patterns), nm); if (r.chance(.3)) { std::fill(b.begin(), b.end(), r.coin()); nm = "constant"; }
    mon::describe("builder " + nm + " n=" + num(n)); mon::nontrivial(mon::hash_vec(b));
    bit_vector_builder a, c; STEPS("builder push_back", n, n, 30. * double(n) + 1000, for (uint64_t i = 0; i < n; ++i) a.push_back(b[i]));
    unsigned w = 1 + (unsigned)r.below(64); STEPS("builder append_bits", n / w, n, 40. * double(n) + 1000, for (uint64_t i = 0; i < n / w; ++i) c.append_bits(i & (~uint64_t(0) >> (64 - w)), w));
    for (int i = 0; i < 4; ++i) { uint64_t k = r.bits(23); STEPS("builder zero_extend", k, a.size(), 8. * double(k) + 1000 + double(a.size()) / 40, a.zero_extend(k)); k = r.bits(21); STEPS("builder one_extend", k, a.size(), 8. * double(k) + 1000 + double(a.size()) / 40, a.one_extend(k)); if (r.coin()) a.append_bits(1, 1 + r.below(30)); }
    for (int i = 0; i < Q; ++i) { uint64_t q = r.below(a.size() - 64); STEPS("builder set", q, a.size(), 100, a.set(q, i & 1)); STEPS("builder set_bits", q, a.size(), 300, a.set_bits(q, uint64_t(i), 6 + r.below(50))); }
    for (int i = 0; i < 4; ++i) { bit_vector_builder s; uint64_t k = r.bits((unsigned)r.range(3, 16)); s.append_bits(r.next() & 7, 3); s.zero_extend(k); STEPS("builder append", k, a.size(), 8. * double(k) + 1000 + double(a.size()) / 40, a.append(s)) /* the storage may move */; }
    STEPS("builder append all", c.size(), a.size(), 8. * double(c.size() + a.size()) + 1000, a.append(c)); // the storage may move once
    STEPS("builder reverse", a.size(), a.size(), 8. * double(a.size()) + 1000, a.reverse());
    bit_vector v; uint64_t size = a.size(); STEPS("bit_vector from builder", size, size, 3000, bit_vector(&a).swap(v));
    for (int i = 0; i < Q; ++i) { uint64_t q = r.below(size - 64); STEPS("bit access", q, size, 100, g_sink = v[q]); STEPS("get_bits", q, size, 300, g_sink = v.get_bits(q, 1 + r.below(64))); STEPS("get_word", q, size, 300, g_sink = v.get_word(q)); if (q + 64 < size - 64) STEPS("get_word56", q, size, 300, g_sink = v.get_word56(q)); }
}
// skips over zeros and ones: work in proportion to the words passed
static void skip_case(rng_t& r) {
    uint64_t n = big_size(r); std::string nm; bits_t b = hostile_bits(r, n, nm); b.push_back(1); b.push_back(0); n = b.size();
    mon::describe("skips " + nm + " n=" + num(n)); mon::nontrivial(mon::hash_vec(b)); bit_vector v(b);
    std::vector<uint64_t> o, z; for (uint64_t i = 0; i < n; ++i) (b[i] ? o : z).push_back(i);
    for (int i = 0; i < 40; ++i) {
        uint64_t p = i ? r.below(n) : 0; uint64_t o0 = std::lower_bound(o.begin(), o.end(), p) - o.begin(), z0 = std::lower_bound(z.begin(), z.end(), p) - z.begin();
        if (o0 < o.size()) { uint64_t k = r.coin() ? r.below(o.size() - o0) : r.below(std::min<uint64_t>(o.size() - o0, 100)); bit_vector::unary_enumerator e(v, p); double lim = 100 + 20. * double((o[o0 + k] - p) / 64 + 1);
            STEPS("skip_no_move", k, n, lim, g_sink = e.skip_no_move(k)); STEPS("skip", k, n, lim, e.skip(k)); bit_vector::unary_enumerator f(v, p); STEPS("next one", p, n, 100 + 20. * double((o[o0] - p) / 64 + 1), f.next());
            bit_vector::enumerator g(v, p); STEPS("skip_zeros", p, n, 100 + 40. * double((o[o0] - p) / 64 + 1), g_sink = g.skip_zeros()); }
        if (z0 < z.size()) { uint64_t k = r.coin() ? r.below(z.size() - z0) : r.below(std::min<uint64_t>(z.size() - z0, 100)); bit_vector::unary_enumerator e(v, p); STEPS("skip0", k, n, 100 + 20. * double((z[z0 + k] - p) / 64 + 1), e.skip0(k)); }
    }
    { bit_vector::enumerator e(v, 0); uint64_t c = 0; STEPS("take to the end", n / 13, n, 30. * double(n / 13) + 100, for (uint64_t i = 0; i < n / 13; ++i) c += e.take(13)); g_sink = c; }
    // a darray64 with gaps below 64
    uint64_t m = n / 40 + 1; unsigned mode = (unsigned)r.below(3); std::vector<uint64_t> gaps; for (uint64_t i = 0; i < m; ++i) gaps.push_back(mode == 0 ? 63 : mode == 1 ? r.below(64) : r.chance(.1) ? 63 : 0);
    darray64::builder db; STEPS("darray64 append", m, n, 80. * double(m) + 2000, for (uint64_t i = 0; i < m; ++i) db.append1(gaps[i]));
    darray64 d; STEPS("darray64 from builder", m, n, 5000, darray64(&db).swap(d)); for (int i = 0; i < Q; ++i) { uint64_t k = i ? r.below(m) : m - 1; STEPS("darray64 select", k, n, 700, g_sink = d.select(k)); }
}

template <typename L> void list_case(const char* name, rng_t& r, unsigned maxbits, double lim) {
    uint64_t n = big_size(r) / 8 + 10; std::vector<uint64_t> v; unsigned k = (unsigned)r.below(5); uint64_t peak = r.below(n);
    for (uint64_t i = 0; i < n; ++i) v.push_back(k == 0 ? 0 : k == 4 ? (i == peak ? r.bits(maxbits - 1) : i % 3 == 0) : k == 1 ? r.bits(maxbits - 1) : k == 2 ? (i % 1000 == 999 ? r.bits(maxbits - 1) : 0) : r.bits((unsigned)r.range(0, maxbits - 1)));
    mon::describe(std::string(name) + " n=" + num(n) + " mode " + num(k)); mon::nontrivial(mon::hash_vec(v)); mon::hit(std::string("list:") + name);
    L l; STEPS("build list", n, n, 250. * double(n) + 5000, L(v).swap(l));
    bool plain = !strcmp(name, "elias_fano_list"); double avg = 1; if (plain) { double sum = 0; for (uint64_t i = 0; i < n; ++i) sum += double(v[i]); avg = std::max(1., sum / double(n)); } // its access passes the words of the gap
    for (int i = 0; i < Q; ++i) { uint64_t q = i == 1 ? uint64_t(std::max_element(v.begin(), v.end()) - v.begin()) : i ? r.below(n) : n - 1; STEPS("list access", q, n, lim + (plain ? 20 * (double(v[q]) * 2 / avg / 64) : 0), g_sink = l[q]); }
    uint64_t from = r.coin() ? 0 : r.below(n), c = 0;
    STEPS("list enumeration", n - from, n, 80. * double(n - from) + 9000, forward_enumerator<L> e(l, from); for (uint64_t i = from; i < n; ++i) c += e.next()); g_sink = c;
}
static void bp_case(rng_t& r) {
    std::string nm; uint64_t n0 = big_size(r); bits_t b = gen::bp_pattern(r, n0, (unsigned)r.below(gen::n_bp_patterns), nm); uint64_t n = b.size(); if (!n) return;
    mon::describe("parentheses " + nm + " n=" + num(n)); mon::nontrivial(mon::hash_vec(b)); double L = lg(n);
    bp_vector v; STEPS("build bp_vector", n, n, 60. * double(n) + 5000, bp_vector(b, true, true).swap(v));
    std::vector<int32_t> ex(n + 1); for (uint64_t i = 0; i < n; ++i) ex[i + 1] = ex[i] + (b[i] ? 1 : -1);
    for (int i = 0; i < 3 * Q; ++i) {
        uint64_t p = i == 0 ? 0 : i == 1 ? n - 1 : r.below(n); double lim = 350 + 15 * L;
        STEPS("excess", p, n, 100, g_sink = uint64_t(int64_t(v.excess(p))));
        if (b[p]) { STEPS("find_close", p, n, lim, g_sink = v.find_close(p)); if (ex[p] > 0) STEPS("enclose", p, n, lim, g_sink = v.enclose(p)); } else STEPS("find_open", p, n, lim, g_sink = v.find_open(p));
        uint64_t q = i == 0 ? n : r.below(n + 1); if (p > q) std::swap(p, q); bp_vector::excess_t m; STEPS("excess_rmq", q - p, n, 450 + 15 * L, g_sink = v.excess_rmq(p, q, m));
    }
}
static void ct_case(rng_t& r) {
    uint64_t n = big_size(r) / 4 + 3; std::vector<uint64_t> v; unsigned k = (unsigned)r.below(7);
    for (uint64_t i = 0; i < n; ++i) v.push_back(k == 0 ? i : k == 1 ? n - i : k == 2 ? 7 : k == 3 ? r.next() >> 1 : k == 4 ? r.below(4) : k == 5 ? (i < n / 2 ? i : n - i) : (i * 7919) % 1024);
    mon::describe("array mode " + num(k) + " n=" + num(n)); mon::nontrivial(mon::hash_vec(v)); double L = lg(n);
    cartesian_tree t; STEPS("build cartesian_tree", n, n, 250. * double(n) + 5000, cartesian_tree(v).swap(t));
    for (int i = 0; i < 3 * Q; ++i) { uint64_t a = r.below(n), b = i == 0 ? n - 1 : r.below(n); if (i == 0) a = 0; if (a > b) std::swap(a, b); STEPS("array range-minimum", b - a, n, 600 + 20 * L, g_sink = t.rmq(a, b)); }
    topk_vector<mapper::mappable_vector<uint64_t> > x; STEPS("build topk_vector", n, n, 300. * double(n) + 5000, (topk_vector<mapper::mappable_vector<uint64_t> >(v).swap(x)));
    topk_vector<mapper::mappable_vector<uint64_t> >::enumerator e;
    for (int i = 0; i < 6; ++i) { uint64_t a = r.below(n), b = i == 0 ? n - 1 : r.below(n); if (i == 0) a = 0; if (a > b) std::swap(a, b); uint64_t kk = i == 0 ? std::min<uint64_t>(n, r.range(10000, 40000)) : 1 + r.below(200); if (i == 0 && n >= 10000) mon::hit("long top-k");
        double step = 2 * (600 + 20 * L) + 60 * lg(kk);
        STEPS("top-k", kk, n, double(kk + 1) * step, g_sink = x.topk(a, b, kk).size());
        uint64_t got = 0; STEPS("top-k steps", kk, n, double(kk + 1) * step, x.get_topk_enumerator(a, b, e); for (uint64_t j = 0; j < kk && e.next(); ++j) ++got); mon::hit("top-k entries", got); }
}
static void one(uint64_t id, rng_t& r) {
    switch (id % 12) {
    case 10: builder_case(r); break;
    case 11: skip_case(r); break;
    case 0: case 1: case 2: bits_case(r); break;
    case 3: case 4: case 5: bp_case(r); break;
    case 6: case 7: ct_case(r); break;
    default: switch (r.below(5)) {
        case 0: list_case<gamma_vector>("gamma_vector", r, 64, 600); break;
        case 1: list_case<gamma_bit_vector>("gamma_bit_vector", r, 63, 600); break;
        case 2: list_case<elias_fano_list>("elias_fano_list", r, 40, 6500); break;
        case 3: list_case<elias_fano_compressed_list>("elias_fano_compressed_list", r, 64, 6500); break;
        default: list_case<mapper::mappable_vector<uint64_t> >("mappable_vector", r, 64, 20); } }
    for (std::map<std::string, uint64_t>::iterator i = g_max.begin(); i != g_max.end(); ++i) { uint64_t& m = mon::events().m[(g_memory ? "max bytes: " : "max steps: ") + i->first]; if (i->second > m) m = i->second; }
}
int main(int argc, char** argv) { mon::init(argc, argv); g_memory = opt().prop == "C30"; return mon::run_cases(opt().n(192, 4800), one); }
