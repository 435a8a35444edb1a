// C08 / C09: gamma_vector, gamma_bit_vector, elias_fano_list, elias_fano_compressed_list, nibble_vector (and
// mappable_vector for enumeration) against the source integers.
#include "listgen.hpp"
#include <list>
#include <deque>
#include "util.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "nibble_vector.hpp"
#include "forward_enumerator.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;
typedef std::vector<uint64_t> ints;
typedef mapper::mappable_vector<uint64_t> plain_vector;

template <typename L> struct traits;
template <> struct traits<gamma_vector> { static const char* name() { return "gamma_vector"; } static uint64_t maxv() { return UINT64_MAX - 1; } };
template <> struct traits<gamma_bit_vector> { static const char* name() { return "gamma_bit_vector"; } static uint64_t maxv() { return UINT64_MAX - 2; } };
template <> struct traits<elias_fano_list> { static const char* name() { return "elias_fano_list"; } static uint64_t maxv() { return UINT64_MAX - 1; } };
template <> struct traits<elias_fano_compressed_list> { static const char* name() { return "elias_fano_compressed_list"; } static uint64_t maxv() { return UINT64_MAX - 1; } };
template <> struct traits<nibble_vector> { static const char* name() { return "nibble_vector"; } static uint64_t maxv() { return 15; } };
template <> struct traits<plain_vector> { static const char* name() { return "mappable_vector"; } static uint64_t maxv() { return UINT64_MAX; } };

static uint64_t total(ints const& v) { uint64_t s = 0; for (size_t i = 0; i < v.size(); ++i) s += v[i]; return s; }

template <typename L> void check_sum(L const&, ints const&) {}
static void check_sum(elias_fano_list const& l, ints const& v) { MON_EQ("elias_fano_list.sum", v.size(), 0, total(v), l.sum()); }

// ------------------------------------------------------------------ enumeration
template <typename L> struct enum_check {
    static void skip(forward_enumerator<L>& e, uint64_t k) { while (k--) e.next(); }
    static void run(L const& l, ints const& v, rng_t& r) {
        uint64_t n = v.size();
        { MON_OP("forward_enumerator()", n, 0); forward_enumerator<L> e(l); for (uint64_t i = 0; i < n; ++i) MON_EQ("enumerate from the first", i, 0, v[i], e.next()); }
        std::vector<uint64_t> st;
        if (n <= 40) for (uint64_t i = 0; i <= n; ++i) st.push_back(i);
        else { st.push_back(n - 1); st.push_back(n); for (int k = 0; k < 16; ++k) { st.push_back(r.below(n)); st.push_back(std::min(n, (r.below(n) / 1024) * 1024 + r.below(3))); st.push_back(std::min(n, (r.below(n) / 64) * 64 + r.below(2))); } }
        for (size_t k = 0; k < st.size(); ++k) {
            uint64_t i = st[k], lim = r.chance(.1) ? n : std::min<uint64_t>(n, i + 150);
            MON_OP("forward_enumerator(idx)", i, 0);
            forward_enumerator<L> e(l, i);
            if (i == n) { mon::hit("enumerator at the end"); continue; }
            uint64_t fork = i + r.below(lim - i);
            for (; i < lim; ++i) {
                if (i == fork) { forward_enumerator<L> f = e; for (uint64_t j = i; j < std::min(n, i + 40); ++j) MON_EQ("enumerate (copy)", st[k], j, v[j], f.next()); }
                MON_EQ("enumerate", st[k], i, v[i], e.next());
                if (r.chance(.05) && i + 1 < lim) { uint64_t s = r.below(std::min<uint64_t>(lim - i - 1, 70) + 1); MON_OP("enumerator.skip", i + 1, s); skip(e, s); i += s; mon::hit("skipped"); }
            }
            if (lim == n) mon::hit("enumerated to the end");
        }
    }
};
template <> void enum_check<gamma_bit_vector>::skip(forward_enumerator<gamma_bit_vector>& e, uint64_t k) { e.skip(k); mon::hit("gamma_bit_vector skip()"); }
template <> struct enum_check<nibble_vector> { static void run(nibble_vector const&, ints const&, rng_t&) {} };

template <typename L> void check_list(L const& l, ints const& v, rng_t& r) {
    uint64_t n = v.size();
    MON_EQ("list.size", n, 0, n, l.size());
    if (opt().prop == "C09") { enum_check<L>::run(l, v, r); return; }
    std::vector<uint64_t> ks;
    if (n <= 5000) for (uint64_t i = 0; i < n; ++i) ks.push_back(i); else ks = edge_positions(r, n - 1, 2500);
    for (size_t k = 0; k < ks.size(); ++k) MON_EQ("list[]", ks[k], n, v[ks[k]], l[ks[k]]);
    check_sum(l, v);
    mon::hit(std::string("list:") + traits<L>::name());
}

template <typename L, typename C> void build_check(C const& c, ints const& v, rng_t& r, const char* type) {
    MON_OP("list(range)", v.size(), 0);
    L l(c);
    check_list(l, v, r);
    mon::hit(std::string("range:") + type);
}

template <typename L, typename T> void typed(ints const& v, rng_t& r, const char* type) {
    std::vector<T> c; for (size_t i = 0; i < v.size(); ++i) c.push_back(T(v[i]));
    switch (r.below(5)) {
    case 0: { std::list<T> q(c.begin(), c.end()); build_check<L>(q, v, r, type); mon::hit("container:list"); break; }
    case 1: { std::deque<T> q(c.begin(), c.end()); build_check<L>(q, v, r, type); mon::hit("container:deque"); break; }
    case 2: { build_check<L>(boost::make_iterator_range(c.data(), c.data() + c.size()), v, r, type); mon::hit("container:iterator_range"); break; }
    default: build_check<L>(c, v, r, type); mon::hit("container:vector");
    }
}

template <typename L> void one(rng_t& r, uint64_t maxn) {
    uint64_t maxv = traits<L>::maxv();
    uint64_t n = any_size(r, maxn);
    static const unsigned tb[] = {8, 16, 31, 32, 63, 64, 64, 64, 15, 7}; static const char* tn[] = {"uint8_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "unsigned long long", "uint64_t", "int16_t", "char"};
    unsigned t = (unsigned)r.below(10);
    if (maxv == 15 && t >= 5) t = (unsigned)r.below(5);
    unsigned bits = tb[t];
    unsigned b = (r.chance(.4) || maxv == 15) ? bits : (unsigned)r.below(bits + 1);
    std::string nm; ints v = int_list(r, n, b, maxv, (unsigned)r.below(n_list_patterns), nm);
    if (std::string(traits<L>::name()) == "elias_fano_list") { // the sum must fit
        __uint128_t s = 0; for (size_t i = 0; i < v.size(); ++i) { if (s + v[i] > UINT64_MAX - 1) v[i] = r.chance(.02) ? uint64_t(UINT64_MAX - 1 - s) : 0; s += v[i]; }
    }
    mon::describe(std::string(traits<L>::name()) + " " + nm + " n=" + num(n) + " bits<=" + num(b) + " of " + tn[t]);
    mon::nontrivial(mon::mix(mon::hash_vec(v), mon::hash_str(traits<L>::name())));
    switch (t) {
    case 0: typed<L, uint8_t>(v, r, tn[t]); break;
    case 1: typed<L, uint16_t>(v, r, tn[t]); break;
    case 2: typed<L, int32_t>(v, r, tn[t]); break;
    case 3: typed<L, uint32_t>(v, r, tn[t]); break;
    case 4: typed<L, int64_t>(v, r, tn[t]); break;
    case 6: typed<L, unsigned long long>(v, r, tn[t]); break;
    case 8: typed<L, int16_t>(v, r, tn[t]); break;
    case 9: typed<L, char>(v, r, tn[t]); break;
    default: typed<L, uint64_t>(v, r, tn[t]);
    }
}

template <typename L> void small_exhaustive(rng_t& r) { // every list of up to 4 values among 7 around code-length changes
    static const uint64_t alpha[] = {0, 1, 2, 3, 6, 7, 14};
    for (uint64_t len = 0; len <= 4; ++len) { uint64_t tot = 1; for (uint64_t i = 0; i < len; ++i) tot *= 7;
        for (uint64_t x = 0; x < tot; ++x) { ints v; uint64_t y = x; for (uint64_t i = 0; i < len; ++i) { v.push_back(alpha[y % 7]); y /= 7; } L l(v); check_list(l, v, r); mon::nontrivial(mon::mix(mon::hash_vec(v), mon::hash_str(traits<L>::name()))); } }
    // every single value 2^k - 3 .. 2^k + 3
    for (unsigned k = 0; k < 64; ++k) for (int d = -3; d <= 3; ++d) { uint64_t x = (uint64_t(1) << k) + uint64_t(int64_t(d)); if (x > traits<L>::maxv() || (d < 0 && x > (uint64_t(1) << k))) continue;
        ints v(1, x); L l(v); check_list(l, v, r); ints w(3, x); w[1] = 0; if (std::string(traits<L>::name()) == "elias_fano_list" && x > UINT64_MAX / 2 - 2) continue; L l2(w); check_list(l2, w, r); }
}

// a container of 2^64 - 1 values computed on the fly, enumerated by position
struct endless { typedef uint64_t value_type; uint64_t salt; uint64_t operator[](size_t i) const { return mon::mix(i, salt); } };
static void endless_enumerated(rng_t& r) {
    endless c = {r.next()};
    for (int k = 0; k < 300; ++k) { uint64_t i = r.coin() ? (uint64_t(1) << (8 * (1 + r.below(7)))) - r.below(40) : (uint64_t(1) << r.below(63)) - r.below(2), at = i; forward_enumerator<endless> e(c, i); if (r.chance(.3)) { forward_enumerator<endless> f(e); f.next(); f.next(); e = r.coin() ? f : e; if (r.chance(.3)) { forward_enumerator<endless> g(f); e = g; at = i + 2; } else { e = forward_enumerator<endless>(c, i); } }
        for (int j = 0; j < 60; ++j, ++at) MON_EQ("enumerate", at, j, c[at], e.next()); }
    forward_enumerator<endless> z(c); for (int j = 0; j < 60; ++j) MON_EQ("enumerate from the first", j, 0, c[j], z.next());
    mon::hit("enumerated across 2^32");
}

static void list_case(uint64_t id, rng_t& r) {
    if (id == 5 && opt().prop == "C09") endless_enumerated(r);
    if (id < 6) { mon::describe("small lists, exhaustive"); switch (id) { case 0: small_exhaustive<gamma_vector>(r); break; case 1: small_exhaustive<gamma_bit_vector>(r); break; case 2: small_exhaustive<elias_fano_list>(r); break;
        case 3: small_exhaustive<elias_fano_compressed_list>(r); break; case 4: small_exhaustive<nibble_vector>(r); break; default: small_exhaustive<plain_vector>(r); } return; }
    uint64_t maxn = id % 90 < 5 ? 150000 : id % 20 < 5 ? 12000 : 800;
    switch (id % 5) {
    case 0: one<gamma_vector>(r, maxn); break;
    case 1: one<gamma_bit_vector>(r, maxn); break;
    case 2: one<elias_fano_list>(r, maxn); break;
    case 3: one<elias_fano_compressed_list>(r, maxn); break;
    default: if (opt().prop == "C09") one<plain_vector>(r, maxn); else one<nibble_vector>(r, maxn);
    }
}

template <typename L> void huge_list(rng_t& r, uint64_t n) { // streams longer than 2^32 bits
    struct gen_it { // values computed on the fly, 63-bit codes
        typedef std::forward_iterator_tag iterator_category; typedef uint64_t value_type; typedef ptrdiff_t difference_type; typedef const uint64_t* pointer; typedef uint64_t reference;
        uint64_t i; static uint64_t at(uint64_t i) { uint64_t z = (i + 1) * 0x9E3779B97F4A7C15ULL; z ^= z >> 29; return (z | (uint64_t(1) << 62)) >> (i % 977 == 0 ? 40 : 1); }
        uint64_t operator*() const { return at(i); } gen_it& operator++() { ++i; return *this; } gen_it operator++(int) { gen_it t = *this; ++i; return t; }
        bool operator==(gen_it const& o) const { return i == o.i; } bool operator!=(gen_it const& o) const { return i != o.i; } };
    gen_it b = {0}, e = {n};
    L l(boost::make_iterator_range(b, e));
    MON_EQ("list.size", n, 0, n, l.size());
    for (int k = 0; k < 60000; ++k) { uint64_t i = r.chance(.1) ? n - 1 - r.below(1000) : r.below(n); MON_EQ("list[]", i, n, gen_it::at(i), l[i]); }
    if (opt().prop == "C09") for (int k = 0; k < 300; ++k) { uint64_t i = r.chance(.2) ? n - 300 : r.below(n - 300); forward_enumerator<L> f(l, i); for (int j = 0; j < 300; ++j) MON_EQ("enumerate", i, j, gen_it::at(i + j), f.next()); }
    mon::hit("code stream beyond 2^32 bits"); mon::nontrivial(mon::mix(n, mon::hash_str(traits<L>::name())));
}
// more than 2^32 nibbles, computed on the fly
static void huge_nibbles(rng_t& r) {
    uint64_t n = (uint64_t(1) << 32) + (uint64_t(1) << 20) + 1 + r.below(1000); mon::describe("nibble_vector n=" + num(n));
    struct nib_it { typedef std::forward_iterator_tag iterator_category; typedef uint8_t value_type; typedef ptrdiff_t difference_type; typedef const uint8_t* pointer; typedef uint8_t reference;
        uint64_t i; static uint8_t at(uint64_t i) { return uint8_t((i * 0x9E3779B97F4A7C15ULL) >> 60); }
        uint8_t operator*() const { return at(i); } nib_it& operator++() { ++i; return *this; } nib_it operator++(int) { nib_it t = *this; ++i; return t; }
        bool operator==(nib_it const& o) const { return i == o.i; } bool operator!=(nib_it const& o) const { return i != o.i; } };
    nib_it b = {0}, e = {n}; nibble_vector l(boost::make_iterator_range(b, e));
    MON_EQ("list.size", n, 0, n, l.size());
    for (int k = 0; k < 200000; ++k) { uint64_t i = k == 0 ? n - 1 : r.chance(.2) ? n - 1 - r.below(1 << 20) : r.below(n); MON_EQ("list[]", i, n, nib_it::at(i), l[i]); }
    mon::hit("more than 2^32 nibbles"); mon::nontrivial(mon::mix(n, 77));
}
// lists of more than 2^32 small values, computed on the fly
template <typename L> static void many_values(rng_t& r) {
    uint64_t n = (uint64_t(1) << 32) + (uint64_t(1) << 20) + r.below(1000); mon::describe(std::string(traits<L>::name()) + " of " + num(n) + " small values");
    struct it { typedef std::forward_iterator_tag iterator_category; typedef uint64_t value_type; typedef ptrdiff_t difference_type; typedef const uint64_t* pointer; typedef uint64_t reference;
        uint64_t i; static uint64_t at(uint64_t i) { uint64_t z = i * 0x9E3779B97F4A7C15ULL; z ^= z >> 31; return (z & 31) ? 0 : (z >> 5) & 7; }
        uint64_t operator*() const { return at(i); } it& operator++() { ++i; return *this; } it operator++(int) { it t = *this; ++i; return t; }
        bool operator==(it const& o) const { return i == o.i; } bool operator!=(it const& o) const { return i != o.i; } };
    it b = {0}, e = {n}; L l(boost::make_iterator_range(b, e));
    MON_EQ("list.size", n, 0, n, l.size());
    if (opt().prop == "C08") for (int k = 0; k < 200000; ++k) { uint64_t i = k == 0 ? n - 1 : r.chance(.4) ? n - 1 - r.below(1 << 20) : r.below(n); MON_EQ("list[]", i, n, it::at(i), l[i]); }
    else { for (int k = 0; k < 300; ++k) { uint64_t i = k == 0 ? n - 300 : r.chance(.3) ? n - 300 - r.below(1 << 20) : r.chance(.3) ? (uint64_t(1) << 32) - r.below(300) : r.below(n - 300); forward_enumerator<L> f(l, i); for (int j = 0; j < 300; ++j) MON_EQ("enumerate", i, j, it::at(i + j), f.next()); } }
    mon::hit("more than 2^32 values"); mon::nontrivial(mon::mix(n, mon::hash_str(traits<L>::name())));
}
static void huge_case(uint64_t id, rng_t& r) {
    if (id == 4) { many_values<gamma_vector>(r); return; } if (id == 5) { many_values<elias_fano_compressed_list>(r); return; } if (id == 6) { many_values<elias_fano_list>(r); return; } if (id == 7) { many_values<gamma_bit_vector>(r); return; }
    if (id == 3 && opt().prop == "C09") return;
    if (id == 3) { huge_nibbles(r); return; }
    uint64_t n = uint64_t(72) << 20; mon::describe("n=" + num(n) + " values of 62 bits");
    if (id == 0) huge_list<gamma_vector>(r, n); else if (id == 1) huge_list<gamma_bit_vector>(r, n); else huge_list<elias_fano_compressed_list>(r, n);
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (opt().huge()) return mon::run_cases(8, huge_case);
    return mon::run_cases(6 + opt().n(5000, 60000), list_case);
}
