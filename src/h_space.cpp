// C26: the size of every structure against the size its design allows for that input, computed here from the input
// alone (bits, directory densities and code lengths), with one percent and a few words to spare.
#include "zoo.hpp"
#include <fstream>
using namespace zoo;
using mon::opt;

typedef std::vector<uint64_t> pos_t;
static uint64_t cdiv(uint64_t a, uint64_t b) { return a / b + (a % b != 0); }
static uint64_t msb64(uint64_t x) { uint64_t l = 0; while (x >>= 1) ++l; return l; }
static uint64_t s_bits(uint64_t n) { return 16 + 8 * cdiv(n, 64); }
static uint64_t s_rs(uint64_t n, uint64_t ones, unsigned hints) {
    return s_bits(n) + 8 * (2 * cdiv(n, 512) + 3) + 24 + ((hints & 1) ? 8 * (ones / 1024 + 1) : 0) + ((hints & 2) ? 8 * ((n - ones) / 1024 + 1) : 0); }
static uint64_t s_bp(uint64_t n, unsigned hints) {
    uint64_t sb = cdiv(n, 8192), p = 1; while (p < sb) p *= 2;
    return s_rs(n, n / 2, hints) + 24 + 2 * cdiv(n, 256) + 4 * (n ? p + sb : 0); }
// a select directory over the given positions: 8 bytes per 1024, 2 per 32, and explicit positions where 1024 of them span 2^16 bits or more
static uint64_t s_dir(pos_t const& p) {
    uint64_t m = p.size(), s = 32 + 8 * cdiv(m, 1024) + 2 * cdiv(m, 32);
    for (uint64_t b = 0; b < m; b += 1024) { uint64_t e = std::min(m, b + 1024); if (p[e - 1] - p[b] >= 65536) { s += 8 * (e - b); mon::hit("sparse directory blocks"); } }
    return s; }
static uint64_t s_ef(pos_t const& v, uint64_t n, bool rank) {
    uint64_t m = v.size(), l = m && n / m ? msb64(n / m) : 0, hn = m + 2 + (n >> l);
    pos_t ones; for (uint64_t i = 0; i < m; ++i) ones.push_back((v[i] >> l) + i);
    uint64_t s = 9 + s_bits(hn) + s_dir(ones) + s_bits(m * l) + 32;
    if (rank) { pos_t z; uint64_t k = 0; for (uint64_t i = 0; i < hn; ++i) if (k < m && ones[k] == i) ++k; else z.push_back(i); s += s_dir(z); }
    return s; }
static uint64_t s_gamma(std::vector<uint64_t> const& v, unsigned add) {
    uint64_t high = 1, low = 0, m = v.size() + 1;
    for (size_t i = 0; i < v.size(); ++i) { uint64_t l = msb64(v[i] + add); high += add == 1 ? l + 1 : l; low += l; }
    return 8 + s_bits(high) + 16 + 8 * cdiv(m, 1024) + 2 * cdiv(m, 64) + s_bits(low); }
static uint64_t s_efl(std::vector<uint64_t> const& v) { uint64_t s = 0; pos_t p; for (size_t i = 0; i < v.size(); ++i) p.push_back(s += v[i]); return s_ef(p, s + 1, false); }
static uint64_t s_efcl(std::vector<uint64_t> const& v) { uint64_t s = 0; pos_t p(1, 0); for (size_t i = 0; i < v.size(); ++i) p.push_back(s += msb64(v[i] + 1)); return s_ef(p, s + 1, false) + s_bits(s); }
static uint64_t s_ct(uint64_t n) { return s_bp(2 * n + 2, 2); }
static pos_t ones_in(bits_t const& b, bool v) { pos_t p; for (size_t i = 0; i < b.size(); ++i) if (bool(b[i]) == v) p.push_back(i); return p; }

template <typename K> struct bound;
template <> struct bound<K_bits> { static uint64_t of(input const& in) { return s_bits(in.bits.size()); } };
template <> struct bound<K_rs> { static uint64_t of(input const& in) { return s_rs(in.bits.size(), ones_in(in.bits, true).size(), in.flags); } };
template <> struct bound<K_bp> { static uint64_t of(input const& in) { return s_bp(in.bits.size(), in.flags); } };
template <> struct bound<K_darray> { static uint64_t of(input const& in) { return s_bits(in.bits.size()) + s_dir(ones_in(in.bits, true)) + s_dir(ones_in(in.bits, false)); } };
template <> struct bound<K_darray64> { static uint64_t of(input const& in) { uint64_t n = 0, m = in.ints.size(); for (size_t i = 0; i < m; ++i) n += in.ints[i] + 1; return 8 + s_bits(n) + 16 + 8 * cdiv(m, 1024) + 2 * cdiv(m, 64); } };
template <> struct bound<K_ef> { static uint64_t of(input const& in) { return (in.flags & 2) ? s_ef(ones_in(in.bits, true), in.bits.size(), in.flags & 1) : s_ef(in.ints, in.n, in.flags & 1); } };
template <> struct bound<K_efl> { static uint64_t of(input const& in) { return s_efl(in.ints); } };
template <> struct bound<K_efcl> { static uint64_t of(input const& in) { return s_efcl(in.ints); } };
template <> struct bound<K_gv> { static uint64_t of(input const& in) { return s_gamma(in.ints, 1); } };
template <> struct bound<K_gbv> { static uint64_t of(input const& in) { return s_gamma(in.ints, 2); } };
template <> struct bound<K_nib> { static uint64_t of(input const& in) { return 16 + cdiv(in.ints.size(), 2); } };
template <> struct bound<K_ct> { static uint64_t of(input const& in) { return s_ct(in.ints.size()); } };
template <> struct bound<K_topk<gamma_vector> > { static uint64_t of(input const& in) { return s_ct(in.ints.size()) + s_gamma(in.ints, 1); } };
template <> struct bound<K_topk<gamma_bit_vector> > { static uint64_t of(input const& in) { return s_ct(in.ints.size()) + s_gamma(in.ints, 2); } };
template <> struct bound<K_topk<elias_fano_list> > { static uint64_t of(input const& in) { return s_ct(in.ints.size()) + s_efl(in.ints); } };
template <> struct bound<K_topk<elias_fano_compressed_list> > { static uint64_t of(input const& in) { return s_ct(in.ints.size()) + s_efcl(in.ints); } };
template <> struct bound<K_topk<mapper::mappable_vector<uint64_t> > > { static uint64_t of(input const& in) { return s_ct(in.ints.size()) + 8 + 8 * in.ints.size(); } };
template <typename T> struct bound<K_vec<T> > { static uint64_t of(input const& in) { return 8 + sizeof(T) * in.ints.size(); } };
template <> struct bound<K_user> { static uint64_t of(input const& in) {
    std::vector<uint64_t> s(in.ints); std::sort(s.begin(), s.end());
    uint64_t b = 64 + s_ef(s, s.empty() ? 0 : s.back() + 1, true) + s_bp(in.bits.size(), 3) + s_ct(in.ints.size()) + s_gamma(in.ints, 2) + s_bits(in.bits.size());
    for (int k = 0; k < 2; ++k) { uint64_t c = k ? in.ints.size() / 2 : in.ints.size(); b += 2 + 16 + cdiv(c, 2) + 8 + 4 * c; } return b; } };

// the headline figures, in bits per element, where the structure is large enough for them to mean anything
template <typename K> struct headline { static double of(input const&) { return 0; } static uint64_t n(input const&) { return 0; } };
template <> struct headline<K_rs> { static double of(input const&) { return 1.35; } static uint64_t n(input const& in) { return in.bits.size(); } };
template <> struct headline<K_bp> { static double of(input const&) { return 1.5; } static uint64_t n(input const& in) { return in.bits.size(); } };
template <> struct headline<K_ct> { static double of(input const&) { return 3; } static uint64_t n(input const& in) { return in.ints.size(); } };
template <> struct headline<K_nib> { static double of(input const&) { return 4.1; } static uint64_t n(input const& in) { return in.ints.size(); } };

struct runner {
    rng_t& r;
    template <typename K> void go() {
        mon::hit(std::string("kind:") + K::name());
        input in; uint64_t maxn = r.chance(.1) ? 1200000 : r.chance(.3) ? 150000 : 12000; if (opt().variant.compare(0, 3, "san") == 0) maxn /= 4; K::make(r, maxn, in);
        typename K::type x; unsigned route = (unsigned)r.below(n_routes); mon::describe(std::string(K::name()) + " " + in.name); MON_OP("build", route, 0); K::build(in, x, route);
        uint64_t got = mapper::size_of(x), want = bound<K>::of(in), lim = want + want / 100 + 64;
        mon::nontrivial(mon::mix(in.hash(), mon::hash_str(K::name())));
        MON_TRUE("size within the design bound", got, want, got <= lim, K::name() << " takes " << got << " bytes, its design allows " << want << " for this input");
        if (got > 4000) mon::hit("structures over 4000 bytes"); if (got > 100000) mon::hit("structures over 100000 bytes");
        if (want) { char b[64]; snprintf(b, sizeof b, "size at %s of the bound", got * 100 > want * 99 ? "99-101%" : got * 100 > want * 90 ? "90-99%" : "under 90%"); mon::hit(b); }
        uint64_t n = headline<K>::n(in);
        if (n >= 20000) MON_TRUE("bits per element", n, 0, double(got) * 8 <= headline<K>::of(in) * double(n), K::name() << " takes " << double(got) * 8 / double(n) << " bits per element");
        { typename K::type y; uint64_t e = mapper::size_of(y); MON_TRUE("size of an empty structure", e, 0, e <= 640, "a default-constructed " << K::name() << " takes " << e << " bytes"); }
        if (r.chance(.2)) { std::string p = opt().scratch + "/f.bin"; mapper::freeze(x, p.c_str()); std::ifstream i(p.c_str(), std::ios::binary | std::ios::ate); MON_TRUE("file within the design bound", got, want, uint64_t(i.tellg()) <= lim + 8, "the frozen " << K::name() << " takes " << i.tellg() << " bytes, its design allows " << want); }
        uint64_t t = mapper::size_tree_of(x)->size; MON_TRUE("size tree within the design bound", t, want, t <= lim, "size tree reports " << t);
    }
};
static void one(uint64_t id, rng_t& r) { runner f = {r}; dispatch(unsigned(id % n_kinds), f); }
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().n(3000, 60000), one); }
