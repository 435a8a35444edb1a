// C17: the same inputs in every build; answers and frozen bytes are logged and compared between builds by the driver.
#include "zoo.hpp"
#include <fstream>
#include "vbyte.hpp"
using namespace zoo;
using mon::opt;
// runs of ones (or zeros) whose 1024-blocks span from a few thousand to over 65536 positions
static void spread(rng_t& r, input& in) {
    static const unsigned ds[] = {1, 2, 4, 8, 16, 24, 31, 32, 33, 36, 40, 44, 48, 52, 56, 60, 63, 64, 65, 80};
    bits_t& b = in.bits; b.clear(); bool flip = r.coin(); std::string nm;
    while (b.size() < 250000) {
        unsigned d = ds[r.below(20)]; uint64_t ones = 900 + r.below(1500); bool even = r.coin(); nm += " " + num(d);
        for (uint64_t i = 0; i < ones; ++i) { uint64_t gap = even ? d : 1 + r.below(2 * d - 1); b.insert(b.end(), gap - 1, 0); b.push_back(1); } }
    if (flip) for (size_t i = 0; i < b.size(); ++i) b[i] ^= 1;
    in.name = "spread" + std::string(flip ? " zeros" : " ones") + nm; mon::hit("spread blocks");
}
struct runner {
    rng_t& r; uint64_t id;
    template <typename K> void go() {
        input in; K::make(r, r.chance(.08) ? 120000 : r.chance(.3) ? 15000 : 2500, in);
        std::string kn = K::name(); if ((kn == "darray" && r.chance(.5)) || ((kn == "rs_bit_vector" || kn == "bit_vector" || (kn == "elias_fano" && (in.flags & 2))) && r.chance(.1))) spread(r, in);
        unsigned route = (unsigned)r.below(n_routes);
        mon::describe(std::string(K::name()) + " " + in.name + " route=" + num(route));
        mon::hit(std::string("kind:") + K::name());
        typename K::type x; MON_OP("build", route, 0); K::build(in, x, route);
        if (K::size(x)) mon::nontrivial(mon::mix(in.hash(), mon::hash_str(K::name())));
        sink s; MON_OP("observe", 0, 0); K::observe(x, in.flags, rng_t(r.next()), s);
        std::string p = opt().scratch + "/f.bin"; MON_OP("freeze", 0, 0); size_t w = mapper::freeze(x, p.c_str());
        std::ifstream i(p.c_str(), std::ios::binary); std::string c((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
        mon::log(num(id) + " input", in.hash());
        mon::log(num(id) + " answers", s.h); mon::log(num(id) + " number of answers", s.n);
        mon::log(num(id) + " frozen bytes", mon::mix(mon::hash_str(c), w)); mon::log(num(id) + " size_of", mapper::size_of(x));
        mon::hit("answers logged", s.n); mon::hit("bytes logged", c.size());
    }
};
// word-level and code primitives
static void words(uint64_t id, rng_t& r) {
    namespace bw = broadword; uint64_t h = 0; mon::describe("word primitives"); 
    for (int i = 0; i < 3000; ++i) {
        uint64_t x = gen::any_value(r, 64), y = r.next() & (r.coin() ? r.next() : ~uint64_t(0));
        uint64_t z[] = {bw::popcount(x), bw::byte_counts(x), bw::reverse_bytes(x), bw::reverse_bits(x), bw::uleq_step_8(x, y), bw::leq_step_8(x, y), bw::uleq_step_9(x, y), bw::zcompare_step_8(x), bw::same_msb(x, y), vbyte_size(x), util::int2nat(int64_t(y)), uint64_t(util::nat2int(y))};
        for (size_t k = 0; k < sizeof(z) / sizeof(z[0]); ++k) h = mon::mix(h, z[k]);
        if (x) { h = mon::mix(h, bw::msb(x)); h = mon::mix(h, bw::lsb(x)); h = mon::mix(h, bw::select_in_word(x, r.below(bw::popcount(x)))); }
        unsigned long q = 99; h = mon::mix(h, bw::msb(x, q)); h = mon::mix(h, bw::lsb(x, q));
        std::vector<uint8_t> v; append_vbyte(v, y); size_t d; decode_vbyte(v, 0, d); h = mon::mix(h, mon::mix(d, mon::hash_vec(v)));
    }
    mon::log(num(id) + " words", h); mon::hit("word primitives logged"); mon::nontrivial(h);
}
static void one(uint64_t id, rng_t& r) { if (id % (n_kinds + 1) == n_kinds) { words(id, r); return; } runner f = {r, id}; dispatch(unsigned(id % (n_kinds + 1)), f); }
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().n(660, 11000), one); }
