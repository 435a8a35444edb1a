// C25: word-level primitives against bit-by-bit definitions.
#include "gen.hpp"
#include "broadword.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;
namespace bw = succinct::broadword;

static inline uint64_t bit(uint64_t x, unsigned i) { return (x >> i) & 1; }
static uint64_t n_words = 0;

static void check_word(uint64_t x, rng_t& r) {
    ++n_words;
    unsigned pos[64]; unsigned cnt = 0;
    for (unsigned i = 0; i < 64; ++i) if (bit(x, i)) pos[cnt++] = i;
    MON_EQ("popcount", x, 0, cnt, bw::popcount(x));
    uint64_t bc = 0, bs = 0, rb = 0, ry = 0, zc = 0;
    for (unsigned b = 0; b < 8; ++b) {
        uint64_t byte = (x >> (8 * b)) & 255; uint64_t c = 0; for (unsigned i = 0; i < 8; ++i) c += bit(byte, i);
        bc |= c << (8 * b); bs += byte; ry |= byte << (8 * (7 - b)); zc |= uint64_t(byte != 0) << (8 * b);
    }
    for (unsigned i = 0; i < 64; ++i) rb |= bit(x, i) << (63 - i);
    MON_EQ("byte_counts", x, 0, bc, bw::byte_counts(x));
    if (bs < 256) MON_EQ("bytes_sum", x, 0, bs, bw::bytes_sum(x)); // defined while the sum fits a byte
    { uint64_t y = 0, left = r.below(256), t = left; for (unsigned b = 0; b < 8; ++b) { uint64_t k = b == 7 ? left : r.below(left + 1); y |= k << (8 * b); left -= k; } MON_EQ("bytes_sum", y, 0, t, bw::bytes_sum(y)); }
    MON_EQ("reverse_bytes", x, 0, ry, bw::reverse_bytes(x));
    MON_EQ("reverse_bits", x, 0, rb, bw::reverse_bits(x));
    MON_EQ("zcompare_step_8", x, 0, zc, bw::zcompare_step_8(x));
    unsigned long m = 77, l = 77;
    bool hm = bw::msb(x, m), hl = bw::lsb(x, l);
    MON_EQ("msb.found", x, 0, x != 0, hm); MON_EQ("lsb.found", x, 0, x != 0, hl);
    if (x) {
        MON_EQ("msb", x, 0, pos[cnt - 1], m); MON_EQ("lsb", x, 0, pos[0], l);
        MON_EQ("msb(value)", x, 0, pos[cnt - 1], bw::msb(x)); MON_EQ("lsb(value)", x, 0, pos[0], bw::lsb(x));
        if (cnt == 1) MON_EQ("bit_position", x, 0, pos[0], bw::bit_position(x));
        for (unsigned k = 0; k < cnt; ++k) MON_EQ("select_in_word", x, k, pos[k], bw::select_in_word(x, k));
    }
}
static void check_pair(uint64_t x, uint64_t y) {
    ++n_words;
    uint64_t u8 = 0, s8 = 0, s8_def = 0, u9 = 0;
    for (unsigned b = 0; b < 8; ++b) {
        uint8_t a = uint8_t(x >> (8 * b)), c = uint8_t(y >> (8 * b));
        u8 |= uint64_t(a <= c) << (8 * b);
        int d = int(int8_t(c)) - int(int8_t(a));
        if (d >= -128 && d <= 127) { s8_def |= uint64_t(1) << (8 * b); s8 |= uint64_t(int8_t(a) <= int8_t(c)) << (8 * b); }
    }
    MON_EQ("uleq_step_8", x, y, u8, bw::uleq_step_8(x, y));
    MON_EQ("leq_step_8", x, y, s8, bw::leq_step_8(x, y) & s8_def);
    uint64_t x9 = x & ~(uint64_t(1) << 63), y9 = y & ~(uint64_t(1) << 63);
    for (unsigned f = 0; f < 7; ++f) { uint64_t a = (x9 >> (9 * f)) & 511, c = (y9 >> (9 * f)) & 511; u9 |= uint64_t(a <= c) << (9 * f); }
    MON_EQ("uleq_step_9", x9, y9, u9, bw::uleq_step_9(x9, y9));
    if (x || y) {
        int hx = -1, hy = -1; for (int i = 0; i < 64; ++i) { if (bit(x, unsigned(i))) hx = i; if (bit(y, unsigned(i))) hy = i; }
        MON_EQ("same_msb", x, y, hx == hy, bw::same_msb(x, y) != 0);
    }
}
static uint64_t any_word(rng_t& r) {
    switch (r.below(8)) {
    case 0: return r.next();
    case 1: return r.next() & r.next() & r.next();
    case 2: return r.next() | r.next() | r.next();
    case 3: { unsigned a = (unsigned)r.below(64), b = (unsigned)r.below(64); uint64_t w = (~uint64_t(0) >> a) & (~uint64_t(0) << b); return r.coin() ? w : ~w; }
    case 4: { uint64_t w = 0; for (unsigned b = 0; b < 8; ++b) { static const uint64_t e[] = {0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff}; w |= (r.chance(.8) ? e[r.below(7)] : r.below(256)) << (8 * b); } return w; }
    case 5: { uint64_t w = 0; for (unsigned b = 0; b < 7; ++b) { static const uint64_t e[] = {0, 1, 0xff, 0x100, 0x101, 0x1fe, 0x1ff}; w |= (r.chance(.8) ? e[r.below(7)] : r.below(512)) << (9 * b); } return w; }
    case 6: return any_value(r, 64);
    default: { uint64_t w = 0; for (uint64_t k = r.below(5); k; --k) w |= uint64_t(1) << r.below(64); return w; }
    }
}

static void one(uint64_t id, rng_t& r) {
    n_words = 0;
    if (id < 512) { // every 16-bit pattern at every byte shift (also complemented), 1/8 of them per case
        unsigned sh = unsigned(id % 49), comp = unsigned((id / 49) % 2), part = unsigned(id / 98);
        if (part < 4) {
            mon::describe("16-bit patterns, shift " + num(sh) + (comp ? " complemented" : "") + " part " + num(part));
            for (uint64_t w = part; w < 65536; w += 4) { uint64_t x = w << sh; check_word(comp ? ~x : x, r); }
            mon::hit("16-bit patterns at every shift", n_words); mon::hit("exhausted 16-bit shift classes"); mon::nontrivial(id); return;
        }
        // single bits and pairs of bits
        mon::describe("one or two bits set or cleared");
        for (unsigned i = 0; i < 64; ++i) for (unsigned j = 0; j < 64; ++j) { uint64_t x = (uint64_t(1) << i) | (uint64_t(1) << j); check_word(x, r); check_word(~x, r); check_pair(x, uint64_t(1) << j); check_pair(x, ~x); }
        mon::hit("words with one or two bits", n_words); mon::nontrivial(id); return;
    }
    if (id < 512 + 64) { // every pair of byte values, at every byte place, over random surroundings
        mon::describe("byte pairs, part " + num(id - 512));
        for (uint64_t a = (id - 512) * 4; a < (id - 512) * 4 + 4; ++a) for (uint64_t b = 0; b < 256; ++b) for (unsigned p = 0; p < 8; ++p) {
            uint64_t x = any_word(r), y = any_word(r), mask = uint64_t(255) << (8 * p);
            check_pair((x & ~mask) | (a << (8 * p)), (y & ~mask) | (b << (8 * p)));
        }
        mon::hit("byte pairs at every place", n_words); mon::nontrivial(id); return;
    }
    mon::describe("random words");
    uint64_t h = 0;
    for (int i = 0; i < 20000; ++i) { uint64_t x = any_word(r); check_word(x, r); uint64_t y = r.chance(.2) ? x : any_word(r); check_pair(x, y); h = mon::mix(h, x); }
    mon::hit("random words", n_words); mon::nontrivial(h);
}
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(576 + opt().n(100, 6000), one); }
