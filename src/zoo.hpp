// Every structure of the library behind one interface: generate an input, build the structure from it by
// one of several routes, and ask it (deterministically, given a seed) a wide set of queries whose answers go
// to a sink.  The questions depend only on what the structure itself reports, so two objects with the same
// contents produce the same answers.
//
// The golden files of C16 store digests of these answers: do not change `observe` of a kind without
// regenerating them (tools/make_golden.sh).
#pragma once
#include "gen.hpp"
#include "efgen.hpp"
#include "listgen.hpp"
#include <list>
#include <deque>
#include "util.hpp"
#include "mappable_vector.hpp"
#include "bit_vector.hpp"
#include "rs_bit_vector.hpp"
#include "bp_vector.hpp"
#include "darray.hpp"
#include "darray64.hpp"
#include "elias_fano.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "nibble_vector.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "forward_enumerator.hpp"
#include "mapper.hpp"

namespace zoo {
    using namespace succinct;
    using mon::rng_t;
    using gen::bits_t;
    using gen::num;

    // ------------------------------------------------------------ answers
    struct answer { const char* op; uint64_t a, v; };
    struct sink {
        uint64_t h, n;
        bool keep;
        std::vector<answer> all;
        void (*between)(void*); void* ctx; // called after each answer, where a harness wants to interleave other work
        explicit sink(bool keep_ = false) : h(1), n(0), keep(keep_), between(0), ctx(0) {}
        void operator()(const char* op, uint64_t a, uint64_t v) {
            h = mon::mix(h, v); ++n;
            if (keep) { answer x = {op, a, v}; all.push_back(x); }
            if (between) between(ctx);
        }
    };
    // compares the answers of two objects; what says which object is being judged
    inline void same_answers(const char* what, sink const& ref, sink const& got) {
        size_t n = std::min(ref.all.size(), got.all.size());
        for (size_t i = 0; i < n; ++i)
            MON_TRUE("same answer", ref.all[i].a, i, ref.all[i].v == got.all[i].v && ref.all[i].a == got.all[i].a,
                     what << ": " << ref.all[i].op << "(" << ref.all[i].a << ") gives " << got.all[i].v << ", the reference gives " << ref.all[i].v);
        MON_EQ("number of answers", 0, 0, ref.n, got.n);
        MON_EQ("digest of answers", 0, 0, ref.h, got.h);
    }

    struct input {
        bits_t bits;
        std::vector<uint64_t> ints;
        uint64_t n;      // universe, or other parameter
        unsigned flags;
        std::string name;
        input() : n(0), flags(0) {}
        uint64_t hash() const { return mon::mix(mon::mix(mon::mix(mon::hash_vec(bits), mon::hash_vec(ints)), n), flags); }
    };

    // positions to ask about in [0, n)
    inline std::vector<uint64_t> ask(rng_t& r, uint64_t n, uint64_t all_below, size_t extra) {
        std::vector<uint64_t> p;
        if (!n) return p;
        if (n <= all_below) { for (uint64_t i = 0; i < n; ++i) p.push_back(i); return p; }
        p.push_back(0); p.push_back(1); p.push_back(n - 1); p.push_back(n - 2); p.push_back(n / 2);
        for (size_t i = 0; i < extra; ++i) {
            p.push_back(r.below(n));
            static const uint64_t st[] = {64, 256, 512, 1024, 8192, 65536};
            uint64_t s = st[r.below(6)]; uint64_t q = (r.below(n) / s) * s; p.push_back(q); if (q) p.push_back(q - 1);
        }
        return p;
    }

    // ------------------------------------------------------------ observers shared by kinds
    inline void observe_bits(bit_vector const& bv, rng_t& r, sink& s) {
        uint64_t n = bv.size();
        s("size", 0, n);
        if (!n) return;
        std::vector<uint64_t> w = ask(r, (n + 63) / 64, 400, 300);
        for (size_t i = 0; i < w.size(); ++i) s("get_word", 64 * w[i], bv.get_word(64 * w[i]));
        std::vector<uint64_t> p = ask(r, n, 300, 120);
        for (size_t i = 0; i < p.size(); ++i) {
            uint64_t x = p[i];
            bool b = bv[x];
            s("operator[]", x, b);
            uint64_t len = r.below(std::min<uint64_t>(64, n - x) + 1);
            s("get_bits", x, bv.get_bits(x, len));
            if (x + 64 <= n) s("get_word56", x, bv.get_word56(x) & ((uint64_t(1) << 56) - 1));
            s("get_word", x, bv.get_word(x));
            if (b) { s("predecessor1", x, bv.predecessor1(x)); s("successor1", x, bv.successor1(x)); }
            else { s("predecessor0", x, bv.predecessor0(x)); s("successor0", x, bv.successor0(x)); }
        }
        for (int k = 0; k < 4; ++k) {
            uint64_t x = r.below(n);
            bit_vector::enumerator e(bv, x);
            for (int j = 0; j < 30 && x < n; ++j) {
                if (r.coin()) { s("enumerator.next", x, e.next()); ++x; }
                else { uint64_t l = r.below(std::min<uint64_t>(63, n - x) + 1); s("enumerator.take", x, e.take(l)); x += l; }
                s("enumerator.position", x, e.position());
            }
        }
    }
    // number of ones at or after pos is known from `ones`
    inline void observe_ones(bit_vector const& bv, std::vector<uint64_t> const& ones, rng_t& r, sink& s) {
        if (ones.empty()) return;
        for (int k = 0; k < 4; ++k) {
            uint64_t i = r.below(ones.size());
            bit_vector::unary_enumerator e(bv, ones[i]);
            for (int j = 0; j < 30 && i < ones.size(); ++j) {
                if (r.coin()) { s("unary.next", i, e.next()); ++i; }
                else { uint64_t d = r.below(std::min<uint64_t>(ones.size() - i, 100)); e.skip(d); i += d; s("unary.next after skip", i, e.next()); ++i; }
            }
        }
    }
    inline std::vector<uint64_t> ones_of(bit_vector const& bv, bool b = true) {
        std::vector<uint64_t> o;
        for (uint64_t i = 0; i < bv.size(); ++i) if (bv[i] == b) o.push_back(i);
        return o;
    }
    inline void observe_rs(rs_bit_vector const& rs, rng_t& r, sink& s) {
        observe_bits(rs, r, s);
        s("num_ones", 0, rs.num_ones()); s("num_zeros", 0, rs.num_zeros());
        if (rs.size()) {
            std::vector<uint64_t> p = ask(r, rs.size() + 1, 300, 150);
            for (size_t i = 0; i < p.size(); ++i) { s("rank", p[i], rs.rank(p[i])); s("rank0", p[i], rs.rank0(p[i])); }
            p = ask(r, rs.num_ones(), 300, 150); for (size_t i = 0; i < p.size(); ++i) s("select", p[i], rs.select(p[i]));
            p = ask(r, rs.num_zeros(), 300, 150); for (size_t i = 0; i < p.size(); ++i) s("select0", p[i], rs.select0(p[i]));
            observe_ones(rs, ones_of(rs), r, s);
        }
    }
    template <typename L> void observe_list(L const& l, rng_t& r, sink& s, bool enumerate = true) {
        uint64_t n = l.size();
        s("size", 0, n);
        std::vector<uint64_t> p = ask(r, n, 800, 200);
        for (size_t i = 0; i < p.size(); ++i) s("operator[]", p[i], uint64_t(l[p[i]]));
    }
    template <typename L> void observe_enum(L const& l, rng_t& r, sink& s) {
        uint64_t n = l.size();
        if (!n) return;
        for (int k = 0; k < 4; ++k) {
            uint64_t i = k ? r.below(n) : 0;
            forward_enumerator<L> e(l, i);
            for (int j = 0; j < 100 && i < n; ++j, ++i) s("forward_enumerator.next", i, uint64_t(e.next()));
        }
    }
    inline void observe_ct(cartesian_tree const& t, rng_t& r, sink& s) {
        uint64_t n = t.size();
        s("size", 0, n);
        for (int k = 0; k < 300 && n; ++k) {
            uint64_t a = r.below(n), b = r.below(n); if (r.coin()) b = std::min(n - 1, a + r.below(70)); if (a > b) std::swap(a, b);
            s("rmq", a, t.rmq(a, b));
        }
    }
    template <typename V> void observe_topk(topk_vector<V> const& t, rng_t& r, sink& s) {
        uint64_t n = t.size();
        observe_list(t, r, s);
        for (int k = 0; k < 40 && n; ++k) {
            uint64_t a = r.below(n), b = r.below(n); if (a > b) std::swap(a, b);
            typename topk_vector<V>::entry_vector_type e = t.topk(a, b, 1 + r.below(12));
            s("topk.size", a, e.size());
            for (size_t i = 0; i < e.size(); ++i) { s("topk.value", i, uint64_t(boost::get<0>(e[i]))); s("topk.index", i, boost::get<1>(e[i])); }
        }
    }

    // ------------------------------------------------------------ input makers
    inline void any_bits(rng_t& r, uint64_t maxn, input& in) {
        uint64_t n = gen::any_size(r, maxn);
        in.bits = gen::bit_pattern(r, n, (unsigned)r.below(gen::n_bit_patterns), in.name);
        in.name += " n=" + num(n);
    }
    inline void any_ints(rng_t& r, uint64_t maxn, unsigned bits, uint64_t maxv, input& in) {
        uint64_t n = gen::any_size(r, maxn);
        in.ints = gen::int_list(r, n, bits, maxv, (unsigned)r.below(gen::n_list_patterns), in.name);
        in.name += " n=" + num(n);
    }
    inline void bits_to_builder(bits_t const& b, bit_vector_builder& bvb, unsigned route) {
        if (route == 0) { for (size_t i = 0; i < b.size(); ++i) bvb.push_back(b[i]); }
        else if (route == 1) {
            bvb.reserve(b.size() + 1000);
            for (size_t i = 0; i < b.size(); ) {
                size_t l = std::min<size_t>(b.size() - i, 1 + (i * 7 + 13) % 64); uint64_t w = 0;
                for (size_t j = 0; j < l; ++j) w |= uint64_t(b[i + j] != 0) << j;
                bvb.append_bits(w, l); i += l;
            }
        } else {
            bit_vector_builder t(b.size(), true);
            for (size_t i = 0; i < b.size(); ++i) t.set(i, b[i]);
            bvb.swap(t);
        }
    }
    static const unsigned n_routes = 3;

    // ------------------------------------------------------------ kinds
    struct K_bits { typedef bit_vector type; static const char* name() { return "bit_vector"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_bits(r, m, in); }
        static void build(input const& in, type& out, unsigned route = 0) {
            if (route == 1) { bit_vector t(in.bits); t.swap(out); }
            else { bit_vector_builder b; bits_to_builder(in.bits, b, route ? 1 : 2); bit_vector t(&b); t.swap(out); } }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_bits(x, r, s); if (x.size() <= 200000) observe_ones(x, ones_of(x), r, s); }
        static uint64_t size(type const& x) { return x.size(); } };

    struct K_rs { typedef rs_bit_vector type; static const char* name() { return "rs_bit_vector"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_bits(r, m, in); in.flags = (unsigned)r.below(4); in.name += " hints=" + num(in.flags); }
        static void build(input const& in, type& out, unsigned route = 0) {
            if (route == 1) { rs_bit_vector t(in.bits, in.flags & 1, in.flags & 2); t.swap(out); }
            else { bit_vector_builder b; bits_to_builder(in.bits, b, route ? 1 : 2); rs_bit_vector t(&b, in.flags & 1, in.flags & 2); t.swap(out); } }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_rs(x, r, s); }
        static uint64_t size(type const& x) { return x.size(); } };

    struct K_bp { typedef bp_vector type; static const char* name() { return "bp_vector"; }
        static void make(rng_t& r, uint64_t m, input& in) {
            uint64_t n = gen::any_size(r, m); in.bits = gen::bp_pattern(r, n, (unsigned)r.below(gen::n_bp_patterns), in.name);
            in.flags = (unsigned)r.below(4); in.name += " n=" + num(in.bits.size()) + " hints=" + num(in.flags); }
        static void build(input const& in, type& out, unsigned route = 0) {
            if (route == 1) { bp_vector t(in.bits, in.flags & 1, in.flags & 2); t.swap(out); }
            else { bit_vector_builder b; bits_to_builder(in.bits, b, route ? 1 : 2); bp_vector t(&b, in.flags & 1, in.flags & 2); t.swap(out); } }
        static void observe(type const& x, unsigned, rng_t r, sink& s) {
            observe_rs(x, r, s);
            uint64_t n = x.size();
            std::vector<uint64_t> p = ask(r, n, 300, 150);
            std::vector<int32_t> ex(n + 1); for (uint64_t i = 0; i < n; ++i) ex[i + 1] = ex[i] + (x[i] ? 1 : -1);
            for (size_t i = 0; i < p.size(); ++i) {
                uint64_t q = p[i];
                s("excess", q, uint64_t(int64_t(x.excess(q))));
                if (x[q]) { s("find_close", q, x.find_close(q)); if (ex[q] > 0) s("enclose", q, x.enclose(q)); }
                else s("find_open", q, x.find_open(q));
                uint64_t a = q, b = r.below(n + 1); if (a > b) std::swap(a, b);
                bp_vector::excess_t m; s("excess_rmq", a, x.excess_rmq(a, b, m)); s("excess_rmq.min", a, uint64_t(int64_t(m)));
            } }
        static uint64_t size(type const& x) { return x.size(); } };

    // the directories with the bit vector they index: a user structure
    struct with_dir { bit_vector bv; darray1 d1; darray0 d0;
        template <typename V> void map(V& visit) { visit(bv, "bv")(d1, "d1")(d0, "d0"); }
        void swap(with_dir& o) { bv.swap(o.bv); d1.swap(o.d1); d0.swap(o.d0); } };
    struct K_darray { typedef with_dir type; static const char* name() { return "darray"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_bits(r, m, in); }
        static void build(input const& in, type& out, unsigned route = 0) {
            with_dir w; K_bits::build(in, w.bv, route); { darray1 d(w.bv); d.swap(w.d1); } { darray0 d(w.bv); d.swap(w.d0); } w.swap(out); }
        static void observe(type const& x, unsigned, rng_t r, sink& s) {
            observe_bits(x.bv, r, s);
            s("darray1.num_positions", 0, x.d1.num_positions()); s("darray0.num_positions", 0, x.d0.num_positions());
            std::vector<uint64_t> p = ask(r, x.d1.num_positions(), 600, 250); for (size_t i = 0; i < p.size(); ++i) s("darray1.select", p[i], x.d1.select(x.bv, p[i]));
            p = ask(r, x.d0.num_positions(), 600, 250); for (size_t i = 0; i < p.size(); ++i) s("darray0.select", p[i], x.d0.select(x.bv, p[i])); }
        static uint64_t size(type const& x) { return x.bv.size() + x.d1.num_positions() + x.d0.num_positions(); } };

    struct K_darray64 { typedef darray64 type; static const char* name() { return "darray64"; }
        static void make(rng_t& r, uint64_t m, input& in) { uint64_t n = gen::any_size(r, m / 16 + 4); unsigned k = (unsigned)r.below(4); in.name = "n=" + num(n);
            for (uint64_t i = 0; i < n; ++i) in.ints.push_back(k == 0 ? r.below(64) : k == 1 ? 63 : k == 2 ? 0 : ((i / 700) & 1) * 63); }
        static void build(input const& in, type& out, unsigned = 0) { darray64::builder b; for (size_t i = 0; i < in.ints.size(); ++i) b.append1(in.ints[i]); darray64 t(&b); t.swap(out); }
        static void observe(type const& x, unsigned, rng_t r, sink& s) {
            s("num_ones", 0, x.num_ones()); observe_bits(x.bits(), r, s);
            std::vector<uint64_t> p = ask(r, x.num_ones(), 600, 250); for (size_t i = 0; i < p.size(); ++i) s("select", p[i], x.select(p[i])); }
        static uint64_t size(type const& x) { return x.num_ones(); } };

    struct K_ef { typedef elias_fano type; static const char* name() { return "elias_fano"; }
        static void make(rng_t& r, uint64_t m, input& in) {
            if (r.chance(.25)) { any_bits(r, m, in); in.flags = 2 | unsigned(r.coin()); in.name = "from bits " + in.name; }
            else { gen::ef_input e = gen::ef_sequence(r, m, true); in.ints = e.v; in.n = e.n; in.flags = unsigned(r.coin()); in.name = e.name + " m=" + num(e.v.size()) + " u=" + num(e.n); }
            in.name += (in.flags & 1) ? " +rank" : ""; }
        static void build(input const& in, type& out, unsigned route = 0) {
            if (in.flags & 2) { bit_vector_builder b; bits_to_builder(in.bits, b, route); elias_fano t(&b, in.flags & 1); t.swap(out); }
            else { elias_fano::elias_fano_builder b(in.n, in.ints.size()); for (size_t i = 0; i < in.ints.size(); ++i) b.push_back(in.ints[i]); elias_fano t(&b, in.flags & 1); t.swap(out); } }
        static void observe(type const& x, unsigned flags, rng_t r, sink& s) {
            uint64_t n = x.size(), m = x.num_ones();
            s("size", 0, n); s("num_ones", 0, m);
            std::vector<uint64_t> p = ask(r, m, 600, 200);
            for (size_t i = 0; i < p.size(); ++i) {
                uint64_t v = x.select(p[i]);
                s("select", p[i], v); s("delta", p[i], x.delta(p[i]));
                if (p[i] + 1 < m) { std::pair<uint64_t, uint64_t> q = x.select_range(p[i]); s("select_range.first", p[i], q.first); s("select_range.second", p[i], q.second); }
                if (flags & 1) {
                    s("rank", v, x.rank(v)); s("operator[]", v, x[v]); s("predecessor1", v, x.predecessor1(v)); s("successor1", v, x.successor1(v));
                    uint64_t y = n ? r.below(n) : 0; s("rank", y, x.rank(y)); if (y < n) s("operator[]", y, x[y]);
                }
            }
            if (flags & 1) s("rank", n, x.rank(n));
            for (int k = 0; k < 4 && m; ++k) { uint64_t i = k ? r.below(m) : 0; elias_fano::select_enumerator e(x, i); for (int j = 0; j < 80 && i < m; ++j, ++i) s("select_enumerator.next", i, e.next()); } }
        static uint64_t size(type const& x) { return x.size() + x.num_ones(); } };

    template <typename L> void build_list(input const& in, L& out, unsigned route) {
        if (route == 1) { std::list<uint64_t> l(in.ints.begin(), in.ints.end()); L t(l); t.swap(out); }
        else if (route == 2) { std::deque<uint64_t> l(in.ints.begin(), in.ints.end()); L t(l); t.swap(out); }
        else { L t(in.ints); t.swap(out); }
    }
    struct K_efl { typedef elias_fano_list type; static const char* name() { return "elias_fano_list"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m, (unsigned)r.range(1, 44), UINT64_MAX, in); }
        static void build(input const& in, type& out, unsigned route = 0) { build_list(in, out, route); }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_list(x, r, s); observe_enum(x, r, s); s("sum", 0, x.sum()); }
        static uint64_t size(type const& x) { return x.size() + x.sum(); } };
    struct K_efcl { typedef elias_fano_compressed_list type; static const char* name() { return "elias_fano_compressed_list"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m, (unsigned)r.range(1, 64), UINT64_MAX - 1, in); }
        static void build(input const& in, type& out, unsigned route = 0) { build_list(in, out, route); }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_list(x, r, s); observe_enum(x, r, s); }
        static uint64_t size(type const& x) { return x.size(); } };
    struct K_gv { typedef gamma_vector type; static const char* name() { return "gamma_vector"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m, (unsigned)r.range(1, 64), UINT64_MAX - 1, in); }
        static void build(input const& in, type& out, unsigned route = 0) { build_list(in, out, route); }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_list(x, r, s); observe_enum(x, r, s); }
        static uint64_t size(type const& x) { return x.size(); } };
    struct K_gbv { typedef gamma_bit_vector type; static const char* name() { return "gamma_bit_vector"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m, (unsigned)r.range(1, 64), UINT64_MAX - 2, in); }
        static void build(input const& in, type& out, unsigned route = 0) { build_list(in, out, route); }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_list(x, r, s); observe_enum(x, r, s); }
        static uint64_t size(type const& x) { return x.size(); } };
    struct K_nib { typedef nibble_vector type; static const char* name() { return "nibble_vector"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m, 4, 15, in); }
        static void build(input const& in, type& out, unsigned route = 0) { build_list(in, out, route); }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_list(x, r, s); }
        static uint64_t size(type const& x) { return x.size(); } };

    struct K_ct { typedef cartesian_tree type; static const char* name() { return "cartesian_tree"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m / 2 + 1, (unsigned)r.range(1, 64), UINT64_MAX, in); }
        static void build(input const& in, type& out, unsigned route = 0) {
            if (route == 1) { cartesian_tree::builder<uint64_t> b(in.ints.size()); for (size_t i = 0; i < in.ints.size(); ++i) b.push_back(in.ints[i], std::less<uint64_t>()); cartesian_tree t(&b); t.swap(out); }
            else if (route == 2) { std::list<uint64_t> l(in.ints.begin(), in.ints.end()); cartesian_tree t(l); t.swap(out); }
            else { cartesian_tree t(in.ints, std::less<uint64_t>()); t.swap(out); } }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_ct(x, r, s); }
        static uint64_t size(type const& x) { return x.size(); } };

    template <typename V> struct topk_name;
    template <> struct topk_name<gamma_vector> { static const char* get() { return "topk_vector<gamma_vector>"; } static unsigned bits() { return 64; } };
    template <> struct topk_name<gamma_bit_vector> { static const char* get() { return "topk_vector<gamma_bit_vector>"; } static unsigned bits() { return 63; } };
    template <> struct topk_name<elias_fano_list> { static const char* get() { return "topk_vector<elias_fano_list>"; } static unsigned bits() { return 40; } };
    template <> struct topk_name<elias_fano_compressed_list> { static const char* get() { return "topk_vector<elias_fano_compressed_list>"; } static unsigned bits() { return 64; } };
    template <> struct topk_name<mapper::mappable_vector<uint64_t> > { static const char* get() { return "topk_vector<mappable_vector>"; } static unsigned bits() { return 64; } };
    template <typename V> struct K_topk { typedef topk_vector<V> type; static const char* name() { return topk_name<V>::get(); }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m / 2 + 1, (unsigned)r.range(1, topk_name<V>::bits()), UINT64_MAX - 1, in); }
        static void build(input const& in, type& out, unsigned route = 0) { build_list(in, out, route); }
        static void observe(type const& x, unsigned, rng_t r, sink& s) { observe_topk(x, r, s); }
        static uint64_t size(type const& x) { return x.size(); } };

    template <typename T> struct vec_name;
    template <> struct vec_name<uint64_t> { static const char* get() { return "mappable_vector<uint64_t>"; } };
    template <> struct vec_name<uint16_t> { static const char* get() { return "mappable_vector<uint16_t>"; } };
    template <> struct vec_name<uint8_t> { static const char* get() { return "mappable_vector<uint8_t>"; } };
    template <typename T> struct K_vec { typedef mapper::mappable_vector<T> type; static const char* name() { return vec_name<T>::get(); }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m, sizeof(T) * 8, UINT64_MAX, in); }
        static void build(input const& in, type& out, unsigned route = 0) {
            std::vector<T> v(in.ints.begin(), in.ints.end());
            if (route == 0) { type t(v); t.swap(out); } else if (route == 1) { out.assign(v); } else { out.steal(v); } }
        static void observe(type const& x, unsigned, rng_t r, sink& s) {
            observe_list(x, r, s); observe_enum(x, r, s);
            uint64_t k = 0; for (typename type::const_iterator i = x.begin(); i != x.end() && k < 300; ++i, ++k) s("iterator", k, uint64_t(*i)); s("distance", 0, uint64_t(x.end() - x.begin())); }
        static uint64_t size(type const& x) { return x.size(); } };

    // a user structure: plain fields of several sizes around nested structures (also one of the user's own)
    struct point { uint32_t x; int32_t y; };
    struct inner { uint8_t tag; nibble_vector nib; mapper::mappable_vector<uint32_t> pods; bool flag;
        inner() : tag(0), flag(false) {}
        template <typename V> void map(V& visit) { visit(tag, "tag")(nib, "nib")(pods, "pods")(flag, "flag"); }
        void swap(inner& o) { std::swap(tag, o.tag); nib.swap(o.nib); pods.swap(o.pods); std::swap(flag, o.flag); } };
    struct outer { uint16_t version; inner in1; double weight; elias_fano ef; point pt; bp_vector bp; topk_vector<gamma_bit_vector> topk; inner in2; bit_vector bv; char last;
        outer() : version(0), weight(0), last(0) { pt.x = 0; pt.y = 0; }
        template <typename V> void map(V& visit) { visit(version, "version")(in1, "in1")(weight, "weight")(ef, "ef")(pt, "pt")(bp, "bp")(topk, "topk")(in2, "in2")(bv, "bv")(last, "last"); }
        void swap(outer& o) { std::swap(version, o.version); in1.swap(o.in1); std::swap(weight, o.weight); ef.swap(o.ef); std::swap(pt, o.pt); bp.swap(o.bp); topk.swap(o.topk); in2.swap(o.in2); bv.swap(o.bv); std::swap(last, o.last); } };
    struct K_user { typedef outer type; static const char* name() { return "user structure"; }
        static void make(rng_t& r, uint64_t m, input& in) { any_ints(r, m, 40, UINT64_MAX, in); std::string nm = in.name; uint64_t n = gen::any_size(r, m); in.bits = gen::bp_pattern(r, n, (unsigned)r.below(gen::n_bp_patterns), in.name); in.name = nm + " bp=" + num(in.bits.size()); in.n = r.next(); }
        static void build(input const& in, type& out, unsigned route = 0) {
            outer o;
            o.version = uint16_t(in.n); o.weight = double(in.n >> 12) / 3; o.pt.x = uint32_t(in.n >> 7); o.pt.y = -int32_t(in.n & 0xffff); o.last = char(in.n >> 24);
            for (int k = 0; k < 2; ++k) {
                inner& i = k ? o.in2 : o.in1; i.tag = uint8_t(in.n >> (k * 8)); i.flag = (in.n >> 33) & 1;
                std::vector<uint8_t> nb; std::vector<uint32_t> ps;
                for (size_t j = k; j < in.ints.size(); j += 1 + size_t(k)) { nb.push_back(in.ints[j] & 15); ps.push_back(uint32_t(in.ints[j] * 3 + j)); }
                { nibble_vector t(nb); t.swap(i.nib); } i.pods.steal(ps);
            }
            std::vector<uint64_t> sorted(in.ints); std::sort(sorted.begin(), sorted.end());
            { elias_fano::elias_fano_builder b(sorted.empty() ? 0 : sorted.back() + 1, sorted.size()); for (size_t i = 0; i < sorted.size(); ++i) b.push_back(sorted[i]); elias_fano t(&b); t.swap(o.ef); }
            { bit_vector_builder b; bits_to_builder(in.bits, b, route); bp_vector t(&b, true, true); t.swap(o.bp); }
            { topk_vector<gamma_bit_vector> t(in.ints); t.swap(o.topk); }
            K_bits::build(in, o.bv, route);
            o.swap(out); }
        static void observe(type const& x, unsigned flags, rng_t r, sink& s) {
            s("version", 0, x.version); uint64_t w; memcpy(&w, &x.weight, 8); s("weight", 0, w); s("pt.x", 0, x.pt.x); s("pt.y", 0, uint64_t(int64_t(x.pt.y))); s("last", 0, uint8_t(x.last));
            for (int k = 0; k < 2; ++k) { inner const& i = k ? x.in2 : x.in1; s("tag", k, i.tag); s("flag", k, i.flag); observe_list(i.nib, r, s);
                s("pods.size", k, i.pods.size()); for (uint64_t j = 0; j < i.pods.size() && j < 300; ++j) { s("pod", j, i.pods[j]); } }
            K_ef::observe(x.ef, (flags & 8) ? 0 : 1, r, s); K_bp::observe(x.bp, 3, r, s); observe_topk(x.topk, r, s); observe_bits(x.bv, r, s); }
        static uint64_t size(type const& x) { return x.in1.nib.size() + x.in2.nib.size() + x.in1.pods.size() + x.in2.pods.size() + x.ef.size() + x.ef.num_ones() + x.bp.size() + x.topk.size() + x.bv.size(); } };

    static const unsigned n_kinds = 21;
    // f.template go<K>() for the kind-th kind
    template <typename F> void dispatch(unsigned kind, F& f) {
        switch (kind) {
        case 0: f.template go<K_bits>(); break;
        case 1: f.template go<K_rs>(); break;
        case 2: f.template go<K_bp>(); break;
        case 3: f.template go<K_darray>(); break;
        case 4: f.template go<K_darray64>(); break;
        case 5: f.template go<K_ef>(); break;
        case 6: f.template go<K_efl>(); break;
        case 7: f.template go<K_efcl>(); break;
        case 8: f.template go<K_gv>(); break;
        case 9: f.template go<K_gbv>(); break;
        case 10: f.template go<K_nib>(); break;
        case 11: f.template go<K_ct>(); break;
        case 12: f.template go<K_topk<gamma_vector> >(); break;
        case 13: f.template go<K_topk<elias_fano_list> >(); break;
        case 14: f.template go<K_topk<elias_fano_compressed_list> >(); break;
        case 15: f.template go<K_topk<mapper::mappable_vector<uint64_t> > >(); break;
        case 16: f.template go<K_vec<uint64_t> >(); break;
        case 17: f.template go<K_vec<uint16_t> >(); break;
        case 18: f.template go<K_vec<uint8_t> >(); break;
        case 19: f.template go<K_user>(); break;
        default: f.template go<K_topk<gamma_bit_vector> >(); break;
        }
    }
}
