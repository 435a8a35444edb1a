// C12 / C13: cartesian_tree and topk_vector against direct search in the array.
#include "listgen.hpp"
#include <list>
#include <deque>
#include <boost/iterator/transform_iterator.hpp>
#include <boost/iterator/counting_iterator.hpp>
#include "util.hpp"
#include "cartesian_tree.hpp"
#include "topk_vector.hpp"
#include "gamma_vector.hpp"
#include "gamma_bit_vector.hpp"
#include "elias_fano_list.hpp"
#include "elias_fano_compressed_list.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;
typedef std::vector<uint64_t> ints;

// leftmost extremum by sparse table over ranks (so that one oracle serves every element type)
template <typename V, typename C> struct rmq_oracle {
    V const& v; C c; std::vector<std::vector<uint32_t> > t;
    rmq_oracle(V const& v_, C c_) : v(v_), c(c_) {
        uint64_t n = v.size(); t.push_back(std::vector<uint32_t>(n)); for (uint64_t i = 0; i < n; ++i) t[0][i] = uint32_t(i);
        for (uint64_t k = 1; (uint64_t(1) << k) <= n; ++k) { uint64_t len = n + 1 - (uint64_t(1) << k); t.push_back(std::vector<uint32_t>(len)); for (uint64_t i = 0; i < len; ++i) t[k][i] = best(t[k - 1][i], t[k - 1][i + (uint64_t(1) << (k - 1))]); }
    }
    uint32_t best(uint32_t a, uint32_t b) const { return c(v[b], v[a]) ? b : a; } // a is left of b
    uint64_t get(uint64_t a, uint64_t b) const { unsigned k = 0; while ((uint64_t(2) << k) <= b - a + 1) ++k; return best(t[k][a], t[k][b + 1 - (uint64_t(1) << k)]); }
};

template <typename V, typename C> void check_rmq(cartesian_tree const& ct, V const& v, C c, rng_t& r) {
    uint64_t n = v.size();
    MON_EQ("cartesian_tree.size", 0, 0, n, ct.size());
    if (!n) return;
    rmq_oracle<V, C> o(v, c);
    if (n <= 70) { for (uint64_t a = 0; a < n; ++a) for (uint64_t b = a; b < n; ++b) MON_EQ("rmq", a, b, o.get(a, b), ct.rmq(a, b)); return; }
    int K = n > 20000 ? 3000 : 1000;
    for (int k = 0; k < K; ++k) {
        uint64_t a = r.below(n), b;
        switch (r.below(5)) { case 0: b = std::min(n - 1, a + r.below(100)); break; case 1: b = std::min(n - 1, a + r.below(3000)); break; case 2: a = 0; b = r.below(n); break; case 3: b = n - 1; break; default: b = r.below(n); }
        if (a > b) std::swap(a, b);
        MON_EQ("rmq", a, b, o.get(a, b), ct.rmq(a, b));
        if (b - a > 50000) mon::hit("rmq over a long range");
    }
    MON_EQ("rmq", 0, n - 1, o.get(0, n - 1), ct.rmq(0, n - 1));
}

static const unsigned n_shapes = 10;
static ints array_shape(rng_t& r, uint64_t n, unsigned kind, std::string& nm) {
    ints v(n);
    switch (kind) {
    case 0: nm = "random"; for (size_t i = 0; i < n; ++i) v[i] = r.next() >> 1; break;
    case 1: { uint64_t k = 1 + r.below(4); nm = "few-values"; for (size_t i = 0; i < n; ++i) v[i] = r.below(k); break; }
    case 2: nm = "increasing"; for (size_t i = 0; i < n; ++i) v[i] = i; break;
    case 3: nm = "decreasing"; for (size_t i = 0; i < n; ++i) v[i] = n - i; break;
    case 4: nm = "equal"; break;
    case 5: { nm = "valleys"; uint64_t p = 2 + r.below(3000); for (size_t i = 0; i < n; ++i) { uint64_t x = i % p; v[i] = x < p / 2 ? p - x : x; } break; }
    case 6: { nm = "blocks-of-ties"; for (size_t i = 0; i < n; ) { uint64_t x = r.below(6), k = 1 + r.below(700); while (k-- && i < n) v[i++] = x; } break; }
    case 7: { nm = "walk"; uint64_t x = 1 << 20; for (size_t i = 0; i < n; ++i) { x += r.below(3); x -= 1; v[i] = x; } break; }
    case 8: { nm = "stairs"; for (size_t i = 0; i < n; ++i) v[i] = r.coin() ? i / 300 : n - i / 300; break; }
    default: { nm = "sorted-with-swaps"; for (size_t i = 0; i < n; ++i) v[i] = r.coin() ? i : i; for (size_t k = 0; k < n / 10 + 1 && n; ++k) std::swap(v[r.below(n)], v[r.below(n)]); }
    }
    return v;
}

struct modulo { uint64_t m; bool operator()(uint64_t a, uint64_t b) const { return a % m < b % m; } };
struct by_len { bool operator()(std::string const& a, std::string const& b) const { return a.size() < b.size(); } };
struct item { int key; int tag; bool operator<(item const& o) const { return key < o.key; } };

template <typename T, typename C> void built(std::vector<T> const& v, C c, rng_t& r, const char* how, bool def_less) {
    MON_OP("cartesian_tree.ctor", v.size(), 0);
    switch (r.below(def_less ? 4 : 3)) {
    case 0: { cartesian_tree t(v, c); check_rmq(t, v, c, r); break; }
    case 1: { std::list<T> l(v.begin(), v.end()); cartesian_tree t(l, c); check_rmq(t, v, c, r); mon::hit("from list"); break; }
    case 2: { cartesian_tree::builder<T> b(r.coin() ? 0 : r.below(2 * v.size() + 1)); for (size_t i = 0; i < v.size(); ++i) b.push_back(v[i], c); cartesian_tree t(&b); check_rmq(t, v, c, r); mon::hit("through the builder"); break; }
    default: { cartesian_tree t(v); check_rmq(t, v, c, r); mon::hit("default order"); }
    }
    mon::hit(std::string("type:") + how);
}

static void ct_case(uint64_t id, rng_t& r) {
    if (id < 7) { // every array of this length over 4 values, every range
        uint64_t n = id, tot = 1; for (uint64_t i = 0; i < n; ++i) tot *= 4;
        for (uint64_t x = 0; x < tot; ++x) { ints v; uint64_t y = x; for (uint64_t i = 0; i < n; ++i) { v.push_back(y % 4); y /= 4; } cartesian_tree t(v); check_rmq(t, v, std::less<uint64_t>(), r); mon::nontrivial(mon::mix(n, x)); }
        mon::describe("every array of length " + num(n) + " over 4 values"); return;
    }
    uint64_t n = id % 50 == 0 ? r.range(50000, 500000) : any_size(r, id % 10 == 0 ? 60000 : 4000);
    std::string nm; ints v = array_shape(r, n, (unsigned)((id / 3) % n_shapes), nm);
    mon::describe(nm + " n=" + num(n)); mon::nontrivial(mon::mix(mon::hash_vec(v), id % 8));
    switch (n > 60000 ? r.below(3) : r.below(9)) {
    case 0: built(v, std::less<uint64_t>(), r, "uint64 less", true); break;
    case 1: built(v, std::greater<uint64_t>(), r, "uint64 greater", false); break;
    case 2: { modulo c = {1 + r.below(9)}; built(v, c, r, "uint64 modulo order", false); break; }
    case 3: { std::vector<double> d; for (size_t i = 0; i < n; ++i) d.push_back((double(v[i] % 1000) - 500) / 7); built(d, std::less<double>(), r, "double", true); break; }
    case 4: { std::vector<std::string> s; for (size_t i = 0; i < n; ++i) { std::string q(v[i] % 5, char('a' + v[i] % 3)); s.push_back(q); } built(s, by_len(), r, "string by length", false); break; }
    case 5: { std::vector<std::string> s; for (size_t i = 0; i < n; ++i) { std::string q(v[i] % 5, char('a' + v[i] % 3)); s.push_back(q); } built(s, std::less<std::string>(), r, "string", true); break; }
    case 6: { std::vector<item> s; for (size_t i = 0; i < n; ++i) { item q = {int(v[i] % 7) - 3, int(i)}; s.push_back(q); } built(s, std::less<item>(), r, "struct", true); break; }
    case 7: { std::vector<int8_t> s; for (size_t i = 0; i < n; ++i) s.push_back(int8_t(v[i])); built(s, std::less<int8_t>(), r, "int8", true); break; }
    default: { std::vector<uint8_t> s; for (size_t i = 0; i < n; ++i) s.push_back(uint8_t(v[i])); built(s, std::greater<uint8_t>(), r, "uint8 greater", false); }
    }
}

// ------------------------------------------------------------------ C13
template <typename T> struct desc { std::vector<T> const* v; bool operator()(uint64_t a, uint64_t b) const { return (*v)[a] > (*v)[b] || ((*v)[a] == (*v)[b] && a < b); } };

template <typename T> std::vector<uint64_t> order(std::vector<T> const& v, uint64_t a, uint64_t b, uint64_t k) {
    std::vector<uint64_t> o; for (uint64_t i = a; i <= b; ++i) o.push_back(i); desc<T> d = {&v}; k = std::min<uint64_t>(k, o.size());
    std::partial_sort(o.begin(), o.begin() + ptrdiff_t(k), o.end(), d); o.resize(k); return o;
}

template <typename TV, typename T> void check_topk(TV const& tk, std::vector<T> const& v, rng_t& r) {
    typedef typename TV::entry_vector_type entries;
    uint64_t n = v.size();
    MON_EQ("topk.size", 0, 0, n, tk.size());
    for (uint64_t i = 0; i < n; i += 1 + (n > 3000 ? r.below(20) : 0)) MON_TRUE("topk[]", i, 0, tk[i] == v[i], "stored value differs");
    if (!n) return;
    typename TV::enumerator reused;
    int Q = n <= 24 ? 0 : n > 5000 ? 25 : 60;
    std::vector<std::pair<uint64_t, uint64_t> > ranges;
    if (!Q) { for (uint64_t a = 0; a < n; ++a) for (uint64_t b = a; b < n; ++b) ranges.push_back(std::make_pair(a, b)); }
    for (int q = 0; q < Q; ++q) { uint64_t a = r.below(n), b = r.coin() ? std::min(n - 1, a + r.below(60)) : r.below(n); if (a > b) std::swap(a, b); ranges.push_back(std::make_pair(a, b)); }
    for (size_t q = 0; q < ranges.size(); ++q) {
        uint64_t a = ranges[q].first, b = ranges[q].second, len = b - a + 1;
        uint64_t k = r.chance(.1) ? 0 : r.chance(.3) ? len : r.chance(.2) ? len + r.below(10) : r.below(std::min<uint64_t>(len, 60) + 1);
        if (k > 4000 && k <= len) k = 4000;
        std::vector<uint64_t> o = order(v, a, b, std::max<uint64_t>(k, std::min<uint64_t>(len, 80)));
        MON_OP("topk", a, b);
        entries e = tk.topk(a, b, k);
        MON_EQ("topk.count", a, b, std::min(k, len), e.size());
        for (size_t i = 0; i < e.size(); ++i) {
            MON_EQ("topk.index", i, k, o[i], boost::get<1>(e[i]));
            MON_TRUE("topk.value", i, k, boost::get<0>(e[i]) == v[o[i]], "value differs from the stored one");
        }
        // the enumerator: fresh, reused, copied, swapped
        MON_OP("get_topk_enumerator", a, b);
        typename TV::enumerator it = tk.get_topk_enumerator(a, b), copy;
        if (r.coin()) { tk.get_topk_enumerator(a, b, reused); it.swap(reused); mon::hit("enumerator reused"); }
        uint64_t lim = std::min<uint64_t>(len, o.size()), fork = r.below(lim + 1); bool forked = false;
        for (uint64_t i = 0; i < lim; ++i) {
            if (i == fork) { copy = it; forked = true; }
            MON_EQ("enumerator.next", i, lim, true, it.next());
            MON_EQ("enumerator.index", i, lim, o[i], boost::get<1>(it.value()));
            MON_TRUE("enumerator.value", i, lim, boost::get<0>(it.value()) == v[o[i]], "value differs");
        }
        if (lim == len) { MON_EQ("enumerator.exhausted", a, b, false, it.next()); MON_EQ("enumerator.exhausted", a, b, false, it.next()); mon::hit("enumerated to exhaustion"); }
        if (forked) { mon::hit("enumerator copied"); typename TV::enumerator other = tk.get_topk_enumerator(b, b); bool ahead = r.coin(); if (ahead) MON_EQ("enumerator.next", b, b, true, other.next());
            if (fork) MON_EQ("enumerator.index(copy, before next)", fork, lim, o[fork - 1], boost::get<1>(copy.value()));
            other.swap(copy); mon::hit("enumerators swapped");
            if (fork) MON_EQ("enumerator.index(swapped, before next)", fork, lim, o[fork - 1], boost::get<1>(other.value()));
            if (ahead) { MON_EQ("enumerator.index(swapped, before next)", b, b, b, boost::get<1>(copy.value())); MON_TRUE("enumerator.value(swapped, before next)", b, b, boost::get<0>(copy.value()) == v[b], "value differs"); }
            for (uint64_t i = fork; i < lim; ++i) { MON_EQ("enumerator.next(copy)", i, lim, true, other.next()); MON_EQ("enumerator.index(copy)", i, lim, o[i], boost::get<1>(other.value())); }
            if (!ahead) MON_EQ("enumerator.next(swapped)", b, b, true, copy.next()); MON_EQ("enumerator.index(swapped)", b, b, b, boost::get<1>(copy.value())); MON_EQ("enumerator.exhausted", b, b, false, copy.next()); }
        if (r.chance(.2)) { it.clear(); MON_EQ("enumerator.cleared", a, b, false, it.next()); mon::hit("enumerator cleared"); }
        for (size_t i = 1; i < o.size(); ++i) if (v[o[i]] == v[o[i - 1]]) { mon::hit("ties in the answer"); break; }
    }
}

template <typename L, typename T> void one_topk(std::vector<T> const& v, rng_t& r, const char* what) {
    mon::hit(std::string("over ") + what); MON_OP("topk_vector.ctor", v.size(), 0);
    topk_vector<L> tk(v); check_topk(tk, v, r);
}

static void topk_case(uint64_t id, rng_t& r) {
    if (id < 6) { uint64_t n = id, tot = 1; for (uint64_t i = 0; i < n; ++i) tot *= 3;
        for (uint64_t x = 0; x < tot; ++x) { ints v; uint64_t y = x; for (uint64_t i = 0; i < n; ++i) { v.push_back(y % 3); y /= 3; } one_topk<elias_fano_compressed_list>(v, r, "elias_fano_compressed_list"); mon::nontrivial(mon::mix(n, x)); }
        mon::describe("every vector of length " + num(n) + " over 3 values"); return; }
    uint64_t n = id % 60 == 0 ? r.range(20000, 120000) : any_size(r, id % 10 == 0 ? 9000 : 700);
    std::string nm; ints v = array_shape(r, n, (unsigned)((id / 7) % n_shapes), nm);
    if (r.chance(.2)) v = int_list(r, n, 64, UINT64_MAX - 2, 0, nm);
    mon::describe("topk " + nm + " n=" + num(n)); mon::nontrivial(mon::mix(mon::hash_vec(v), id % 7));
    switch (id % 7) {
    case 0: one_topk<mapper::mappable_vector<uint64_t> >(v, r, "mappable_vector<uint64_t>"); break;
    case 1: one_topk<gamma_vector>(v, r, "gamma_vector"); break;
    case 2: one_topk<gamma_bit_vector>(v, r, "gamma_bit_vector"); break;
    case 3: { uint64_t s = 0; for (size_t i = 0; i < n; ++i) { v[i] >>= 20; s += v[i]; } one_topk<elias_fano_list>(v, r, "elias_fano_list"); break; }
    case 4: { std::vector<int64_t> w; for (size_t i = 0; i < n; ++i) w.push_back(int64_t(v[i] % 2001) - 1000); one_topk<mapper::mappable_vector<int64_t> >(w, r, "mappable_vector<int64_t>"); break; }
    case 5: { std::vector<double> w; for (size_t i = 0; i < n; ++i) w.push_back(double(v[i] % 977) / 8 - 50); one_topk<mapper::mappable_vector<double> >(w, r, "mappable_vector<double>"); break; }
    default: one_topk<elias_fano_compressed_list>(v, r, "elias_fano_compressed_list");
    }
}

// beyond 2^32 elements (and 2^33 parentheses), the array being a saw that is never stored
struct saw { typedef uint32_t result_type; uint64_t p, n; bool down; uint32_t operator()(uint64_t i) const { return uint32_t(down ? p - i % p : i % p); } };
static void huge_case(uint64_t id, rng_t& r) {
    uint64_t n = (uint64_t(1) << 32) + 70000 + r.below(1000); saw f = {60000 + r.below(20000), n, false};
    mon::describe("saw of period " + num(f.p) + " n=" + num(n)); mon::nontrivial(mon::mix(id + 99, f.p));
    cartesian_tree::builder<uint32_t> b(n); uint64_t x = 0;
    for (uint64_t i = 0; i < n; ++i) { b.push_back(uint32_t(x), std::less<uint32_t>()); if (++x == f.p) x = 0; }
    cartesian_tree t(&b);
    MON_EQ("cartesian_tree.size", 0, 0, n, t.size()); mon::hit("more than 2^32 elements");
    for (int k = 0; k < 40000; ++k) {
        uint64_t a, e; uint64_t base = r.chance(.4) ? n - r.below(200000) - 1 : r.chance(.3) ? (uint64_t(1) << (30 + r.below(3))) - 100000 + r.below(200000) : r.below(n);
        a = std::min(n - 1, base); e = r.coin() ? std::min(n - 1, a + r.below(f.p * 3)) : r.below(n); if (a > e) std::swap(a, e);
        uint64_t z = (a + f.p - 1) / f.p * f.p; MON_EQ("rmq", a, e, z <= e ? z : a, t.rmq(a, e));
    }
}

// the same for top-k, over a storage of the user's that computes its values
typedef boost::transform_iterator<saw, boost::counting_iterator<uint64_t> > saw_iterator;
struct saw_storage {
    typedef uint32_t value_type; saw f; saw_storage() { f.p = 1; f.n = 0; f.down = false; }
    template <typename R> saw_storage(R const& v) : f(boost::begin(v).functor()) {}
    value_type operator[](uint64_t i) const { return f(i); } uint64_t size() const { return f.n; } void swap(saw_storage& o) { std::swap(f, o.f); }
};
static void huge_topk(uint64_t id, rng_t& r) {
    uint64_t n = (uint64_t(1) << 32) + 70000 + r.below(1000); saw f = {60000 + r.below(20000), n, false};
    mon::describe("top-k of a saw of period " + num(f.p) + " n=" + num(n)); mon::nontrivial(mon::mix(id + 98, f.p));
    saw_iterator b(boost::counting_iterator<uint64_t>(0), f), e(boost::counting_iterator<uint64_t>(n), f);
    topk_vector<saw_storage> t(boost::make_iterator_range(b, e));
    MON_EQ("topk.size", 0, 0, n, t.size()); mon::hit("more than 2^32 elements");
    for (int k = 0; k < 1500; ++k) {
        uint64_t a = r.chance(.5) ? n - 1 - r.below(300000) : r.below(n), z = r.coin() ? std::min(n - 1, a + r.below(f.p * 3)) : r.below(n), want = 1 + r.below(40); if (a > z) std::swap(a, z);
        std::vector<uint64_t> o; // residues from the highest down, each in increasing positions
        for (uint64_t q = f.p; q-- > 0 && o.size() < want; ) for (uint64_t i = a + (q + f.p - a % f.p) % f.p; i <= z && o.size() < want; i += f.p) o.push_back(i);
        topk_vector<saw_storage>::entry_vector_type g = t.topk(a, z, want);
        MON_EQ("topk.count", a, z, std::min(want, z - a + 1), g.size());
        for (size_t i = 0; i < g.size(); ++i) { MON_EQ("topk.index", i, want, o[i], boost::get<1>(g[i])); MON_EQ("topk.value", i, want, f(o[i]), boost::get<0>(g[i])); }
    }
}

int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (opt().huge()) return mon::run_cases(1, opt().prop == "C12" ? huge_case : huge_topk);
    if (opt().prop == "C12") return mon::run_cases(7 + opt().n(2500, 40000), ct_case);
    return mon::run_cases(6 + opt().n(3000, 40000), topk_case);
}
