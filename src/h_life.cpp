// C20: random histories of swap, build, map, assign, steal, clear and disposal over a pool of objects, against a model of
// what each object holds; every allocation is accounted for.
// C21: the same building blocks with the k-th allocation failing, for every k.
#include "alloc.hpp"
#include "zoo.hpp"
#include <boost/range/adaptor/reversed.hpp>
#include <boost/range/adaptor/indirected.hpp>
#include <fstream>
using namespace zoo;
using mon::opt;

template <typename K> struct content { input in; sink ref, bare; std::string bytes; bool empty; uint64_t size; content() : ref(true), bare(true), empty(true), size(0) {} };
// flags of the queries that a default-constructed object answers too (no rank index of its own)
static input bare_input() { input i; i.flags = 8; return i; }
static const uint64_t Q = 4711;

template <typename K> sink ask_all(typename K::type const& x, input const& in) {
    alloc::scope off(false); sink s(true);
    MON_OP("observe", 0, 0); K::observe(x, in.flags, rng_t(Q), s); return s;
}
template <typename K> void expect(const char* what, typename K::type const& x, content<K> const& c) {
    alloc::scope off(false);
    MON_EQ("size", 0, 0, c.size, K::size(x));
    sink s = ask_all<K>(x, c.in); same_answers(what, c.ref, s);
}
template <typename K> void make_content(rng_t& r, uint64_t maxn, content<K>& c, bool frozen) {
    alloc::scope off(false);
    K::make(r, maxn, c.in); c.empty = false;
    typename K::type x; K::build(c.in, x, 0); c.ref = ask_all<K>(x, c.in); c.bare = ask_all<K>(x, bare_input()); c.size = K::size(x);
    if (frozen) { std::string p = opt().scratch + "/f.bin"; mapper::freeze(x, p.c_str()); std::ifstream i(p.c_str(), std::ios::binary); c.bytes.assign((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
}
template <typename K> content<K> empty_content() { alloc::scope off(false); content<K> c; typename K::type x; c.in = bare_input(); c.ref = ask_all<K>(x, c.in); c.bare = c.ref; c.size = 0; return c; }

// ------------------------------------------------------------------ vectors only
template <typename K> struct vec_ops {
    static bool run(rng_t&, typename K::type&, content<K>&) { return false; }
};
template <typename T> struct vec_ops<K_vec<T> > {
    typedef K_vec<T> K; typedef typename K::type V;
    static bool run(rng_t& r, V& x, content<K>& c) {
        std::vector<T> now(x.begin(), x.end()), want;
        unsigned op = (unsigned)r.below(8);
        switch (op) {
        case 6: { MON_OP("assign own elements reversed", 0, 0); want.assign(now.rbegin(), now.rend()); { alloc::scope on; x.assign(boost::adaptors::reverse(boost::make_iterator_range(x.begin(), x.end()))); } mon::hit("assigned from its own elements in another order"); break; }
        case 7: { // a longer or shorter view of its own elements
            if (now.empty()) return false; uint64_t len = r.coin() ? now.size() : r.below(2 * now.size()), step = 1 + r.below(7), at = r.below(now.size()); MON_OP("assign own elements permuted", len, step);
            std::vector<T const*> p; for (uint64_t i = 0; i < len; ++i) { uint64_t j = (at + i * step) % now.size(); want.push_back(now[j]); p.push_back(x.begin() + j); }
            { alloc::scope on; x.assign(p | boost::adaptors::indirected); } mon::hit("assigned from its own elements in another order"); break; }
        case 0: case 1: { // a range of the vector itself
            if (now.empty()) return false;
            size_t a = r.below(now.size()), b = a + r.below(now.size() - a + 1); want.assign(now.begin() + long(a), now.begin() + long(b));
            MON_OP("assign from itself", a, b); { alloc::scope on; x.assign(boost::make_iterator_range(x.begin() + a, x.begin() + b)); } mon::hit("assigned from part of itself"); break; }
        case 2: { MON_OP("assign whole self", 0, 0); want = now; alloc::scope on; x.assign(boost::make_iterator_range(x.begin(), x.end())); break; }
        case 3: { input in; K::make(r, 400, in); want.assign(in.ints.begin(), in.ints.end()); MON_OP("assign list", 0, 0); alloc::scope on; { std::list<T> l(want.begin(), want.end()); x.assign(l); } break; }
        case 4: { input in; K::make(r, 400, in); want.assign(in.ints.begin(), in.ints.end()); MON_OP("steal", 0, 0); size_t left; { alloc::scope on; std::vector<T> v(want); x.steal(v); left = v.size(); } MON_EQ("stolen vector is empty", 0, 0, 0, left); mon::hit("stolen"); break; }
        default: { MON_OP("clear", 0, 0); { alloc::scope on; x.clear(); } MON_EQ("size after clear", 0, 0, 0, x.size()); MON_TRUE("begin == end after clear", 0, 0, x.begin() == x.end(), "an empty vector has elements"); mon::hit("cleared"); }
        }
        MON_EQ("size after vector operation", op, 0, want.size(), x.size());
        for (size_t i = 0; i < want.size(); ++i) MON_EQ("element after vector operation", op, i, uint64_t(want[i]), uint64_t(x[i]));
        c.in = input(); c.size = want.size(); c.ref = ask_all<K>(x, c.in); c.empty = want.empty();
        return true;
    }
};

struct life {
    rng_t& r;
    template <typename K> void go() {
        typedef typename K::type T;
        mon::hit(std::string("kind:") + K::name());
        uint64_t maxn = r.chance(.1) ? 20000 : 600;
        std::vector<content<K> > lib(3); for (size_t i = 0; i < lib.size(); ++i) make_content<K>(r, maxn, lib[i], true);
        content<K> none = empty_content<K>();
        uint64_t h = 0; for (size_t i = 0; i < lib.size(); ++i) h = mon::mix(h, lib[i].in.hash());
        mon::describe(std::string(K::name()) + " " + lib[0].in.name + " | " + lib[1].in.name + " | " + lib[2].in.name);
        mon::nontrivial(mon::mix(h, mon::hash_str(K::name())));
        uint64_t before = alloc::state().live;
        std::vector<std::vector<char> > bufs; for (size_t i = 0; i < lib.size(); ++i) { std::vector<char> b(lib[i].bytes.begin(), lib[i].bytes.end()); bufs.push_back(b); }
        {
            const size_t P = 4; T* pool[P]; content<K> model[P];
            for (size_t i = 0; i < P; ++i) { void* m = malloc(sizeof(T)); memset(m, 0xA5, sizeof(T)); MON_OP("default construct", i, 0); { alloc::scope on; pool[i] = new (m) T(); } model[i] = none;
                MON_EQ("size of default-constructed", i, 0, 0, K::size(*pool[i])); expect<K>("default-constructed", *pool[i], none); }
            unsigned steps = 12 + (unsigned)r.below(24);
            for (unsigned s = 0; s < steps; ++s) {
                size_t i = r.below(P), j = r.below(P), k = r.below(lib.size());
                switch (r.below(9)) {
                case 0: case 1: case 2: { MON_OP("swap", i, j); { alloc::scope on; pool[i]->swap(*pool[j]); } if (i != j) std::swap(model[i], model[j]); else mon::hit("self-swap"); mon::hit("swapped"); break; }
                case 3: { unsigned route = (unsigned)r.below(n_routes); MON_OP("build", i, route); { alloc::scope on; input src = lib[k].in; K::build(src, *pool[i], route); } model[i] = lib[k]; mon::hit("built over an object"); break; }
                case 4: { MON_OP("map", i, 0); { alloc::scope on; mapper::map(*pool[i], bufs[k].data()); } model[i] = lib[k]; mon::hit("mapped over an object"); break; }
                case 5: { MON_OP("dispose", i, 0); { alloc::scope on; util::dispose(*pool[i]); } model[i] = none; MON_EQ("size after dispose", i, 0, 0, K::size(*pool[i])); mon::hit("disposed"); break; }
                case 6: { // destroyed and constructed again over old bytes
                    MON_OP("destroy", i, 0); { alloc::scope on; pool[i]->~T(); memset((void*)pool[i], 0x5A, sizeof(T)); pool[i] = new ((void*)pool[i]) T(); } model[i] = none; mon::hit("destroyed and reconstructed"); break; }
                case 7: { MON_OP("swap with a temporary", i, 0); { alloc::scope on; T t; K::build(lib[k].in, t, 0); t.swap(*pool[i]); } model[i] = lib[k]; mon::hit("swapped with a temporary"); break; }
                default: vec_ops<K>::run(r, *pool[i], model[i]);
                }
                expect<K>("after an operation", *pool[i], model[i]); expect<K>("after an operation", *pool[j], model[j]);
                if (s % 6 == 5) for (size_t q = 0; q < P; ++q) expect<K>("bystander", *pool[q], model[q]);
            }
            for (size_t q = 0; q < P; ++q) expect<K>("at the end", *pool[q], model[q]);
            for (size_t q = 0; q < P; ++q) { MON_OP("destroy", q, 0); { alloc::scope on; pool[q]->~T(); } free((void*)pool[q]);
                for (size_t z = q + 1; z < P; ++z) expect<K>("after a neighbour was destroyed", *pool[z], model[z]); }
        }
        MON_TRUE("all memory released", 0, 0, alloc::state().live == before, alloc::state().live - before << " blocks (" << alloc::state().live_bytes << " bytes) are still allocated after every object is gone");
        for (size_t i = 0; i < bufs.size(); ++i) MON_TRUE("mapped bytes untouched", i, 0, std::equal(bufs[i].begin(), bufs[i].end(), lib[i].bytes.begin()), "the mapped bytes changed");
    }
};

// ------------------------------------------------------------------ C21
template <typename F> static uint64_t count_allocs(F f) { uint64_t c = alloc::state().count; { alloc::scope on; f(); } return alloc::state().count - c; }

struct faults {
    rng_t& r;
    static std::vector<uint64_t> points(rng_t& r, uint64_t n) {
        std::vector<uint64_t> p;
        if (n <= 48) for (uint64_t k = 1; k <= n; ++k) p.push_back(k);
        else { for (uint64_t k = 1; k <= 20; ++k) p.push_back(k); for (uint64_t k = 0; k < 20; ++k) { p.push_back(n - k); p.push_back(1 + r.below(n)); } mon::hit("fault points sampled"); }
        return p;
    }
    // f must run the operation; returns whether it threw
    template <typename F> static bool faulty(const char* what, uint64_t k, F f) {
        bool threw = false; mon::set_op(what, k, 0);
        { alloc::scope on; alloc::arm(k); try { f(); } catch (std::bad_alloc const&) { threw = true; } alloc::arm(0); }
        return threw;
    }
    template <typename K> void old_or_empty(const char* what, typename K::type const& x, content<K> const& old, content<K> const& none) {
        alloc::scope off(false);
        if (K::size(x) == 0 && old.size == 0) { // nothing tells an empty object that was built from a new one, but the plain fields of a user structure
            sink s = ask_all<K>(x, bare_input()); if (s.h == none.bare.h) mon::hit("left empty"); else { same_answers(what, old.bare, s); mon::hit("left with its old contents"); } }
        else if (K::size(x) == 0) { expect<K>(what, x, none); mon::hit("left empty"); }
        else { expect<K>(what, x, old); mon::hit("left with its old contents"); }
    }
    template <typename K> void go() {
        typedef typename K::type T;
        mon::hit(std::string("kind:") + K::name());
        content<K> a, b; uint64_t maxn = r.chance(.15) ? 9000 : 700; make_content<K>(r, maxn, a, true); make_content<K>(r, 300, b, true); content<K> none = empty_content<K>();
        unsigned route = (unsigned)r.below(n_routes);
        mon::describe(std::string(K::name()) + " old " + b.in.name + ", new " + a.in.name + " route=" + num(route));
        if (a.size) mon::nontrivial(mon::mix(a.in.hash(), mon::hash_str(K::name())));
        uint64_t level = alloc::state().live;
        // the source for routes through other containers is made inside, so its allocations fail as well
        uint64_t n = count_allocs([&] { T x; K::build(a.in, x, route); });
        MON_EQ("released after a build", 0, 0, level, alloc::state().live);
        std::vector<uint64_t> ks = points(r, n);
        for (size_t q = 0; q < ks.size(); ++q) {
            // building into an object that holds something (owned, mapped or nothing)
            unsigned state = (unsigned)r.below(3);
            { T x; { alloc::scope on; if (state == 0) K::build(b.in, x, 0); else if (state == 1) mapper::map(x, b.bytes.data()); }
              content<K> const& old = state == 2 ? none : b;
              bool threw = faulty("build with a failing allocation", ks[q], [&] { K::build(a.in, x, route); });
              MON_TRUE("failure reached the caller", ks[q], n, threw || !alloc::state().failed, "allocation " << ks[q] << " of " << n << " failed but the operation returned normally");
              if (alloc::state().failed) mon::hit("injected allocation failures");
              if (threw) old_or_empty<K>("after a failed build", x, old, none); else expect<K>("after a build without failure", x, a);
              { alloc::scope on; K::build(a.in, x, route); } expect<K>("built after the failure", x, a);
              if (r.coin()) { alloc::scope on; util::dispose(x); }
              alloc::scope on; T dead; dead.swap(x);
            }
            MON_TRUE("nothing leaked", ks[q], n, alloc::state().live == level, alloc::state().live - level << " blocks leaked after allocation " << ks[q] << " of " << n << " failed");
        }
        // queries that allocate
        { T x; { alloc::scope on; K::build(a.in, x, 0); } uint64_t held = alloc::state().live;
          // only the library's own allocations are of interest: answers go to a sink that does not store
          uint64_t m = count_allocs([&] { sink s; K::observe(x, a.in.flags, rng_t(Q), s); });
          std::vector<uint64_t> qs = points(r, m); if (qs.size() > 24) { std::vector<uint64_t> t; for (int i = 0; i < 24; ++i) t.push_back(qs[r.below(qs.size())]); qs.swap(t); }
          for (size_t q = 0; q < qs.size(); ++q) {
              bool threw = faulty("queries with a failing allocation", qs[q], [&] { sink s; K::observe(x, a.in.flags, rng_t(Q), s); });
              MON_TRUE("failure reached the caller (query)", qs[q], m, threw || !alloc::state().failed, "allocation " << qs[q] << " of " << m << " failed but the queries returned normally");
              if (alloc::state().failed) mon::hit("injected allocation failures in queries");
              MON_TRUE("nothing leaked (query)", qs[q], m, alloc::state().live == held, alloc::state().live - held << " blocks leaked");
              expect<K>("after failed queries", x, a);
          }
          // swap and disposal must not lose anything either
          T y; { alloc::scope on; K::build(b.in, y, 0); }
          uint64_t sw = count_allocs([&] { x.swap(y); x.swap(y); }); mon::hit("allocations in swap", sw);
          for (uint64_t k = 1; k <= sw; ++k) { bool threw = faulty("swap with a failing allocation", k, [&] { x.swap(y); }); if (threw) { old_or_empty<K>("after a failed swap", x, a, none); old_or_empty<K>("after a failed swap", y, b, none); } else x.swap(y); }
          // size tree
          uint64_t st = count_allocs([&] { mapper::size_tree_of(x); }); std::vector<uint64_t> ts = points(r, st); held = alloc::state().live;
          for (size_t q = 0; q < ts.size() && q < 12; ++q) { faulty("size tree with a failing allocation", ts[q], [&] { mapper::size_tree_of(x); }); MON_TRUE("nothing leaked (size tree)", ts[q], st, alloc::state().live == held, "blocks leaked"); }
          expect<K>("after a failed size tree", x, a);
        }
        MON_TRUE("nothing leaked at the end", 0, n, alloc::state().live == level, alloc::state().live - level << " blocks leaked");
        extra<K>(a, b, none, level);
    }
    template <typename K> void extra(content<K> const&, content<K> const&, content<K> const&, uint64_t) {}
    template <typename V> void topk_enum(topk_vector<V> const& x, content<K_topk<V> > const& a) {
        if (!a.size) return;
        typename topk_vector<V>::enumerator e; uint64_t n = a.size; uint64_t held = alloc::state().live;
        for (int t = 0; t < 12; ++t) {
            uint64_t i = r.below(n), j = i + r.below(n - i); uint64_t k = 1 + r.below(6);
            bool threw = faulty("enumerator with a failing allocation", k, [&] { x.get_topk_enumerator(i, j, e); for (int q = 0; q < 20 && e.next(); ++q) {} typename topk_vector<V>::enumerator f = e; f.swap(e); });
            if (threw) mon::hit("injected allocation failures in enumerators");
            // restart
            { alloc::scope on; x.get_topk_enumerator(i, j, e); }
            typename topk_vector<V>::entry_vector_type w = x.topk(i, j, 20); for (size_t q = 0; q < w.size(); ++q) { MON_TRUE("restarted enumerator", i, q, e.next() && e.value() == w[q], "the enumerator restarted after a failure disagrees with topk"); }
        }
        { typename topk_vector<V>::enumerator none; e.swap(none); }
        (void)held;
    }
};
template <typename T> struct vec_faults {
    static void run(rng_t& r, uint64_t level, content<K_vec<T> > const& a, content<K_vec<T> > const& b, content<K_vec<T> > const& none, faults& f) {
        typedef K_vec<T> K; std::vector<T> va(a.in.ints.begin(), a.in.ints.end());
        for (int op = 0; op < 3; ++op) for (uint64_t k = 1; k <= 4; ++k) for (int state = 0; state < 3; ++state) {
            { typename K::type x; { alloc::scope on; if (state == 0) K::build(b.in, x, 0); else if (state == 1) mapper::map(x, b.bytes.data()); }
              std::vector<T> v; { alloc::scope on; v = va; }
              bool threw = f.faulty(op == 0 ? "steal with a failing allocation" : op == 1 ? "assign with a failing allocation" : "assign from itself with a failing allocation", k,
                                    [&] { if (op == 0) x.steal(v); else if (op == 1) x.assign(v); else x.assign(boost::make_iterator_range(x.begin() + x.size() / 2, x.end())); });
              if (threw) { f.old_or_empty<K>("after a failed vector operation", x, state == 2 ? none : b, none); mon::hit("injected allocation failures in vector operations");
                  if (op == 0) MON_TRUE("source of a failed steal", k, state, v == va || v.empty(), "the source holds something else");
                  { alloc::scope on; if (op == 0) v = va; x.assign(v); } expect<K>("assigned after the failure", x, a); }
              alloc::scope on; { std::vector<T> z; z.swap(v); } typename K::type dead; dead.swap(x); }
            MON_TRUE("nothing leaked (vector operation)", op, k, alloc::state().live == level, alloc::state().live - level << " blocks leaked");
        }
    }
};
template <> void faults::extra<K_vec<uint64_t> >(content<K_vec<uint64_t> > const& a, content<K_vec<uint64_t> > const& b, content<K_vec<uint64_t> > const& n, uint64_t l) { vec_faults<uint64_t>::run(r, l, a, b, n, *this); }
template <> void faults::extra<K_vec<uint16_t> >(content<K_vec<uint16_t> > const& a, content<K_vec<uint16_t> > const& b, content<K_vec<uint16_t> > const& n, uint64_t l) { vec_faults<uint16_t>::run(r, l, a, b, n, *this); }
template <> void faults::extra<K_vec<uint8_t> >(content<K_vec<uint8_t> > const& a, content<K_vec<uint8_t> > const& b, content<K_vec<uint8_t> > const& n, uint64_t l) { vec_faults<uint8_t>::run(r, l, a, b, n, *this); }
#define TOPK_EXTRA(V) template <> void faults::extra<K_topk<V> >(content<K_topk<V> > const& a, content<K_topk<V> > const&, content<K_topk<V> > const&, uint64_t level) { { K_topk<V>::type x; { alloc::scope on; K_topk<V>::build(a.in, x, 0); } topk_enum(x, a); alloc::scope on; util::dispose(x); } MON_TRUE("nothing leaked (enumerators)", 0, 0, alloc::state().live == level, alloc::state().live - level << " blocks leaked"); }
TOPK_EXTRA(gamma_vector) TOPK_EXTRA(elias_fano_list) TOPK_EXTRA(mapper::mappable_vector<uint64_t>)

static void one(uint64_t id, rng_t& r) {
    if (opt().prop == "C20") { life f = {r}; dispatch(unsigned(id % n_kinds), f); }
    else { faults f = {r}; dispatch(unsigned(id % n_kinds), f); }
}
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().prop == "C20" ? opt().n(500, 15000) : opt().n(300, 8000), one); }
