// C29: queries change nothing and depend on nothing but the contents: several objects of one kind are queried in turn, in
// the middle of each other's queries, between rebuilding, swapping, freezing and measuring, and every answer is
// compared with the one a fresh object gave to the same question.
#include "zoo.hpp"
#include <fstream>
#include <new>
using namespace zoo;
using mon::opt;
static std::string slurp(std::string const& p) { std::ifstream i(p.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static const unsigned S = 3, C = 3, P = 3; // question sets, contents, places

template <typename K> struct pool {
    typedef typename K::type T;
    input in[C]; sink ref[C][S]; std::string bytes[C]; uint64_t seeds[S];
    T* place[P]; unsigned holds[P]; bool mapped[P]; std::vector<char> frozen[C];
    rng_t* r; unsigned depth, budget; uint64_t every;
    void ask(unsigned p, const char* what) {
        unsigned s = (unsigned)r->below(S), c = holds[p]; sink got(true);
        if (depth == 0) { budget = 12; got.between = &pool::other; got.ctx = this; ++depth; K::observe(*place[p], in[c].flags, rng_t(seeds[s]), got); --depth; }
        else K::observe(*place[p], in[c].flags, rng_t(seeds[s]), got);
        same_answers(what, ref[c][s], got); mon::hit(depth ? "questions asked in the middle of others" : "questions asked", got.n);
    }
    static void other(void* q) { pool& x = *(pool*)q; if (!x.budget || x.r->below(x.every)) return; --x.budget; unsigned p = (unsigned)x.r->below(P); ++x.depth; x.ask(p, "asked while another object was in the middle of its answers"); --x.depth; mon::hit("interleaved"); }
    void fill(unsigned p, unsigned c, unsigned how) { // rebuilt at the same address
        if (r->coin()) { place[p]->~T(); new (place[p]) T(); } else mon::hit("mapped or built over a live object");
        holds[p] = c; mapped[p] = how == 3;
        if (how == 3) mapper::map(*place[p], frozen[c].data()); else K::build(in[c], *place[p], how);
    }
};
struct runner {
    rng_t& r;
    template <typename K> void go() {
        typedef typename K::type T; mon::hit(std::string("kind:") + K::name());
        pool<K> x; x.r = &r; x.depth = 0; x.every = r.chance(.3) ? 3 : 40; uint64_t h = 0; std::string d; uint64_t maxn = r.chance(.2) ? 5000 : r.chance(.3) ? 400 : 24;
        for (unsigned s = 0; s < S; ++s) x.seeds[s] = r.next();
        std::string p = opt().scratch + "/f.bin";
        for (unsigned c = 0; c < C; ++c) { K::make(r, maxn, x.in[c]); h = mon::mix(h, x.in[c].hash()); d += x.in[c].name + " | ";
            for (unsigned s = 0; s < S; ++s) { T t; K::build(x.in[c], t, 0); x.ref[c][s] = sink(true); K::observe(t, x.in[c].flags, rng_t(x.seeds[s]), x.ref[c][s]); }
            T t; K::build(x.in[c], t, 0); mapper::freeze(t, p.c_str()); x.bytes[c] = slurp(p); x.frozen[c].assign(x.bytes[c].begin(), x.bytes[c].end()); }
        mon::describe(std::string(K::name()) + " " + d); mon::nontrivial(mon::mix(h, mon::hash_str(K::name())));
        for (unsigned i = 0; i < P; ++i) { x.place[i] = new (malloc(sizeof(T))) T(); x.fill(i, i % C, 0); }
        unsigned steps = maxn > 1000 ? 12 : 40;
        for (unsigned k = 0; k < steps; ++k) {
            unsigned i = (unsigned)r.below(P), j = (unsigned)r.below(P), c = (unsigned)r.below(C); mon::set_op("history step", k, i);
            switch (r.below(10)) {
            case 0: x.fill(i, c, (unsigned)r.below(n_routes)); mon::hit("another object at the same address"); break;
            case 1: x.fill(i, c, 3); mon::hit("mapped object at the same address"); break;
            case 2: x.place[i]->swap(*x.place[j]); std::swap(x.holds[i], x.holds[j]); mon::hit("swapped between queries"); break;
            case 3: { mapper::freeze(*x.place[i], p.c_str()); std::string b = slurp(p); std::string const& w = x.bytes[x.holds[i]]; size_t at = 0; while (at < b.size() && at < w.size() && b[at] == w[at]) ++at;
                MON_TRUE("frozen bytes after queries", at, k, b == w, "the object freezes to " << b.size() << " bytes that differ at " << at << " from the " << w.size() << " bytes of a fresh one with the same contents"); break; }
            case 4: { uint64_t a = mapper::size_of(*x.place[i]); MON_EQ("size_of after queries", k, i, x.bytes[x.holds[i]].size(), a + 8); break; }
            default: x.ask(i, "asked again");
            }
        }
        for (unsigned i = 0; i < P; ++i) x.ask(i, "asked at the end");
        for (unsigned i = 0; i < P; ++i) { x.place[i]->~T(); free((void*)x.place[i]); }
    }
};
static void one(uint64_t id, rng_t& r) { runner f = {r}; dispatch(unsigned(id % n_kinds), f); }
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().n(n_kinds * 30, n_kinds * 500), one); }
