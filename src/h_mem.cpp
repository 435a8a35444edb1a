// C30: memory taken while building, kept afterwards, and taken to map, measure, swap and freeze, counted by the
// allocator; everything runs on a small stack (except under the sanitizers, whose frames are larger).
#include "alloc.hpp"
#include "zoo.hpp"
#include <fstream>
#include <pthread.h>
using namespace zoo;
using mon::opt;
struct meter {
    uint64_t base; meter() { alloc::state_t& s = alloc::state(); base = s.live_bytes; s.peak = base; s.on = true; }
    void stop() { alloc::state().on = false; }
    uint64_t peak() const { return alloc::state().peak - base; } int64_t kept() const { return int64_t(alloc::state().live_bytes - base); }
};
static void most(const char* what, uint64_t v) { uint64_t& m = mon::events().m[std::string("max ") + what]; if (v > m) m = v; }
struct runner {
    rng_t& r;
    template <typename K> void go() {
        typedef typename K::type T; mon::hit(std::string("kind:") + K::name());
        input in; uint64_t maxn = r.chance(.25) ? 400000 : r.chance(.4) ? 40000 : 3000; if (mon::is_sanitized()) maxn /= 8; K::make(r, maxn, in); mon::describe(std::string(K::name()) + " " + in.name); mon::nontrivial(mon::mix(in.hash(), mon::hash_str(K::name())));
        uint64_t inb = in.bits.size() + in.ints.size() * 8, start = alloc::state().live_bytes;
        {
            std::unique_ptr<T> x(new T()), y(new T()), z(new T());
            unsigned route = r.chance(.8) ? 0 : (unsigned)r.below(n_routes); uint64_t scale = route ? 10 : 4; // other routes copy the input into a list or deque first
            MON_OP("build", route, 0); meter b; K::build(in, *x, route); b.stop(); uint64_t size = mapper::size_of(*x);
            MON_TRUE("memory kept by a built structure", b.kept(), size, b.kept() <= int64_t(size * 2 + size / 8 + 1024), "a " << K::name() << " of " << size << " bytes keeps " << b.kept() << " bytes allocated");
            MON_TRUE("memory to build", b.peak(), size, b.peak() <= 4 * size + scale * inb + 16384, "building a " << K::name() << " of " << size << " bytes from " << inb << " bytes took up to " << b.peak() << " bytes");
            if (size > 100000) { mon::hit("structures over 100000 bytes"); most("percent of its size kept", uint64_t(b.kept()) * 100 / size); most("percent of input and size taken to build", b.peak() * 100 / (size + inb)); }
            std::string p = opt().scratch + "/f.bin"; MON_OP("freeze", 0, 0); meter f; mapper::freeze(*x, p.c_str()); f.stop(); MON_TRUE("memory to freeze", f.peak(), size, f.peak() <= 70000 && f.kept() == 0, "freezing took " << f.peak() << " bytes and kept " << f.kept());
            most("bytes taken to freeze", f.peak());
            meter s; uint64_t again = mapper::size_of(*x); s.stop(); MON_TRUE("memory to measure", s.peak(), again, s.peak() <= 4096 && s.kept() == 0, "size_of took " << s.peak() << " bytes");
            { meter t; { mapper::size_node_ptr n = mapper::size_tree_of(*x); } t.stop(); MON_TRUE("memory for a size tree", t.peak(), 0, t.peak() <= 65536 && t.kept() == 0, "a size tree took " << t.peak() << " bytes and kept " << t.kept()); }
            {
                boost::iostreams::mapped_file_source m(p); MON_OP("map", 0, 0); bool w = r.coin();
                meter t; mapper::map(*y, m, w ? uint64_t(mapper::map_flags::warmup) : 0); t.stop(); MON_TRUE("memory to map", t.peak(), size, t.peak() <= 4096, "mapping " << size << " bytes allocated up to " << t.peak());
                if (size > 100000) mon::hit("over 100000 bytes mapped");
                sink q; MON_OP("observe", 0, 0); K::observe(*y, in.flags, rng_t(5), q); K::observe(*x, in.flags, rng_t(5), q); mon::hit("answers on a small stack", mon::is_sanitized() ? 0 : q.n);
                meter v; x->swap(*y); y->swap(*z); v.stop(); MON_TRUE("memory to swap", v.peak(), v.kept(), v.peak() <= 4096 && v.kept() <= 4096, "swapping took " << v.peak() << " bytes"); // x mapped, z built
                MON_OP("dispose", 0, 0); meter d; util::dispose(*x); util::dispose(*y); d.stop(); MON_TRUE("memory to dispose", d.peak(), 0, d.peak() <= 4096, "disposal of a mapped structure took " << d.peak() << " bytes");
            }
            if (r.chance(.5)) { // mapping over a built object releases what it held
                T w; uint64_t none = alloc::state().live_bytes; { alloc::scope on; K::build(in, w, 0); } uint64_t held = alloc::state().live_bytes - none;
                boost::iostreams::mapped_file_source m(p); MON_OP("map over a built object", held, 0); { alloc::scope on; mapper::map(w, m, r.coin() ? uint64_t(mapper::map_flags::warmup) : 0); }
                int64_t left = int64_t(alloc::state().live_bytes - none); MON_TRUE("memory kept by an object mapped over its contents", left, held, left <= 4096, "an object that held " << held << " bytes still keeps " << left << " after it was mapped"); mon::hit("mapped over a built object");
                sink q; K::observe(w, in.flags, rng_t(5), q); }
            { uint64_t before = alloc::state().live_bytes; util::dispose(*z); int64_t freed = int64_t(before - alloc::state().live_bytes); MON_TRUE("memory returned", b.kept(), 0, freed + 64 >= b.kept(), "disposal of the built structure returned " << freed << " of " << b.kept() << " bytes"); }
        }
        MON_EQ("bytes left allocated", 0, 0, start, alloc::state().live_bytes);
    }
};
static void one(uint64_t id, rng_t& r) { runner f = {r}; dispatch(unsigned(id % n_kinds), f); }
static int g_rc;
static void* all(void*) { g_rc = mon::run_cases(opt().n(n_kinds * 40, n_kinds * 500), one); return 0; }
int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (mon::is_sanitized()) { all(0); return g_rc; }
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 192 << 10);
    pthread_t t; if (pthread_create(&t, &a, all, 0)) return 3; pthread_join(t, 0); return g_rc;
}
