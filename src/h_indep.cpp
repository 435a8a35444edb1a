// C28: threads that build, query, freeze, map, measure and destroy structures of their own (and read files of their
// own) at the same time; ThreadSanitizer watches, and everything a thread saw is compared with the same work done
// by one thread afterwards.
#include "zoo.hpp"
#include "vbyte.hpp"
#include <fstream>
#include <thread>
#include <atomic>
#include <memory>
#include <pthread.h>
using namespace zoo;
using mon::opt;

struct seen_t {
    sink built, mapped, lines; uint64_t size, tree, written, mapped_bytes, bytes, codes; std::string error;
    seen_t() : built(true), mapped(true), lines(true), size(0), tree(0), written(0), mapped_bytes(0), bytes(0), codes(0) {}
};
static uint64_t tree_hash(mapper::size_node_ptr const& n) { uint64_t h = mon::mix(n->size, mon::hash_str(n->name)); for (size_t i = 0; i < n->children.size(); ++i) h = mon::mix(h, tree_hash(n->children[i])); return h; }
static std::string slurp(std::string const& p) { std::ifstream i(p.c_str(), std::ios::binary); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }

struct task { // not to touch anything outside itself but the file it is given
    input in; unsigned route; uint64_t seed;
    virtual ~task() {}
    virtual void run(std::string const& file, seen_t& s) const = 0;
    virtual std::string name() const = 0;
    void guarded(std::string const& file, seen_t& s) const { try { run(file, s); } catch (std::exception const& e) { s.error = e.what(); } catch (...) { s.error = "unknown exception"; } }
};
template <typename K> struct structure : task {
    std::string name() const { return K::name(); }
    void run(std::string const& p, seen_t& s) const {
        typedef typename K::type T;
        T x; K::build(in, x, route); K::observe(x, in.flags, rng_t(seed), s.built);
        s.written = mapper::freeze(x, p.c_str()); s.size = mapper::size_of(x); s.tree = tree_hash(mapper::size_tree_of(x));
        { boost::iostreams::mapped_file_source m(p); T y; s.mapped_bytes = mapper::map(y, m, (seed & 1) ? uint64_t(mapper::map_flags::warmup) : 0); K::observe(y, in.flags, rng_t(seed), s.mapped); T z; z.swap(y); y.swap(x); K::observe(y, in.flags, rng_t(seed + 1), s.built); }
        s.bytes = mon::hash_str(slurp(p));
    }
};
struct text : task { // line readers and codes
    std::string t;
    std::string name() const { return "lines and codes"; }
    void run(std::string const& p, seen_t& s) const {
        { std::ofstream o(p.c_str(), std::ios::binary); o << t; }
        { util::auto_file f(p.c_str()); std::string l; while (util::fast_getline(l, f.get(), seed & 1)) s.lines("fast_getline", l.size(), mon::hash_str(l)); }
        { util::auto_file f(p.c_str()); util::line_iterator i = util::lines(f.get()).first, e; for (; i != e; ++i) s.lines("lines", i->size(), mon::hash_str(*i)); }
        if (!t.empty()) { util::mmap_lines m(p.c_str()); for (util::buffer_line_iterator i = m.begin(), e = m.end(); i != e; ++i) s.lines("mmap_lines", i->size(), mon::hash_str(*i)); }
        std::vector<uint8_t> v; rng_t r(seed); std::vector<uint64_t> want; for (int i = 0; i < 200; ++i) { want.push_back(gen::any_value(r, 64)); append_vbyte(v, want.back()); }
        size_t at = 0; for (size_t i = 0; i < want.size(); ++i) { size_t d = 0; at += decode_vbyte(v, at, d); s.codes = mon::mix(s.codes, d); s.codes = mon::mix(s.codes, util::int2nat(int64_t(d))); }
    }
};
struct maker { rng_t& r; std::shared_ptr<task>& t;
    template <typename K> void go() { structure<K>* s = new structure<K>; t.reset(s); K::make(r, r.chance(.15) ? 40000 : 3000, s->in); s->route = (unsigned)r.below(n_routes); s->seed = r.next(); } };

static void one(uint64_t id, rng_t& r) {
    unsigned nt = 2 + (unsigned)r.below(4), per = 1 + (unsigned)r.below(2);
    bool same_kind = r.chance(.6), same_input = r.chance(.3); unsigned k0 = unsigned(id % (n_kinds + 1));
    std::vector<std::vector<std::shared_ptr<task> > > work(nt);
    std::string d; uint64_t h = 0;
    for (unsigned t = 0; t < nt; ++t) for (unsigned j = 0; j < per; ++j) {
        unsigned k = same_kind || (t == 0 && j == 0) ? k0 : (unsigned)r.below(n_kinds + 1); std::shared_ptr<task> x;
        if (same_kind && same_input && (t || j)) x = work[0][0];
        else if (k == n_kinds) { text* q = new text; x.reset(q); q->seed = r.next(); uint64_t n = r.below(r.chance(.2) ? 200000 : 3000); for (uint64_t i = 0; i < n; ++i) q->t += r.chance(.02) ? '\n' : char('a' + r.below(26)); q->in.name = num(n) + " characters"; q->in.n = n; }
        else { maker m = {r, x}; dispatch(k, m); }
        work[t].push_back(x); h = mon::mix(h, x->in.hash()); mon::hit("kind:" + x->name()); if (d.size() < 300) d += x->name() + " " + x->in.name + " | ";
    }
    mon::describe(num(nt) + " threads: " + d); mon::nontrivial(mon::mix(h, nt));
    if (same_kind) mon::hit(same_input ? "the same input in every thread" : "the same kind in every thread"); else mon::hit("different kinds in the threads");
    std::vector<std::vector<seen_t> > got(nt, std::vector<seen_t>(per)); std::vector<std::vector<std::string> > files(nt);
    std::vector<uint64_t> delay(nt); for (unsigned t = 0; t < nt; ++t) { delay[t] = r.coin() ? 0 : r.below(20000); for (unsigned j = 0; j < per; ++j) files[t].push_back(opt().scratch + "/t" + num(t) + "-" + num(j)); }
    pthread_barrier_t bar; pthread_barrier_init(&bar, 0, nt); std::atomic<unsigned> active(0), most(0);
    mon::set_op("threads on separate objects", nt, per);
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nt; ++t) th.push_back(std::thread([&, t] {
        pthread_barrier_wait(&bar);
        for (volatile uint64_t w = 0; w < delay[t]; ++w) {}
        for (unsigned j = 0; j < per; ++j) {
            unsigned a = active.fetch_add(1, std::memory_order_relaxed) + 1, m = most.load(std::memory_order_relaxed);
            while (a > m && !most.compare_exchange_weak(m, a, std::memory_order_relaxed)) {}
            work[t][j]->guarded(files[t][j], got[t][j]);
            active.fetch_sub(1, std::memory_order_relaxed);
        }
    }));
    for (unsigned t = 0; t < nt; ++t) th[t].join();
    pthread_barrier_destroy(&bar);
    if (most.load() > 1) mon::hit("work overlapped"); mon::hit("threads", nt);
    for (unsigned t = 0; t < nt; ++t) for (unsigned j = 0; j < per; ++j) {
        seen_t ref; seen_t const& g = got[t][j]; work[t][j]->guarded(opt().scratch + "/ref", ref); std::string n = work[t][j]->name();
        MON_TRUE("same outcome", t, j, ref.error == g.error, n << ": a thread of its own ends with '" << g.error << "', one thread alone with '" << ref.error << "'");
        same_answers("built by a thread", ref.built, g.built); same_answers("mapped by a thread", ref.mapped, g.mapped); same_answers("read by a thread", ref.lines, g.lines);
        MON_EQ("bytes written", t, j, ref.written, g.written); MON_EQ("bytes mapped", t, j, ref.mapped_bytes, g.mapped_bytes); MON_EQ("size_of", t, j, ref.size, g.size); MON_EQ("size tree", t, j, ref.tree, g.tree); MON_EQ("digest of frozen bytes", t, j, ref.bytes, g.bytes); MON_EQ("codes", t, j, ref.codes, g.codes);
        mon::hit("answers from threads", g.built.n + g.mapped.n + g.lines.n); mon::hit("objects frozen by threads", g.written ? 1 : 0);
        unlink(files[t][j].c_str());
    }
}
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().n((n_kinds + 1) * 8, (n_kinds + 1) * 120), one); }
