// C19: several threads query one shared structure; ThreadSanitizer watches, and every answer is compared with the
// sequential one (obtained afterwards, so that nothing is initialised before the threads arrive).
#include "zoo.hpp"
#include <fstream>
#include <thread>
#include <atomic>
#include <pthread.h>
using namespace zoo;
using mon::opt;

struct runner {
    rng_t& r; uint64_t id;
    template <typename K> void race(typename K::type const& x, input const& in, const char* what) {
        unsigned nt = 2 + (unsigned)r.below(5), rounds = 1 + (unsigned)r.below(3);
        std::vector<std::vector<uint64_t> > seeds(nt);
        bool same = r.coin(); uint64_t common = r.next(); // the same questions in every thread, or different ones
        for (unsigned t = 0; t < nt; ++t) for (unsigned k = 0; k < rounds; ++k) seeds[t].push_back(same ? common + k : r.next());
        std::vector<std::vector<sink> > got(nt, std::vector<sink>(rounds, sink(true)));
        std::vector<uint64_t> delay(nt); for (unsigned t = 0; t < nt; ++t) delay[t] = r.coin() ? 0 : r.below(20000);
        pthread_barrier_t bar; pthread_barrier_init(&bar, 0, nt);
        std::atomic<unsigned> active(0), most(0);
        std::vector<std::thread> th;
        mon::set_op(what, nt, rounds);
        for (unsigned t = 0; t < nt; ++t) th.push_back(std::thread([&, t] {
            pthread_barrier_wait(&bar);
            for (volatile uint64_t d = 0; d < delay[t]; ++d) {}
            for (unsigned k = 0; k < rounds; ++k) {
                unsigned a = active.fetch_add(1, std::memory_order_relaxed) + 1, m = most.load(std::memory_order_relaxed);
                while (a > m && !most.compare_exchange_weak(m, a, std::memory_order_relaxed)) {}
                K::observe(x, in.flags, rng_t(seeds[t][k]), got[t][k]);
                active.fetch_sub(1, std::memory_order_relaxed);
            }
        }));
        for (unsigned t = 0; t < nt; ++t) th[t].join();
        pthread_barrier_destroy(&bar);
        mon::hit("at most " + num(most.load()) + " threads inside queries at once");
        if (most.load() > 1) mon::hit("queries overlapped");
        mon::hit("threads", nt);
        for (unsigned t = 0; t < nt; ++t) for (unsigned k = 0; k < rounds; ++k) {
            sink ref(true); K::observe(x, in.flags, rng_t(seeds[t][k]), ref);
            same_answers(what, ref, got[t][k]); mon::hit("answers from threads", got[t][k].n);
        }
    }
    template <typename K> void go() {
        typedef typename K::type T;
        input in; K::make(r, r.chance(.15) ? 60000 : 4000, in);
        mon::describe(std::string(K::name()) + " " + in.name);
        mon::hit(std::string("kind:") + K::name());
        T x; MON_OP("build", 0, 0); K::build(in, x, (unsigned)r.below(n_routes));
        if (K::size(x)) mon::nontrivial(mon::mix(in.hash(), mon::hash_str(K::name())));
        bool mapped = (id / n_kinds) % 2;
        if (!mapped) { race<K>(x, in, "built structure queried by threads"); mon::hit("built structures shared"); }
        else {
            std::string p = opt().scratch + "/f.bin"; mapper::freeze(x, p.c_str());
            boost::iostreams::mapped_file_source m(p); T y; mapper::map(y, m); race<K>(y, in, "mapped structure queried by threads"); mon::hit("mapped structures shared");
        }
    }
};
static void one(uint64_t id, rng_t& r) { runner f = {r, id}; dispatch(unsigned(id % n_kinds), f); }
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().n(n_kinds * 10, n_kinds * 150), one); }
