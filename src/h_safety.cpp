// C18: every structure built, queried, frozen and mapped while sanitizers or memcheck watch; no oracle. Also observes the
// alignment of the arrays that a mapped structure will dereference.
#include "zoo.hpp"
#include <fstream>
using namespace zoo;
using mon::opt;

// walks a structure through its public map() and looks at where its arrays lie
struct align_visitor : boost::noncopyable {
    uint64_t vecs, bad; align_visitor() : vecs(0), bad(0) {}
    template <typename T> typename boost::disable_if<boost::is_pod<T>, align_visitor&>::type operator()(T& v, const char*) { v.map(*this); return *this; }
    template <typename T> typename boost::enable_if<boost::is_pod<T>, align_visitor&>::type operator()(T&, const char*) { return *this; }
    template <typename T> align_visitor& operator()(mapper::mappable_vector<T>& v, const char*) { ++vecs; if (v.size() && uintptr_t(v.data()) % alignof(T)) ++bad; return *this; }
};
static bool mapped_mode() { return getenv("MON_MAPPED") != 0; }

struct runner {
    rng_t& r; uint64_t id;
    template <typename K> void go() {
        typedef typename K::type T;
        input in; K::make(r, opt().variant == "mem" ? 1500 : r.chance(.1) ? 100000 : 4000, in); unsigned route = (unsigned)r.below(n_routes);
        mon::describe(std::string(K::name()) + " " + in.name + " route=" + num(route)); mon::hit(std::string("kind:") + K::name());
        uint64_t qs = r.next();
        T x; MON_OP("build", route, 0); K::build(in, x, route);
        if (K::size(x)) mon::nontrivial(mon::mix(in.hash(), mon::hash_str(K::name())));
        sink s; MON_OP("observe", 0, 0); K::observe(x, in.flags, rng_t(qs), s); if (s.h == 42) mon::hit("-");
        mon::hit("answers computed under observation", s.n);
        { align_visitor a; a(x, "x"); MON_TRUE("built arrays aligned", 0, 0, a.bad == 0, "an array of a built structure is misaligned"); }
        std::string p = opt().scratch + "/f.bin"; MON_OP("freeze", 0, 0); size_t w = mapper::freeze(x, p.c_str());
        mapper::size_of(x); mapper::size_tree_of(x);
        { T y; MON_OP("swap", 0, 0); y.swap(x); sink t; K::observe(y, in.flags, rng_t(qs), t); K::observe(x, in.flags, rng_t(qs), t); y.swap(x); util::dispose(y); sink u; K::observe(y, in.flags, rng_t(qs), u); }
        std::ifstream i(p.c_str(), std::ios::binary); std::string c((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
        char* buf = (char*)malloc(c.size()); memcpy(buf, c.data(), c.size()); // 16-aligned, exact
        { T y; MON_OP("map", 0, 0); mapper::map(y, buf, mapped_mode() ? uint64_t(mapper::map_flags::warmup) : 0);
          align_visitor a; a(y, "y"); mon::hit("mapped arrays looked at", a.vecs);
          if (a.bad) mon::finding(std::string("misaligned-map:") + (std::string(K::name()) == "user structure" ? "user-structure" : K::name()), "mapped from an aligned address, an array of the structure lies at a misaligned address and is dereferenced there (" + in.name + ")");
          if (mapped_mode()) { MON_OP("observe mapped", 0, 0); sink t; K::observe(y, in.flags, rng_t(qs), t); mon::hit("answers computed on mapped structures", t.n); } }
        free(buf);
    }
};
static void one(uint64_t id, rng_t& r) { runner f = {r, id}; dispatch(unsigned(id % n_kinds), f); }
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().variant == "mem" ? opt().n(84, 2000) : opt().n(420, 12000), one); }
