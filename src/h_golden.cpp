// C16: files frozen by the pinned revision map to the contents they had then.
#include "zoo.hpp"
#include "goldengen.hpp"
#include <fstream>
using namespace zoo;
using mon::opt;
struct entry { std::string file, name; unsigned kind, flags; uint64_t bytes, answers, digest, size; };
static std::vector<entry> entries;
static std::string dir() { const char* d = getenv("MON_GOLDEN"); return d ? d : "golden"; }
struct checker {
    entry const& e; rng_t& r; unsigned mode;
    template <typename K> void look(typename K::type const& y) {
        MON_EQ("size of golden", e.kind, mode, e.size, K::size(y));
        sink s; K::observe(y, e.flags, rng_t(99), s);
        MON_EQ("answers of golden", e.kind, mode, e.answers, s.n);
        MON_TRUE("digest of golden", e.kind, mode, e.digest == s.h, "the " << e.answers << " answers of " << e.name << " are no longer those of the version that froze it");
        mon::hit("answers checked against the pinned version", s.n);
    }
    template <typename K> void go() {
        typedef typename K::type T;
        std::string p = dir() + "/" + e.file; mon::hit(std::string("kind:") + K::name());
        if (mode == 0 || mode == 1) {
            boost::iostreams::mapped_file_source m(p); T y; MON_OP("map golden file", mode, 0);
            MON_EQ("bytes of golden", e.kind, mode, e.bytes, mapper::map(y, m, mode ? uint64_t(mapper::map_flags::warmup) : 0)); MON_EQ("file length", e.kind, mode, e.bytes, m.size());
            look<K>(y); mon::hit("golden mapped from a file");
        } else if (mode == 4) { // the same contents built and frozen now: the file the pinned version wrote, so that it can read ours
            if (!e.size) return; // what the pinned version wrote for empty structures depended on uninitialised memory
            input in; unsigned k = unsigned(atoi(e.file.c_str() + e.file.find('-') + 1)); golden::make<K>(e.kind, k, in); T x; K::build(in, x, (unsigned)r.below(n_routes));
            std::string q = opt().scratch + "/now.bin"; MON_OP("freeze now", k, 0); mapper::freeze(x, q.c_str());
            std::ifstream i(p.c_str(), std::ios::binary), j(q.c_str(), std::ios::binary); std::string a((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()), b((std::istreambuf_iterator<char>(j)), std::istreambuf_iterator<char>());
            size_t at = 0; while (at < a.size() && at < b.size() && a[at] == b[at]) ++at;
            MON_TRUE("same bytes as the pinned version", e.kind, at, a == b, "the contents of " << e.name << " freeze to " << b.size() << " bytes that differ at offset " << at << " from the " << a.size() << " bytes the pinned version wrote"); mon::hit("frozen now, compared with the pinned version");
        } else {
            std::ifstream i(p.c_str(), std::ios::binary); std::string c((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
            std::vector<char> b(c.begin(), c.end()); T y;
            if (mode == 3) { input in; K::make(r, 500, in); K::build(in, y, 0); }
            MON_OP("map golden bytes", mode, 0); MON_EQ("bytes of golden", e.kind, mode, e.bytes, mapper::map(y, b.data()));
            look<K>(y); mon::hit("golden mapped from memory");
            if (e.size) { // frozen again by this version, the contents survive
                std::string q = opt().scratch + "/again.bin"; size_t w = mapper::freeze(y, q.c_str()); std::ifstream j(q.c_str(), std::ios::binary); std::string d((std::istreambuf_iterator<char>(j)), std::istreambuf_iterator<char>()); T z; MON_EQ("bytes of refrozen golden", e.kind, mode, w, mapper::map(z, d.data())); look<K>(z); mon::hit("golden refrozen");
            }
        }
    }
};
static void one(uint64_t id, rng_t& r) {
    entry const& e = entries[id % entries.size()]; unsigned mode = unsigned(id / entries.size());
    mon::describe(e.file + " " + e.name + " mode=" + num(mode));
    if (e.size) mon::nontrivial(mon::mix(e.digest, e.kind));
    checker c = {e, r, mode}; dispatch(e.kind, c);
}
int main(int argc, char** argv) {
    mon::init(argc, argv);
    std::ifstream ix((dir() + "/index.txt").c_str()); std::string l;
    while (std::getline(ix, l)) { std::istringstream is(l); entry e; is >> e.file >> e.kind >> e.flags >> e.bytes >> e.answers >> e.digest >> e.size; std::getline(is, e.name); if (is.fail()) { fprintf(stderr, "bad index\n"); return 3; } entries.push_back(e); }
    if (entries.empty()) { fprintf(stderr, "no golden files\n"); return 3; }
    return mon::run_cases(entries.size() * 5, one);
}
