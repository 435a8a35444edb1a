// Writes the golden files: built against the pinned revision of the library by tools/make_golden.sh.
#include "goldengen.hpp"
#include <fstream>
using namespace zoo;
struct maker {
    std::string dir; unsigned kind, k; std::ofstream& index;
    template <typename K> void go() {
        input in; golden::make<K>(kind, k, in);
        typename K::type x; K::build(in, x, 0);
        std::string f = num(kind) + "-" + num(k) + ".bin";
        size_t w = mapper::freeze(x, (dir + "/" + f).c_str());
        sink s; K::observe(x, in.flags, rng_t(99), s);
        index << f << " " << kind << " " << in.flags << " " << w << " " << s.n << " " << s.h << " " << K::size(x) << " " << K::name() << ": " << in.name << "\n";
    }
};
int main(int, char** argv) {
    std::ofstream ix((std::string(argv[1]) + "/index.txt").c_str());
    for (unsigned kind = 0; kind < n_kinds; ++kind) for (unsigned k = 0; k < 7; ++k) { maker m = {argv[1], kind, k, ix}; dispatch(kind, m); }
}
