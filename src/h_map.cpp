// C14 / C15: freezing and mapping of every structure.  The frozen bytes are mapped from a memory-mapped file, from
// exact heap copies, from unaligned addresses and from read-only pages with inaccessible pages flush at either end, so
// that a write, or a read outside the frozen bytes, faults.
#include "zoo.hpp"
#include <thread>
#include <fstream>
#include <sys/stat.h>
#include <malloc.h>
using namespace zoo;
using mon::opt;

static std::string path(const char* n) { return opt().scratch + "/" + n; }
static std::string slurp(std::string const& p) {
    FILE* f = fopen(p.c_str(), "rb"); if (!f) mon::fail("frozen file", "the frozen file cannot be opened");
    std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f))) s.append(b, k); fclose(f); return s;
}
static void same_bytes(const char* op, std::string const& a, std::string const& b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    MON_TRUE(op, a.size(), b.size(), a == b, "frozen bytes differ at offset " << i << " (sizes " << a.size() << " and " << b.size() << ")");
}

// frozen bytes in read-only memory, flush against an inaccessible page
struct guarded {
    char* base; size_t len; char* p;
    guarded(std::string const& s, bool at_end, size_t shift = 0) {
        size_t pg = 4096, need = (s.size() + shift + pg - 1) / pg * pg; if (!need) need = pg;
        len = need + 2 * pg;
        base = (char*)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) { perror("mmap"); _exit(3); }
        p = at_end ? base + pg + need - s.size() : base + pg + shift;
        memset(base + pg, 0xEE, need);
        memcpy(p, s.data(), s.size());
        mprotect(base + pg, need, PROT_READ); mprotect(base, pg, PROT_NONE); mprotect(base + pg + need, pg, PROT_NONE);
    }
    ~guarded() { munmap(base, len); }
};

template <typename T> std::string freeze_file(T& x, uint64_t flags, size_t& written, const char* name = "f.bin") {
    std::string p = path(name);
    if (flags) written = mapper::freeze(x, p.c_str(), flags); else written = mapper::freeze(x, p.c_str());
    return slurp(p);
}
template <typename T> std::string freeze_stream(T& x, size_t& written) {
    std::string p = path("s.bin");
    { std::ofstream o(p.c_str(), std::ios::binary); written = mapper::freeze(x, o); MON_TRUE("stream good after freeze", written, 0, o.good(), "the stream failed"); }
    return slurp(p);
}

static uint64_t check_tree(mapper::size_node_ptr const& n, unsigned depth, unsigned& nodes) {
    uint64_t s = 0; ++nodes;
    for (size_t i = 0; i < n->children.size(); ++i) s += check_tree(n->children[i], depth + 1, nodes);
    MON_TRUE("size tree node", n->size, s, n->size >= s, "node '" << n->name << "' has size " << n->size << ", its children " << s);
    return n->size;
}

// structures of the user's own around narrow plain fields, empty ones included: their exact sizes are known
struct plain1 { uint8_t a; plain1() : a(7) {} template <typename V> void map(V& v) { v(a, "a"); } };
struct plain2 { uint16_t a; bool b; uint8_t c[3]; plain2() : a(300), b(true) { c[0] = c[1] = c[2] = 9; } template <typename V> void map(V& v) { v(a, "a")(b, "b")(c[0], "c0")(c[1], "c1")(c[2], "c2"); } };
struct nothing { nothing() {} template <typename V> void map(V&) {} };
struct nest { plain1 p; plain2 q; nothing z; mapper::mappable_vector<uint8_t> v; uint32_t w; nest() : w(5) {} template <typename V> void map(V& x) { x(p, "p")(v, "v")(z, "z")(w, "w")(q, "q"); } };
struct holder { nest n; bit_vector b; plain2 q; holder() {} template <typename V> void map(V& x) { x(n, "n")(q, "q")(b, "b"); } };
static void expect_node(mapper::size_node_ptr const& n, const char* name, uint64_t size, size_t children) {
    MON_TRUE("size tree node name", size, 0, n->name == name, "a node is called '" << n->name << "' instead of '" << name << "'");
    MON_EQ("size tree node size", size, 0, size, n->size); MON_EQ("size tree node children", size, 0, children, n->children.size()); }
static void plain_structures(rng_t& r) {
    holder h; uint64_t k = r.below(50), m = r.below(300); { std::vector<uint8_t> v(k, 3); h.n.v.steal(v); } { std::vector<bool> b(m, true); bit_vector(b).swap(h.b); }
    uint64_t nv = 8 + k, nn = 1 + nv + 0 + 4 + 6, nb = 8 + 8 + (m + 63) / 64 * 8, top = nn + 6 + nb;
    mapper::size_node_ptr t = mapper::size_tree_of(h, "h"); expect_node(t, "h", top, 3); MON_EQ("size_of(holder)", k, m, top, mapper::size_of(h));
    expect_node(t->children[0], "n", nn, 4); expect_node(t->children[1], "q", 6, 0); MON_EQ("size tree node size", 2, 0, nb, t->children[2]->size);
    mapper::size_node_ptr n = t->children[0]; expect_node(n->children[0], "p", 1, 0); expect_node(n->children[1], "v", nv, 0); expect_node(n->children[2], "z", 0, 0); expect_node(n->children[3], "q", 6, 0);
    mapper::size_node_ptr q = mapper::size_tree_of(h.n.p, "alone"); expect_node(q, "alone", 1, 0);
    std::string p = opt().scratch + "/plain.bin"; uint64_t w = mapper::freeze(h, p.c_str()); MON_EQ("bytes frozen (holder)", k, m, top + 8, w); MON_EQ("bytes in the file (holder)", k, m, top + 8, slurp(p).size());
    { boost::iostreams::mapped_file_source f(p); holder g; g.n.p.a = 0; g.q.a = 0; g.n.w = 0; MON_EQ("bytes mapped (holder)", k, m, top + 8, mapper::map(g, f)); MON_TRUE("contents (holder)", k, m, g.n.p.a == 7 && g.q.a == 300 && g.n.w == 5 && g.n.q.c[2] == 9 && g.n.v.size() == k && g.b.size() == m, "the mapped fields differ"); }
    mon::hit("structures of narrow plain fields");
}

struct runner {
    rng_t& r; uint64_t id;
    runner(rng_t& r_, uint64_t id_) : r(r_), id(id_) {}
    uint64_t maxn() { return r.chance(.06) ? 150000 : r.chance(.3) ? 20000 : 2500; }

    template <typename K> void map_check(const char* what, const char* p, size_t n, typename K::type& y, input const& in, sink const& ref, uint64_t qseed, uint64_t fl) {
        MON_OP("map", n, fl);
        size_t k = fl ? mapper::map(y, p, fl) : mapper::map(y, p);
        MON_EQ("bytes consumed by map", fl, 0, n, k);
        sink s(true); K::observe(y, in.flags, rng_t(qseed), s);
        same_answers(what, ref, s);
    }

    template <typename K> void c14(input const& in, typename K::type& x) {
        typedef typename K::type T;
        uint64_t qseed = r.next(), flags = r.chance(.3) ? r.next() : 0;
        sink ref(true); K::observe(x, in.flags, rng_t(qseed), ref);
        mon::hit("answers compared", ref.n);
        size_t w; std::string f = freeze_file(x, flags, w);
        { sink s(true); K::observe(x, in.flags, rng_t(qseed), s); same_answers("the original after freezing", ref, s); }
        { // memory-mapped file
            boost::iostreams::mapped_file_source m(path("f.bin"));
            T y; uint64_t fl = r.coin() ? uint64_t(mapper::map_flags::warmup) : 0;
            if (fl) mon::hit("warm-up");
            MON_OP("map(file)", w, fl);
            size_t k = fl ? mapper::map(y, m, fl) : mapper::map(y, m);
            MON_EQ("bytes consumed by map(file)", fl, 0, f.size(), k);
            sink s(true); K::observe(y, in.flags, rng_t(qseed), s); same_answers("mapped from a file", ref, s);
            mon::hit("mapped from a file");
            { size_t w2; std::string g = freeze_file(y, flags, w2, "g.bin"); same_bytes("frozen again", f, g); }
            // over an object that is already mapped
            MON_OP("map again over a mapped object", w, 0); mapper::map(y, m, mapper::map_flags::warmup);
            sink s2(true); K::observe(y, in.flags, rng_t(qseed), s2); same_answers("mapped twice", ref, s2);
        }
        { // pages: flush at the end, flush at the start
            guarded g(f, true); T y; map_check<K>("mapped flush to the end of a page", g.p, f.size(), y, in, ref, qseed, r.coin() ? 1 : 0); mon::hit("read-only pages, guard after the end"); }
        { guarded g(f, false); T y; map_check<K>("mapped flush to the start of a page", g.p, f.size(), y, in, ref, qseed, r.coin() ? 1 : 0); mon::hit("read-only pages, guard before the start");
          if (memcmp(g.p, f.data(), f.size())) mon::fail("frozen bytes changed", "queries changed the mapped bytes"); }
        { // exact heap copy at some offset from an aligned address
            size_t sh = r.below(8); if (sh) mon::hit("unaligned address");
            std::vector<char> c(f.size() + sh); std::copy(f.begin(), f.end(), c.begin() + long(sh)); c.shrink_to_fit();
            T y; 
            if (r.coin()) { // an object that already holds other contents
                input in2; K::make(r, 2000, in2); MON_OP("map over a built object", 0, 0); K::build(in2, y, (unsigned)r.below(n_routes)); mon::hit("mapped over a built object"); }
            map_check<K>("mapped from memory", c.data() + sh, f.size(), y, in, ref, qseed, r.coin() ? 1 : 0);
            if (memcmp(c.data() + sh, f.data(), f.size())) mon::fail("frozen bytes changed", "queries changed the mapped bytes");
            if (r.coin()) { // reuse for another construction
                input in2; K::make(r, 1000, in2); T z; K::build(in2, y, 0); K::build(in2, z, 0);
                sink a(true), b(true); K::observe(z, in2.flags, rng_t(qseed), a); K::observe(y, in2.flags, rng_t(qseed), b); same_answers("rebuilt over a mapped object", a, b); }
        }
        if (r.chance(.2)) { // swapped mapped object keeps answering
            guarded g(f, r.coin()); T y, z; mapper::map(y, g.p); y.swap(z); sink s(true); K::observe(z, in.flags, rng_t(qseed), s); same_answers("mapped, then swapped", ref, s); mon::hit("mapped and swapped"); }
    }

    template <typename K> void c15(input const& in, typename K::type& x, unsigned route) {
        typedef typename K::type T;
        size_t w, w2; std::string f = freeze_file(x, 0, w), g = freeze_stream(x, w2);
        MON_EQ("bytes returned by freeze(file)", 0, 0, f.size(), w);
        MON_EQ("bytes returned by freeze(stream)", 0, 0, g.size(), w2);
        same_bytes("file and stream", f, g);
        MON_EQ("size_of", 0, 0, f.size() - 8, mapper::size_of(x));
        mapper::size_node_ptr t = mapper::size_tree_of(x);
        MON_EQ("size tree root", 0, 0, f.size() - 8, t->size);
        unsigned nodes = 0; check_tree(t, 0, nodes); mon::hit("size tree nodes", nodes);
        { std::ostringstream os; t->dump(os); size_t lines = 0; std::string s = os.str(); for (size_t i = 0; i < s.size(); ++i) lines += s[i] == '\n'; MON_EQ("size tree dump lines", 0, 0, nodes, lines); }
        { std::vector<char> c(f.begin(), f.end()); T y; MON_EQ("bytes returned by map", 0, 0, f.size(), mapper::map(y, c.data())); MON_EQ("size_of(mapped)", 0, 0, f.size() - 8, mapper::size_of(y));
          mapper::size_node_ptr t2 = mapper::size_tree_of(y); MON_EQ("size tree root (mapped)", 0, 0, t->size, t2->size); }
        // equal contents, other history
        for (int k = 0; k < 3; ++k) {
            unsigned char fill = k == 0 ? 0xAA : k == 1 ? 0x55 : (unsigned char)r.next();
            mallopt(M_PERTURB, fill);
            std::vector<void*> junk; for (int j = 0; j < 20; ++j) { size_t sz = 8 + r.below(1 + in.bits.size() / 4 + in.ints.size() * 8); void* p = malloc(sz); memset(p, fill, sz); junk.push_back(p); }
            for (size_t j = 0; j < junk.size(); ++j) free(junk[j]);
            void* mem = malloc(sizeof(T)); memset(mem, fill, sizeof(T));
            T* y = new (mem) T();
            unsigned rt = k == 2 ? route : (unsigned)r.below(n_routes);
            if (rt != route) mon::hit("built by another route");
            MON_OP("build again", rt, k); K::build(in, *y, rt);
            size_t w3; std::string h = freeze_file(*y, 0, w3, "h.bin");
            same_bytes("equal contents", f, h);
            y->~T(); free(mem);
        }
        mallopt(M_PERTURB, 0);
        if (r.chance(.3)) { // default-constructed objects are equal contents too
            std::string d[2];
            for (int k = 0; k < 2; ++k) { void* mem = malloc(sizeof(T)); memset(mem, k ? 0xFF : 0x11, sizeof(T)); T* y = new (mem) T(); size_t w3; d[k] = freeze_file(*y, 0, w3, "d.bin"); MON_EQ("size_of(default)", 0, 0, d[k].size() - 8, mapper::size_of(*y)); 
                T z; std::vector<char> c(d[k].begin(), d[k].end()); MON_EQ("bytes returned by map(default)", 0, 0, d[k].size(), mapper::map(z, c.data())); MON_EQ("size of mapped default", 0, 0, 0, K::size(z)); y->~T(); free(mem); }
            same_bytes("default-constructed", d[0], d[1]); mon::hit("default-constructed frozen");
        }
        // cleared objects freeze like fresh ones
        if (r.chance(.3)) { T y; K::build(in, y, 0); util::dispose(y); T z; size_t w3; std::string a = freeze_file(y, 0, w3, "d.bin"), b = freeze_file(z, 0, w3, "d.bin"); same_bytes("disposed", b, a); }
        concat<K>(in, x, f);
    }
    // several structures one after another on a stream
    template <typename K> void concat(input const& in, typename K::type& x, std::string const& f) {
        typedef typename K::type T;
        input ib, iu, ix; K_bits::make(r, 3000, ib); K_user::make(r, 600, iu); K::make(r, 2000, ix);
        bit_vector b; K_bits::build(ib, b, 0); outer u; K_user::build(iu, u, 0); T x2; K::build(ix, x2, 0);
        std::string p = path("c.bin"); std::vector<size_t> w; std::string pre(r.below(9), 'P');
        { std::ofstream o(p.c_str(), std::ios::binary); o << pre; w.push_back(mapper::freeze(b, o)); w.push_back(mapper::freeze(x, o)); w.push_back(mapper::freeze(u, o)); w.push_back(mapper::freeze(x2, o)); w.push_back(mapper::freeze(x, o));
          MON_EQ("stream position", 0, 0, pre.size() + w[0] + w[1] + w[2] + w[3] + w[4], uint64_t(o.tellp())); }
        std::string c = slurp(p);
        MON_EQ("concatenated length", 0, 0, pre.size() + w[0] + w[1] + w[2] + w[3] + w[4], c.size());
        const char* q = c.data() + pre.size();
        bit_vector mb; T mx, mx2, mx3; outer mu; uint64_t qs = r.next();
        MON_EQ("map 1st of stream", 0, 0, w[0], mapper::map(mb, q)); q += w[0];
        if (c.compare(size_t(q - c.data()), w[1], f)) mon::fail("concatenated bytes", "a structure froze to other bytes inside a longer stream");
        MON_EQ("map 2nd of stream", 0, 0, w[1], mapper::map(mx, q)); q += w[1];
        MON_EQ("map 3rd of stream", 0, 0, w[2], mapper::map(mu, q)); q += w[2];
        MON_EQ("map 4th of stream", 0, 0, w[3], mapper::map(mx2, q)); q += w[3];
        MON_EQ("map 5th of stream", 0, 0, w[4], mapper::map(mx3, q));
        { sink a(true), d(true); K_bits::observe(b, 0, rng_t(qs), a); K_bits::observe(mb, 0, rng_t(qs), d); same_answers("1st of stream", a, d); }
        { sink a(true), d(true), e(true); K::observe(x, in.flags, rng_t(qs), a); K::observe(mx, in.flags, rng_t(qs), d); same_answers("2nd of stream", a, d); K::observe(mx3, in.flags, rng_t(qs), e); same_answers("5th of stream", a, e); }
        { sink a(true), d(true); K_user::observe(u, 0, rng_t(qs), a); K_user::observe(mu, 0, rng_t(qs), d); same_answers("3rd of stream", a, d); }
        { sink a(true), d(true); K::observe(x2, ix.flags, rng_t(qs), a); K::observe(mx2, ix.flags, rng_t(qs), d); same_answers("4th of stream", a, d); }
        mon::hit("structures frozen on one stream", 5);
    }

    template <typename K> void go() {
        input in; if (r.chance(.04)) { K::make(r, 1, in); } else K::make(r, maxn(), in);
        unsigned route = (unsigned)r.below(n_routes);
        mon::describe(std::string(K::name()) + " " + in.name + " route=" + num(route));
        mon::hit(std::string("kind:") + K::name());
        typename K::type x; MON_OP("build", route, 0); K::build(in, x, route);
        if (K::size(x)) mon::nontrivial(mon::mix(in.hash(), mon::hash_str(K::name())));
        if (opt().prop == "C14") c14<K>(in, x); else { c15<K>(in, x, route); plain_structures(r); }
    }
};

// ------------------------------------------------------------------ structures beyond 4 GiB, frozen through a pipe
static void huge_case() {
    uint64_t words = ((uint64_t(1) << 32) + (uint64_t(1) << 26)) / 8 + 3;
    std::vector<uint64_t> v(words);
    std::vector<uint64_t> at; for (uint64_t i = 0; i < words; i += words / 1000 + 1) at.push_back(i); at.push_back(words - 1);
    for (size_t i = 0; i < at.size(); ++i) v[at[i]] = at[i] * 0x9E3779B97F4A7C15ULL | 1;
    mapper::mappable_vector<uint64_t> x; x.steal(v);
    uint64_t cap = words * 8 + 4096;
    char* img = (char*)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (img == MAP_FAILED) { perror("mmap"); _exit(3); }
    std::string p = path("fifo"); unlink(p.c_str()); if (mkfifo(p.c_str(), 0600)) { perror("mkfifo"); _exit(3); }
    uint64_t got = 0;
    std::thread t([&] { int fd = open(p.c_str(), O_RDONLY); std::vector<char> b(1 << 20); ssize_t k; 
        while ((k = read(fd, b.data(), b.size())) > 0) { // only the non-zero pages are stored
            for (ssize_t o = 0; o < k; o += 4096) { size_t l = size_t(std::min<ssize_t>(4096, k - o)); bool z = true; for (size_t j = 0; j < l; ++j) if (b[size_t(o) + j]) { z = false; break; }
                if (!z && got + uint64_t(o) + l <= cap) memcpy(img + got + o, b.data() + o, l); } got += uint64_t(k); } close(fd); });
    MON_OP("freeze beyond 4 GiB", words, 0);
    size_t w; { std::ofstream o(p.c_str(), std::ios::binary); w = mapper::freeze(x, o); }
    t.join(); unlink(p.c_str());
    MON_EQ("bytes written beyond 4 GiB", words, 0, got, w);
    MON_EQ("size_of beyond 4 GiB", words, 0, got - 8, mapper::size_of(x));
    MON_TRUE("frozen size beyond 4 GiB", words, 0, got >= words * 8, "only " << got << " bytes were written");
    mapper::mappable_vector<uint64_t> y; MON_OP("map beyond 4 GiB", words, 0);
    size_t k = mapper::map(y, img);
    MON_EQ("bytes mapped beyond 4 GiB", words, 0, got, k);
    MON_EQ("size beyond 4 GiB", words, 0, words, y.size());
    for (size_t i = 0; i < at.size(); ++i) { MON_EQ("element beyond 4 GiB", at[i], 0, x[at[i]], y[at[i]]); if (at[i]) MON_EQ("element beyond 4 GiB", at[i] - 1, 0, x[at[i] - 1], y[at[i] - 1]); }
    mon::hit("frozen beyond 4 GiB");
    mon::nontrivial(mon::mix(words, 77));
    munmap(img, cap);
}

static void one(uint64_t id, rng_t& r) {
    if (opt().huge()) { mon::describe("mappable_vector<uint64_t> of more than 4 GiB"); huge_case(); return; }
    runner f(r, id); dispatch(unsigned(id % n_kinds), f);
}
int main(int argc, char** argv) {
    mon::init(argc, argv);
    if (opt().huge()) return mon::run_cases(1, one);
    return mon::run_cases(opt().n(opt().prop == "C14" ? 900 : 600, 21000), one);
}
