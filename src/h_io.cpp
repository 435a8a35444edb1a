// C22: freezing while writes fail, come up short or are interrupted, at every write call and at chosen bytes.
// write() and writev() are interposed, so that the library's stream runs unmodified over a faulty device; the real
// limits of the system (RLIMIT_FSIZE, /dev/full, paths that cannot be opened) are used as well.
#include "zoo.hpp"
#include <fstream>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <errno.h>
using namespace zoo;
using mon::opt;

namespace io {
    struct schedule {
        bool on; uint64_t calls, bytes, injected, shorts, eintrs;
        uint64_t fail_call; uint64_t fail_byte; int err; uint64_t short_max; uint64_t eintr_every; bool sticky;
    };
    static schedule s;
    static dev_t dev; static ino_t ino; // only the file under test is faulty
    static void off() { s.on = false; }
    static void arm() { memset(&s, 0, sizeof s); s.fail_call = s.fail_byte = UINT64_MAX; s.on = true; }
    static bool mine(int fd) { if (!s.on || fd <= 2) return false; struct stat b; return fstat(fd, &b) == 0 && S_ISREG(b.st_mode); }
    // how much of a write of n bytes is let through; -1 with errno for a failure
    static ssize_t judge(size_t n) {
        ++s.calls;
        if (s.eintr_every && s.calls % s.eintr_every == 1 % s.eintr_every && s.eintrs < 1000000) { ++s.eintrs; errno = EINTR; return -1; }
        if (s.calls - s.eintrs == s.fail_call || (s.sticky && s.injected)) { ++s.injected; errno = s.err; return -1; }
        if (n == 0) return 0;
        size_t m = n;
        if (s.short_max && m > s.short_max) { m = s.short_max; ++s.shorts; }
        if (s.bytes + m > s.fail_byte) { if (s.bytes >= s.fail_byte) { ++s.injected; errno = s.err; return -1; } m = size_t(s.fail_byte - s.bytes); ++s.shorts; }
        return ssize_t(m);
    }
}
extern "C" ssize_t write(int fd, const void* p, size_t n) {
    if (!io::mine(fd)) return syscall(SYS_write, fd, p, n);
    ssize_t m = io::judge(n); if (m < 0) return -1;
    ssize_t k = syscall(SYS_write, fd, p, size_t(m)); if (k > 0) io::s.bytes += uint64_t(k); return k;
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!io::mine(fd)) return syscall(SYS_writev, fd, v, c);
    size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len;
    ssize_t m = io::judge(n); if (m < 0) return -1;
    ssize_t done = 0;
    for (int i = 0; i < c && done < m; ++i) {
        size_t want = std::min(v[i].iov_len, size_t(m - done)); if (!want) continue;
        ssize_t k = syscall(SYS_write, fd, v[i].iov_base, want); if (k < 0) return done ? done : -1;
        done += k; io::s.bytes += uint64_t(k); if (size_t(k) < want) break;
    }
    return done;
}

static std::string path(const char* n) { return opt().scratch + "/" + n; }
static std::string slurp(std::string const& p) {
    FILE* f = fopen(p.c_str(), "rb"); if (!f) return "<cannot be opened>";
    std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f))) s.append(b, k); fclose(f); return s;
}
// files under the scratch folder only: sanitizer runtimes open and close files of their own at any time
static unsigned open_files() {
    unsigned n = 0; DIR* d = opendir("/proc/self/fd");
    while (struct dirent* e = readdir(d)) { char b[4096]; ssize_t k = readlinkat(dirfd(d), e->d_name, b, sizeof b); if (k > 0 && std::string(b, size_t(k)).compare(0, opt().scratch.size(), opt().scratch) == 0) ++n; }
    closedir(d); return n;
}

struct runner {
    rng_t& r; uint64_t files;
    // freezes by name under the armed schedule and judges the outcome. must: 0 may fail, 1 has to succeed, 2 has to fail
    template <typename T> bool named(const char* what, T& x, std::string const& p, std::string const& ref, int must, uint64_t a, bool readable = true) {
        bool threw = false; size_t ret = 0;
        mon::set_op(what, a, io::s.err);
        try { ret = mapper::freeze(x, p.c_str()); } catch (std::exception const&) { threw = true; }
        bool injected = io::s.injected != 0; io::off();
        mon::hit("named freezes"); mon::hit(threw ? "failure reported" : "success reported"); if (injected) mon::hit("write failures injected", io::s.injected);
        if (io::s.shorts) mon::hit("short writes injected", io::s.shorts);
        if (io::s.eintrs) mon::hit("interrupted writes injected", io::s.eintrs);
        if (!threw) {
            MON_TRUE("failed write is reported", a, 0, must != 2 && !(must == 0 && injected && readable && slurp(p) != ref), what << ": freeze returned " << ret << " although it could not store the " << ref.size() << " bytes");
            MON_EQ("bytes reported by freeze", a, 0, ref.size(), ret);
            if (readable) { std::string got = slurp(p); MON_TRUE("file holds the frozen bytes", a, got.size(), got == ref, what << ": freeze returned normally, but the file holds " << got.size() << " bytes that differ from the " << ref.size() << " frozen ones"); }
        } else MON_TRUE("failure only when a write failed", a, 0, must != 1 && (injected || must == 2), what << ": freeze reported a failure although every write succeeded");
        MON_EQ("open files", a, 0, files, open_files());
        return threw;
    }
    // the same for a caller's stream
    template <typename T> void streamed(T& x, std::string const& ref, uint64_t at, int err, bool throwing) {
        std::string p = path("s.bin"); std::string before(size_t(r.below(40)), 'p');
        std::ofstream o(p.c_str(), std::ios::binary); o << before; o.flush();
        if (throwing) o.exceptions(std::ios::badbit | std::ios::failbit);
        io::arm(); io::s.fail_byte = at; io::s.err = err; io::s.sticky = true;
        mon::set_op("freeze to a stream over a failing device", at, uint64_t(err));
        bool threw = false; try { mapper::freeze(x, o); o.flush(); } catch (std::exception const&) { threw = true; }
        bool failed = !o; io::off(); bool injected = io::s.injected != 0;
        o.exceptions(std::ios::goodbit); 
        mon::hit("stream freezes"); if (injected) mon::hit("stream freezes on a failing device");
        if (injected) { MON_TRUE("failed stream stays failed", at, throwing, failed && (!throwing || threw), "writes failed, but the stream is good after freeze and flush" << (throwing ? " or its exceptions were lost" : "")); }
        else { MON_TRUE("good stream stays good", at, 0, !failed && !threw, "no write failed, but the stream failed"); o.close(); MON_TRUE("stream holds the frozen bytes", at, 0, slurp(p) == before + ref, "the frozen bytes do not follow what was on the stream"); }
        if (failed && r.coin()) { // a stream that failed before
            size_t n = size_t(mapper::freeze(x, o)); (void)n; MON_TRUE("failed stream stays failed (second freeze)", at, 0, !o, "freezing to a failed stream made it good"); mon::hit("freeze to a stream that had failed"); }
    }
    template <typename K> void go() {
        typedef typename K::type T;
        mon::hit(std::string("kind:") + K::name());
        input in; K::make(r, r.chance(.25) ? 60000 : r.chance(.4) ? 6000 : 500, in); T x; K::build(in, x, 0);
        mon::describe(std::string(K::name()) + " " + in.name); mon::nontrivial(mon::mix(in.hash(), mon::hash_str(K::name())));
        std::string p = path("f.bin"); uint64_t q = r.next(); sink before(true); K::observe(x, in.flags, rng_t(q), before);
        files = open_files(); unlink(p.c_str());
        // without faults, over nothing, over a longer file, over a shorter one
        io::arm(); size_t n = mapper::freeze(x, p.c_str()); uint64_t calls = io::s.calls; io::off(); std::string ref = slurp(p);
        MON_EQ("frozen size", 0, 0, ref.size(), n); MON_EQ("frozen size against size_of", 0, 0, mapper::size_of(x) + 8, n);
        mon::hit("write calls seen", calls);
        for (int k = 0; k < 3; ++k) {
            { std::ofstream o(p.c_str(), std::ios::binary); o << std::string(k == 0 ? ref.size() + 1 + r.below(9000) : k == 1 ? ref.size() / 2 : ref.size(), '#'); }
            io::arm(); named("over an existing file", x, p, ref, 1, k); mon::hit(k == 0 ? "over a longer file" : "over another file"); }
        static const int errs[] = {ENOSPC, EIO, EDQUOT, EFBIG, EBADF, EPIPE};
        // every write call fails once, or from then on
        for (uint64_t c = 1; c <= calls && c <= 60; ++c) for (int sticky = 0; sticky < 2; ++sticky) {
            uint64_t at = calls > 60 && c > 20 ? 1 + r.below(calls) : c;
            io::arm(); io::s.fail_call = at; io::s.err = errs[r.below(6)]; io::s.sticky = sticky != 0; unlink(p.c_str());
            named(sticky ? "writes fail from a call on" : "one write fails", x, p, ref, 0, at); }
        // the device fills up at a byte: everywhere for short files, at edges and samples otherwise
        std::vector<uint64_t> at; if (n <= 64) for (uint64_t b = 0; b < n; ++b) at.push_back(b); else { for (uint64_t b = 0; b < 10; ++b) { at.push_back(b); at.push_back(n - 1 - b); } for (int k = 0; k < 24; ++k) at.push_back(r.below(n)); for (uint64_t b = 8191; b < n && b < 60000; b += 8192) { at.push_back(b); if (b + 1 < n) at.push_back(b + 1); } }
        for (size_t k = 0; k < at.size(); ++k) {
            io::arm(); io::s.fail_byte = at[k]; io::s.err = errs[r.below(6)]; io::s.sticky = true; if (r.chance(.3)) io::s.short_max = 1 + r.below(2000);
            if (r.coin()) unlink(p.c_str());
            bool t = named("the device fills up", x, p, ref, 2, at[k]); (void)t; mon::hit("device full"); }
        // short and interrupted writes are no failures
        for (int k = 0; k < 4; ++k) { io::arm(); io::s.short_max = k == 0 ? (n < 3000 ? 1 : 97) : 1 + r.below(5000); if (k & 1) io::s.eintr_every = 2 + r.below(3); named("short or interrupted writes", x, p, ref, 1, k); }
        // a real limit on the file size
        if (n > 9) { uint64_t lim = 1 + r.below(n - 1); struct rlimit old, l; getrlimit(RLIMIT_FSIZE, &old); l = old; l.rlim_cur = lim; unlink(p.c_str());
            setrlimit(RLIMIT_FSIZE, &l); bool threw = false; io::off(); size_t ret = 0; MON_OP("file size limit", lim, n); try { ret = mapper::freeze(x, p.c_str()); } catch (std::exception const&) { threw = true; } setrlimit(RLIMIT_FSIZE, &old);
            MON_TRUE("file size limit is reported", lim, n, threw, "freeze returned " << ret << " although the file may only hold " << lim << " bytes"); mon::hit("file size limits"); }
        // places where nothing can be stored
        std::string dir = opt().scratch + "/dir"; mkdir(dir.c_str(), 0755); { std::ofstream o(p.c_str()); o << "x"; }
        const std::string nowhere[] = {opt().scratch + "/missing/f.bin", dir, p + "/f.bin", "", opt().scratch + "/" + std::string(300, 'n')};
        for (int k = 0; k < 5; ++k) { io::off(); memset(&io::s, 0, sizeof io::s); named("unusable path", x, nowhere[k], ref, 2, k, false); mon::hit("unusable path"); }
        { struct stat b; if (stat("/dev/full", &b) == 0 && S_ISCHR(b.st_mode)) { memset(&io::s, 0, sizeof io::s); named("/dev/full", x, "/dev/full", ref, 2, 0, false); mon::hit("/dev/full"); } }
        // streams
        for (int k = 0; k < 6; ++k) { uint64_t b = k == 0 ? 0 : k == 1 ? n - 1 : k == 5 ? UINT64_MAX : r.below(n); streamed(x, ref, b, errs[r.below(6)], r.coin()); }
        // streams that were unusable already
        for (int k = 0; k < 5; ++k) { std::string u = path("u.bin"); { std::ofstream o(u.c_str(), std::ios::binary); o << "before"; }
            std::ofstream o; if (k == 1) o.open(nowhere[r.below(2)].c_str(), std::ios::binary); else if (k) o.open(u.c_str(), std::ios::binary | std::ios::app);
            if (k == 2) o.setstate(std::ios::failbit); else if (k == 3) o.setstate(std::ios::badbit); else if (k == 4) o.setstate(std::ios::failbit | std::ios::eofbit);
            if (k == 0 && r.coin()) o.setstate(std::ios::failbit);
            MON_OP("freeze to an unusable stream", k, 0); mapper::freeze(x, o); MON_TRUE("unusable stream stays failed", k, 0, !o, "freezing to a stream that could not be written left it good"); mon::hit("freeze to an unusable stream");
            o.clear(); o.close(); MON_TRUE("nothing written to a failed stream", k, 0, slurp(u) == "before", "a failed stream was written to"); unlink(u.c_str()); }
        // nothing of this has changed the structure, and a later freeze succeeds
        unlink(p.c_str()); io::arm(); named("after all failures", x, p, ref, 1, 0);
        sink after(true); K::observe(x, in.flags, rng_t(q), after); same_answers("after failed freezes", before, after);
        { boost::iostreams::mapped_file_source m(p); T y; mapper::map(y, m); sink s(true); K::observe(y, in.flags, rng_t(q), s); same_answers("mapped after failed freezes", before, s); }
        unlink(p.c_str()); rmdir(dir.c_str());
    }
};
static void one(uint64_t id, rng_t& r) { runner f = {r, 0}; dispatch(unsigned(id % n_kinds), f); }
int main(int argc, char** argv) { signal(SIGXFSZ, SIG_IGN); mon::init(argc, argv); return mon::run_cases(opt().n(300, 8000), one); }
