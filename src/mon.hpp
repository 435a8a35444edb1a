// Monitoring runtime shared by every harness in /verif/src.
//
// A harness runs the real library code on generated workloads.  Every observed
// answer passes through MON_EQ / MON_TRUE, which compares it with an
// independent oracle, counts the event, and on a mismatch writes a witness and
// ends the process with exit code 10.  The case in progress and the operation
// in progress are kept in a shared mapping, so that the driver can name them
// when the code under test crashes, aborts or hangs.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <utility>
#include <functional>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace mon {

    // ---------------------------------------------------------------- rng
    struct rng_t {
        uint64_t s;
        explicit rng_t(uint64_t seed = 1) : s(seed) { next(); next(); }
        uint64_t next() { // splitmix64
            uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); } // inclusive
        bool chance(double p) { return double(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
        bool coin() { return next() & 1; }
        template <typename T> T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
        uint64_t bits(unsigned b) { return b == 0 ? 0 : next() >> (64 - b); }
    };

    inline uint64_t mix(uint64_t h, uint64_t v) {
        h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL; h ^= h >> 32;
        return h;
    }
    inline uint64_t hash_str(std::string const& s) {
        uint64_t h = 1469598103934665603ULL;
        for (size_t i = 0; i < s.size(); ++i) { h ^= (unsigned char)s[i]; h *= 1099511628211ULL; }
        return h;
    }
    template <typename V> uint64_t hash_vec(V const& v) {
        uint64_t h = 7;
        for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) h = mix(h, uint64_t(*i));
        return mix(h, v.size());
    }

    // ---------------------------------------------------------------- state
    struct shared_state {
        volatile uint64_t in_case;      // 1 while a case runs
        volatile uint64_t case_id;
        const char* volatile op_ptr;    // only meaningful inside this process
        volatile uint64_t a0, a1;
        char desc[2048];
        char op[128];
        volatile uint64_t how;          // 1 crash signal seen, 2 cpu watchdog
        volatile uint64_t signo;
    };

    struct options {
        std::string prop, tier, variant, out, statefile, scratch;
        uint64_t seed, shard, nshards, only_case, cpu_s;
        bool have_only;
        options() : seed(1), shard(0), nshards(1), only_case(0), cpu_s(60), have_only(false) {}
        bool huge() const { return getenv("MON_HUGE") != 0; }
        double scale() const { const char* s = getenv("MON_SCALE"); return s ? atof(s) : 1.0; }
        uint64_t n(uint64_t quick, uint64_t deep) const { double v = double(tier == "thorough" ? deep : quick) * scale(); return v < 1 ? 1 : uint64_t(v); }
        bool thorough() const { return tier == "thorough"; }
    };

    inline options& opt() { static options o; return o; }
    inline shared_state*& st() { static shared_state* s = 0; return s; }

    struct counter_map { std::map<std::string, uint64_t> m; };
    inline counter_map& counters() { static counter_map c; return c; }   // oracle comparisons, by operation
    inline counter_map& events() { static counter_map c; return c; }     // structural situations observed
    inline std::set<uint64_t>& distinct() { static std::set<uint64_t> d; return d; }
    inline std::vector<std::string>& samples() { static std::vector<std::string> s; return s; }
    inline std::map<std::string, std::string>& findings() { static std::map<std::string, std::string> f; return f; }
    inline std::string jstr(std::string const& s) {
        std::string o = "\"";
        for (size_t i = 0; i < s.size(); ++i) {
            unsigned char c = (unsigned char)s[i];
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o + "\"";
    }

    // a violation that does not end the run: the driver compares its key with the known-findings file
    inline void finding(std::string const& key, std::string const& msg) { 
        if (findings().count(key)) return;
        findings()[key] = "{\"message\":" + jstr(msg) + ",\"case\":" + std::to_string(st()->case_id) + ",\"desc\":" + jstr(st()->desc) + "}"; }
    // answers recorded for comparison with other executions (other builds): "case/what" -> digest
    inline std::map<std::string, std::string>& logs() { static std::map<std::string, std::string> l; return l; }
    inline void log(std::string const& what, uint64_t digest) { char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long)digest); logs()[what] = b; }
    inline uint64_t& n_cases() { static uint64_t n = 0; return n; }
    inline uint64_t& n_nontrivial() { static uint64_t n = 0; return n; }

    inline uint64_t* counter(const char* name) { return &counters().m[name]; }
    inline void hit(const char* name, uint64_t n = 1) { events().m[name] += n; }
    inline void hit(std::string const& name, uint64_t n = 1) { events().m[name] += n; }

    inline void write_result(std::string const& violation) {
        std::ostringstream os;
        os << "{\"cases\":" << n_cases() << ",\"nontrivial\":" << n_nontrivial();
        os << ",\"counters\":{"; bool first = true;
        for (std::map<std::string, uint64_t>::iterator i = counters().m.begin(); i != counters().m.end(); ++i) {
            if (!i->second) continue;
            os << (first ? "" : ",") << jstr(i->first) << ":" << i->second; first = false;
        }
        os << "},\"events\":{"; first = true;
        for (std::map<std::string, uint64_t>::iterator i = events().m.begin(); i != events().m.end(); ++i) {
            os << (first ? "" : ",") << jstr(i->first) << ":" << i->second; first = false;
        }
        os << "},\"distinct\":["; first = true;
        for (std::set<uint64_t>::iterator i = distinct().begin(); i != distinct().end(); ++i) {
            os << (first ? "" : ",") << "\"" << std::hex << *i << std::dec << "\""; first = false;
        }
        os << "],\"samples\":["; first = true;
        for (size_t i = 0; i < samples().size(); ++i) { os << (first ? "" : ",") << jstr(samples()[i]); first = false; }
        os << "],\"findings\":{"; first = true;
        for (std::map<std::string, std::string>::iterator i = findings().begin(); i != findings().end(); ++i) {
            os << (first ? "" : ",") << jstr(i->first) << ":" << i->second; first = false;
        }
        os << "},\"log\":{"; first = true;
        for (std::map<std::string, std::string>::iterator i = logs().begin(); i != logs().end(); ++i) {
            os << (first ? "" : ",") << jstr(i->first) << ":" << jstr(i->second); first = false;
        }
        os << "},\"violation\":" << (violation.empty() ? std::string("null") : violation) << "}\n";
        std::string s = os.str();
        std::string tmp = opt().out + ".tmp";
        FILE* f = fopen(tmp.c_str(), "wb");
        if (!f) { fprintf(stderr, "mon: cannot write %s\n", tmp.c_str()); _exit(3); }
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
        rename(tmp.c_str(), opt().out.c_str());
    }

    // C18 runs the workloads of other properties and judges only what the sanitizers see: a wrong answer ends the case.
    inline bool safety_only() { static bool b = getenv("MON_SAFETY") != 0; return b; }
    struct stop_case {};

    // `key` identifies the kind of failure (used against the known-findings list).
    inline void fail(std::string const& key, std::string const& msg) {
        if (safety_only()) { hit("case ended at a wrong answer (judged by another property)"); throw stop_case(); }
        std::ostringstream os;
        os << "{\"key\":" << jstr(key) << ",\"case\":" << (st() ? st()->case_id : 0)
           << ",\"desc\":" << jstr(st() ? st()->desc : "") << ",\"message\":" << jstr(msg) << "}";
        fprintf(stderr, "MONITOR: %s | case %llu | %s | %s\n", key.c_str(),
                (unsigned long long)(st() ? st()->case_id : 0), st() ? st()->desc : "", msg.c_str());
        write_result(os.str());
        fflush(0);
        _exit(10);
    }

    inline void set_op(const char* op, uint64_t a0, uint64_t a1) {
        shared_state* s = st();
        s->op_ptr = op; s->a0 = a0; s->a1 = a1;
    }

    inline void on_signal(int sig) {
        shared_state* s = st();
        if (s) {
            const char* p = s->op_ptr;
            if (p) { size_t i = 0; for (; i + 1 < sizeof(s->op) && p[i]; ++i) s->op[i] = p[i]; s->op[i] = 0; }
            s->how = (sig == SIGPROF) ? 2 : 1;
            s->signo = (uint64_t)sig;
        }
        if (sig == SIGPROF) _exit(88);
        signal(sig, SIG_DFL);
        raise(sig);
    }

    inline void arm_cpu(uint64_t secs) {
        struct itimerval it; memset(&it, 0, sizeof it);
        it.it_value.tv_sec = (time_t)secs;
        setitimer(ITIMER_PROF, &it, 0);
    }

    inline bool is_sanitized() {
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
        return true;
#elif defined(__has_feature)
# if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
        return true;
# else
        return false;
# endif
#else
        return false;
#endif
    }

    inline void init(int argc, char** argv) {
        options& o = opt();
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--prop") o.prop = v;
            else if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
            else if (k == "--tier") o.tier = v;
            else if (k == "--variant") o.variant = v;
            else if (k == "--shard") o.shard = strtoull(v.c_str(), 0, 10);
            else if (k == "--nshards") o.nshards = strtoull(v.c_str(), 0, 10);
            else if (k == "--out") o.out = v;
            else if (k == "--state") o.statefile = v;
            else if (k == "--scratch") o.scratch = v;
            else if (k == "--cpu") o.cpu_s = strtoull(v.c_str(), 0, 10);
            else if (k == "--case") { o.only_case = strtoull(v.c_str(), 0, 10); o.have_only = true; }
            else { fprintf(stderr, "mon: unknown option %s\n", k.c_str()); _exit(3); }
        }
        if (o.out.empty() || o.statefile.empty()) { fprintf(stderr, "mon: --out and --state needed\n"); _exit(3); }
        int fd = open(o.statefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(shared_state))) { perror("mon state"); _exit(3); }
        st() = (shared_state*)mmap(0, sizeof(shared_state), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (st() == MAP_FAILED) { perror("mon mmap"); _exit(3); }
        close(fd);
        int sigs[] = {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF};
        for (size_t i = 0; i < sizeof(sigs) / sizeof(sigs[0]); ++i) {
            // address sanitizer reports SEGV/BUS/FPE itself; keep its handler
            if (is_sanitized() && (sigs[i] == SIGSEGV || sigs[i] == SIGBUS || sigs[i] == SIGFPE || sigs[i] == SIGILL)) continue;
            signal(sigs[i], on_signal);
        }
    }

    inline void begin_case(uint64_t id, std::string const& desc) {
        shared_state* s = st();
        s->case_id = id;
        snprintf(s->desc, sizeof s->desc, "%s", desc.c_str());
        s->op_ptr = 0; s->a0 = s->a1 = 0; s->op[0] = 0;
        s->in_case = 1;
    }
    inline void describe(std::string const& desc) {
        snprintf(st()->desc, sizeof st()->desc, "%s", desc.c_str());
    }
    // nontrivial cases carry a hash of their content; `note` feeds the samples
    inline void nontrivial(uint64_t h) {
        n_nontrivial() += 1;
        if (distinct().size() < 200000) distinct().insert(h);
    }

    typedef void (*case_fn)(uint64_t id, rng_t& rng);

    // Runs cases id = 0 .. n-1 of this shard.
    inline int run_cases(uint64_t n, case_fn fn) {
        options& o = opt();
        uint64_t sample_every = n / (o.nshards * 2 + 1) + 1;
        for (uint64_t id = 0; id < n; ++id) {
            if (o.have_only) { if (id != o.only_case) continue; }
            else if (id % o.nshards != o.shard) continue;
            // every build explores its own inputs, except where builds are compared with each other
            rng_t rng(mix(mix(hash_str(o.prop + (getenv("MON_SAME") ? "" : o.variant)), o.seed), id));
            begin_case(id, "");
            arm_cpu(o.cpu_s);
            try {
                fn(id, rng);
            } catch (stop_case const&) {
            } catch (std::exception const& e) {
                if (!safety_only()) fail("unexpected-exception", std::string("exception on a valid use: ") + e.what());
            } catch (...) {
                if (!safety_only()) fail("unexpected-exception", "unknown exception on a valid use");
            }
            arm_cpu(0);
            st()->in_case = 0;
            n_cases() += 1;
            if (samples().size() < 2 && (id / o.nshards) % sample_every == 0 && st()->desc[0])
                samples().push_back(st()->desc);
        }
        write_result("");
        return 0;
    }

    template <typename A, typename B>
    std::string neq_msg(const char* op, A const& e, B const& g, uint64_t a0, uint64_t a1) {
        std::ostringstream os;
        os << op << "(" << a0 << ", " << a1 << "): expected " << e << ", observed " << g;
        return os.str();
    }
}

// Compare the observed answer of EXPR with EXPECTED. OP names the operation, A0/A1 its arguments.
#define MON_EQ(OP, A0, A1, EXPECTED, EXPR)                                            \
    do {                                                                              \
        static uint64_t* mon_c_ = mon::counter(OP);                                   \
        mon::set_op(OP, uint64_t(A0), uint64_t(A1));                                  \
        auto mon_g_ = (EXPR);                                                         \
        auto mon_e_ = (EXPECTED);                                                     \
        ++*mon_c_;                                                                    \
        if (!(uint64_t(mon_e_) == uint64_t(mon_g_)))                                  \
            mon::fail(OP, mon::neq_msg(OP, uint64_t(mon_e_), uint64_t(mon_g_), uint64_t(A0), uint64_t(A1))); \
    } while (0)

#define MON_TRUE(OP, A0, A1, COND, MSG)                                               \
    do {                                                                              \
        static uint64_t* mon_c_ = mon::counter(OP);                                   \
        mon::set_op(OP, uint64_t(A0), uint64_t(A1));                                  \
        bool mon_ok_ = (COND);                                                        \
        ++*mon_c_;                                                                    \
        if (!mon_ok_) { std::ostringstream mon_os_; mon_os_ << OP << "(" << uint64_t(A0) << ", " << uint64_t(A1) << "): " << MSG; \
            mon::fail(OP, mon_os_.str()); }                                           \
    } while (0)

// Mark the operation in progress without comparing anything (constructors, builders).
#define MON_OP(OP, A0, A1)                                                             \
    do { static uint64_t* mon_c_ = &mon::events().m[OP]; ++*mon_c_; mon::set_op(OP, uint64_t(A0), uint64_t(A1)); } while (0)
