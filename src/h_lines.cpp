// C23: line readers against a plain split of the text.
#include "gen.hpp"
#include "util.hpp"
using namespace succinct;
using namespace gen;
using mon::opt;

static void same_line(const char* op, uint64_t i, std::string const& want, std::string const& got) {
    static std::map<const char*, uint64_t*> c; uint64_t*& p = c[op]; if (!p) p = mon::counter(op); ++*p;
    mon::set_op(op, i, want.size());
    if (want != got) { size_t k = 0; while (k < want.size() && k < got.size() && want[k] == got[k]) ++k; std::ostringstream o; o << op << ": line " << i << " should have " << want.size() << " characters, has " << got.size() << "; first difference at " << k; mon::fail(op, o.str()); }
}
static std::vector<std::string> split_keep(std::string const& t) { // lines with their newline
    std::vector<std::string> v; std::string c;
    for (size_t i = 0; i < t.size(); ++i) { c += t[i]; if (t[i] == '\n') { v.push_back(c); c.clear(); } }
    if (!c.empty()) v.push_back(c);
    return v;
}
static std::string trim_all(std::string s) { while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
static std::string trim_one(std::string s) { if (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty() && s.back() == '\r') s.pop_back(); return s; }

static std::string any_text(rng_t& r, std::string& nm) {
    std::string t; unsigned style = (unsigned)r.below(7); nm = "style=" + num(style);
    uint64_t lines = r.chance(.05) ? 0 : r.chance(.2) ? 1 : 1 + r.below(style == 2 ? 6 : 60);
    static const uint64_t lens[] = {65534, 65535, 65536, 65537, 131070, 131071, 131072, 65533, 131069, 196605, 196606};
    for (uint64_t i = 0; i < lines; ++i) {
        uint64_t l = style == 0 ? r.below(4) : style == 1 ? r.below(200) : style == 2 ? lens[r.below(11)] + (r.chance(.2) ? r.below(5) : 0) : style == 3 ? 0 : r.below(40);
        std::string s(l, 'x');
        for (size_t k = 0; k < s.size(); ++k) { s[k] = style == 5 ? (r.chance(.3) ? '\r' : 'y') : l < 500 || k < 40 || k + 40 > l ? char(1 + r.below(255)) : char('a' + (k * 7 + i) % 26); if (s[k] == '\n') s[k] = '\x80'; if (s[k] == '\r' && style != 5 && !r.chance(.2)) s[k] = ' '; }
        bool last = i + 1 == lines;
        t += s;
        if (last && r.coin()) { if (r.chance(.3)) t += '\r'; break; }
        unsigned e = (unsigned)r.below(style == 4 ? 2 : 6); t += e == 0 ? "\r\n" : e == 1 && r.chance(.3) ? "\r\r\n" : "\n";
    }
    if (style == 2) { for (uint64_t d = 0; d < 11; ++d) if (t.size() > lens[d]) { mon::hit("line as long as the read buffer"); break; } }
    return t;
}
static std::string file_with(std::string const& t) {
    std::string p = opt().scratch + "/text"; FILE* f = fopen(p.c_str(), "wb"); if (!f) _exit(3);
    fwrite(t.data(), 1, t.size(), f); fclose(f); return p;
}
template <typename F> static void expect_throw(const char* op, F f) {
    bool threw = false; mon::set_op(op, 0, 0);
    try { f(); } catch (std::exception const&) { threw = true; }
    MON_TRUE("missing file throws", 0, 0, threw, op << " did not throw");
}

static void one(uint64_t id, rng_t& r) {
    std::string nm, t = any_text(r, nm);
    if (id % 41 == 0) { t.clear(); nm = "empty"; }
    if (id % 41 == 1) { t = "\n"; nm = "newline"; }
    if (id % 41 == 2) { t = "\n\n\na"; nm = "newlines"; }
    std::vector<std::string> keep = split_keep(t), all, onev;
    for (size_t i = 0; i < keep.size(); ++i) { all.push_back(trim_all(keep[i])); onev.push_back(trim_one(keep[i])); }
    mon::describe("text " + nm + " bytes=" + num(t.size()) + " lines=" + num(keep.size()) + (!t.empty() && t.back() == '\n' ? " newline at end" : ""));
    if (!t.empty()) { mon::nontrivial(mon::hash_str(t)); mon::hit(t.back() == '\n' ? "ends in a newline" : "no newline at the end"); } else mon::hit("empty text");
    std::string p = file_with(t);
    for (int trim = 0; trim < 2; ++trim) {
        std::vector<std::string> const& want = trim ? all : keep;
        { // fast_getline
            util::auto_file f(p.c_str()); std::string line = "junk left over\n"; uint64_t i = 0;
            while (true) {
                MON_OP("fast_getline", i, trim); bool ok = util::fast_getline(line, f.get(), trim);
                MON_EQ("fast_getline.more", i, trim, i < want.size(), ok);
                if (!ok) break;
                same_line("fast_getline.line", i, want[i], line); ++i;
            }
            MON_OP("fast_getline", i, trim); MON_EQ("fast_getline at the end again", i, trim, false, util::fast_getline(line, f.get(), trim));
        }
        { // line_iterator
            util::auto_file f(p.c_str()); uint64_t i = 0;
            util::line_iterator it(f.get(), trim), end;
            for (; it != end; ++it) { MON_TRUE("line_iterator.more", i, trim, i < want.size(), "the iterator yields more lines than the text has"); same_line("line_iterator.line", i, want[i], *it); same_line("line_iterator.line again", i, want[i], *it); ++i; }
            MON_EQ("line_iterator.count", 0, trim, want.size(), i);
        }
        { util::auto_file f(p.c_str()); uint64_t i = 0; util::line_range_t g = util::lines(f.get(), trim);
          for (util::line_iterator it = g.first; it != g.second; ++it) { MON_TRUE("lines().more", i, trim, i < want.size(), "more lines than the text has"); same_line("lines().line", i, want[i], *it); ++i; }
          MON_EQ("lines().count", 0, trim, want.size(), i); }
        if (r.chance(.3)) { // default arguments and a small stdio buffer
            util::auto_file f(p.c_str(), "r"); std::vector<char> sb(64); setvbuf(f.get(), sb.data(), _IOFBF, sb.size());
            std::string line; uint64_t i = 0; while (util::fast_getline(line, f.get())) { MON_TRUE("fast_getline(default).more", i, 0, i < keep.size(), "more lines than the text has"); same_line("fast_getline(default).line", i, keep[i], line); ++i; } MON_EQ("fast_getline(default).count", 0, 0, keep.size(), i);
        }
        if (r.chance(.3) && t.size() < 60000) { // a pipe delivers the text in pieces
            int fd[2]; if (pipe(fd)) _exit(3);
            size_t done = 0; if (fcntl(fd[1], F_SETPIPE_SZ, 1 << 17) < 0) {}
            while (done < t.size()) { ssize_t k = write(fd[1], t.data() + done, std::min<size_t>(t.size() - done, 1 + r.below(4000))); if (k <= 0) _exit(3); done += size_t(k); }
            close(fd[1]); FILE* f = fdopen(fd[0], "rb"); uint64_t i = 0;
            util::line_iterator it(f, trim), end; for (; it != end; ++it) { MON_TRUE("line_iterator(pipe).more", i, trim, i < want.size(), "more lines than the text has"); same_line("line_iterator(pipe).line", i, want[i], *it); ++i; }
            MON_EQ("line_iterator(pipe).count", 0, trim, want.size(), i); fclose(f); mon::hit("read from a pipe");
        }
    }
    { // memory buffer, exact size, with poison behind it
        std::vector<char> c(t.begin(), t.end()); c.shrink_to_fit(); uint64_t i = 0; char dummy = 'z';
        util::buffer_line_iterator it(c.empty() ? &dummy : c.data(), c.size()), end;
        for (; it != end; ++it) { MON_TRUE("buffer_line_iterator.more", i, 0, i < onev.size(), "more lines than the text has"); same_line("buffer_line_iterator.line", i, onev[i], *it);
            if (i == 3) { util::buffer_line_iterator cp = it; ++cp; if (cp != end) same_line("buffer_line_iterator copy", i + 1, onev[i + 1], *cp); } ++i; }
        MON_EQ("buffer_line_iterator.count", 0, 0, onev.size(), i);
    }
    { util::mmap_lines m(p); for (int k = 0; k < 2; ++k) { uint64_t i = 0;
        for (util::mmap_lines::const_iterator it = m.begin(); it != m.end(); ++it) { MON_TRUE("mmap_lines.more", i, 0, i < onev.size(), "more lines than the text has"); same_line("mmap_lines.line", i, onev[i], *it); ++i; }
        MON_EQ("mmap_lines.count", 0, k, onev.size(), i); } }
    { // page-multiple sized files end exactly at a page
        if (r.chance(.1)) { std::string q = t; while (q.size() % 4096) q += (q.size() % 97 == 0) ? '\n' : 'p'; if (!q.empty()) { std::string fp = file_with(q); std::vector<std::string> k2 = split_keep(q); util::mmap_lines m(fp); uint64_t i = 0; for (util::mmap_lines::const_iterator it = m.begin(); it != m.end(); ++it) { MON_TRUE("mmap_lines(page).more", i, 0, i < k2.size(), "more lines"); same_line("mmap_lines(page).line", i, trim_one(k2[i]), *it); ++i; } MON_EQ("mmap_lines(page).count", 0, 0, k2.size(), i); mon::hit("file of whole pages"); } } }
    { std::string s = t.substr(0, std::min<size_t>(t.size(), 300)); std::string w = trim_all(s); util::trim_newline_chars(s); same_line("trim_newline_chars", 0, w, s); }
    { std::string missing = opt().scratch + "/no/such/file"; expect_throw("auto_file", [&] { util::auto_file f(missing.c_str()); }); expect_throw("mmap_lines", [&] { util::mmap_lines m(missing); }); }
    { std::string s = t.substr(0, std::min<size_t>(t.size(), 50)); util::char_range c = util::stl_string_adaptor()(s); MON_EQ("stl_string_adaptor.length", 0, 0, s.size() + 1, uint64_t(c.second - c.first)); MON_TRUE("stl_string_adaptor.bytes", 0, 0, !memcmp(c.first, s.c_str(), s.size() + 1), "other bytes"); MON_TRUE("identity_adaptor", 0, 0, util::identity_adaptor()(c) == c, "other range"); }
    util::line_iterator e1, e2; MON_TRUE("end iterators equal", 0, 0, e1 == e2, "they differ"); MON_TRUE("buffer end iterators equal", 0, 0, util::buffer_line_iterator() == util::buffer_line_iterator(), "they differ");
}
int main(int argc, char** argv) { mon::init(argc, argv); return mon::run_cases(opt().n(900, 40000), one); }
