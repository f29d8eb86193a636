// C23: level names, level styles and level parsing.
#include "common.h"
#include <stdexcept>
#include "xtr/io/fd_storage.hpp"
#include "xtr/io/posix_fd_storage.hpp"
#include "fds.h"
#include <sys/syscall.h>
#define F "c23.cpp"
using L = xtr::log_level_t;
static const struct { const char* name; L l; const char *d, *s, *c; } lv[] = {
    {"none", L::none, "", "", "n:"}, {"fatal", L::fatal, "F ", "<0>", "f:"}, {"error", L::error, "E ", "<3>", "e:"},
    {"warning", L::warning, "W ", "<4>", "w:"}, {"info", L::info, "I ", "<6>", "i:"}, {"debug", L::debug, "D ", "<7>", ""}};
// Every string of 0 to n bytes.
extern "C" void c23_parse()
{
    const size_t n = (size_t)xsym_choose("length", xsym_param("n", 8) + 1);
    char* b = (char*)xsym_malloc(n ? n : 1, 1, 0);                // exactly as long as the string: no terminator to rely on
    xsym_bytes(b, n, "string");
    int got = -1; bool other = false;
    try { got = (int)xtr::log_level_from_string(std::string_view(b, n)); }
    catch (const std::invalid_argument&) { }
    catch (...) { other = true; }
    xassert(!other, "an unknown level is reported as std::invalid_argument");
    bool known = false;
    for (auto& x : lv) { const bool eq = strlen(x.name) == n && memcmp(b, x.name, n) == 0; known |= eq; if (eq) { xassert(got == (int)x.l, "a level's name converts to that level"); xsym_reach("name"); } }
    if (!known) { xassert(got == -1, "any other string is rejected"); xsym_reach("other"); }
}
// The built-in styles, for every value the level may have.
extern "C" void c23_styles()
{
    const uint32_t v = xsym_u32("level"); bool known = false;
    for (auto& x : lv) if (v == (uint32_t)x.l) {
        known = true;
        xassert(strcmp(xtr::default_log_level_style(x.l), x.d) == 0, "the default style's prefix of a level");
        xassert(strcmp(xtr::systemd_log_level_style(x.l), x.s) == 0, "the systemd style's prefix of a level");
        xsym_reach("level");
    }
    if (!known) { xassert(strlen(xtr::default_log_level_style((L)v)) == 0 && strlen(xtr::systemd_log_level_style((L)v)) == 0, "no prefix for a value that is no level"); xsym_reach("other"); }
}
static const char* custom(L l) { for (auto& x : lv) if (x.l == l) return x.c; xfail("a style is asked only for levels"); }
static xtr::log_level_style_t style(uint64_t i) { return i == 0 ? xtr::default_log_level_style : i == 1 ? xtr::systemd_log_level_style : custom; }
static const char* prefix(uint64_t i, unsigned l) { return i == 0 ? lv[l].d : i == 1 ? lv[l].s : lv[l].c; }
static unsigned log(xtr::sink& s, unsigned l, char c)
{
    switch (l) {
        case 2: XTR_LOGL(error, s, "{}", c); return __LINE__;
        case 3: XTR_LOGL(warning, s, "{}", c); return __LINE__;
        case 4: XTR_LOGL(info, s, "{}", c); return __LINE__;
        default: XTR_LOGL(debug, s, "{}", c); return __LINE__;
    }
}
// Statements of every level on two sinks while the style changes: each line carries one style's prefix of its own level,
// the one in force when it was logged or, if it was still queued then, a later one.
extern "C" void c23_history()
{
    uint64_t cur = xsym_choose("style", 3); auto lg = make_logger(style(cur));
    struct { unsigned l, line, sink; char c; uint64_t from; } w[8]; unsigned n = 0; uint64_t st[8]; unsigned ns = 0; st[ns++] = cur;
    {
        xtr::sink s[2] = {lg->get_sink("A"), lg->get_sink("B")};
        for (auto& x : s) x.set_level(L::debug);
        for (uint64_t i = 0; i < xsym_param("k", 3); i++)
            switch (xsym_choose("op", 3)) {
                case 0: { const unsigned k = (unsigned)xsym_choose("sink", 2), l = 2 + (unsigned)xsym_choose("level", 4); const char c = (char)xsym_range("c", 'a', 'z'); w[n] = {l, log(s[k], l, c), k, c, ns - 1}; n++; break; }
                case 1: st[ns++] = cur = xsym_choose("style", 3); lg->set_log_level_style(style(cur)); xsym_reach("changed"); break;
                case 2: s[xsym_choose("sink", 2)].sync(); break;
            }
    }
    lg.reset();
    size_t at[2] = {0, 0}; unsigned seen = 0;                      // lines of one sink are in order
    for (size_t b = 0; b < g.n; seen++) {
        size_t e = b; while (e < g.n && g.out[e] != '\n') e++;
        xassert(e < g.n, "every line is complete"); e++;
        bool ok = false;
        for (unsigned k = 0; k < 2 && !ok; k++) {
            size_t i = at[k]; while (i < n && w[i].sink != k) i++;
            if (i == n) continue;
            for (unsigned j = (unsigned)w[i].from; j < ns && !ok; j++) {
                Text t; t.line(prefix(st[j], w[i].l), k ? "B" : "A", F, w[i].line) << w[i].c << '\n';
                if (same(g.out + b, e - b, t.s, t.n)) { ok = true; at[k] = i + 1; }
            }
        }
        if (!ok) { show("line: ", g.out + b, e - b); xfail("a line's prefix is that of its level in a style in force between logging and now"); }
        b = e;
    }
    xassert(seen == n, "every statement is logged");
    xsym_reach("done");
}
// The style and clock given to any of the constructors are used.
static FILE* const STREAM = (FILE*)0x3003; static int stream_fd;
extern "C" {
long syscall(long nr, ...) { errno = ENOSYS; return -1; }
int fileno(FILE* f) { xassert(f == STREAM, "stream"); return stream_fd; }
}
extern "C" void c23_ctors()
{
    cpu_init(); stream_fd = user_fd(); const uint64_t k = xsym_choose("style", 3); std::unique_ptr<xtr::logger> lg; int f = 0;
    switch (xsym_choose("constructor", 4)) {
        case 0: f = n_files; lg = std::make_unique<xtr::logger>("a path", test_clock(), xtr::null_command_path, style(k)); xassert(strcmp(last_path, "a path") == 0, "the file given is opened"); break;
        case 1: lg = std::make_unique<xtr::logger>(STREAM, test_clock(), xtr::null_command_path, style(k)); f = fdt[stream_fd].file; break;
        case 2: lg = std::make_unique<xtr::logger>("a path", STREAM, test_clock(), xtr::null_command_path, style(k)); f = fdt[stream_fd].file; break;
        case 3: lg = std::make_unique<xtr::logger>(xtr::storage_interface_ptr(new mem_storage), test_clock(), xtr::null_command_path, style(k)); f = -1; break;
    }
    Text t; const unsigned l = 2 + (unsigned)xsym_choose("level", 4); const char c = (char)xsym_range("c", 'a', 'z');
    { auto s = lg->get_sink("A"); s.set_level(L::debug); const unsigned ln = log(s, l, c); t.line(prefix(k, l), "A", F, ln) << c << '\n'; }
    lg.reset();
    if (f < 0) EXPECT_OUT(t, "the style given to the constructor is used");
    else xassert(same(files[f].data, files[f].n, t.s, t.n), "the style and the file given to the constructor are used");
    xassert(live_fds() == 0 && fdt[stream_fd].open, "descriptors are released");
    xsym_reach("done");
}
