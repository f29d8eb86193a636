// fnmatch(3) and regex(3) as uninterpreted functions of the pattern and the name:
// whether a given name matches is chosen by the solver's paths, once per name.
#pragma once
#include "xsym.h"
#include <fnmatch.h>
#include <regex.h>
#include <string.h>
struct Matching {
    int type;                                   // 1 extended, 2 basic, 3 wildcard
    bool icase; char text[256]; size_t n;        // what the request asked for
    bool valid;                                 // (regex) the pattern compiles
    unsigned names; struct { char s[256]; bool m; } name[6];
    int live;                                   // compiled patterns not yet freed
};
static Matching mt;
struct MtAtomic { MtAtomic() { xsym_atomic_begin(); } ~MtAtomic() { xsym_atomic_end(); } };
static bool mt_text(const char* p) { return strlen(p) == mt.n && memcmp(p, mt.text, mt.n) == 0; }
// Does this name match?  Decided once per name.
static bool mt_match(const char* s) {
    const size_t n = strlen(s); xassert(n < 256, "harness: name length");
    for (unsigned i = 0; i < mt.names; i++) if (strlen(mt.name[i].s) == n && memcmp(mt.name[i].s, s, n) == 0) return mt.name[i].m;
    xassert(mt.names < 6, "harness: number of names");
    memcpy(mt.name[mt.names].s, s, n + 1);
    return mt.name[mt.names++].m = xsym_choose("matches", 2);
}
extern "C" {
int fnmatch(const char* p, const char* s, int flags) { MtAtomic at;
    xassert(mt.type == 3, "a wildcard pattern is used only if requested");
    xassert(mt_text(p), "the pattern is the one in the request"); 
    xassert(flags == (mt.icase ? FNM_CASEFOLD : 0), "case is ignored exactly if requested");
    return mt_match(s) ? 0 : FNM_NOMATCH; }
int regcomp(regex_t* r, const char* p, int flags) { MtAtomic at;
    xassert(mt.type == 1 || mt.type == 2, "a regular expression is used only if requested");
    xassert(mt_text(p), "the pattern is the one in the request");
    xassert(!!(flags & REG_EXTENDED) == (mt.type == 1), "extended syntax exactly if requested");
    xassert(!!(flags & REG_ICASE) == mt.icase, "case is ignored exactly if requested");
    xassert(!(flags & ~(REG_EXTENDED | REG_ICASE | REG_NOSUB)), "no other matching rules");
    if (!mt.valid) { memset(r, 0x5a, sizeof *r); return REG_EBRACK; }
    memset(r, 0, sizeof *r); r->re_nsub = 77; mt.live++; return 0; }
int regexec(const regex_t* r, const char* s, size_t, regmatch_t*, int) { MtAtomic at; xassert(r->re_nsub == 77, "only a compiled expression is matched"); return mt_match(s) ? 0 : REG_NOMATCH; }
size_t regerror(int e, const regex_t*, char* b, size_t n) { xassert(e == REG_EBRACK, "the error of regcomp is reported"); static const char t[] = "Unmatched ["; size_t i = 0; for (; i + 1 < n && t[i]; i++) b[i] = t[i]; if (n) b[i] = 0; return sizeof t; }
void regfree(regex_t* r) { MtAtomic at; xassert(r->re_nsub == 77, "only a compiled expression is freed"); r->re_nsub = 0; mt.live--; }
}
