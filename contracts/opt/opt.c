/* Contracts on src/opt_parser.h (included unchanged from the current tree).
 * VERIF_CBMC: enforced by goto-instrument --dfcc; NATIVE: checked at run time by
 * a seeded search that looks for a failing input after an obligation failed.
 * Configuration as in options.cpp on POSIX: short and long prefixes, '='. */
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define OPT_PREFIX_SHORT
#define OPT_PREFIX_LONG
#define OPT_SEPARATOR_EQUAL
#define OPT_LINKAGE static
#define MAXOPT 16
typedef void (*v_cb_t)(const char *);
static _Bool g_may_exit;

struct opt_args;
static int g_nerr, g_errkind, g_errlen, g_exit, g_cb; static char g_errpfx0, g_errpfx1, g_errpfx2; static const char *g_erropt;
static const char *g_wantopt;

static void v_note(const char *fmt, const char *pfx, const char *opt)
{
    /* "option '%s%s' requires an argument" / "... has an empty argument" */
    int k = 0, np = 0;
    g_errkind = 0;
    for (k = 0; k < 30 && fmt[k]; k++) {
        if (fmt[k] == '%') np++;
        if (fmt[k] == 'r' && fmt[k + 1] == 'e' && fmt[k + 2] == 'q') g_errkind = 1;
        if (fmt[k] == 'e' && fmt[k + 1] == 'm' && fmt[k + 2] == 'p') g_errkind = 2;
    }
    g_nerr++;
    g_errpfx0 = pfx[0]; g_errpfx1 = pfx[0] ? pfx[1] : 0; g_errpfx2 = (pfx[0] && pfx[1]) ? pfx[2] : 0;
    g_erropt = opt;
}
static void v_cb(const char *msg) { (void)msg; g_cb++; }

#ifdef VERIF_CBMC
int nondet_int(void); _Bool nondet_bool(void); char nondet_char(void); size_t nondet_size_t(void); uint8_t nondet_uint8_t(void);
#define v_assert(c, m) __CPROVER_assert(c, m)
static void v_exit(int c) { __CPROVER_assert(c != 0, "exit: failure status"); g_exit++; __CPROVER_assume(0); }
#else
void v_fail(const char *msg);
#define v_assert(c, m) do { if (!(c)) v_fail(m); } while (0)
#include <setjmp.h>
extern jmp_buf v_jmp; int nd_int(void); _Bool nd_bool(void); size_t nd_size(void);
static void v_exit(int c) { v_assert(c != 0, "exit: failure status"); longjmp(v_jmp, 1); }
#endif
static int v_snprintf(char *s, size_t n, const char *fmt, const char *pfx, const char *opt)
{
    v_assert(n > 0, "snprintf: size is positive");
    s[0] = 0; s[n - 1] = 0;
    v_note(fmt, pfx, opt);
    return 0;
}
#define snprintf v_snprintf
#define fprintf(...) ((void)0)
#define exit v_exit
#include "opt_parser.h"
#undef snprintf
#undef fprintf
#undef exit

/* ---- specification ---- */
static int spec_pfxlen(const char *p)
{
    if (p[0] != '-' || p[1] == 0) return 0;            /* not an option; "-" */
    if (p[1] != '-') return 1;                         /* -x... */
    return p[2] != 0 ? 2 : 0;                          /* --x..., "--" */
}
/* number of bytes of `opt` (at most MAXOPT) that `p` starts with; opt is NUL-terminated */
static bool spec_starts(const char *p, const char *opt, size_t len)
{
    for (size_t i = 0; i <= MAXOPT; i++) {
        if (i >= len) return true;
        if (p[i] != opt[i]) return false;
        if (p[i] == 0) return true;
    }
    return true;
}
#define NAMEP(cur, pl) ((cur) + (pl))
