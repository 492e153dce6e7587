/* Assumed contracts on what the generated code calls (dlfcn, stdio, string,
 * stdlib), as executable stubs.  The same text is used twice:
 *   - by CBMC (VERIF_CBMC defined): nd_*() are unconstrained symbolic values,
 *     so each stub denotes its whole contract;
 *   - natively, when a failed obligation is searched for a concrete history:
 *     nd_*() are drawn from a seeded generator.
 * v_assert is an obligation on the generated code (a precondition of the
 * external function), v_assume is an assumption about the environment. */
#ifndef STUBS_H
#define STUBS_H
#define _GNU_SOURCE 1
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <dlfcn.h>
#include <link.h>

#ifdef VERIF_CBMC
int nondet_int(void); _Bool nondet_bool(void); char nondet_char(void); size_t nondet_size_t(void);
# define nd_int nondet_int
# define nd_bool nondet_bool
# define nd_char nondet_char
# define nd_size nondet_size_t
# define v_assert(c, msg) __CPROVER_assert(c, msg)
# define v_assume(c) __CPROVER_assume(c)
# define V_WOK(p, n) __CPROVER_w_ok(p, n)
# define V_ROK(p, n) __CPROVER_r_ok(p, n)
#else
# include <setjmp.h>
extern jmp_buf v_jmp;
int nd_int(void); _Bool nd_bool(void); char nd_char(void); size_t nd_size(void);
void v_fail(const char *msg);
# define v_assert(c, msg) do { if (!(c)) v_fail(msg); } while (0)
# define v_assume(c) do { if (!(c)) longjmp(v_jmp, 2); } while (0)
# define V_WOK(p, n) ((p) != NULL)
# define V_ROK(p, n) ((p) != NULL)
#endif

/* n bytes can be written at d (a buffer inside the handle ends where the buffer ends) */
static _Bool v_room(const void *d, size_t n);

/* ---- ghost state of the environment ---- */
extern int    g_open;         /* number of open handles (0 or 1) */
extern char   g_lib_obj;      /* the handle a successful dlopen returns is &g_lib_obj */
extern int    g_err_pending;  /* dlerror() has a message */
extern char   g_errtext[4];
extern int    g_nopen;        /* dlopen/dlmopen calls */
extern int    g_nclose;       /* dlclose calls */
extern int    g_last_flags;
extern _Bool  g_last_ns;
extern size_t g_pk;          /* an arbitrary index */
extern char   g_last_file[32]; /* copy of the name */
extern int    g_printed;      /* bytes/messages printed to stderr */
extern int    g_atexit;       /* successful atexit registrations */
extern char  *g_path;         /* the path the loader reports */
extern size_t g_pathlen;
extern _Bool  g_may_exit;
extern _Bool  g_closefail;    /* a dlclose() has failed: the handle stays open */
extern _Bool  g_openfail;     /* the last dlopen() failed */
#define G_HANDLE ((void *)&g_lib_obj)

static void *v_open(const char *f, int flags, _Bool ns)
{
    v_assert(f != NULL && f[0] != 0, "dlopen: filename is a non-empty string");
    v_assert(g_open == 0 || g_closefail, "dlopen: no other handle of this API is open");
    g_nopen++;
    for (int i = 0; i < 31; i++) { g_last_file[i] = f[i]; if (f[i] == 0) break; }
    g_last_flags = flags; g_last_ns = ns;
    g_openfail = nd_bool();
    if (g_openfail) { g_err_pending = 1; return NULL; }
    g_closefail = 0;
    g_open = 1;
    return G_HANDLE;
}

void *v_dlopen(const char *f, int flags) { return v_open(f, flags, 0); }

void *v_dlmopen(long ns, const char *f, int flags)
{
    v_assert(ns == -1, "dlmopen: new namespace requested");
    return v_open(f, flags, 1);
}

int v_dlclose(void *h)
{
    v_assert(h == G_HANDLE && g_open == 1, "dlclose: called on the open handle only");
    g_nclose++;
    if (nd_bool()) { g_err_pending = 1; g_closefail = 1; return nd_bool() ? -1 : 1; }
    g_open = 0;
    return 0;
}

char *v_dlerror(void)
{
    if (!g_err_pending) return NULL;
    g_err_pending = 0;
    g_errtext[0] = nd_char();
    v_assume(g_errtext[0] != 0);
    g_errtext[3] = 0;
    return g_errtext;
}

int v_dlinfo(void *h, int req, void *out)
{
    static struct link_map lm;
    v_assert(h == G_HANDLE && g_open == 1, "dlinfo: called on the open handle only");
    v_assert(req == RTLD_DI_LINKMAP, "dlinfo: link map requested");
    v_assert(V_WOK(out, sizeof(void *)), "dlinfo: result pointer is writable");
    if (nd_bool()) { g_err_pending = 1; return -1; }
    lm.l_name = nd_bool() ? NULL : g_path;
    *(struct link_map **)out = &lm;
    return 0;
}

int v_dladdr(const void *addr, Dl_info *info)
{
    v_assert(addr != NULL && g_open == 1, "dladdr: address of a loaded symbol, library open");
    v_assert(V_WOK(info, sizeof(*info)), "dladdr: info is writable");
    if (nd_bool()) { if (nd_bool()) { info->dli_fname = NULL; } return 0; }
    info->dli_fname = nd_bool() ? NULL : g_path;
    return 1;
}

/* snprintf: bounded, terminated; the text is empty only for "%s" with "" */
int v_snprintf(char *s, size_t n, const char *fmt, const void *a)
{
    v_assert(n > 0 && v_room(s, n), "snprintf: destination holds n > 0 bytes");
    char c0 = fmt[0];
    if (fmt[0] == '%' && fmt[1] == 's') {
        v_assert(a != NULL, "snprintf: %s argument is not NULL");
        c0 = ((const char *)a)[0];
        if (fmt[2] != 0 && c0 == 0) c0 = fmt[2];
    } else if (c0 == '%') {
        c0 = '0';
    }
    s[0] = c0;
    if (n > 1) s[1] = c0 ? nd_char() : 0;
    s[n - 1] = 0;
    return nd_int();
}

_Bool v_streq(const char *a, const char *b)
{
    if (a == NULL || b == NULL) return a == b;
    size_t i = 0;
    while (a[i] != 0 && a[i] == b[i]) i++;
    return a[i] == b[i];
}

static void v_print(void) { g_printed++; }

size_t v_strlen(const char *s)
{
    v_assert(s != NULL, "strlen: not NULL");
    if (s == g_path) return g_pathlen;
#ifdef VERIF_CBMC
    extern char *g_symarg; extern size_t g_symlen;
    if (s == g_symarg) return g_symlen;
    extern char *g_mpath; extern size_t g_mpathlen;
    if (s == g_mpath) return g_mpathlen;
    /* any other string: a bounded literal */
    size_t n = 0;
    while (s[n] != 0) n++;
    return n;
#else
    return strlen(s);
#endif
}

void *v_memcpy(void *d, const void *s, size_t n)
{
    v_assert(n == 0 || (v_room(d, n) && V_ROK(s, n)), "memcpy: both regions hold n bytes");
#ifdef VERIF_CBMC
    /* the bytes that contracts and code look at: the first, the last and an arbitrary one */
    char *dd = (char *)d; const char *ss = (const char *)s;
    if (n > 0) { dd[0] = ss[0]; dd[n - 1] = ss[n - 1]; if (g_pk < n) dd[g_pk] = ss[g_pk]; }
    return d;
#else
    return memcpy(d, s, n);
#endif
}

const char *v_strstr(const char *a, const char *b)
{
    v_assert(a != NULL && b != NULL, "strstr: not NULL");
    return nd_bool() ? a : NULL;
}

#endif
