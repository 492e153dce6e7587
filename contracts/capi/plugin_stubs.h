/* Assumed contracts on what the generated plugin loader calls. */
#include <stddef.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#ifdef VERIF_CBMC
_Bool nondet_bool(void); size_t nondet_size_t(void);
# define nd_bool nondet_bool
# define v_assert(c, m) __CPROVER_assert(c, m)
#endif
size_t g_dupfor;   /* g_dupbuf is the copy of files[g_dupfor - 1] */
size_t g_num, g_k, g_i, g_nopen, g_nclose, g_ndup;
int g_kopened, g_err, g_kfree, g_kclose, g_freelist, g_freeplug, g_mode;
_Bool g_oom, g_kempty;
void *g_kh, *g_curh, *g_plug, *g_list;
char *g_kdup; const char **g_files;
char g_obj, g_names[4] = { 'a', 0, 0, 0 }; char g_dupbuf[4];

/* The precondition of gdo_load_plugins ("files[0..num) are NULL or strings"),
 * instantiated at one index: files[] is an arbitrary array, drawn lazily; the entry
 * g_k the contracts speak about has a fixed arbitrary value g_kfile. */
const char *g_kfile;
#ifdef VERIF_CBMC
# define V_NAME() (nd_bool() ? NULL : nd_bool() ? &g_names[0] : &g_names[1])
static void v_inst(size_t i)
{
    if (g_files != NULL && i < g_num) g_files[i] = i == g_k ? g_kfile : V_NAME();
}
#else
static void v_inst(size_t i) { (void)i; }
#endif
/* first statement of each loop body */
#define V_gdo_load_plugins(i) (g_i = (i), v_inst(i))
#define V_gdo_release_plugins(i) (g_i = (i), v_inst_rel(i))
void v_inst_rel(size_t i);

static char *v_strdup(const char *s)
{
    v_assert(g_i < g_num && s == g_files[g_i] && s[0] != 0, "strdup: the current file name");
    char *r = nd_bool() ? NULL : g_dupbuf;
    g_dupfor = r ? g_i + 1 : 0;
    g_ndup++;
    if (g_i == g_k) g_kdup = r;
    return r;
}
static void *v_dlopen(const char *f, int flags)
{
    v_assert(g_i < g_num && (f == g_files[g_i] || (f == g_dupbuf && g_dupfor == g_i + 1)) && g_files[g_i][0] != 0, "dlopen: the current file name, not empty");
    (void)flags;
    g_nopen++;
    g_curh = nd_bool() ? NULL : (void *)&g_obj;
    if (g_i == g_k) { g_kh = g_curh; g_kopened++; }
    return g_curh;
}
static int v_dlclose(void *h)
{
    v_assert(h != NULL, "dlclose: handle not NULL");
    g_nclose++;
    if (g_i == g_k) { v_assert(h == g_kh, "dlclose: the entry's handle"); g_kclose++; }
    return 0;
}
static void v_free(void *p)
{
    if (g_mode == 2 && p != NULL && p == g_list) { v_assert(g_freelist == 0 && g_freeplug == 0, "free: list freed once, before the struct"); g_freelist++; return; }
    if (p != NULL && p == g_plug) { v_assert(g_freeplug == 0, "free: struct freed once"); g_freeplug++; return; }
    if (g_i == g_k) { v_assert(p == g_kdup, "free: the entry's name"); g_kfree++; }
}
static void *v_malloc(size_t n)
{
    void *p = nd_bool() ? NULL : malloc(n);
    if (!p) g_oom = 1;
    g_plug = p;
    return p;
}
void *v_calloc(size_t n, size_t s);   /* defined after the generated code: needs its types */
