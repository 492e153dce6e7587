"""Contracts on the generated plugin loader (-format=plugin).

The loops run over a caller-chosen number of files, so they carry loop invariants.
These are injected mechanically after the header of the (only) `for' loop of each
function.  Instead of quantifying over all entries, the contracts speak about one
arbitrary entry g_k (a ghost constant chosen before the call), which is the same."""
import os, re, threading
from .cmod import Module, Contract
from .capi import LISTS, STUBS


class Plugin(Module):
    format = "plugin"
    loop_contracts = True

    def __init__(self, listname):
        self.listname, self.syms = listname, LISTS[listname]
        self.n = len(self.syms)

    def sub(self, text):
        """inject the loop invariants; None when the text does not have the expected shape"""
        out, n = text, 0
        for fn, inv, asg in (("gdo_load_plugins", self.load_inv(), "g_i, g_nopen, g_nclose, g_ndup, g_dupfor, g_kopened, g_kh, g_kdup, g_err, g_curh, __CPROVER_object_whole(g_ksym), __CPROVER_object_whole(%(P)s->list), __CPROVER_object_whole(g_files)"),
                             ("gdo_release_plugins", self.rel_inv(), "g_i, g_nclose, g_kfree, g_kclose")):
            m = re.search(r"\b%s\(([^)]*)\)\s*\{" % fn, out)
            if not m:
                return None
            a, e = m.end(), _end(out, m.end() - 1)
            body = out[a:e]
            f = list(re.finditer(r"\bfor\s*\(\s*(?:size_t\s+)?(\w+)\s*=\s*0\s*;\s*([^;]*);\s*([^)]*)\)\s*\{", body))
            if len(f) != 1 or re.search(r"\b(while|goto|do)\b", body):
                return None
            f = f[0]
            iv = f.group(1)
            if fn == "gdo_load_plugins":
                mm = re.search(r"gdo_plugin_t\s*\*\s*(\w+)\s*=", body)
                mp = re.search(r"\*\*\s*(\w+)\s*,\s*size_t\s+(\w+)", m.group(1))
                if not mm or not mp:
                    return None
                P, FL, N = mm.group(1), mp.group(1), mp.group(2)
            else:
                mp = re.search(r"\*\s*(\w+)\s*$", m.group(1).strip())
                if not mp:
                    return None
                P, FL, N = mp.group(1), "", ""
            d = {"I": iv, "P": P, "F": FL, "N": N}
            ctr = "\n__CPROVER_assigns(%s, %s)\n" % (iv, asg % d) + "\n".join("__CPROVER_loop_invariant(%s)" % (x % d) for x in inv) + "\n__CPROVER_decreases(%s - %s)" % (N or P + "->num", iv) + "\n{ V_%s(%s); " % (fn, iv)
            body = body[:f.end() - 1] + ctr + body[f.end():]
            out = out[:a] + body + out[e:]
        return out

    def ent(self, x):
        return "%(P)s->list[g_k]." + x

    def entry_ok(self):
        c = ["g_kempty ? (%s == NULL && %s == NULL) : (%s == g_kdup && %s == g_kh && g_kopened == 1)" % (
            self.ent("filename"), self.ent("handle"), self.ent("filename"), self.ent("handle"))]
        for i, s in enumerate(self.syms):
            c.append("(void *)%s == ((g_kempty || g_kh == NULL) ? NULL : g_ksym[%d])" % (self.ent("ptr." + s.name), i))
        return "(" + " && ".join("(%s)" % x for x in c) + ")"

    def entry_zero(self):
        c = [self.ent("filename") + " == NULL", self.ent("handle") + " == NULL", "g_kopened == 0"] + [self.ent("ptr." + s.name) + " == NULL" for s in self.syms]
        return "(" + " && ".join(c) + ")"

    def load_inv(self):
        return ["%(I)s <= %(N)s && %(P)s->num == %(N)s", "g_ndup <= %(I)s && g_nclose == 0",
                "%(I)s <= g_k ? " + self.entry_zero() + " : " + self.entry_ok()]

    def rel_inv(self):
        return ["%(I)s <= %(P)s->num && %(P)s->num == g_num",
                "%(I)s <= g_k ? (g_kfree == 0 && g_kclose == 0) : (g_kfree == 1 && g_kclose == (g_kh != NULL))",
                "g_freelist == 0 && g_freeplug == 0"]

    def source(self, header):
        S = self.syms
        text = open(header).read()
        t2 = self.sub(text)
        if t2 is None:
            raise ValueError("loop shape of the plugin loader not recognised")
        h2 = header[:-2] + "_loop.h"
        tmp = "%s.tmp%d" % (h2, threading.get_ident())
        with open(tmp, "w") as f:
            f.write(t2)
        os.replace(tmp, h2)
        return self._src(h2)

    def native_file(self, header, contracts):
        """independent run-time check: random file lists against recording dl functions"""
        S = self.syms
        syms = ", ".join('"%s"' % s.name for s in S)
        chk = " && ".join("(void *)e->ptr.%s == (opened ? sym[k][%d] : NULL)" % (s.name, i) for i, s in enumerate(S))
        return NATIVE.replace("@HEADER@", header).replace("@N@", str(self.n)).replace("@SYMS@", syms).replace("@CHK@", chk)

    def _src(self, h2):
        S = self.syms
        L = ['#include "%s"' % STUBS.replace("stubs.h", "plugin_stubs.h"),
             "void *g_ksym[%d];" % self.n]
        L.append("static void *v_dlsym(void *h, const char *nm) {\n    v_assert(h != NULL && h == g_curh, \"dlsym: called on the handle just opened\");\n    void *r = nd_bool() ? NULL : (void *)&g_obj;")
        for i, s in enumerate(S):
            L.append('    if (@EQ@) { if (g_i == g_k) g_ksym[%d] = r; return r; }'.replace("@EQ@", " && ".join("nm[%d] == '%s'" % (k, ch) for k, ch in enumerate(s.name)) + " && nm[%d] == 0" % len(s.name)) % i)
        L.append('    v_assert(0, "dlsym: called for a listed symbol only"); return NULL;\n}')
        L += ["#define dlsym v_dlsym\n#define dlopen v_dlopen\n#define dlclose v_dlclose\n#define strdup v_strdup\n#define free v_free\n#define malloc v_malloc\n#define calloc v_calloc\n#define GDO_DISABLE_WARNINGS",
              '#include "%s"' % h2,
              "#undef free\n#undef malloc\n#undef calloc\n#undef strdup",
              """void *v_calloc(size_t n, size_t s)
{
    v_assert(n == g_num && s == sizeof(gdo_handle_t), "calloc: one zeroed entry per file");
    gdo_handle_t *p = NULL;
    if (!nd_bool()) {
#ifdef VERIF_CBMC
        /* zeroed memory, instantiated at the entry the contract speaks about */
        p = malloc(sizeof(gdo_handle_t) * n);
        __CPROVER_assume(p == NULL || (%s));
#else
        p = calloc(n, s);
#endif
    }
    if (!p) g_oom = 1;
    g_list = p;
    return p;
}
void v_inst_rel(size_t i)
{
#ifdef VERIF_CBMC
    /* precondition of gdo_release_plugins: names, list and struct are distinct allocations */
    __CPROVER_assume(((gdo_handle_t *)g_list)[i].filename == NULL || ((void *)((gdo_handle_t *)g_list)[i].filename != g_list && (void *)((gdo_handle_t *)g_list)[i].filename != g_plug));
#endif
}""" % " && ".join(["p[g_k].filename == NULL", "p[g_k].handle == NULL"] + ["p[g_k].ptr.%s == NULL" % s.name for s in S])]
        return L

    def old_decls(self):
        return []

    def assigns(self):
        return ["g_i, g_nopen, g_nclose, g_ndup, g_dupfor, g_kopened, g_kh, g_kdup, g_curh, g_err, g_kfree, g_kclose, g_freelist, g_freeplug, g_plug, g_list, g_oom, __CPROVER_object_whole(g_ksym); g_files != NULL : __CPROVER_object_whole(g_files)"]

    def contracts(self):
        ok = self.entry_ok() % {"P": "RET"}
        return [
            Contract("gdo_load_plugins", "gdo_plugin_t *", [("const gdo_char_t **", "files"), ("size_t", "num")],
                     pre=[("files holds num entries", "num == g_num")],
                     post=[("NULL iff there is nothing to load or memory ran out", "(RET == NULL) == (files == NULL || num == 0 || g_oom)"),
                           ("nothing is opened then", "RET != NULL || g_nopen == 0"),
                           ("num entries", "RET == NULL || (RET->num == num && RET == (gdo_plugin_t *)g_plug && RET->list == (gdo_handle_t *)g_list)"),
                           ("every entry: name copied, library opened once by that name, every symbol looked up in it; empty names are skipped", "RET == NULL || " + ok),
                           ("nothing is closed", "g_nclose == 0")]),
            Contract("gdo_release_plugins", "void", [("gdo_plugin_t *", "plug")],
                     pre=[],
                     post=[("every entry: name freed once, library closed once iff open", "plug == NULL || (g_kfree == 1 && g_kclose == (g_kh != NULL))"),
                           ("list and struct freed exactly once", "g_freelist == (plug != NULL) && g_freeplug == (plug != NULL)"),
                           ("NULL: nothing happens", "plug != NULL || (g_nclose == 0 && g_kfree == 0)")]),
        ]

    def setup(self, c):
        L = ["g_names[0] = 'a'; g_names[1] = 0; g_num = nondet_size_t(); __CPROVER_assume(g_num < ((size_t)1 << 40)); g_k = nondet_size_t(); __CPROVER_assume(g_num == 0 || g_k < g_num);",
             "g_i = 0; g_dupfor = 0; g_nopen = g_nclose = g_ndup = g_kopened = g_err = g_kfree = g_kclose = g_freelist = g_freeplug = 0; g_kh = g_curh = NULL; g_kdup = NULL; g_plug = g_list = NULL; g_oom = 0; g_kempty = 0;"]
        if c.name == "gdo_load_plugins":
            L += ["g_mode = 1; const gdo_char_t **files = NULL; size_t num = g_num; g_files = NULL; if (nondet_bool()) { g_files = malloc(sizeof(char *) * (g_num + 1)); __CPROVER_assume(g_files != NULL); files = g_files;",
                  "  g_kfile = V_NAME(); v_inst(g_k); g_kempty = g_num && (g_kfile == NULL || g_kfile[0] == 0); }"]
        else:
            L += ["g_files = NULL; g_mode = 2; gdo_plugin_t *plug = NULL;",
                  "gdo_plugin_t *pp = malloc(sizeof *pp); __CPROVER_assume(pp != NULL); __CPROVER_assume(g_num > 0); pp->num = g_num; pp->list = malloc(sizeof(gdo_handle_t) * g_num); __CPROVER_assume(pp->list != NULL);",
                  "g_plug = pp; g_list = pp->list; g_kdup = pp->list[g_k].filename; g_kh = pp->list[g_k].handle; if (nondet_bool()) plug = pp;"]
        return L


def _end(text, i):
    d = 0
    while i < len(text):
        if text[i] == "{":
            d += 1
        elif text[i] == "}":
            d -= 1
            if d == 0:
                return i
        i += 1
    return len(text)


NATIVE = r"""
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include <dlfcn.h>
#include <unistd.h>
#define MAXF 40
static unsigned long long v_s; static unsigned long long nx(void) { v_s ^= v_s << 13; v_s ^= v_s >> 7; v_s ^= v_s << 17; return v_s * 2685821657736338717ULL; }
static const char *files[MAXF]; static size_t num; static char objs[MAXF], symobj[4]; static int nopen[MAXF], nclose[MAXF], fails[MAXF]; static void *sym[MAXF][@N@]; static int oom; static long live;
static const char *names[] = { @SYMS@ };
static char *vlog; static size_t run_id; static unsigned long long seed_id;
static void fail(const char *m) { printf("FAIL plugin loader: %s\nseed %llu run %zu; files (%zu):", m, seed_id, run_id, num); for (size_t i = 0; i < num; i++) printf(" %s%s%s", files[i] ? "\"" : "", files[i] ? files[i] : "NULL", files[i] ? "\"" : ""); printf("\nEND\n"); fflush(stdout); _exit(3); }
static void *v_dlopen(const char *f, int fl) { (void)fl; if (!f || !*f) fail("dlopen: the current file name, not empty"); for (size_t k = 0; k < num; k++) if (files[k] && !strcmp(files[k], f) && !nopen[k]) { nopen[k]++; return fails[k] ? NULL : &objs[k]; } fail("dlopen: the current file name, not empty"); return NULL; }
static void *v_dlsym(void *h, const char *n) { for (size_t k = 0; k < num; k++) if (h == &objs[k]) for (int i = 0; i < @N@; i++) if (!strcmp(n, names[i])) return sym[k][i] = nx() % 3 ? &symobj : NULL; fail("dlsym: called for a listed symbol on the handle just opened"); return NULL; }
static int v_dlclose(void *h) { for (size_t k = 0; k < num; k++) if (h == &objs[k]) { nclose[k]++; return 0; } fail("dlclose: the entry's handle"); return 0; }
static void *v_malloc(size_t n) { if (oom == 1) return NULL; live++; return malloc(n); }
static void *v_calloc(size_t n, size_t s) { if (oom == 2) return NULL; live++; return calloc(n, s); }
static char *v_strdup(const char *s) { live++; return strdup(s); }
static void v_free(void *p) { if (p) live--; free(p); }
#define dlopen v_dlopen
#define dlsym v_dlsym
#define dlclose v_dlclose
#define malloc v_malloc
#define calloc v_calloc
#define free v_free
#define strdup v_strdup
#define GDO_DISABLE_WARNINGS
#include "@HEADER@"
int main(int argc, char **argv) {
    seed_id = strtoull(argv[1], 0, 10); long runs = atol(argv[2]);
    for (run_id = 0; run_id < (size_t)runs; run_id++) {
        v_s = (seed_id + 1) * 0x9E3779B97F4A7C15ULL + run_id * 0xD1B54A32D192ED03ULL; if (!v_s) v_s = 1; nx(); nx();
        num = nx() % (nx() % 3 ? 5 : MAXF); oom = nx() % 8 ? 0 : 1 + (int)(nx() % 2); live = 0;
        static char buf[MAXF][4];
        for (size_t i = 0; i < num; i++) { strcpy(buf[i], "ab"); buf[i][0] = (char)('a' + i % 26); buf[i][1] = (char)('a' + i / 26); files[i] = nx() % 5 == 0 ? NULL : buf[i]; if (files[i] && nx() % 5 == 0) buf[i][0] = 0; if (i && nx() % 5 == 0) files[i] = files[nx() % i]; nopen[i] = nclose[i] = 0; fails[i] = nx() % 3 == 0; for (int q = 0; q < @N@; q++) sym[i][q] = NULL; }
        const char **in = nx() % 9 == 0 ? NULL : files;
        gdo_plugin_t *p = gdo_load_plugins(in, num);
        if ((p == NULL) != (in == NULL || num == 0 || oom)) fail("NULL iff there is nothing to load or memory ran out");
        if (p) {
            if (p->num != num || !p->list) fail("num entries");
            for (size_t k = 0; k < num; k++) {
                gdo_handle_t *e = &p->list[k]; int has = files[k] && *files[k]; int opened = has && !fails[k];
                if (nopen[k] != has || e->handle != (opened ? (void *)&objs[k] : NULL)) fail("library opened once by its name; empty names are skipped");
                for (size_t q = 0; q < k; q++) if (e->filename && e->filename == p->list[q].filename) fail("every entry has its own copy of the name"); if (has ? (!e->filename || e->filename == files[k] || strcmp(e->filename, files[k])) : e->filename != NULL) fail("name copied");
                if (!(@CHK@)) fail("every symbol looked up in its library");
                if (nclose[k]) fail("nothing is closed");
            }
            gdo_release_plugins(p);
            for (size_t k = 0; k < num; k++) if (nclose[k] != (files[k] && *files[k] && !fails[k])) fail("library closed once iff open");
        }
        gdo_release_plugins(NULL);
        if (live != 0) fail("everything allocated is freed exactly once");
    }
    printf("OK %ld runs\n", runs);
    return 0;
}
"""
