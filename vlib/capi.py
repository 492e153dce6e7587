"""Contracts for the C API that gendlopen generates (-format=C, -format=minimal,
-format=plugin).  The contracts are written once, as (label, C expression) pairs;
they are emitted as __CPROVER_requires/__CPROVER_ensures clauses for CBMC and as
run-time checks for the native search that follows a failed obligation."""
import os, re, threading
from .cmod import Module, Contract

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(HERE, "contracts", "capi", "stubs.h")


class Sym:
    """a listed symbol, with what is needed to exercise it"""
    def __init__(self, name, decl, kind, ret=None, params=None, variadic=False):
        self.name, self.decl, self.kind = name, decl, kind
        self.ret, self.params, self.variadic = ret, params or [], variadic


# Representative symbol lists.  The per-symbol code is one template entry repeated
# per symbol, so they cover: every kind of symbol, a common prefix, a symbol that is
# a prefix of another, a single symbol, only functions, only objects.
def F(name, ret, params, variadic=False):
    ps = ", ".join("%s %s" % (t, n) for t, n in params)
    if variadic:
        ps += ", ..."
    return Sym(name, "%s %s(%s);" % (ret, name, ps or "void"), "func", ret, params, variadic)


LISTS = {
    "mixed": [F("fn1", "int", [("int", "a"), ("char *", "b")]), F("gn2", "void", []),
              F("hva", "int", [("const char *", "fmt")], True),
              Sym("obj1", "char *obj1;", "obj"), Sym("arr1", "int arr1[4];", "obj"),
              Sym("fp1", "void (*fp1)(int x);", "obj")],
    "prefix": [F("lib_ab", "long", [("long", "x")]), F("lib_a", "void", [("int", "p"), ("int", "q"), ("int", "r")]),
               Sym("lib_", "int lib_;", "obj"), F("lib_abc", "void *", [("void *", "y")])],
    "single": [F("only", "unsigned", [("unsigned", "u"), ("unsigned", "v")])],
    "objects": [Sym("o1", "int o1;", "obj"), Sym("o2", "double o2;", "obj")],
}


def header_text(lst):
    return "\n".join(s.decl for s in lst) + "\n"


COMMON_DECL = r'''
char *g_path; size_t g_pathlen;
char *g_symarg; size_t g_symlen;
int g_open, g_err_pending, g_nopen, g_nclose, g_last_flags, g_printed, g_atexit;
_Bool g_last_ns; char g_last_file[32], g_lib_obj, g_errtext[4]; _Bool g_may_exit, g_closefail, g_openfail;
int g_exit_code; int g_called; 
'''


class CApi(Module):
    """-format=C"""
    release = "gdo_force_free_lib"
    buflen = "GDO_BUFLEN"
    step_end = "g_printed = 0"

    def __init__(self, listname, mode):
        # mode: "plain", "autoload", "lazy"
        self.listname, self.syms, self.mode = listname, LISTS[listname], mode
        self.n = len(self.syms)
        self.format = "C"

    # -- helpers producing C text --
    def ptr(self, s):
        return "((void *)gdo_hndl.GDO_PTR_%s)" % s.name

    def all(self, tmpl, sep=" && "):
        return "(" + sep.join(tmpl.format(p=self.ptr(s), i=i, n=s.name) for i, s in enumerate(self.syms)) + ")"

    def inv(self):
        c = ["gdo_hndl.errbuf[GDO_BUFLEN-1] == 0", "gdo_hndl.libpath[GDO_BUFLEN-1] == 0",
             "(g_open == 0 || g_open == 1)",
             "(gdo_hndl.handle == NULL ? (g_open == 0 || g_closefail) : (g_open == 1 && gdo_hndl.handle == G_HANDLE))",
             "(gdo_hndl.libpath[0] == 0 || gdo_hndl.handle != NULL)",
             self.all("({p} == NULL || (gdo_hndl.handle != NULL && {p} == g_addr[{i}]))")]
        return c

    def inv_labels(self):
        return ["the error buffer is terminated", "the path buffer is terminated", "at most one library is open",
                "the handle is set iff the library is open", "a library path is known only while loaded",
                "every pointer is NULL, or the symbol of the open library"]

    # frame helpers
    def same_ptrs(self, except_i=None):
        return self.all("{p} == OLD_p{i}")

    def contracts(self):
        S = self.syms
        ERR = "gdo_hndl.errbuf[0] != 0"
        NOERR = "gdo_hndl.errbuf[0] == 0"
        SAME_H = "gdo_hndl.handle == OLD_handle"
        SAME_P = self.same_ptrs()
        ALLNULL = self.all("{p} == NULL")
        ALLSET = self.all("{p} != NULL")
        ANYSET = self.all("{p} != NULL", " || ")
        OLDALL = "(" + " && ".join("OLD_p%d != NULL" % i for i in range(self.n)) + ")"
        FROZEN = "gdo_hndl.free_lib_reg == OLD_reg"
        out = []
        b, v = "bool", "void"
        KEEP_PATH = ("the remembered library path is kept", "gdo_hndl.libpath[0] == OLD_path0 && gdo_hndl.libpath[g_pk] == OLD_pathk")
        PATH_FNS = ("gdo_free_lib", "gdo_force_free_lib", "gdo_library_path")

        def C(name, ret, params, post, **kw):
            out.append(Contract(name, ret, params, post=[KEEP_PATH] * (name not in PATH_FNS) + [("frame: autorelease flag", FROZEN)] * (name != "gdo_enable_autorelease" and not name.startswith("_gdo_wrap") and not name.startswith("GDO_WRAP")) + post, **kw))

        def load(fn, flags, ns):
            okargs = "RET == 0 ? 1 : (v_streq(g_last_file, %s) && g_last_flags == (%s) && g_last_ns == (%s))" % (fn, flags, ns)
            return [
                ("already loaded: fails, nothing changes", "OLD_handle == NULL || (!LOADRET && %s && %s && g_nopen == OLD_nopen && %s)" % (SAME_H, SAME_P, ERR)),
                ("NULL or empty name: fails without opening", "(%s != NULL && %s[0] != 0) || (!LOADRET && g_nopen == OLD_nopen && %s)" % (fn, fn, ERR)),
                ("opens the named library at most once, with the given flags and namespace",
                 "g_nopen == OLD_nopen || (g_nopen == OLD_nopen + 1 && v_streq(g_last_file, %s) && g_last_flags == (%s) && g_last_ns == (%s))" % (fn, flags, ns)),
                ("success iff the library is now open through this call", "LOADRET == (OLD_handle == NULL && gdo_hndl.handle != NULL)"),
                ("a valid name is tried", "OLD_handle != NULL || %s == NULL || %s[0] == 0 || g_nopen == OLD_nopen + 1" % (fn, fn)),
            ]

        def sub(lst, loadret):
            return [(l, e.replace("LOADRET", loadret)) for l, e in lst]

        fparam = [("const char *", "filename")]
        C("gdo_load_lib_args", b, fparam + [("int", "flags"), ("bool", "new_namespace")],
          sub(load("filename", "flags", "new_namespace"), "RET") +
          [("failure leaves an error message", "RET || " + ERR), ("symbols untouched", SAME_P)])
        C("gdo_load_lib_name", b, fparam,
          sub(load("filename", "GDO_DEFAULT_FLAGS", "0"), "RET") +
          [("failure leaves an error message", "RET || " + ERR), ("symbols untouched", SAME_P)])
        C("gdo_load_lib_name_and_symbols", b, fparam,
          sub(load("filename", "GDO_DEFAULT_FLAGS", "0"), "(OLD_handle == NULL && gdo_hndl.handle != NULL)") +
          [("true iff library newly loaded and every symbol resolved",
            "RET == (OLD_handle == NULL && gdo_hndl.handle != NULL && %s)" % ALLSET),
           ("failure leaves an error message", "RET || " + ERR)])
        C("gdo_load_lib", b, [],
          [("already loaded: fails", "OLD_handle == NULL || (!RET && g_nopen == OLD_nopen)"),
           ("opens the default library with the default flags",
            "OLD_handle != NULL || (g_nopen == OLD_nopen + 1 && v_streq(g_last_file, GDO_DEFAULT_LIB) && g_last_flags == (GDO_DEFAULT_FLAGS) && !g_last_ns)"),
           ("success iff now open", "RET == (OLD_handle == NULL && gdo_hndl.handle != NULL)"),
           ("failure leaves an error message", "RET || " + ERR), ("symbols untouched", SAME_P)])
        C("gdo_load_lib_and_symbols", b, [],
          [("true iff library newly loaded and every symbol resolved",
            "RET == (OLD_handle == NULL && gdo_hndl.handle != NULL && %s)" % ALLSET),
           ("opens the default library with the default flags",
            "OLD_handle != NULL || (g_nopen == OLD_nopen + 1 && v_streq(g_last_file, GDO_DEFAULT_LIB) && g_last_flags == (GDO_DEFAULT_FLAGS) && !g_last_ns)"),
           ("failure leaves an error message", "RET || " + ERR)])
        C("gdo_lib_is_loaded", b, [],
          [("tells whether the library is open", "RET == (gdo_hndl.handle != NULL)"), ("frame", SAME_H + " && " + SAME_P)])
        C("gdo_free_lib", b, [],
          [("success: handle and every pointer NULL, path cleared", "!RET || (gdo_hndl.handle == NULL && %s && gdo_hndl.libpath[0] == 0 && (OLD_handle == NULL || g_open == 0))" % ALLNULL),
           ("failure: still loaded, nothing reset, error message", "RET || (%s && %s && gdo_hndl.handle != NULL && %s && %s)" % (SAME_H, SAME_P, ERR, KEEP_PATH[1])),
           ("nothing loaded: succeeds without closing", "OLD_handle != NULL || (RET && g_nclose == OLD_nclose)"),
           ("loaded: closed exactly once", "OLD_handle == NULL || g_nclose == OLD_nclose + 1")])
        C("gdo_force_free_lib", v, [],
          [("handle and every pointer NULL, path cleared", "gdo_hndl.handle == NULL && %s && gdo_hndl.libpath[0] == 0" % ALLNULL),
           ("closed once iff loaded", "g_nclose == OLD_nclose + (OLD_handle != NULL)")])
        C("gdo_enable_autorelease", b, [],
          [("true iff registered", "RET == gdo_hndl.free_lib_reg"),
           ("registered at most once", "g_atexit == OLD_atexit + (RET && !OLD_reg)"),
           ("never unregistered", "!OLD_reg || RET"), ("frame", SAME_H + " && " + SAME_P),
           ("failure leaves an error message", "RET || " + ERR)])
        C("gdo_all_symbols_loaded", b, [], [("true iff every pointer is set", "RET == " + ALLSET), ("frame", SAME_H + " && " + SAME_P)])
        C("gdo_no_symbols_loaded", b, [], [("true iff no pointer is set", "RET == " + ALLNULL), ("frame", SAME_H + " && " + SAME_P)])
        C("gdo_any_symbol_loaded", b, [], [("true iff some pointer is set", "RET == " + ANYSET), ("frame", SAME_H + " && " + SAME_P)])
        C("gdo_load_all_symbols", b, [],
          [("true iff every symbol is now resolved", "RET == " + ALLSET),
           ("succeeds when the library has them all", "RET || OLD_handle == NULL || !(" + " && ".join("g_addr[%d] != NULL" % i for i in range(self.n)) + ")"),
           ("handle unchanged", SAME_H),
           ("failure leaves an error message", "RET || " + ERR),
           ("no resolved pointer is lost", self.all("(OLD_p{i} == NULL || {p} == OLD_p{i})"))])
        idx = "symbol_num"
        sel = []
        for i, s in enumerate(S):
            sel.append("(symbol_num != GDO_LOAD_%s || OLD_handle == NULL || (RET == (g_addr[%d] != NULL) && %s == g_addr[%d]))" % (s.name, i, self.ptr(s), i))
        C("gdo_load_symbol", b, [("int", "symbol_num")],
          [("true iff exactly the selected symbol is now resolved", " && ".join(sel)),
           ("no other pointer changes", " && ".join("(symbol_num == GDO_LOAD_%s || %s == OLD_p%d)" % (s.name, self.ptr(s), i) for i, s in enumerate(S))),
           ("unknown number or no library: fails, error message",
            "(OLD_handle != NULL && (%s)) || (!RET && %s && %s)" % (" || ".join("symbol_num == GDO_LOAD_%s" % s.name for s in S), SAME_P, ERR)),
           ("every symbol has its own number below GDO_ENUM_LAST", " && ".join(["GDO_LOAD_%s >= 0 && GDO_LOAD_%s < GDO_ENUM_LAST" % (s.name, s.name) for s in S] + ["GDO_LOAD_%s != GDO_LOAD_%s" % (a.name, b.name) for i, a in enumerate(S) for b in S[:i]] + ["GDO_ENUM_LAST == %d" % self.n])),
           ("failure leaves an error message", "RET || " + ERR), ("handle unchanged", SAME_H)])
        nm = [("NAME_IS(%s)" % s.name) for s in S]
        C("gdo_load_symbol_name", b, [("const char *", "symbol")],
          [("true iff exactly the named symbol is now resolved",
            " && ".join("(OLD_handle == NULL || g_nameidx != %d || (RET == (g_addr[%d] != NULL) && %s == g_addr[%d]))" % (i, i, self.ptr(s), i) for i, s in enumerate(S))),
           ("no other pointer changes", " && ".join("(g_nameidx == %d || %s == OLD_p%d)" % (i, self.ptr(s), i) for i, s in enumerate(S))),
           ("unknown, empty or NULL name, or no library: fails, nothing changes",
            "(OLD_handle != NULL && g_nameidx >= 0) || (!RET && %s && %s)" % (SAME_P, ERR)),
           ("failure leaves an error message", "RET || " + ERR), ("handle unchanged", SAME_H)])
        C("gdo_last_error", "const char *", [],
          [("never NULL or empty", "RET != NULL && RET[0] != 0"), ("points to the error buffer", "RET == gdo_hndl.errbuf"),
           ("an existing message is kept", "OLD_err0 == 0 || RET[0] == OLD_err0"), ("frame", SAME_H + " && " + SAME_P)])
        C("gdo_library_path", "const char *", [],
          [("NULL, or a non-empty path while loaded", "RET == NULL || (RET == gdo_hndl.libpath && RET[0] != 0 && gdo_hndl.handle != NULL)"),
           ("no library: NULL and an error message", "OLD_handle != NULL || (RET == NULL && %s)" % ERR),
           ("failure leaves an error message", "RET != NULL || " + ERR),
           ("a known path is returned unchanged", "OLD_handle == NULL || OLD_path0 == 0 || (RET != NULL && RET[0] == OLD_path0)"),
           ("frame", SAME_H + " && " + SAME_P)])
        # wrappers
        if self.mode in ("autoload", "lazy", "wrap"):
            auto = self.mode in ("autoload", "lazy")
            P = "symptr"
            posts = [("returns only if the symbol is resolved", " && ".join("(load != GDO_LOAD_%s || %s != NULL)" % (s.name, self.ptr(s)) for i, s in enumerate(S)))]
            if self.mode == "lazy":
                posts.append(("lazy: no other symbol is resolved", " && ".join("(load == GDO_LOAD_%s || %s == OLD_p%d)" % (s.name, self.ptr(s), i) for i, s in enumerate(S))))
            posts.append(("already resolved: nothing happens", "symptr == NULL || (%s && %s && g_nopen == OLD_nopen && g_nclose == OLD_nclose)" % (SAME_H, SAME_P)))
            posts.append(("no resolved pointer is lost", self.all("(OLD_p{i} == NULL || {p} == OLD_p{i})")))
            if auto:
                posts.append(("an open library is not opened again", "OLD_handle == NULL || g_nopen == OLD_nopen"))
            else:
                posts.append(("without autoload nothing is loaded", "%s && %s && g_nopen == OLD_nopen" % (SAME_H, SAME_P)))
            out.append(Contract("_gdo_wrap_check_loaded", v, [("void *", "symptr"), ("int", "load"), ("const char *", "sym")],
                                pre=[("valid symbol number", "load >= 0 && load < %d" % self.n),
                                     ("the pointer passed is that symbol's", " && ".join("(load != GDO_LOAD_%s || symptr == %s)" % (s.name, self.ptr(s)) for i, s in enumerate(S))),
                                     ("name", "sym != NULL")],
                                post=posts, noreturn_ok=True))
            for i, s in enumerate(S):
                if s.kind != "func":
                    continue
                post = [("the symbol is resolved and called exactly once", "%s != NULL && g_called == OLD_called + 1 && g_fn == %d" % (self.ptr(s), i))]
                for k, (t, pn) in enumerate(s.params):
                    post.append(("argument %d (`%s') is forwarded unchanged" % (k + 1, pn), "g_arg_%s_%s == %s" % (s.name, pn, pn)))
                if s.ret != "void":
                    post.append(("the callee's result is returned", "RET == g_ret_%s" % s.name))
                out.append(Contract("GDO_WRAP_" + s.name, s.ret, s.params, post=post, noreturn_ok=True,
                                    call="vw_" + s.name if s.variadic else None))
        return out

    # -- C file --
    def source(self, header, native=False):
        S, n = self.syms, self.n
        L = []
        if self.mode == "plain":
            pass
        L.append('#include "%s"' % STUBS)
        L.append("#include <inttypes.h>\n#include <linux/fs.h>\n#include <fcntl.h>\n#include <sys/ioctl.h>\n#include <unistd.h>")
        L.append("#define GDO_DEFAULT_LIB \"libdefault.so\"\n#define GDO_DISABLE_ALIASING\n#define GDO_DISABLE_WARNINGS")
        if self.mode == "autoload":
            L.append("#define GDO_ENABLE_AUTOLOAD")
        if self.mode == "lazy":
            L.append("#define GDO_ENABLE_AUTOLOAD_LAZY")
        if self.mode == "wrap":
            L.append("#define GDO_WRAP_FUNCTIONS")
        L.append("""
void v_exit(int code);
void v_abort(void);
int v_atexit(void (*f)(void));
void *v_dlsym(void *h, const char *n);
#define dlopen v_dlopen
#define dlmopen v_dlmopen
#define dlclose v_dlclose
#define dlsym v_dlsym
#define dlerror v_dlerror
#define dlinfo v_dlinfo
#define dladdr v_dladdr
#define exit v_exit
#define abort v_abort
#define atexit v_atexit
#define snprintf(d, n, fmt, ...) v_snprintf(d, n, fmt, (const void *)(size_t)(__VA_ARGS__))
#define fprintf(...) v_print()
#define fputc(...) v_print()
#define fputs(...) v_print()
#define puts(...) v_print()
#define strlen v_strlen
#define strstr v_strstr
#define memcpy v_memcpy
#define fopen v_fopen
FILE *v_fopen(const char *f, const char *m);
#ifdef VERIF_CBMC
#define fclose(f) ((void)(f))
#define getline(l, n, f) v_getline(l, n)
#define sscanf(l, fmt, a, b, m, p) v_sscanf(a, b, m, p)
#define free(p) ((void)(p))
char *g_mpath; size_t g_mpathlen;   /* the path found in /proc/self/maps */
static ssize_t v_getline(char **l, size_t *n) { *l = g_errtext; *n = 4; return nd_bool() ? -1 : 1; }
static int v_sscanf(uintmax_t *a, uintmax_t *b, char *m, char **p)
{
    *a = nd_size(); *b = nd_size(); m[0] = nd_char(); m[4] = 0;
    if (nd_bool()) return nd_bool() ? 3 : 0;
    *p = g_mpath;
    return 4;
}
#endif
#define open(...) v_procopen()
static int v_procopen(void) { return nd_bool() ? -1 : 7; }
#define close(fd) v_procclose(fd)
static int v_procclose(int fd) { (void)fd; return 0; }
#define ioctl(fd, req, q) v_procioctl(q)
#ifdef PROCMAP_QUERY
static int v_procioctl(struct procmap_query *q)
{
    char *b = (char *)(uintptr_t)q->vma_name_addr;
    if (nd_bool()) return -1;
    if (nd_bool()) { q->vma_name_size = 0; return 0; }
    v_assert(q->vma_name_size > 1 && V_WOK(b, q->vma_name_size), "PROCMAP_QUERY: name buffer holds vma_name_size bytes");
    b[0] = '/'; b[1] = 0; q->vma_name_size = 2;
    return 0;
}
#endif
""")
        L.append(COMMON_DECL)
        L.append("size_t g_pk; void *g_addr[%d]; int g_fn; int g_nameidx;" % n)
        L.append('#include "%s"' % self.with_loops(header))
        L.append("#undef free\n#undef getline\n#undef sscanf\n#undef fclose\n#undef strlen\n#undef fprintf\n#undef exit\n#undef abort\n#undef fopen\n#undef memcpy\n#undef open\n#undef close\n#undef snprintf\n#undef fputc\n#undef fputs\n#undef puts\n#undef strstr\n#undef atexit\n#undef ioctl")
        L.append(self.room())
        # targets
        for i, s in enumerate(S):
            if s.kind == "func":
                for t, pn in s.params:
                    L.append("%s g_arg_%s_%s;" % (t, s.name, pn))
                if s.ret != "void":
                    L.append("%s g_ret_%s;" % (s.ret, s.name))
                ps = ", ".join("%s %s" % p for p in s.params) + (", ..." if s.variadic else "")
                body = " ".join("g_arg_%s_%s = %s;" % (s.name, pn, pn) for t, pn in s.params)
                L.append("%s target_%s(%s) { g_called++; g_fn = %d; %s %s }" %
                         (s.ret, s.name, ps or "void", i, body, "" if s.ret == "void" else "return g_ret_%s;" % s.name))
            else:
                L.append("static double target_%s[4];" % s.name)
        L.append("void *v_dlsym(void *h, const char *nm) {\n"
                 "    v_assert(h == G_HANDLE && g_open == 1, \"dlsym: called on the open handle only\");\n"
                 "    v_assert(nm != NULL, \"dlsym: name not NULL\");")
        for i, s in enumerate(S):
            L.append('    if (strcmp(nm, "%s") == 0) { if (!g_addr[%d]) g_err_pending = 1; return g_addr[%d]; }' % (s.name, i, i))
        L.append('    v_assert(0, "dlsym: called for a listed symbol only"); return NULL; }')
        L.append("#define V_RELEASE %s" % self.release)
        L.append("#define RESOLVED(i) (%s)" % ":".join(["(i)==GDO_LOAD_%s?%s" % (s.name, self.ptr(s)) for i, s in enumerate(S)] + ["NULL"]))
        L.append("int g_wrapidx;\nvoid v_unload_check(void) {"
                 ' v_assert(gdo_hndl.handle == NULL && %s, "process termination: library released first"); }' % self.all("{p} == NULL"))
        L.append("""void v_exit(int code) {
    v_assert(g_may_exit, "exit: only a wrapper of an unresolved symbol may terminate");
    v_assert(code != 0, "exit: failure status");
    v_assert(g_printed > 0, "exit: an error message was printed");
    v_unload_check();
#ifdef VERIF_CBMC
    __CPROVER_assume(0);
#else
    longjmp(v_jmp, 1);
#endif
}
void v_abort(void) {
    v_assert(g_may_exit, "abort: only a wrapper of an unresolved symbol may terminate");
    v_assert(g_printed > 0, "abort: an error message was printed");
#ifdef VERIF_CBMC
    __CPROVER_assume(0);
#else
    longjmp(v_jmp, 1);
#endif
}
int v_atexit(void (*f)(void)) {
    v_assert(f == V_RELEASE, "atexit: registers the release function");
    if (nd_bool()) return 1;
    g_atexit++;
    return 0;
}
""")
        for s in S:
            if s.variadic and self.mode in ("autoload", "lazy", "wrap"):
                ps = ", ".join("%s %s" % p for p in s.params)
                L.append("%s vw_%s(%s) { %sGDO_WRAP_%s(%s, 7); }" % (s.ret, s.name, ps, "" if s.ret == "void" else "return ", s.name, ", ".join(p[1] for p in s.params)))
        L.append("""FILE *v_fopen(const char *f, const char *m) {
    (void)f; (void)m;
    if (nd_bool()) return NULL;
#ifdef VERIF_CBMC
    return (FILE *)%s;
#else
    /* a process map that has the path at a random line */
    static char mb[3 * 8192 * 4];
    size_t o = 0; int k = nd_int() %% 4;
    for (int i = 0; i < k; i++) o += (size_t)sprintf(mb + o, "1000-%%x r--p 0 103:01 2758110   %%s\\n", 0x1001 + nd_int() %% 99, i %% 2 ? "/other" : "");
    if (nd_int() %% 4) { o += (size_t)sprintf(mb + o, "0-ffff r--p 00000000 103:01 2758110   /"); memset(mb + o, 'm', g_pathlen); o += g_pathlen; mb[o++] = '\\n'; }
    mb[o] = 0;
    return o ? fmemopen(mb, o, "r") : NULL;
#endif
}""" % ("&g_lib_obj" if self.procmap else "NULL"))
        # setup: an arbitrary state that satisfies the invariant
        return L

    def room(self):
        return ("static _Bool v_room(const void *d, size_t n) {\n"
                "    if (d == (void *)gdo_hndl.libpath) return n <= sizeof gdo_hndl.libpath;\n"
                "    if (d == (void *)gdo_hndl.errbuf) return n <= sizeof gdo_hndl.errbuf;\n"
                "    return V_WOK(d, n); }")

    def with_loops(self, header):
        """a copy of the generated header with a loop contract on the loop that reads /proc/self/maps"""
        text = open(header).read()
        self.procmap = False
        f = re.search(r"_gdo_fullpath_procmap\([^)]*\)\s*\{", text)
        if not f:
            return header
        m = re.compile(r"while\s*\(\s*getline\(&(\w+),\s*&(\w+),\s*(\w+)\)\s*!=\s*-1\s*\)\s*\{").search(text, f.end())
        k = m and re.compile(r"sscanf\(\w+,\s*\"[^\"]*\",\s*&(\w+),\s*&(\w+),\s*(\w+),\s*&(\w+)\)").search(text, m.end())
        if not k:
            return header
        self.procmap = True
        a, b, mode, path = k.groups()
        ins = ("\n#ifdef VERIF_CBMC\n__CPROVER_assigns(%s, %s, %s, %s, %s, __CPROVER_object_whole(%s))\n__CPROVER_loop_invariant(%s == NULL)\n#endif\n"
               % (m.group(1), m.group(2), a, b, path, mode, path))
        out = header[:-2] + "_%s_loop.h" % self.mode
        with open(out + ".tmp%d" % threading.get_ident(), "w") as fo:
            fo.write(text[:m.end() - 1] + ins + text[m.end() - 1:])
        os.replace(out + ".tmp%d" % threading.get_ident(), out)
        return out

    def cbmc_file(self, header, contract):
        r = super().cbmc_file(header, contract)
        if contract.name == "gdo_library_path" and not self.procmap:
            raise ValueError("the loop that reads /proc/self/maps is not in the expected shape")
        return r

    def old_decls(self):
        o = [("void *", "OLD_handle", "gdo_hndl.handle"), ("bool", "OLD_reg", "gdo_hndl.free_lib_reg"),
             ("int", "OLD_nopen", "g_nopen"), ("int", "OLD_nclose", "g_nclose"), ("int", "OLD_atexit", "g_atexit"),
             ("char", "OLD_err0", "gdo_hndl.errbuf[0]"), ("char", "OLD_path0", "gdo_hndl.libpath[0]"), ("char", "OLD_pathk", "gdo_hndl.libpath[g_pk]"), ("int", "OLD_called", "g_called")]
        for i, s in enumerate(self.syms):
            o.append(("void *", "OLD_p%d" % i, self.ptr(s)))
        return o

    ASSIGNS = ("__CPROVER_object_whole(&gdo_hndl), g_open, g_err_pending, g_nopen, g_nclose, g_last_flags, g_last_ns, "
               "__CPROVER_object_whole(g_last_file), g_printed, g_atexit, g_exit_code, g_closefail, g_openfail, g_called, g_fn, __CPROVER_object_whole(g_errtext)")

    def assigns(self):
        e = [self.ASSIGNS]
        for s in self.syms:
            if s.kind == "func":
                e += ["g_arg_%s_%s" % (s.name, pn) for t, pn in s.params]
        return e

    def setup(self, c):
        L = ["gdo_handle_t v_h; gdo_hndl = v_h;", "" if self.buflen == "4096" else "g_pk = nd_size(); v_assume(g_pk < GDO_BUFLEN);",
             "g_open = nd_int(); g_closefail = nd_bool(); g_openfail = 0; g_err_pending = nd_bool(); g_nopen = 0; g_nclose = 0; g_printed = 0; g_atexit = 0; g_called = 0; g_fn = -1;",
             "v_assume(gdo_hndl.free_lib_reg == 0 || gdo_hndl.free_lib_reg == 1);",
             "g_may_exit = %d;" % (1 if c.noreturn_ok else 0),
             "g_symarg = NULL; static char mp[2]; g_mpath = mp; g_mpathlen = 0; if (%d) { g_mpathlen = nd_size(); v_assume(g_mpathlen > 0 && g_mpathlen < ((size_t)1 << 40)); g_mpath = malloc(g_mpathlen + 1); v_assume(g_mpath != NULL && g_mpath[g_mpathlen] == 0 && g_mpath[0] != 0); }" % (c.name == "gdo_library_path"),
             "g_pathlen = nd_size(); v_assume(g_pathlen < ((size_t)1 << 40)); g_path = malloc(g_pathlen + 1); v_assume(g_path != NULL); v_assume(g_path[g_pathlen] == 0); v_assume(g_pathlen == 0 || g_path[0] != 0);"]
        for i, s in enumerate(self.syms):
            tgt = ("(void *)target_%s" if s.kind == "func" else "(void *)&target_%s") % s.name
            L.append("g_addr[%d] = nd_bool() ? NULL : %s;" % (i, tgt))
        if any(p[1] == "symbol" for p in c.params):
            K = max(len(s.name) for s in self.syms) + 2
            L.append("g_symlen = nd_size(); v_assume(g_symlen < ((size_t)1 << 40)); g_symarg = malloc(g_symlen + 1); v_assume(g_symarg != NULL && g_symarg[g_symlen] == 0);")
            for k in range(K):
                L.append("v_assume(%d >= g_symlen || g_symarg[%d] != 0);" % (k, k))
            L.append("const char *symbol = nd_bool() ? NULL : g_symarg; g_nameidx = -1;")
            for i, s in enumerate(self.syms):
                L.append('if (symbol && strcmp(symbol, "%s") == 0) g_nameidx = %d;' % (s.name, i))
        if any(p[1] == "filename" for p in c.params):
            L.append("static char fnbuf[2]; fnbuf[0] = nd_char(); fnbuf[1] = 0; const char *filename = nd_bool() ? NULL : fnbuf;")
        if any(p[1] == "sym" and p[0] == "const char *" for p in c.params):
            L.append('const char *sym = "x";')
        for t, n in c.params:
            if n not in ("symbol", "filename", "sym"):
                L.append("%s %s;" % (t, n))
                if t == "bool":
                    L.append("v_assume(%s == 0 || %s == 1);" % (n, n))
        if c.name == "_gdo_wrap_check_loaded":
            L.append("v_assume(load >= 0 && load < %d); symptr = RESOLVED(load);" % self.n)
        return L

    def native_args(self, c):
        L = []
        for t, n in c.params:
            if n == "filename":
                L.append('    const char *filename = nd_int() % 6 == 0 ? NULL : nd_int() % 6 == 0 ? "" : "liba.so"; (void)filename;')
            elif n == "symbol":
                names = ['"%s"' % s.name for s in self.syms]
                for s in self.syms:
                    names += ['"%sx"' % s.name, '"%s"' % s.name[:-1], '"x%s"' % s.name, '"%s"' % (s.name[:-1] + "~"), '"%s"' % ("~" + s.name[1:])]
                names += ['"" ', '"libdefault"', '"lib"', '"lib_zzz"']
                L.append("    static const char *const nm[] = { %s };" % ", ".join(names))
                L.append("    const char *symbol = nd_int() %% 3 ? nm[nd_size() %% %d] : nd_int() %% 9 == 0 ? NULL : nm[nd_size() %% (sizeof nm / sizeof *nm)];" % self.n)
                L.append("    g_nameidx = -1;")
                for i, s in enumerate(self.syms):
                    L.append('    if (symbol && strcmp(symbol, "%s") == 0) g_nameidx = %d;' % (s.name, i))
            elif n == "symbol_num":
                L.append("    int symbol_num = nd_int() %% 8 == 0 ? nd_int() : (int)(nd_size() %% %d) - (nd_int() %% 7 == 0);" % (self.n + 1))
            elif n == "load":
                L.append("    int load = (int)(nd_size() %% %d);" % self.n)
                L.append("    void *symptr = RESOLVED(load);")
            elif n == "symptr":
                pass
            elif n == "sym" and t == "const char *":
                L.append('    const char *sym = "x";')
            elif "*" in t:
                L.append("    %s %s = (%s)(uintptr_t)nd_size();" % (t, n, t))
            else:
                L.append("    %s %s = (%s)nd_size();" % (t, n, t))
        return L

    def native_reset(self):
        L = []
        if self.buflen != "4096":
            L.append("    g_pk = nd_size() % 70;")
        L.append("    memset(&gdo_hndl, 0, sizeof(gdo_hndl)); g_open = g_closefail = g_openfail = g_err_pending = g_nopen = g_nclose = g_printed = g_atexit = g_called = 0; g_fn = -1;")
        for i, s in enumerate(self.syms):
            tgt = ("(void *)target_%s" if s.kind == "func" else "(void *)&target_%s") % s.name
            L.append("    g_addr[%d] = nd_int() %% 4 == 0 ? NULL : %s;" % (i, tgt))
        L.append("    static char pb[4 * 8192]; g_path = pb; g_pathlen = nd_int() % 3 ? (size_t)(nd_size() % 64) : nd_int() % 2 ? V_BUFLEN - 3 + (size_t)(nd_size() % 6) : (size_t)(nd_size() % (sizeof(pb) - 1));".replace('V_BUFLEN', self.buflen))
        L.append("    memset(pb, 'p', g_pathlen); pb[g_pathlen] = 0; if (g_pathlen && nd_int() % 2) pb[0] = '/';")
        return L


class CMinimal(CApi):
    """-format=minimal"""
    def room(self):
        return "static _Bool v_room(const void *d, size_t n) { return V_WOK(d, n); }"

    release = "gdo_free_library"
    buflen = "4096"

    def __init__(self, listname):
        super().__init__(listname, "minimal")
        self.format = "minimal"

    def inv(self):
        return ["(g_open == 0 || g_open == 1)",
                "(gdo_hndl.handle == NULL ? (g_open == 0 || g_closefail) : (g_open == 1 && gdo_hndl.handle == G_HANDLE))",
                # all-or-nothing: either nothing is loaded or everything is
                "(gdo_hndl.handle != NULL ? %s : %s)" % (self.all("({p} != NULL && {p} == g_addr[{i}])"), self.all("{p} == NULL"))]

    def inv_labels(self):
        return ["at most one library is open", "the handle is set iff the library is open", "all or nothing: no pointer is set unless the library and all symbols are"]

    def old_decls(self):
        return [o for o in super().old_decls() if o[1] not in ("OLD_reg", "OLD_err0", "OLD_path0", "OLD_pathk")]

    def setup(self, c):
        return [l for l in super().setup(c) if "free_lib_reg" not in l]

    def contracts(self):
        ALLNULL = self.all("{p} == NULL")
        ALLSET = self.all("{p} != NULL")
        return [
            Contract("gdo_free_library", "void", [], post=[
                ("handle and every pointer NULL", "gdo_hndl.handle == NULL && %s" % ALLNULL),
                ("closed once iff loaded", "g_nclose == OLD_nclose + (OLD_handle != NULL)")]),
            Contract("gdo_load_library_and_symbols", "const char *", [("const char *", "filename")],
                     pre=[("not loaded yet", "gdo_hndl.handle == NULL")],
                     post=[("NULL result iff library and every symbol are loaded", "(RET == NULL) == (gdo_hndl.handle != NULL && %s)" % ALLSET),
                           ("an error is a non-empty message and leaves nothing loaded", "RET == NULL || (RET[0] != 0 && gdo_hndl.handle == NULL && %s)" % ALLNULL),
                           ("everything opened is closed again on error", "RET == NULL || g_nclose == OLD_nclose + (g_nopen - OLD_nopen) - (g_nopen != OLD_nopen && g_openfail)"),
                           ("opened by the given name, at most once", "g_nopen == OLD_nopen || (g_nopen == OLD_nopen + 1 && v_streq(g_last_file, filename))"),
                           ("NULL or empty name: not opened", "(filename != NULL && filename[0] != 0) || (RET != NULL && g_nopen == OLD_nopen)"),
                           ("succeeds when library and symbols are available", "RET == NULL || filename == NULL || filename[0] == 0 || g_openfail || !(" + " && ".join("g_addr[%d] != NULL" % i for i in range(self.n)) + ")")]),
        ]
