"""Contracts on src/opt_parser.h."""
import os
from .cmod import Module, Contract

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = os.path.join(HERE, "contracts", "opt", "opt.c")
MAXOPT = 16   # longest option name considered ("templates-path" has 14 bytes)


class Opt(Module):
    inv_label = "struct opt_args is well-formed"

    def source(self, header):
        return ['#include "%s"' % PRELUDE,
                "static struct opt_args G; static char *g_cur; static const char *g_next;",
                "static char *g_optbuf; static char g_nextbuf[2]; static char **g_argv;"]

    def old_decls(self):
        return [("int", "OLD_iter", "G.iter"), ("int", "OLD_argc", "G.argc"), ("const char *", "OLD_cur", "G.current"),
                ("int", "OLD_pfx", "G.pfxlen"), ("int", "OLD_nerr", "g_nerr"), ("int", "OLD_cb", "g_cb")]

    def assigns(self):
        return ["__CPROVER_object_whole(&G), g_nerr, g_errkind, g_exit, g_cb, g_errpfx0, g_errpfx1, g_errpfx2, g_erropt"]

    def contracts(self):
        cfg = "G.argc == OLD_argc"
        NAME = "(OLD_cur + OLD_pfx)"
        HIT = "(len > 0 && OLD_pfx != 0 && (opt[1] != 0 || OLD_pfx == 1) && spec_starts(%s, opt, len))" % NAME
        # REST may only be read when the name matched
        REST = "(OLD_cur[OLD_pfx + (int)len])"
        NEXT = "(OLD_iter + 1 < OLD_argc)"
        GOOD = ("(%s && (%s == 0 ? (%s && g_next[0] != 0) : len == 1 ? 1 : (%s == '=' && OLD_cur[OLD_pfx + (int)len + 1] != 0)))"
                % (HIT, REST, NEXT, REST))
        BADMISS = "(%s && %s == 0 && !%s)" % (HIT, REST, NEXT)
        BADEMPTY = "(%s && ((%s == 0 && %s && g_next[0] == 0) || (len > 1 && %s == '=' && OLD_cur[OLD_pfx + (int)len + 1] == 0)))" % (HIT, REST, NEXT, REST)
        return [
            Contract("opt_init", "void", [("struct opt_args *", "a"), ("int", "argc"), ("char **", "argv"), ("int", "skip"), ("v_cb_t", "errhandle")],
                     args=["a", "argc", "argv", "skip", "errhandle"],
                     post=[("arguments recorded, nothing parsed yet",
                            "G.argc == argc && G.argv == argv && G.errhandle == errhandle && G.current == NULL && G.value == NULL && G.pfxlen == 0"),
                           ("iteration starts after the skipped arguments", "G.iter == (skip < 1 ? 0 : skip)")]),
            Contract("opt_iterate", "bool", [("struct opt_args *", "a")],
                     pre=[("a", "a == &G"), ("iter", "G.iter >= 0 && G.iter < 0x7fffffff")],
                     post=[("advances by exactly one", "G.iter == OLD_iter + 1"), ("argv untouched", cfg),
                           ("true iff an argument is left", "RET == (OLD_iter + 1 < OLD_argc)"),
                           ("current is the next argument", "!RET || (G.current == g_next && G.value == NULL)"),
                           ("no argument left: current is NULL", "RET || G.current == NULL"),
                           ("prefix length: 1 for -x, 2 for --x, 0 for a plain argument, - and --", "!RET || G.pfxlen == spec_pfxlen(g_next)")]),
            Contract("opt_arg_eq", "bool", [("struct opt_args *", "a"), ("const char *", "opt")],
                     pre=[("a", "a == &G")],
                     post=[("true iff the argument is a prefix followed by exactly the name",
                            "RET == (opt[0] != 0 && OLD_pfx != 0 && spec_starts(%s, opt, MAXOPT + 1))" % NAME),
                           ("nothing changes", cfg + " && G.iter == OLD_iter && G.current == OLD_cur && G.pfxlen == OLD_pfx && g_nerr == OLD_nerr")]),
            Contract("opt_get_arg", "bool", [("struct opt_args *", "a"), ("const char *", "opt"), ("size_t", "len")],
                     pre=[("a", "a == &G")],
                     post=[("true iff the option matches and has a non-empty value", "RET == (%s)" % GOOD),
                           ("value: next argument, text after `=', or text after a one-letter option",
                            "!RET || G.value == (%s == 0 ? g_next : len == 1 ? (const char *)(%s + 1) : (const char *)(%s + len + 1))" % (REST, NAME, NAME)),
                           ("the next argument is consumed iff it is the value", "%s ? G.iter == OLD_iter + 1 : G.iter == OLD_iter" % ("(%s && %s == 0)" % (HIT, REST))),
                           ("a missing or empty value is reported exactly once, nothing else is", "g_nerr == OLD_nerr + (%s || %s)" % (BADMISS, BADEMPTY)),
                           ("the report says which", "g_nerr == OLD_nerr || g_errkind == (%s ? 1 : 2)" % BADMISS),
                           ("the report names the option as it was given",
                            "g_nerr == OLD_nerr || (g_erropt == opt && g_errpfx0 == '-' && g_errpfx1 == (OLD_pfx == 2 ? '-' : 0) && g_errpfx2 == 0)"),
                           ("the caller's error handler is called", "g_nerr == OLD_nerr || g_cb == OLD_cb + 1"),
                           ("argument untouched", cfg + " && G.current == OLD_cur && G.pfxlen == OLD_pfx")]),
        ]

    def setup(self, c):
        L = ["g_nerr = g_errkind = g_cb = g_exit = 0;",
             "struct opt_args v; G = v; struct opt_args *a = &G;",
             "size_t cl = nondet_size_t(), nl = nondet_size_t(), k;",
             "__CPROVER_assume(cl < ((size_t)1 << 30) && nl < ((size_t)1 << 30));",
             "g_cur = malloc(cl + 1); __CPROVER_assume(g_cur != NULL && g_cur[cl] == 0);",
             "char *nx = malloc(nl + 1); __CPROVER_assume(nx != NULL && nx[nl] == 0); g_next = nx;",
             "G.argc = nondet_int(); __CPROVER_assume(G.argc > 0 && G.argc < (1 << 20)); G.iter = nondet_int(); __CPROVER_assume(G.iter >= 0 && G.iter < G.argc);",
             "G.argv = malloc(sizeof(char *) * ((size_t)G.argc + 1)); __CPROVER_assume(G.argv != NULL);",
             "G.argv[G.iter] = g_cur; G.argv[G.iter + 1] = G.iter + 1 < G.argc ? nx : NULL;",
             "G.errhandle = v_cb; G.current = g_cur; G.value = NULL;",
             # cl is the length of the current argument for the first bytes (those a name of MAXOPT bytes can reach)
             ] + ["__CPROVER_assume(%d >= cl || g_cur[%d] != 0);" % (i, i) for i in range(MAXOPT + 4)] + \
            ["__CPROVER_assume(%d >= nl || nx[%d] != 0);" % (i, i) for i in range(3)] + \
            ["G.pfxlen = (uint8_t)spec_pfxlen(g_cur);",
             "static char ob[MAXOPT + 1]; char *opt = ob; size_t len = nondet_size_t(); __CPROVER_assume(len <= MAXOPT); ob[MAXOPT] = 0;"] + \
            ["ob[%d] = nondet_char(); __CPROVER_assume(%d < len ? ob[%d] != 0 : ob[%d] == 0);" % (i, i, i, i) for i in range(MAXOPT)]
        if c.name == "opt_init":
            L += ["int argc, skip; char **argv; void (*errhandle)(const char *) = nondet_bool() ? v_cb : NULL;"]
        return L

    def native_args(self, c):
        L = ["struct opt_args *a = &G; (void)a;"]
        if c.name == "opt_init":
            L += ["int argc = 1 + nd_int() % 3, skip = nd_int() % 4 - 1; char **argv = g_argv; void (*errhandle)(const char *) = nd_bool() ? v_cb : NULL;"]
        else:
            L += ['static const char *const names[] = {"D","format","force","P","prefix","param","","x","S","out","a-b","templates-path"};',
                  "const char *opt = names[nd_size() % 12]; size_t len = strlen(opt); (void)len;",
                  # arguments made of prefixes, names and separators, NUL-terminated exactly (ASAN)
                  "static const char *const pre[] = {\"\",\"-\",\"--\",\"---\",\"/\"}; static const char *const suf[] = {\"\",\"=\",\"=v\",\"v\",\":v\",\"==\",\"-\"};",
                  "char t[80]; for (int q = 0; q < 2; q++) { strcpy(t, pre[nd_size() % 5]); strcat(t, nd_size() % 4 ? opt : names[nd_size() % 12]); strcat(t, suf[nd_size() % 7]); if (q && nd_size() % 4 == 0) t[0] = 0; char **slot = q ? (char **)&g_next : &g_cur; free(*slot); *slot = strdup(t); }",
                  "static char *av[8]; memset(&G, 0, sizeof G); G.argc = 1 + (int)(nd_size() % 4); G.iter = (int)(nd_size() % (unsigned)G.argc); av[G.iter] = g_cur; av[G.iter + 1] = G.iter + 1 < G.argc ? (char *)g_next : NULL; G.argv = av; G.errhandle = v_cb; G.current = g_cur; G.pfxlen = (uint8_t)spec_pfxlen(g_cur);",
                  'v_tracef("argv[%d]=\\"%s\\" argv[%d]=\\"%s\\" argc=%d option \\"%s\\"\\n", G.iter, g_cur, G.iter + 1, g_next, G.argc, opt);']
        return L

    def native_reset(self):
        return ["g_nerr = g_cb = 0; static char *av0[4]; g_argv = av0;"]
