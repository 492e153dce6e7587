"""Contracts on C code, written once as (label, C expression) pairs and emitted
  - as __CPROVER_requires/__CPROVER_ensures/__CPROVER_assigns for goto-instrument
    --dfcc (the deciding step), and
  - as run-time checks for the native search that looks for a failing history
    after an obligation failed (or when the verifier gave no answer)."""
import re


class Contract:
    def __init__(self, name, ret, params, pre=(), post=(), guard=None, noreturn_ok=False, args=None,
                 call=None, unwind=None):
        self.name, self.ret, self.params = name, ret, params   # params: [(ctype, name)]
        self.pre, self.post = list(pre), list(post)            # [(label, expr)]
        self.args = args or [p[1] for p in params]
        self.noreturn_ok = noreturn_ok
        self.call = call  # expression to call instead of the function itself


class Module:
    """a C translation unit with contracts on some of its functions"""
    inv_label = "representation invariant preserved"
    loop_contracts = False
    step_end = "(void)0"

    def contracts(self): raise NotImplementedError
    def source(self, header): raise NotImplementedError
    def inv(self): return []                 # C expressions: representation invariant
    def inv_labels(self): return ["representation invariant %d preserved" % k for k in range(len(self.inv()))]
    def old_decls(self): return []           # (ctype, OLD_name, expr)
    def assigns(self): return []
    def setup(self, c): return []            # CBMC: declares the arguments, arbitrary pre-state
    def native_args(self, c): return []      # native: declares the arguments
    def native_reset(self): return []

    # ---- CBMC file ----
    def cbmc_file(self, header, contract):
        L = self.source(header)
        for k, x in enumerate(self.inv()):
            L.append("static _Bool INV_%d(void) { return %s; }" % (k, x))
        L.append("static _Bool INV(void) { return %s; }" % (" && ".join("INV_%d()" % k for k in range(len(self.inv()))) or "1"))
        olds = self.old_decls()

        def sub(e):
            e = e.replace("RET", "__CPROVER_return_value")
            for t, n, x in sorted(olds, key=lambda o: -len(o[1])):
                e = re.sub(r"\b%s\b" % n, lambda m: "__CPROVER_old(%s)" % x, e)
            return e
        c = contract
        ps = ", ".join("%s %s" % p for p in c.params) or "void"
        name = c.call or c.name
        if c.call:   # variadic: dfcc cannot instrument the call; pre/post are assumed/asserted around it
            L.append("void harness(void) {")
            L += ["    " + x for x in self.setup(c)]
            L.append("    v_assume(INV());")
            for l, e in c.pre:
                L.append("    v_assume(%s);" % e)
            for t, n, x in olds:
                L.append("    %s %s = (%s)%s;" % (t, n, t, x))
            L.append("    %s%s(%s);" % ("" if c.ret == "void" else c.ret + " RET = ", name, ", ".join(c.args)))
            for k, il in enumerate(self.inv_labels()):
                L.append('    v_assert(INV_%d(), "postcondition: %s");' % (k, il))
            for l, e in c.post:
                L.append('    v_assert(%s, "postcondition: %s");' % (e, l))
            L.append("    v_assert(0, \"reachability guard: the end of the harness is reachable\");")
            L.append("}")
            return "\n".join(L) + "\n", None, []
        L.append("%s %s(%s)" % (c.ret, name, ps))
        L.append("__CPROVER_requires(INV())")
        for l, e in c.pre:
            L.append("__CPROVER_requires(%s)" % e)
        labels = self.inv_labels()
        for k in range(len(labels)):
            L.append("__CPROVER_ensures(INV_%d())" % k)
        for l, e in c.post:
            L.append("__CPROVER_ensures(%s)" % sub(e))
            labels.append(l)
        L.append("__CPROVER_assigns(%s)\n;" % ", ".join(self.assigns()))
        L.append("void harness(void) {")
        L += ["    " + x for x in self.setup(c)]
        L.append("    %s(%s);" % (name, ", ".join(c.args)))
        L.append("    v_assert(0, \"reachability guard: the end of the harness is reachable\");")
        L.append("}")
        return "\n".join(L) + "\n", name, labels

    # ---- native search ----
    def native_file(self, header, contracts):
        L = ["#define NATIVE 1", "#define V_STEP_END %s" % self.step_end] + self.source(header)
        L.append(NATIVE_RT)
        L.append("static void chk(int ok, const char *f, const char *l) { if (!ok) { cur_fn = f; v_fail(l); } }")
        olds = self.old_decls()
        for k, c in enumerate(contracts):
            L.append("static void step_%d(void) {" % k)
            L.append('    cur_fn = "%s";' % c.name)
            L += ['    ' + x for x in self.native_args(c)]
            for t, n, x in olds:
                L.append("    %s %s = (%s)%s; (void)%s;" % (t, n, t, x, n))
            L.append("    g_may_exit = %d;" % (1 if c.noreturn_ok else 0))
            L.append('    if (v_trace) v_tracef("%s"%s);' % (
                c.name + "(" + ", ".join("%s" % ("%s=%p" if "*" in t or t.endswith("_t") and t != "size_t" else "%s=%ld") for t, n in c.params) + ")\\n",
                "".join(', "%s", %s' % (n, ("(void *)%s" if "*" in t or t.endswith("_t") and t != "size_t" else "(long)%s") % n) for t, n in c.params)))
            for l, e in c.pre:
                L.append("    if (!(%s)) return;" % e)
            call = "%s(%s)" % (c.call or c.name, ", ".join(c.args))
            L.append("    " + ("%s;" % call if c.ret == "void" else "%s RET = %s; (void)RET;" % (c.ret, call)))
            for e, il in zip(self.inv(), self.inv_labels()):
                L.append('    chk(%s, "%s", "%s");' % (e, c.name, il))
            for l, e in c.post:
                L.append('    chk(%s, "%s", "%s");' % (e, c.name, l))
            L.append("}")
        L.append("static void v_reset(void) {")
        L += ["    " + x for x in self.native_reset()]
        L.append("}")
        L.append("typedef void (*step_t)(void); static const step_t steps[] = { %s };" % ", ".join("step_%d" % k for k in range(len(contracts))))
        L.append(NATIVE_MAIN)
        return "\n".join(L) + "\n"


NATIVE_RT = r'''
#include <stdarg.h>
jmp_buf v_jmp; static int v_trace; static const char *cur_fn = ""; static char v_log[1 << 16]; static size_t v_logn;
static unsigned long long v_s;
static unsigned long long v_next(void) { v_s ^= v_s << 13; v_s ^= v_s >> 7; v_s ^= v_s << 17; return v_s * 2685821657736338717ULL; }
int nd_int(void) { return (int)((v_next() >> 20) & 0x7fffffff); }
_Bool nd_bool(void) { return (v_next() >> 33) % 3 == 0; }
char nd_char(void) { char c = (char)(v_next() >> 40); return c ? c : 'e'; }
size_t nd_size(void) { return (size_t)(v_next() >> 17); }
static void v_tracef(const char *fmt, ...) { va_list ap; va_start(ap, fmt); if (v_logn < sizeof(v_log) - 400) v_logn += (size_t)vsnprintf(v_log + v_logn, 300, fmt, ap); va_end(ap); }
static const char *v_seen[64][2]; static int v_nseen;
void v_fail(const char *msg) {
    /* report every distinct failure once, then go on with the next history */
    for (int i = 0; i < v_nseen; i++) if (v_seen[i][0] == cur_fn && !strcmp(v_seen[i][1], msg)) longjmp(v_jmp, 1);
    printf("FAIL %s: %s\n", cur_fn, msg); fwrite(v_log, 1, v_logn, stdout); printf("END\n"); fflush(stdout);
    if (v_nseen < 64) { v_seen[v_nseen][0] = cur_fn; v_seen[v_nseen][1] = strdup(msg); v_nseen++; }
    longjmp(v_jmp, 1);
}
'''
NATIVE_MAIN = r'''
int main(int argc, char **argv) {
    unsigned long long seed = strtoull(argv[1], 0, 10); long runs = atol(argv[2]); long total = 0;
    v_trace = 1;
    for (volatile long r = 0; r < runs; r++) {
        v_s = (seed + 1) * 0x9E3779B97F4A7C15ULL + (unsigned long long)r * 0xD1B54A32D192ED03ULL; if (!v_s) v_s = 1;
        for (int i = 0; i < 4; i++) v_next();
        v_logn = 0; v_tracef("seed %llu run %ld\n", seed, (long)r);
        v_reset();
        volatile int n = 1 + (int)(nd_size() % 14);
        if (setjmp(v_jmp) == 0) {
            for (volatile int i = 0; i < n; i++) { total++; steps[nd_size() % (sizeof steps / sizeof *steps)](); V_STEP_END; }
        }
    }
    printf("%s %ld calls\n", v_nseen ? "DONE" : "OK", total);
    return v_nseen ? 3 : 0;
}
'''


