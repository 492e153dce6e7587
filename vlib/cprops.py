"""Properties decided by CBMC contracts: the generated C code (C01-C06) and the
option parser (C07)."""
import os, re, subprocess, threading
from . import build, capi, cbmc, optc, plugin
from .runner import Obl, Bounded

_lock = threading.Lock()


def gen(ctx, mod, tag):
    """run the tool built from the current tree on the symbol list of `mod` (once per run)"""
    with _lock:
        h = ctx.path("capi", tag + ".h")
        return h if os.path.exists(h) else _gen(ctx, mod, tag, h)


def _gen(ctx, mod, tag, h):
    src = ctx.path("capi", tag + ".in")
    with open(src, "w") as f:
        f.write(capi.header_text(mod.syms))
    p = subprocess.run([build.build_gendlopen(), src, "-format=" + mod.format, "-force", "-no-date", "-out=" + h],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    if p.returncode:
        raise RuntimeError("gendlopen failed: " + p.stdout.decode(errors="replace")[-800:])
    return h


class CProp:
    level = "proof"
    lists_quick = ("mixed", "prefix")
    lists_thorough = ("mixed", "prefix", "single", "objects")
    modes = ("plain",)
    timeout = 400
    native_runs = {"quick": 40000, "thorough": 600000}

    def fns(self, name): return True            # functions whose contracts this property needs
    def own(self, fn, label): return True       # obligations that belong to this property
    def kw(self): return {}

    def modules(self, ctx):
        for l in (self.lists_thorough if ctx.thorough else self.lists_quick):
            for m in self.modes:
                yield "%s_%s" % (l, m), capi.CApi(l, m)

    def header(self, ctx, mod, tag):
        return gen(ctx, mod, tag)

    def jobs(self, ctx):
        build.build_gendlopen()
        J = []
        for tag, mod in self.modules(ctx):
            for c in mod.contracts():
                if self.fns(c.name):
                    J.append(("proof", "%s [%s]" % (c.name, tag), self.proof(ctx, mod, tag, c)))
        # slowest first
        J.sort(key=lambda j: 0 if "library_path" in j[1] or "load_plugins" in j[1] else 1)
        for tag, mod in self.modules(ctx):
            J.append(("bounded", tag, self.native(ctx, mod, tag, ctx.seed, self.native_runs[ctx.tier])))
        return J

    def proof(self, ctx, mod, tag, c):
        def f():
            h = self.header(ctx, mod, tag)
            txt, name, labels = mod.cbmc_file(h, c)
            cf = ctx.path("capi", "%s_%s.c" % (tag, c.name))
            with open(cf, "w") as fo:
                fo.write(txt)
            r = cbmc.verify(os.path.dirname(cf), cf, name, labels, timeout=self.timeout, loop_contracts=mod.loop_contracts or c.name == "gdo_library_path" and getattr(mod, "procmap", False), **self.kw())
            o = Obl("%s [%s]" % (c.name, tag), "cbmc --dfcc (SAT)", r.status, r.obligations, r.discharged,
                    [(x[1], x[0]) for x in r.failed], r.reason, r.time, r.cmd)
            if r.status == "failed":
                mine = [x for x in r.failed if self.own(c.name, re.sub("^postcondition: ", "", x[1]))]
                if not mine:
                    o.status, o.foreign = "undecided", o.failed
                    o.reason = "fails an obligation that belongs to another property: " + o.failed[0][0]
                o.failed = [(x[1], x[0]) for x in mine]
                o.detail = "\n".join("%s (%s)\n  %s" % (x[1], x[0], "\n  ".join(x[2])) for x in mine)[:20000]
            return o
        return f

    def native(self, ctx, mod, tag, seed, runs):
        def f():
            rule = ("random call histories (1-14 calls) of the generated functions of list `%s' compiled natively with "
                    "address/undefined sanitizers against recording dl* stand-ins; every contract is checked after every call" % tag)
            b = Bounded("native histories " + tag, rule)
            try:
                h = self.header(ctx, mod, tag)
                src = ctx.path("capi", tag + "_%d_native.c" % seed)
                with open(src, "w") as fo:
                    fo.write(mod.native_file(h, [c for c in mod.contracts()]))
            except (RuntimeError, ValueError) as e:
                b.note = "not run: " + str(e)[:400]
                return b
            p = subprocess.run(["gcc", "-O1", "-w", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", src, "-o", src[:-2]]
                               + ["-I" + i for i in self.kw().get("include", ())], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                b.note = "does not compile in the harness: " + p.stdout.decode(errors="replace")[-600:]
                return b
            try:
                p = subprocess.run([src[:-2], str(seed), str(runs)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=ctx.wd)
            except subprocess.TimeoutExpired:
                b.note = "timeout"
                return b
            out = p.stdout.decode(errors="replace")
            m = re.search(r"(?:OK|DONE) (\d+)", out)
            b.evaluations = int(m.group(1)) if m else 1
            b.distinct = b.evaluations
            b.samples = ["seed %d, %d histories of %s" % (seed, runs, tag)]
            for m in re.finditer(r"FAIL (\S.*?): (.*)\n((?:.*\n)*?)END", out):
                fn, lab = m.group(1), m.group(2)
                if self.own(fn, lab):
                    b.failures.append({"what": "%s: %s (list %s)" % (fn, lab, tag), "key": "%s:%s" % (fn, lab), "history": m.group(3),
                                       "symbols": capi.header_text(mod.syms) if hasattr(mod, "syms") else ""})
            if p.returncode not in (0, 3):
                if self.own("", "memory safety"):
                    b.failures.append({"what": "the generated code crashed or failed a sanitizer check (list %s)" % tag, "key": "crash",
                                       "stderr": p.stderr.decode(errors="replace")[-3000:]})
                else:
                    b.note = "stopped by a memory error: " + p.stderr.decode(errors="replace")[-500:]
            return b
        return f

    def deep_search(self, ctx, failed):
        from concurrent.futures import ThreadPoolExecutor
        tags = {re.search(r"\[(.*)\]", o.unit).group(1) for o in failed}
        js = [self.native(ctx, m, t, ctx.seed + 1000 + k, 300000) for t, m in self.modules(ctx) if t in tags for k in range(3)]
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda f: f(), js))

    def trusted(self, ctx):
        return ["cbmc 6.11.0 / goto-cc / goto-instrument --dfcc (front end, contract instrumentation, SAT back end)",
                "contracts/capi/stubs.h: contracts of dlopen, dlmopen, dlclose, dlsym, dlerror, dlinfo, dladdr, snprintf, strlen, strstr, memcpy, ioctl(PROCMAP_QUERY), atexit, exit",
                "the list of symbols is one of %s; the code per symbol is one template entry repeated" % ", ".join(self.lists_thorough)]

    def assumptions(self, ctx):
        return ["POSIX branch of the generated code (no _WIN32, no _AIX)",
                "one thread at a time uses the generated API",
                "strings are shorter than 2^40 bytes",
                "dlsym returns the same address for the same name while the library stays open"]


LIFE = ("gdo_load_lib_args", "gdo_load_lib_name", "gdo_load_lib_name_and_symbols", "gdo_load_lib", "gdo_load_lib_and_symbols",
        "gdo_lib_is_loaded", "gdo_free_lib", "gdo_force_free_lib", "gdo_enable_autorelease")
SYMS = ("gdo_load_symbol", "gdo_load_symbol_name", "gdo_load_all_symbols", "gdo_all_symbols_loaded", "gdo_no_symbols_loaded",
        "gdo_any_symbol_loaded", "gdo_load_lib_and_symbols", "gdo_load_lib_name_and_symbols")
SAFETY = re.compile(r"snprintf|strlen|strstr|memcpy|writable|buffer|dereference|memory|pointer|bounds|object|overflow|NULL$|PROCMAP|dladdr|dlinfo|"
                    r"error message|error buffer|path|never NULL|existing message|error")


class C01(CProp):
    def fns(self, n): return n in LIFE

    def own(self, fn, l):
        if fn not in LIFE or "error message" in l and "nothing reset" not in l or l.startswith("the error buffer") or l.startswith("the path buffer"):
            return False
        return not re.search(r"snprintf|strlen|strstr|memcpy|writable|dereference|memory safety|PROCMAP|dlsym|resolved|free_|bounds|arithmetic|is assignable", l) or l.startswith("dl") and "dlsym" not in l


class C02(CProp):
    def fns(self, n): return n in SYMS

    def own(self, fn, l):
        if fn not in SYMS or l == "failure leaves an error message" or l.startswith("the error buffer") or l.startswith("the path buffer"):
            return False
        if fn.startswith("gdo_load_lib"):
            return l.startswith("true iff library newly loaded") or l.startswith("every pointer is NULL") or l.startswith("dlsym")
        return not re.search(r"snprintf|strlen|strstr|memcpy|writable|dereference|memory safety|PROCMAP|bounds|arithmetic|is assignable", l)


class C03(CProp):
    def fns(self, n): return not n.startswith("_gdo_wrap") and not n.startswith("GDO_WRAP")
    lists_quick = ("mixed",)

    def own(self, fn, l):
        if fn in ("gdo_last_error", "gdo_library_path"):
            return True
        return bool(re.search(r"error message|^the error buffer|^the path buffer|snprintf|strlen|strstr|memcpy|writable|dereference|memory safety|PROCMAP|bounds", l))


class C04(CProp):
    modes = ("wrap", "autoload", "lazy")
    lists_thorough = ("mixed", "prefix", "single")
    lists_quick = ("mixed", "prefix")

    def fns(self, n): return n.startswith("_gdo_wrap") or n.startswith("GDO_WRAP")

    def own(self, fn, l):
        return (fn.startswith("_gdo_wrap") or fn.startswith("GDO_WRAP") or fn.startswith("vw_") or fn == "") and not re.search(r"^the error buffer|^the path buffer", l)


class C05(CProp):
    lists_quick = lists_thorough = ("mixed", "prefix", "single", "objects")

    def modules(self, ctx):
        for l in self.lists_quick:
            yield l + "_min", capi.CMinimal(l)


class C06(CProp):
    lists_thorough = lists_quick = ("mixed", "prefix")

    def modules(self, ctx):
        for l in (("mixed", "prefix", "single", "objects") if ctx.thorough else ("mixed", "prefix")):
            yield l + "_plug", plugin.Plugin(l)

    def trusted(self, ctx):
        return super().trusted(ctx)[:1] + ["contracts/capi/plugin_stubs.h: contracts of dlopen, dlsym, dlclose, malloc, calloc, strdup, free",
                                           "loop invariants are injected after the loop header by vlib/plugin.py; the rest of the text is the generated code",
                                           "calloc returns zeroed memory; entries are considered one (arbitrary) at a time"]


class C07(CProp):
    def modules(self, ctx):
        yield "opt_parser", optc.Opt()

    def header(self, ctx, mod, tag):
        return ""

    def kw(self):
        return {"include": [build.SRC], "unwind": 34}

    def trusted(self, ctx):
        return super().trusted(ctx)[:1] + ["contracts/opt/opt.c: stand-ins for snprintf, fputs and exit used by the parser's error path"]

    def assumptions(self, ctx):
        return ["option names given by the program are at most 16 bytes long (the longest is `templates-path')",
                "option prefix configuration as on POSIX (OPT_PREFIX_SHORT, OPT_PREFIX_LONG, OPT_SEPARATOR_EQUAL)",
                "argv holds argc NUL-terminated strings, argc < 2^20"]
