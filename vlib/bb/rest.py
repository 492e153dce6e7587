"""Bounded black-box runs for C17 to C26: files, options, prefixes, Clang AST input, failures."""
import os, random, re, resource, shutil, signal, stat, subprocess
from . import decl as D
from .cli import Tool, Run, toks, pmap
from .front import observe, expect, explain
from .back import FORMATS, PFX, reprefix, up, low, IDCH, rnd_template, diff, entries, model_lines, seen_syms
from .. import build


def body(r, n=None, kinds=None):
    used = set()
    ds = [D.decl(r, used, kinds=kinds) for _ in range(n or r.choice([1, 2, 3, 5]))]
    return ds, D.header(r, ds, rich=False, blocks=False)


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def snap(d):
    """every entry below d: kind and content, links not followed"""
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs + files:
            p = os.path.join(base, x)
            k = os.path.relpath(p, d)
            if os.path.islink(p):
                out[k] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[k] = ("dir",)
            else:
                out[k] = ("file", rd(p))
    return out


# ---------------------------------------------------------------- C17

def outfiles(ctx, tool, n):
    b = Run("output files", "%d random histories: the output path (header and body file) is absent, a file, a symbolic link to a file, to nothing, to a directory or a directory; with and without "
            "-force and -separate, every format and -template; also runs that fail before writing: all entries of the directory tree are compared before and after" % n)

    def one(i):
        r = random.Random("C17 %s %d" % (ctx.seed, i))
        ds, hdr = body(r)
        f = r.choice(FORMATS)
        force, tpl = r.random() < .45, r.random() < .2
        sep = r.random() < .6 and not tpl
        a = ["-no-date", "-format=" + f] + ["-force"] * force + ["-line"] * (r.random() < .2)
        d = tool.dir()
        os.makedirs(d + "/keep/sub")
        for x in ("keep/target", "keep/target2", "keep/sub/other"):
            with open(d + "/" + x, "w") as fo:
                fo.write("precious %s\n" % x * r.choice([1, 1000]))
        cxx = "+" in f
        name = r.choice(["o.h", "o", "out put.x", "o.h.in", "a.b.c", "o.c"])
        real_sep = sep and not f.startswith("minimal")
        if real_sep:
            stem = os.path.splitext(name)[0]
            targets = [stem + (".hpp" if cxx else ".h"), stem + (".cpp" if cxx else ".c")]
        else:
            targets = [name]
        state = {}
        for t in targets:
            k = r.choice(["none", "none", "file", "link", "link2", "dangling", "dirlink", "linkchain", "empty", "hard"])
            p = d + "/" + t
            if k == "file":
                open(p, "w").write("old content\n" * 3000)
            elif k == "empty":
                open(p, "w").close()
            elif k == "link":
                os.symlink("keep/target", p)
            elif k == "link2":
                os.symlink(d + "/keep/target2", p)
            elif k == "dangling":
                os.symlink("keep/absent", p)
            elif k == "dirlink":
                os.symlink("keep/sub", p)
            elif k == "linkchain":
                os.symlink("keep/target", d + "/l_" + t)
                os.symlink("l_" + t, p)
            elif k == "hard":
                os.link(d + "/keep/sub/other", p)
            state[t] = k
        bad = r.choice([None, None, None, None, "syntax", "missing", "option", "optline", "noinput", "symbol"])
        if tpl:
            t = tool.file("c17.tpl", "x %%symbol%%\nfoo\n")
            a.append("-template=" + (t if bad != "missing" else d + "/nothing"))
        elif bad == "missing":
            bad = None
        args = list(a) + ["-separate"] * sep + ["-out=" + (d + "/" if r.random() < .5 else "") + name]
        inp = hdr
        if bad == "syntax":
            inp = hdr + "\nint x = 1;\n"
        elif bad == "option":
            args.append("-fromat=c")
        elif bad == "optline":
            inp = "%option foo\n" + hdr
        elif bad == "symbol":
            args.append("-Snot_there_at_all")
        before = snap(d)
        q = tool.run(args + (["-"] if bad != "noinput" else []), inp, cwd=d)
        after = snap(d)
        ref = tool.run(["-no-date", "-format=" + f] + [x for x in args if x.startswith(("-line", "-template"))] + ["-"], inp, cwd=d)
        desc = dict(args=args, header=inp, state=state)
        busy = [t for t in targets if state[t] != "none"]
        msg = None
        if bad:
            if q.rc in (0, None) or q.rc < 0 or not q.err.strip():
                msg = "a run with a %s error ends with exit status %s" % (bad, q.rc)
            elif after != before:
                msg = "a run that fails (%s) changed %s" % (bad, changed(before, after))
        elif busy and not force:
            if q.rc in (0, None) or q.rc < 0 or not q.err.strip():
                msg = "output file exists (%s), no -force: exit status %s" % (state, q.rc)
            else:
                extra = [k for k in changed(before, after) if k in before or k not in targets]
                if extra:
                    msg = "output file exists (%s), no -force: %s changed" % (state, extra)
        else:
            if q.rc:
                msg = "exit status %s (%s), %s" % (q.rc, q.err.strip()[:200], state)
            else:
                for k in changed(before, after):
                    if k not in targets:
                        msg = "%s was changed (%s)" % (k, state)
                for t in targets:
                    e = after.get(t)
                    if not e or e[0] != "file":
                        msg = "%s is not a regular file afterwards: %s (%s)" % (t, e and e[:1], state)
                    elif len(targets) == 1 and not sep and not tpl and not any(x == "-line" for x in args):
                        if e[1].decode("utf-8", "surrogateescape") != ref.out:
                            msg = "the file's content is not the output (%s)" % state
                    elif b"precious" in e[1] or b"old content" in e[1] or not e[1]:
                        msg = "%s still has old content (%s)" % (t, state)
                if tpl and not msg and not any(x == "-line" for x in args) and after[name][1].decode() != ref.out:
                    msg = "the file's content is not the output of the template (%s)" % state
        if msg:
            b.fail("C17-%d" % i, msg, **desc)
        b.ok((f, tuple(sorted(state.items())), force, sep, bad, name))
        shutil.rmtree(d)
    pmap(one, range(n))
    return b


def changed(x, y):
    return sorted(k for k in set(x) | set(y) if x.get(k) != y.get(k))


# ---------------------------------------------------------------- C18, C19

def quoted(s, w):
    q = s if len(s) >= 2 and s[0] == s[-1] == '"' else '"%s"' % s
    return "L" + q if w else q


def libs(s, U):
    """documented forms of -library"""
    m = s.lower()
    if m.startswith("nq:") and len(s) > 3:
        return s[3:], s[3:]
    if m.startswith("ext:") and len(s) > 4:
        return tuple("%s %s_LIBEXT%s" % (quoted(s[4:], w), U, "AW"[w]) for w in (0, 1))
    if m.startswith("api:") and len(s) > 4 and ":" in s[4:]:
        no, nm = s[4:].split(":", 1)
        return tuple("%s_LIBNAME%s(%s,%s)" % (U, "AW"[w], nm, no) for w in (0, 1))
    return quoted(s, 0), quoted(s, 1)


LIBN = ["foo", "libfoo.so.2", "my lib", "foo.dll", "/opt/x/liba.so", "nqfoo", "n", "e", "a", "ext", "external.so", "nvidia", "api", "apifoo", "eglfoo", "asound.so", "NQ", "Ext2", "nq-:x",
        "ex:y", "nqx:y", "extra:z", "apis:1:x", "N", "EXT", "C:/foo.dll", '"quoted.so"', '"a" "b"', "LIBNAME", "x:y:z", "foo++", "a b c", "f'oo", "\"", "x\"", "L", "0", "anq:foo", "xext:foo", "api1:foo:2"]


def library(ctx, tool, n):
    b = Run("library forms", "%d library names (every mode, no mode, quoted, names that begin like a mode), given by -library and by %%option, every format and several prefixes: the two "
            "default-library macros equal the documented expansion; and nothing is defined without -library" % n)

    def one(i):
        r = random.Random("C18 %s %d" % (ctx.seed, i))
        nm = r.choice(LIBN) if i >= len(LIBN) * 2 else LIBN[i % len(LIBN)]
        mode = r.choice(["", "", "nq:", "ext:", "api:0:", "api:12:", "api:V:", "NQ:", "Ext:", "API:3:", "api:"]) if i >= len(LIBN) else ""
        s = mode + nm
        pfx = r.choice(PFX)
        f = r.choice(FORMATS)
        opt = r.random() < .3 and " " not in s and '"' not in s
        args = ["-no-date", "-prefix=" + pfx, "-format=" + f] + ([] if opt else ["-library=" + s])
        q = tool.run(args + ["-"], ("%%option library=%s\n" % s if opt else "") + "int foo(void);\n")
        U = up(pfx)
        want = libs(s, U)
        got = tuple(re.findall(r"^#define %s_HARDCODED_DEFAULT_LIB%s (.*)$" % (U, x), q.out, re.M) for x in "AW")
        if q.rc or got != ([want[0]], [want[1]]):
            b.fail("C18-%s-%s" % (s, f), "-library=%s: exit status %s, macros %s, expected %s" % (s, q.rc, got, want), args=args)
        if i % 7 == 0:
            q = tool.run(["-no-date", "-prefix=" + pfx, "-format=" + f, "-"], "int foo(void);\n")
            if ("#define %s_HARDCODED_DEFAULT_LIBA \"" % U) in q.out:
                b.fail("C18-none-%s" % f, "a default library is defined without -library", args=args)
        b.ok((s, f, pfx, opt))
    pmap(one, range(n))

    # what the macros mean after preprocessing (Linux, Windows, macOS)
    cases = [("foo", '"foo"', '"foo"', '"foo"'), ("ext:foo", '"foo" ".so"', '"foo" ".dll"', '"foo" ".dylib"'), ("api:2:foo", '"libfoo.so.2"', '"libfoo-2.dll"', '"libfoo.2.dylib"'), ("nq:FOO", "FOO", "FOO", "FOO")]

    def meaning(c):
        s, fmt = c
        q = tool.run(["-no-date", "-format=" + fmt, "-library=" + s[0], "-"], "int foo(void);\n")
        d = tool.dir()
        with open(d + "/o.h", "w") as fo:
            fo.write(q.out + "\nFINAL: GDO_HARDCODED_DEFAULT_LIBA\n")
        p = subprocess.run(["gcc", "-E", "-P", "-x", "c++" if "+" in fmt else "c", "-std=gnu++17" if "+" in fmt else "-std=gnu11", d + "/o.h"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        m = re.search(r"FINAL: (.*)", p.stdout.decode())
        got = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m and '"' in m.group(1) else m and m.group(1).strip()
        want = "".join(re.findall(r'"([^"]*)"', s[1])) if '"' in s[1] else s[1]
        if got != want:
            b.fail("C18-meaning-%s-%s" % (s[0], fmt), "-library=%s: the preprocessed default library is %r, expected %r" % (s[0], got, want), args=fmt)
        b.ok((s[0], fmt, "meaning"))
        shutil.rmtree(d)
    pmap(meaning, [(c, f) for c in cases for f in FORMATS])
    return b


def inc(s):
    if s.lower().startswith("nq:") and len(s) > 3:
        return s[3:]
    if len(s) >= 2 and (s[0], s[-1]) in (("<", ">"), ('"', '"')):
        return s
    return '"%s"' % s


def defblock(defs):
    out = ""
    for d in defs:
        nm, eq, v = d.partition("=")
        nm = nm.strip(" \t\n\r\f\v")
        if nm:
            out += "#ifndef %s\n# define %s%s\n#endif\n" % (nm, nm, " " + v if eq else "")
    return out


INCS = ["foo.h", "<foo.h>", '"foo.h"', "nq:FOO_H", "NQ:bar", "sys/x.h", "a b.h", "<", '"', "nqfoo.h", "nq:", "<x", "x>", "nq:<y>", "n", "../z.hpp", '"a', ">x<"]
DEFS = ["FOO", "FOO=1", "FOO=", "BAR=a b c", "X =1", " Y=2", "Z= 3 ", "F(x)=x+1", "A=B=C", "_G", "=1", " ", "S=\"str\"", "K=(1<<2)", "=", "long_name_1=ULL"]


def defines(ctx, tool, n):
    b = Run("includes and defines", "%d random lists of -D and -include values (also by %%option), every format: the generated blocks hold exactly the documented lines, in order" % n)

    def one(i):
        r = random.Random("C19 %s %d" % (ctx.seed, i))
        ds = [r.choice(DEFS) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        ins = [r.choice(INCS) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        f = FORMATS[i % 5]
        pfx = r.choice(PFX)
        args, head = [], ""
        od, oi = [], []
        order = [("D", x) for x in ds] + [("include", x) for x in ins]
        r.shuffle(order)
        for k, v in order:
            if r.random() < .25 and not re.search(r"[\s\"]", v):
                head += "%%option %s=%s\n" % (k, v)
                (od if k == "D" else oi).append((1, v))
            else:
                args.append("-D" + v if k == "D" else "-include=" + v)
                (od if k == "D" else oi).append((0, v))
        # options of the input file come after those of the command line
        ds = [v for p, v in od if p == 0] + [v for p, v in od if p == 1]
        ins = [v for p, v in oi if p == 0] + [v for p, v in oi if p == 1]
        a = ["-no-date", "-format=" + f, "-prefix=" + pfx] + args
        q = tool.run(a + ["-"], head + "int foo(void);\n")
        inb = "/* extra headers */\n" + ("#include <cstddef>\n#include <cstring>\n" if "+" in f else "#include <stddef.h>\n#include <string.h>\n") + "".join("#include %s\n" % inc(x) for x in ins) + "\n"
        want = "/* extra defines */\n" + defblock(ds)
        if q.rc or (want + "#define %s_" % up(pfx)) not in q.out:
            b.fail("C19-def-%d" % i, "exit status %s; the extra defines are not\n%s" % (q.rc, want), args=a, header=head)
        elif inb not in q.out or q.out.index(inb) < q.out.index(want):
            b.fail("C19-inc-%d" % i, "the extra headers are not\n%s" % inb, args=a, header=head)
        b.ok((f, pfx, tuple(ds), tuple(ins)))
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C20, C21

def prefixes(ctx, tool, n):
    b = Run("prefix", "%d random symbol lists, prefixes, formats and file names: the output with -prefix=P equals the default output with every gdo/GDO word renamed and nothing else changed; "
            "no gdo word remains; the header guard is named after prefix and file and closed" % n)

    def one(i):
        r = random.Random("C20 %s %d" % (ctx.seed, i))
        used = set(D.WORDS) & {"gdo", "GDO", "gdo_x"}
        while True:
            ds, hdr = body(r)
            if not re.search(r"gdo|GDO", hdr):
                break
        f = FORMATS[i % 5]
        P = r.choice(PFX + ["".join(r.choice(IDCH[:52] + "_") for _ in range(r.choice([1, 2, 5]))) + r.choice(["", "9", "_", "-1"])])
        npo = r.random() < .5
        mode = r.choice(["read", "create", "skip"])
        d = tool.dir()
        sep = r.random() < .3 and not f.startswith("minimal")
        a = ["-no-date", "-format=" + f, "-param=" + mode] + ["-no-pragma-once"] * npo + ["-separate"] * sep + r.choice([[], ["-library=api:3:foo"], ["-library=ext:x"]])
        fn = r.choice(["My out-1.h", "x.hpp", "abc", "a.b_C.h", "9.h", "gdox.h", "my.gdo.h"])
        outs = []
        for k, p in enumerate((None, P)):
            e = d + "/%d" % k
            os.mkdir(e)
            q = tool.run(a + (["-prefix=" + p] if p else []) + ["-out=" + e + "/" + fn, "-"], hdr)
            outs.append({x: open(e + "/" + x, newline="").read() for x in sorted(os.listdir(e))} if not q.rc else q.err)
        if isinstance(outs[0], str) or isinstance(outs[1], str) or set(outs[0]) != set(outs[1]):
            b.fail("C20-rc-%d" % i, "fails: %s %s" % (str(outs[0])[:200], str(outs[1])[:200]), args=a, header=hdr)
            return
        for x in outs[0]:
            base = outs[0][x]
            xs = x if not sep else os.path.splitext(x)[0] + (".hpp" if "+" in f else ".h")
            guard = lambda p: "_%s_%s_" % (up(p), up(xs))
            incl = '#include "%s"' % xs
            t = base.replace(guard("gdo"), "\1").replace(incl, "\2")
            want = reprefix(t, P).replace("\1", guard(P)).replace("\2", incl)
            # names that gendlopen itself builds out of the prefix
            want = re.sub(r"(?<![A-Za-z0-9_])gdo_(\w+?)__t\b", lambda m: low(P) + "_%s__t" % m.group(1), want)
            if outs[1][x] != want:
                b.fail("C20-%d" % i, "-prefix=%s: %s differs from the renamed default output: %r, expected %r" % ((P, x) + diff(outs[1][x], want)), args=a, header=hdr)
            if low(P) != "gdo":
                left = [w for w in re.findall(r"[A-Za-z0-9_]+", outs[1][x].replace(guard(P), "").replace(incl, "")) if re.match(r"_?gdo_|_?GDO_|gdo$", w)]
                if left and not re.match(r"_?gdo_|_?GDO_", P):
                    b.fail("C20-left-%d" % i, "-prefix=%s: %s remain in %s" % (P, sorted(set(left))[:5], x), args=a, header=hdr)
            hp = x == xs
            if hp:
                g = guard(P)
                head, tail = "#ifndef %s\n#define %s\n\n" % (g, g), "#endif //%s\n" % g
                if npo and (head not in outs[1][x] or not outs[1][x].endswith(tail) or "#pragma once" in outs[1][x]):
                    b.fail("C20-guard-%d" % i, "%s has no complete header guard %s" % (x, g), args=a, header=hdr)
                if not npo and ("\n#pragma once\n\n" not in outs[1][x] or head in outs[1][x]):
                    b.fail("C20-pragma-%d" % i, "%s has no #pragma once" % x, args=a, header=hdr)
        b.ok((f, P, fn, hdr))
        shutil.rmtree(d)
    pmap(one, range(n))

    # user symbols are never renamed, whatever they are called
    def user(i):
        r = random.Random("C20u %s %d" % (ctx.seed, i))
        nm = r.choice(["gdo_foo", "GDO_BAR", "gdo", "_gdo_x", "xgdo_y", "GDO", "gdofoo", "__gdo_z"]) + r.choice(["", "1"])
        P = r.choice(["abc", "Lib"])
        q = tool.run(["-no-date", "-prefix=" + P, "-template=" + tool.file("c20.tpl", "[%%func_symbol%%|%%type%%|%%args%%|%%param_names%%]\n[%%obj_symbol%%|%%obj_type%%]\n"), "-"],
                     "gdo_t %s(GDO_T gdo_a, int gdo); gdo %sx;" % (nm, nm))
        want = "[%s|gdo_t|GDO_T gdo_a, int gdo|gdo_a, gdo]\n[%sx|gdo]\n" % (nm, nm)
        if q.out != want:
            b.fail("C20-user-%s" % nm, "-prefix=%s renames names of the input: %r, expected %r" % (P, q.out, want))
        b.ok((nm, P))
    pmap(user, range(24))
    return b


def lcp(names):
    if len(names) < 2:
        return ""
    p = names[0]
    for x in names[1:]:
        while not x.startswith(p):
            p = p[:-1]
    return p


def common(ctx, tool, n):
    b = Run("common prefix", "%d random symbol lists with shared, partly shared and no prefixes (functions only, objects only, both; one symbol a prefix of the others), every format: "
            "the common-prefix macro is the longest common prefix (empty for one symbol), and a HAS_VA_ARGS macro is defined for exactly the variadic functions" % n)

    def one(i):
        r = random.Random("C21 %s %d" % (ctx.seed, i))
        k = r.choice([1, 2, 2, 3, 5, 9])
        stem = "".join(r.choice("ab_Z9") for _ in range(r.choice([0, 1, 3, 8])))
        stem = ("x" if stem[:1] in "9" and stem else "") + stem
        names = []
        while len(names) < k:
            x = stem + "".join(r.choice("ab_1") for _ in range(r.choice([0, 1, 1, 2, 3, 4])))
            x = x if x and not x[0].isdigit() else "q" + x
            if x not in names and x != "_":
                names.append(x)
        if r.random() < .2:
            names[r.randrange(k)] = r.choice(["z", "yy", "Q_"])
            names = list(dict.fromkeys(names))
        cut = r.choice([0, len(names), r.randrange(len(names) + 1)])
        va, txt = set(), []
        for j, x in enumerate(names):
            if j < cut:
                form = r.choice(["int %s(int a);", "void %s(void);", "void %s(int a, ...);", "int %s(int (*cb)(int, ...));", "int (%s)(char *a, ...);", "char * %s();", "int %s(int (*cb)(int, ...), ...);", "int %s(...);",
                                 "void %s(void (*a)(char *, ...), int b);"])
                if form.rstrip(";").endswith("...)"):   # the function itself
                    va.add(x)
                txt.append(form % x)
            else:
                txt.append(r.choice(["int %s;", "char *%s;", "int %s[4];", "void (*%s)(int a, ...);", "int (*%s)(void);"]) % x)
        r.shuffle(txt)
        f, pfx, mode = FORMATS[i % 5], r.choice(PFX), r.choice(["read", "skip"])
        a = ["-no-date", "-format=" + f, "-prefix=" + pfx, "-param=" + mode]
        q = tool.run(a + ["-"], " ".join(txt))
        U = up(pfx)
        got = re.findall(r'^#define %s_COMMON_PREFIX "(.*)"$' % U, q.out, re.M)
        if q.rc or got != [lcp(names)]:
            b.fail("C21-%d" % i, "exit status %s; common prefix %s, expected %r" % (q.rc, got, lcp(names)), header=" ".join(txt), args=a)
        gv = re.findall(r"^#define %s_HAS_VA_ARGS_(\w+) 1$" % U, q.out, re.M)
        if sorted(gv) != sorted(va):
            b.fail("C21-va-%d" % i, "HAS_VA_ARGS for %s, expected %s" % (sorted(gv), sorted(va)), header=" ".join(txt), args=a)
        b.ok((f, " ".join(txt)))
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C27

PARTS = {"c": ["common.h", "common.c", "c.h", "c.c"], "c++": ["common.h", "common.c", "cxx.hpp", "cxx.cpp"], "plugin": ["common.h", "common.c", "plugin.h", "plugin.c"],
         "minimal": ["minimal.h"], "minimal-c++": ["minimal_cxxeh.hpp"]}
DATE = re.compile(r"\A(// Do not edit this file!\n// It was automatically generated by gendlopen) on [A-Z][a-z][a-z] \d{4}-\d\d-\d\d \d\d:\d\d:\d\d [+-]\d{4}(\.\n)")


def whole(f, pfx, name, fs, os_, tds, skip, user, lib, incs, once, sep, line, ents):
    """-> (header text, body text or None), composed from the templates"""
    U, cpp = up(pfx), "c++" in f
    sep = sep and not f.startswith("minimal")
    lic = "".join(reprefix(e, pfx) + "\n" for e, _ in ents("license.h"))
    note = "// Do not edit this file!\n// It was automatically generated by gendlopen.\n// All changes made will be lost.\n\n"
    guard = "_%s_%s_" % (U, up(name))
    h = note + lic
    h += "\n#pragma once\n\n" if once else "\n#ifndef %s\n#define %s\n\n" % (guard, guard)
    if not cpp:
        h += '#ifdef __cplusplus\nextern "C" {\n#endif\n\n'
    h += "".join(reprefix(e, pfx) + "\n" for e, _ in ents("filename_macros.h"))
    h += "/* extra defines */\n" + defblock(user)
    if sep:
        h += "#define %s_SEPARATE\n" % U
    if lib:
        a, w = libs(lib, U)
        h += "#define %s_HARDCODED_DEFAULT_LIBA %s\n#define %s_HARDCODED_DEFAULT_LIBW %s\n" % (U, a, U, w)
    h += '#define %s_COMMON_PREFIX "%s"\n' % (U, lcp([x.sym for x in fs + os_]))
    h += "".join("#define %s_HAS_VA_ARGS_%s 1\n" % (U, x.sym) for x in fs if x.args.endswith("..."))
    h += "\n/* extra headers */\n" + ("#include <cstddef>\n#include <cstring>\n" if cpp else "#include <stddef.h>\n#include <string.h>\n")
    h += "".join("#include %s\n" % inc(x) for x in incs) + "\n"
    if tds:
        h += "/* typedefs */\n" + "".join(t + "\n" for t in tds) + "\n"
    ps = PARTS[f]
    body = None
    exp = lambda q: model_lines([e for x in q for e in ents(x)], fs, os_, skip, pfx)
    if sep:
        h += exp(ps[0::2])
        body = note + lic + '\n#define %s_INCLUDED_IN_BODY\n#include "%s"\n\n' % (U, name) + exp(ps[1::2])
    else:
        h += exp(ps)
    if not cpp:
        h += '#ifdef __cplusplus\n} /* extern "C" */\n#endif\n'
    if not once:
        h += "\n#endif //%s\n" % guard
    return h, body


def noline(t):
    return "".join(l for l in t.splitlines(True) if not re.match(r'#line \d+( "[^"]*")?$', l))


def composition(ctx, tool, n):
    b = Run("composition", "%d random symbol lists and option combinations (format, -separate, standard output or file, prefix, parameter mode, -D, -include, -library, -no-pragma-once, -line, -no-date, "
            "built-in or external templates): the whole output is, byte for byte, the documented sequence of parts, composed independently from the template files (with -line: apart from #line lines)" % n)
    td = os.path.join(build.SRC, "templates")
    cache = {}

    def ents(x):
        if x not in cache:
            cache[x] = entries(open(os.path.join(td, x), newline="", encoding="utf-8", errors="surrogateescape").read())
        return cache[x]

    def one(i):
        r = random.Random("C27 %s %d" % (ctx.seed, i))
        used = set()
        ds = [D.decl(r, used, kinds=r.choice([None, None, ["func"], ["obj", "arr", "fptr"]])) for _ in range(r.choice([1, 2, 3, 5]))]
        hdr = D.header(r, ds, rich=False, blocks=False)
        f, pfx, mode = FORMATS[i % 5], r.choice(PFX), r.choice(["read", "skip", "create"])
        base = ["-prefix=" + pfx, "-param=" + mode]
        s = observe(tool, hdr, base)
        if s.rc:
            return
        fs, os_ = seen_syms(s)
        tds = [t for t in s.typedefs if t]
        user = [r.choice(DEFS) for _ in range(r.choice([0, 0, 1, 3]))]
        incs = [r.choice(INCS) for _ in range(r.choice([0, 0, 1, 2]))]
        lib = r.choice(["", "", "foo", "api:3:foo", "ext:a", "nq:B"])
        once, sep, line, date = r.random() < .6, r.random() < .5, r.random() < .3, r.random() < .2
        a = base + ["-format=" + f] + ["-D" + x for x in user] + ["-include=" + x for x in incs] + (["-library=" + lib] if lib else [])
        a += ["-no-pragma-once"] * (not once) + ["-separate"] * sep + ["-line"] * line + ["-no-date"] * (not date)
        if r.random() < .2:
            a.append("-templates-path=" + td + r.choice(["", "/"]))
        d = tool.dir()
        cpp = "c++" in f
        if r.random() < .4:
            q = tool.run(a + r.choice([[], ["-out=-"]]) + ["-"], hdr)
            name = pfx + (".hpp" if cpp else ".h")
            got = {"": q.out}
            h, _ = whole(f, pfx, name, fs, os_, tds, mode == "skip", user, lib, incs, once, False, line, ents)
            want = {"": h}
        else:
            fn = r.choice(["out.h", "x y.hpp", "abc", "a.b.c", "My-1.H", "q.c"])
            split = sep and not f.startswith("minimal")
            stem = os.path.splitext(fn)[0] if not fn.startswith(".") else fn
            name = stem + (".hpp" if cpp else ".h") if split else fn
            q = tool.run(a + ["-out=" + os.path.join(d, fn), "-"], hdr)
            got = {x: open(os.path.join(d, x), newline="", encoding="utf-8", errors="surrogateescape").read() for x in sorted(os.listdir(d))}
            h, bd = whole(f, pfx, name, fs, os_, tds, mode == "skip", user, lib, incs, once, sep, line, ents)
            want = {name: h}
            if split:
                want[stem + (".cpp" if cpp else ".c")] = bd
            if q.out:
                got["<stdout>"] = q.out
        if q.rc or set(got) != set(want):
            b.fail("C27-files-%d" % i, "exit status %s %s; wrote %s, expected %s" % (q.rc, q.err[:200], sorted(got), sorted(want)), args=a, header=hdr)
            shutil.rmtree(d, ignore_errors=True)
            return
        for x in want:
            t, w = got[x], want[x]
            if date:
                u = DATE.sub(r"\1\2", t)
                if u == t:
                    b.fail("C27-date-%d" % i, "the notice has no date: %r" % t[:150], args=a)
                t = u
            if line and "#line " not in t:
                b.fail("C27-line-%d" % i, "-line: no #line directive", args=a)
            t, w = (noline(t), noline(w)) if line else (t, w)
            if t != w:
                b.fail("C27-%d" % i, "%s is not the sequence of its parts: %r, expected %r" % ((x or "the output",) + diff(t, w)), args=a, header=hdr)
        b.ok((f, pfx, hdr, tuple(a)))
        shutil.rmtree(d, ignore_errors=True)
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C22

AT = ["int", "char *", "const char *", "void *", "double", "unsigned int", "struct st *", "my_t", "my_t *", "const struct st *", "unsigned long", "short", "char **", "enum en", "my_cb", "const char *const *"]


def ast_header(r, k):
    names, lines, want_f, want_o = [], [], [], []
    pre = "struct st { int member_a; int (*member_cb)(int); };\nenum en { EN_A, EN_B };\ntypedef int my_t;\ntypedef void (*my_cb)(int);\n"
    stems = ["foo_", "bar_", "x", "Foo", "foo"]
    j = 0
    while len(names) < k:
        nm = r.choice(stems) + r.choice(["a", "init", "b2", "_z", "quit"]) + ("%d" % r.randrange(30) if r.random() < .5 else "")
        if nm in names:
            continue
        names.append(nm)
        if r.random() < .65:
            t = r.choice(AT + ["void"])
            ps, ts = [], []
            for q in range(r.choice([0, 1, 1, 2, 3, 5])):
                if r.random() < .2:
                    rt = r.choice(["int", "void *", "void"])
                    inner = r.choice(["void", "int", "int, ...", "char *, void *"])
                    ps.append("%s (*%s)(%s)" % (rt, r.choice(["cb%d" % q, ""]), inner))
                    ts.append(("%s (*" % rt, ")(%s)" % inner))
                else:
                    pt = r.choice(AT)
                    ps.append(pt + r.choice([" p%d" % q, " p%d" % q, ""]))
                    ts.append((pt, ""))
            va = bool(ps) and r.random() < .25
            args = ", ".join(a + " a%d" % (n + 1) + z for n, (a, z) in enumerate(ts)) + (", ..." if va else "")
            lines.append("%s%s %s(%s)%s;" % (r.choice(["", "", "extern "]), t, nm, ", ".join(ps + ["..."] * va) or "void", r.choice(["", "", " __attribute__((visibility(\"default\")))"])))
            want_f.append((nm, toks(t), toks(args), ", ".join("a%d" % (n + 1) for n in range(len(ts)))))
        else:
            t = r.choice(AT)
            lines.append("extern %s %s;" % (t, nm))
            want_o.append((nm, toks(t)))
        if r.random() < .15:
            lines.append(r.choice(["struct later { int foo_member; };", "enum { FOO_ENUM };", "typedef int foo_type;"]).replace("later", "later%d" % len(lines)).replace("FOO_ENUM", "FOO_E%d" % len(lines)).replace("foo_type", "foo_ty%d" % len(lines)))
        if r.random() < .12:
            lines.append("struct fw%d;" % len(lines))
    return names, pre + "\n".join(lines) + "\n", want_f, want_o


def clang_ast(ctx, tool, n):
    b = Run("Clang AST", "%d random C headers, dumped by the installed clang (with and without colours, also with CRLF line ends), filtered by random -S and -P lists or -ast-all-symbols: "
            "the symbols found, their types and created parameters equal the ones the header declares; missing listed symbols and an empty selection are errors" % n)

    def one(i):
        r = random.Random("C22 %s %d" % (ctx.seed, i))
        names, src, wf, wo = ast_header(r, r.choice([1, 2, 4, 8]))
        d = tool.dir()
        with open(d + "/h.h", "w") as fo:
            fo.write(src)
        col = r.random() < .4
        p = subprocess.run(["clang", "-x", "c", "-Xclang", "-ast-dump", "-fsyntax-only", "-fansi-escape-codes"] + ["-fcolor-diagnostics" if col else "-fno-color-diagnostics", d + "/h.h"],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=tool.env)
        shutil.rmtree(d)
        if p.returncode or not p.stdout:
            b.note = (b.note + "; " if getattr(b, "note", "") else "") + "clang failed: " + p.stderr.decode()[:200]
            return
        ast = p.stdout
        if r.random() < .25:
            ast = ast.replace(b"\n", b"\r\n")
        for j in range(4):
            S = r.sample(names, r.randrange(min(3, len(names)) + 1)) if r.random() < .7 else []
            P = [r.choice(["foo_", "bar_", "foo", "Foo", "x", "f", "zz"]) for _ in range(r.choice([0, 0, 1, 2]))]
            missing = r.choice(["nothing_here", "foo_member", "member_a", "my_t"]) if r.random() < .12 else None
            al = r.random() < .2
            a = ["-S" + s for s in S] + ["-P" + s for s in P] + (["-S" + missing] if missing else [])
            r.shuffle(a)
            a += ["-ast-all-symbols"] * al
            s = observe(tool, ast, a, typedefs=False)
            sel = (lambda x: True) if al else (lambda x: x in S or any(x.startswith(y) and len(x) > 0 for y in P))
            ef = [w for w in wf if sel(w[0])]
            eo = [w for w in wo if sel(w[0])]
            if (missing and not al) or (not al and not S and not P) or not ef and not eo:
                if s.rc in (0, None) or s.rc < 0 or not s.err.strip():
                    b.fail("C22-err-%d-%d" % (i, j), "exit status %s where a listed symbol is missing or nothing is selected" % s.rc, header=src, args=a)
                elif missing and not al and missing not in s.err:
                    b.fail("C22-msg-%d-%d" % (i, j), "the missing symbol %s is not named: %s" % (missing, s.err), header=src, args=a)
            else:
                got = (s.rc, [(x, toks(t), toks(g), nn) for x, t, g, nn in s.funcs], [(x, toks(t)) for x, t in s.objs])
                if got != (0, ef, eo):
                    b.fail("C22-%d-%d" % (i, j), explain(got, (0, ef, eo)) + " " + s.err[:200], header=src, args=a)
            b.ok((src, tuple(a), col))
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C23

def limit(k):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
    return f


def failures(ctx, tool, n):
    b = Run("write failures", "every output mode with standard output on /dev/full, and %d runs that write files under a file size limit (every format, -separate, -template, -dump-templates, "
            "limits from 0 to beyond the output), and every file that cannot be opened: a run whose output is incomplete never exits with status 0, and says so" % n)
    hdr = "int foo(int a); char *bar(void); int obj; int (*fp)(int);"
    t = tool.file("c23.tpl", "%%func_symbol%%\nx\n")
    modes = [["-format=" + f] for f in FORMATS] + [["-print-symbols"], ["-template=" + t], ["-line"], ["-param=skip"], ["-out=-"], ["-template=" + t, "-line"]]
    for m in modes:
        with open("/dev/full", "wb") as full:
            q = tool.run(m + ["-"], hdr, stdout=full)
        if q.rc in (0, None) or q.rc < 0 or not q.err.strip():
            b.fail("C23-full-" + m[0], "%s: nothing could be written to standard output, exit status %s, message %r" % (m, q.rc, q.err[:200]))
        b.ok(("full",) + tuple(m))

    def one(i):
        r = random.Random("C23 %s %d" % (ctx.seed, i))
        ds, h = body(r)
        d = tool.dir()
        k = r.random()
        if k < .15:
            a = ["-dump-templates=" + d + "/t"]
        else:
            a = ["-no-date", "-out=" + d + "/o.h", "-format=" + r.choice(FORMATS)]
            if k < .3:
                big = d + "/big.tpl"
                with open(big, "w") as fo:
                    fo.write("%%func_symbol%% x\nline\n" * r.choice([1, 30, 3000]))
                a.append("-template=" + big)
            elif k < .6:
                a.append("-separate")
            a.append("-")
        def files():
            return {x: len(y[1]) for x, y in snap(d).items() if y[0] == "file" and x != "big.tpl"}
        q = tool.run(a, h)
        if q.rc:
            b.fail("C23-rc-%d" % i, "exit status %s: %s" % (q.rc, q.err[:200]), args=a, header=h)
            return
        full = {x: y for x, y in snap(d).items() if x != "big.tpl"}
        sizes = sorted(files().values())
        for x, y in full.items():
            if y[0] == "file":
                os.remove(d + "/" + x)
        L = r.choice([0, 1, 7, 100, 4095, 4096, 8191, 8192, 8193, sizes[0] - 1, sizes[-1] - 1, sizes[-1], sizes[0], sizes[-1] // 2])
        q = tool.run(a, h, preexec=limit(max(0, L)))
        now = {x: y for x, y in snap(d).items() if x != "big.tpl"}
        same = {x: y for x, y in now.items()} == full
        if q.rc == 0 and not same:
            b.fail("C23-%d" % i, "file size limit %d: exit status 0, but %s incomplete" % (L, changed(now, full)), args=a, header=h)
        elif q.rc != 0 and (q.rc is None or q.rc < 0 or not q.err.strip()):
            b.fail("C23-msg-%d" % i, "file size limit %d: exit status %s without a message" % (L, q.rc), args=a, header=h)
        elif q.rc != 0 and L >= sizes[-1]:
            b.fail("C23-alarm-%d" % i, "file size limit %d is not reached: exit status %s %s" % (L, q.rc, q.err[:200]), args=a, header=h)
        b.ok((tuple(a[1:]), L, h))
        shutil.rmtree(d)
    pmap(one, range(n))
    # files that cannot be opened for writing
    d = tool.dir()
    tool.run(["-dump-templates=" + d + "/all"], "")
    names = sorted(snap(d + "/all"))
    if not names:
        b.fail("C23-dump", "-dump-templates saved nothing")
    for x in names:
        e = d + "/" + x + ".d"
        os.makedirs(e + "/" + x)
        q = tool.run(["-dump-templates=" + e], "")
        if q.rc in (0, None) or q.rc < 0 or not q.err.strip():
            b.fail("C23-dump-" + x, "-dump-templates into a directory where %s cannot be opened: exit status %s, message %r" % (x, q.rc, q.err[:200]))
        b.ok(("dump", x))
    for a in (["-out=" + d + "/none/o.h"], ["-out=" + d + "/none/o.h", "-separate"], ["-out=" + d + "/none/o.h", "-template=" + t], ["-out=" + d + "/none/o.h", "-force"],
              ["-out=" + d + "/none/o.h", "-format=minimal"]):
        q = tool.run(a + ["-"], hdr)
        if q.rc in (0, None) or q.rc < 0 or not q.err.strip():
            b.fail("C23-open", "%s: the file cannot be opened, exit status %s, message %r" % (a, q.rc, q.err[:200]))
        b.ok(("open", tuple(a)))
    shutil.rmtree(d)
    return b


# ---------------------------------------------------------------- C26

def options(ctx, tool, n):
    b = Run("option equivalence", "%d random sets of options: %%option lines give the same output as the command line options of the same name, -ignore-options the output without them, "
            "-- is -; unknown %%option lines, unknown options and unknown values are errors" % n)

    def one(i):
        r = random.Random("C26 %s %d" % (ctx.seed, i))
        ds, hdr = body(r)
        opts = []
        for o in r.sample(["format", "library", "line", "no-date", "no-pragma-once", "param", "prefix"], r.randrange(7)):
            opts.append({"format": lambda: "format=" + r.choice(FORMATS + ["C", "cxx", "cpp", "C++", "minimal-c", "minimal-cxx", "minimal-CPP", "plugin-c", "Plugin"]),
                         "library": lambda: "library=" + r.choice(["foo", "nq:FOO", "ext:x", "api:2:z"]), "line": lambda: "line", "no-date": lambda: "no-date",
                         "no-pragma-once": lambda: "no-pragma-once", "param": lambda: "param=" + r.choice(["read", "skip", "create", "SKIP", "Create"]), "prefix": lambda: "prefix=" + r.choice(["abc", "My.Lib", "q-1", "GDO"])}[o]())
        for _ in range(r.choice([0, 0, 1, 2])):
            opts.insert(r.randrange(len(opts) + 1), r.choice(["D=FOO", "D=A=1", "include=x.h", "include=<y.h>", "include=nq:Z"]))
        date = [] if "no-date" in opts else ["-no-date"]
        lines = "".join(r.choice(["%%option %s\n", "%%option  %s \n", "%%option\t%s\n"]) % o for o in opts)
        if r.random() < .2 and opts:
            lines = "%option " + " ".join(opts) + "\n"
        dash = lambda o: ("-D" + o[2:]) if o.startswith("D=") else r.choice(["-", "-", "--"]) + o
        where = r.random()
        one_ = tool.run(date + [dash(o) for o in opts] + ["-"], hdr)
        if where < .7:
            txt = lines + hdr
        elif where < .85:
            txt = "/* c */\n\n// x\n" + lines + hdr
        else:
            txt = hdr.rstrip() + (";" if not hdr.rstrip().endswith(";") else "") + "\n" + lines
        two = tool.run(date + ["-"], txt)
        if (one_.rc, one_.out) != (two.rc, two.out):
            b.fail("C26-%d" % i, "%%option lines and command line options differ (exit status %s, %s %s): %r and %r" % ((one_.rc, two.rc, two.err[:100]) + diff(one_.out, two.out)), args=opts, header=txt)
        t3 = tool.run(["-no-date", "-"], hdr)
        t4 = tool.run(["-no-date", "-ignore-options", "-"], txt)
        if (t3.rc, t3.out) != (t4.rc, t4.out):
            b.fail("C26-ign-%d" % i, "-ignore-options: output differs from the one without %%option lines: %r and %r %s" % (diff(t3.out, t4.out) + (t4.err[:100],)), args=opts, header=txt)
        b.ok((tuple(opts), hdr, txt))
    pmap(one, range(n))

    H = "int foo(int a);"
    bad = [(["-unknown"], H), (["-format=x"], H), (["-format=c+"], H), (["-param=foo"], H), (["-format"], H), ([], "%option foo\n" + H), ([], "%option format=zz\n" + H), ([], "%option format\n" + H), ([], "%option param=x\n" + H),
           ([], "%option prefix=\n" + H), ([], "%option D=\n" + H), ([], "%option no-dates\n" + H), ([], "%option Line\n" + H), ([], "%option out=foo\n" + H), ([], "%option force\n" + H), ([], "%option -line\n" + H), ([], "%option lines\n" + H),
           ([], "%option include\n" + H), (["-linex"], H), (["-forced"], H), (["-no-dat"], H), (["-prefix="], H), (["-library="], H), (["-out="], H), (["--"], H), (["-line=1"], H)]
    d = tool.dir()

    def err(c):
        a, h = c
        q = tool.run(a + ["-"], h, cwd=d)
        if q.rc in (0, None) or q.rc < 0 or not q.err.strip() or q.out:
            b.fail("C26-bad-%s-%s" % (a, h.split("\n")[0]), "accepted: exit status %s" % q.rc, args=a, header=h)
        b.ok(c[1] + str(c[0]))
    pmap(err, bad)
    for a in ([], ["-line"]):
        q = tool.run(a, H, cwd=d)
        if q.rc in (0, None) or q.rc < 0 or not q.err.strip():
            b.fail("C26-noinput", "no input file: exit status %s" % q.rc, args=a)
    if os.listdir(d):
        b.fail("C26-left", "a failing run left %s" % os.listdir(d))
    return b


# ---------------------------------------------------------------- C24

def data_gen(ctx, tool, n):
    b = Run("template data", "%d directories of random template files (all bytes except NUL, joined lines, CRLF, digits after escapes, trigraph-like text, no newline at the end): the generated "
            "C++ data, compiled and read back, equals an independent reading of the files" % n)
    gen = build.gen_templates_tool()
    names = re.findall(r"TEMPLATE\(\s*([^,\s]+)\s*,\s*(\w+)\s*\)", open(os.path.join(build.SRC, "list.h")).read())

    def rnd(r):
        out = []
        for _ in range(r.choice([0, 1, 2, 5, 20])):
            s = b""
            for _ in range(r.choice([0, 1, 2, 4, 10])):
                s += r.choice([b"%%type%%", b"%", b"\"", b"\\", b"\\n", b"\t", b"??/", b"??=", b"7", b"A", b"f0", b"@", b"@x", b"\r", b"\\0", b"*/", b"//", b"\x01", b"\x7f", b"\xff", b"\x80", b"\xc3\xa9", b"R\"(", b"{", b"}", b"\x1b[0m",
                               b"\xfe0", b"\x010", b"'", b"\x0b", b"\x0c", b" ", b"#line 3", bytes([r.randrange(1, 256)])])
            s = s.replace(b"\n", b"").replace(b"\r", r.choice([b"", b"\rz"]))
            e = r.choice([b"\n", b"\n", b"\n", b"\r\n", b"@\n", b"@\r\n"])
            out.append(s.rstrip(b"@\r") + e)
        t = b"".join(out)
        if t.endswith((b"@\n", b"@\r\n")):
            t += b"last\n"
        if r.random() < .25 and t.endswith(b"\n"):
            t = t.rstrip(b"\r\n")
            while t.endswith((b"@", b"\r", b"\n")):
                t = t[:-1]
        return t

    def read_back(t, nm):
        """-> [(data, maybe_keyword, lines)]"""
        out = [] if nm == "license.h" else [(b"#line 1 \"<built-in>/%s\"" % nm.encode(), 0, 1)]
        cur, cnt = b"", 0
        pieces = t.split(b"\n")
        open_end = pieces[-1] != b""
        if not open_end:
            pieces.pop()
        for k, l in enumerate(pieces):
            nl = k + 1 < len(pieces) or not open_end
            if nl and l.endswith(b"\r"):
                l = l[:-1]
            cnt += 1
            if nl and l.endswith(b"@"):
                cur += l[:-1] + b"\n"
                continue
            cur += l
            out.append((cur, int(b"%" in cur), cnt))
            cur, cnt = b"", 0
        out.append((b"", 0, 0))
        return out

    prog = "#include <cstdio>\n#include \"types.hpp\"\nnamespace templates {%s}\nint main(){ const template_t *p;\n%s}\n" % (
        "".join("extern const template_t *ptr_%s;" % v for _, v in names),
        "".join("for (p=templates::ptr_%s;;p++){ printf(\"%%zu %%d %%zu \", p->data.size(), p->maybe_keyword, (size_t)p->line_count); fwrite(p->data.data(),1,p->data.size(),stdout); putchar(10); if(p->line_count==0) break; }\n" % v for _, v in names))

    def one(i):
        r = random.Random("C24 %s %d" % (ctx.seed, i))
        d = tool.dir()
        os.mkdir(d + "/t")
        want = b""
        for nm, v in names:
            t = rnd(r)
            with open(d + "/t/" + nm, "wb") as f:
                f.write(t)
            for e in read_back(t, nm):
                want += b"%d %d %d " % (len(e[0]), e[1], e[2]) + e[0] + b"\n"
        p = subprocess.run([gen, d + "/t", d + "/d.cpp"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            b.fail("C24-rc-%d" % i, "gen_templates_data: exit status %d %s" % (p.returncode, p.stderr[:200]), path=d)
            return
        with open(d + "/m.cpp", "w") as f:
            f.write(prog)
        c = subprocess.run(["g++", build.cxx_std(), "-w", "-O0", "-I" + build.SRC, d + "/d.cpp", d + "/m.cpp", "-o", d + "/m"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if c.returncode:
            b.fail("C24-cc-%d" % i, "the generated file does not compile: %s" % c.stderr.decode()[:600], template={nm: rd(d + "/t/" + nm) for nm, _ in names})
            return
        o = subprocess.run([d + "/m"], stdout=subprocess.PIPE)
        if o.returncode or o.stdout != want:
            x = diff(o.stdout.decode("latin1"), want.decode("latin1"))
            b.fail("C24-%d" % i, "the compiled template data is %r, expected %r" % x, template={nm: rd(d + "/t/" + nm) for nm, _ in names})
        b.ok(want)
        shutil.rmtree(d)
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C25

def robust(ctx, tool, n):
    """tool is the variant with sanitizers"""
    b = Run("robustness", "%d runs of the address and undefined behaviour sanitizer build on random and mutated headers, templates, Clang AST dumps, option lines and options: every run ends within "
            "20 s with exit status 0 or 1, without a sanitizer report, and status 1 comes with a message" % n)
    AST = ("TranslationUnitDecl 0x1 <<invalid sloc>> <invalid sloc>\n|-VarDecl 0x59d98537ea20 <line:31:1, col:35> col:35 foo_cb 'cb_t':'void (*)(const char *)' extern\n"
           "| `-VisibilityAttr 0x59d98537ea88 <line:21:44, col:65> Default\n|-FunctionDecl 0x59d98537efa8 <col:28, line:35:67> col:24 foo_init 'foo *(int, char **, ...)'\n"
           "| |-ParmVarDecl 0x59d98537ed80 <col:45, col:49> col:49 argc 'int'\n| |-ParmVarDecl 0x59d98537ee80 <col:55, col:66> col:61 argv 'char **'\n"
           "`-FunctionDecl 0x59d985361eb0 <col:28, line:45:72> col:16 foo_f 'int (FILE *)'\n  |-ParmVarDecl 0x59d985361d48 <col:35, col:41> col:41 stream 'FILE *'\n")
    AST = "\n".join(l for l in AST.split("\n"))
    BITS = ["(", ")", "[", "]", "*", ",", ";", "...", "{", "}", "=", "/*", "*/", "//", "\\\n", "#", "\n", "%option ", "%%type%%", "%%args%%", "%%func_symbol_pad%%", "%PARAM_SKIP_END%", "%PARAM_SKIP_REMOVE_BEGIN%", "@\n", "@", "\r\n", "\x00",
            "\xff", "\x80", "'", "\"", "-", "|-FunctionDecl 0x", "|-VarDecl 0x", "| |-ParmVarDecl 0x", "`-", "\x1b[0m", "void", "int", "struct", "extern ", "typedef", "(*", "a" * 300, "((((((((", "* * * *", ", ,", "()", "[]", "<", ">", ":"]

    def mutate(r, s):
        s = list(s) if r.random() < .5 else re.findall(r"\w+|\s+|.", s)
        for _ in range(r.choice([0, 1, 1, 2, 3, 8])):
            k = r.random()
            i = r.randrange(len(s) + 1)
            if k < .3:
                s.insert(i, r.choice(BITS))
            elif k < .6 and s:
                j = min(len(s), i + r.choice([1, 1, 2, 5, 40]))
                del s[i:j]
            elif k < .8 and s:
                j = min(len(s), i + r.choice([1, 2, 5]))
                s[i:i] = s[i:j]
            elif s:
                i = min(i, len(s) - 1)
                j = r.randrange(len(s))
                s[i], s[j] = s[j], s[i]
        return "".join(s)

    def one(i):
        r = random.Random("C25 %s %d" % (ctx.seed, i))
        ds, hdr = body(r)
        d = tool.dir()
        a = []
        k = r.random()
        if k < .5:
            inp = mutate(r, D.header(r, ds, rich=True, blocks=True))
        elif k < .75:
            inp = mutate(r, AST)
            a = r.choice([["-ast-all-symbols"], ["-Pfoo"], ["-Sfoo_init", "-Sfoo_cb"], ["-Pfoo_", "-Sfoo_f"]])
        elif k < .85:
            inp = "".join(r.choice(BITS + ["foo", " ", "x"]) for _ in range(r.choice([1, 4, 20, 200])))
        else:
            inp = hdr
        if r.random() < .3:
            inp = mutate(r, r.choice(["%option prefix=ab\n", "%option format=c++ line\n", "%option library=api:1:x\n", "%option include=<\n", "%option D=A=\n"])) + inp
        a += ["-param=" + r.choice(["read", "skip", "create"])]
        if r.random() < .4:
            a.append("-line")
        if r.random() < .3:
            a.append(r.choice(["-library=", "-include=", "-D", "-prefix=", "-P", "-S"]) + mutate(r, r.choice(["api:2:foo", "ext:x", "nq:", "<a>", "\"", "A=1", "gdo", "a"])).replace("\0", ""))
        k = r.random()
        if k < .35:
            with open(d + "/t", "w", newline="", encoding="utf-8", errors="surrogateescape") as fo:
                fo.write(mutate(r, rnd_template(r)))
            a.append("-template=" + d + "/t")
        elif k < .5:
            a.append("-print-symbols")
        elif k < .6:
            os.mkdir(d + "/t")
            for x in re.findall(r"TEMPLATE\(\s*([^,\s]+)\s*,", open(os.path.join(build.SRC, "list.h")).read()):
                with open(d + "/t/" + x, "w", newline="", encoding="utf-8", errors="surrogateescape") as fo:
                    fo.write(mutate(r, rnd_template(r)) if r.random() < .8 else "")
            a += ["-templates-path=" + d + "/t", "-format=" + r.choice(FORMATS)]
        else:
            a.append("-format=" + r.choice(FORMATS))
        inp = inp.encode("latin1", "replace")
        q = tool.run(a + ["-"], inp, timeout=20, cwd=d)
        if q.rc not in (0, 1) or "Sanitizer" in q.err or "runtime error:" in q.err or (q.rc == 1 and not q.err.strip()):
            b.fail("C25-%d" % i, "exit status %s: %s" % (q.rc, q.err[:1500]), args=a, header=inp.decode("latin1"), template=rd(d + "/t").decode("latin1") if os.path.isfile(d + "/t") else "")
        b.ok((inp, tuple(a)))
        shutil.rmtree(d)
    pmap(one, range(n))
    return b
