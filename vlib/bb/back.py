"""Bounded black-box runs for the output side: templates, prefixes, line directives, files."""
import os, random, re, resource, signal, shutil, stat, subprocess
from . import decl as D
from .cli import Tool, Run, toks, pmap
from .front import observe, expect
from .. import build

FORMATS = ["c", "c++", "minimal", "minimal-c++", "plugin"]
PFX = ["gdo", "foo", "MyLib", "my.lib", "x-y", "a1", "GDO", "Gdo", "Q", "long_prefix_name", "z z"]


def up(s):
    return "".join(c.upper() if c.isascii() and c.isalnum() else "_" for c in s)


def low(s):
    return "".join(c.lower() if c.isascii() and c.isalnum() else "_" for c in s)


IDCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"


def reprefix(text, pfx):
    """the documented prefix substitution, written without regular expressions"""
    U, L = up(pfx), low(pfx)
    if U == "GDO":
        return text
    out, i, n = [], 0, len(text)
    while i < n:
        if text[i] not in IDCH:
            out.append(text[i])
            i += 1
            continue
        j = i
        while j < n and text[j] in IDCH:
            j += 1
        w = text[i:j]
        if w.startswith("GDO_"):
            w = U + w[3:]
        elif w.startswith("_GDO_"):
            w = "_" + U + w[4:]
        elif w.startswith("gdo_"):
            w = L + w[3:]
        elif w.startswith("_gdo_"):
            w = "_" + L + w[4:]
        elif w == "gdo":
            w = L
        out.append(w)
        i = j
    return "".join(out)


# ---------------------------------------------------------------- C14

FK = ["%%return%%", "%%type%%", "%%func_symbol%%", "%%func_symbol_pad%%", "%%args%%", "%%param_names%%"]
OK = ["%%obj_type%%", "%%obj_symbol%%", "%%obj_symbol_pad%%"]
SK = ["%%sym_type%%", "%%symbol%%"]


class Sym:
    """an observed symbol"""
    def __init__(self, sym, typ, args=None, names=None):
        self.sym, self.typ, self.args, self.names = sym, typ, args, names


def pad(s, n):
    return s + " " * (n - len(s))


def sub_type(t, ph, typ):
    if typ.endswith("*"):
        t = t.replace(ph + " ", typ)
    return t.replace(ph, typ)


def entries(text):
    """template text -> [(entry text, physical lines)]"""
    if not text:
        return []
    lines = text.split("\n")
    if lines[-1] == "":
        lines.pop()
        last_open = False
    else:
        last_open = True
    out, cur, n = [], None, 0
    for i, l in enumerate(lines):
        cur = l if cur is None else cur + l
        n += 1
        nl = i + 1 < len(lines) or not last_open
        if nl and cur.endswith("@"):
            cur = cur[:-1] + "\n"
            continue
        if nl and cur.endswith("@\r"):
            cur = cur[:-2] + "\r\n"
            continue
        if not nl and cur.endswith("@"):
            cur = cur[:-1]
        out.append((cur, n))
        cur, n = None, 0
    if cur is not None:
        out.append((cur, n + 1))        # the joined line is empty
    return out


def model(text, funcs, objs, skip, pfx="gdo"):
    """expected output of a custom template, or None if placeholder kinds are mixed (an error)"""
    return model_lines(entries(text), funcs, objs, skip, pfx)


def model_lines(ents, funcs, objs, skip, pfx):
    out, off = [], False
    lf = max([len(f.sym) for f in funcs] or [0])
    lo = max([len(o.sym) for o in objs] or [0])
    for e, _ in ents:
        if e == "%PARAM_SKIP_REMOVE_BEGIN%":
            off = skip
            continue
        if e == "%PARAM_SKIP_USE_BEGIN%":
            off = not skip
            continue
        if e == "%PARAM_SKIP_END%":
            off = False
            continue
        if off:
            continue
        e = reprefix(e, pfx)
        f, o, s = (any(k in e for k in ks) for ks in (FK, OK, SK))
        if f + o + s > 1:
            return None
        if f:
            for x in funcs:
                t = e
                if x.typ.lower() == "void":
                    t = t.replace("%%return%% ", "").replace("%%return%%", "")
                t = sub_type(t.replace("%%return%%", "return"), "%%type%%", x.typ)
                t = t.replace("%%func_symbol%%", x.sym).replace("%%args%%", x.args).replace("%%param_names%%", x.names).replace("%%func_symbol_pad%%", pad(x.sym, lf))
                out.append(t)
        elif o:
            for x in objs:
                out.append(sub_type(e, "%%obj_type%%", x.typ).replace("%%obj_symbol%%", x.sym).replace("%%obj_symbol_pad%%", pad(x.sym, lo)))
        elif s:
            for x in funcs + objs:
                sp = "" if x.typ.endswith("*") else " "
                ty = x.typ + sp + ("(*)(%s)" % x.args if x.args is not None else "*")
                out.append(e.replace("%%sym_type%%", ty).replace("%%symbol%%", x.sym))
        else:
            out.append(e)
    return "".join(l + "\n" for l in out)


def rnd_line(r, kind):
    words = ["foo", "gdo_x", "GDO_Y", "gdo", "#define", "(", ")", ";", " ", "  ", ",", "*", "%", "%%", "{", "}", "a_gdo_b", "_GDO_Z", "_gdo_q", "gdo::f", "xGDO_", "__gdo_a",
             "\t", "\"", "\\", "%type%", "%%nokey%%", "@", "@x", "retrn", "'", "gdo,gdo", "GDO_A(GDO_B)", "-gdo-"]
    ks = {"f": FK, "o": OK, "s": SK, "": []}[kind]
    out = []
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        if ks and r.random() < .5:
            out.append(r.choice(ks) + r.choice(["", " ", " ", "(", ";"]))
        else:
            out.append(r.choice(words) + r.choice(["", " "]))
    if ks:
        out.insert(r.randrange(len(out) + 1), r.choice(ks))
    s = "".join(out)
    return s.rstrip("@\r") if s.rstrip("@\r") else "x"


def rnd_template(r):
    out = []
    for _ in range(r.choice([1, 2, 4, 8, 16])):
        k = r.random()
        if k < .1:
            out.append("")
        elif k < .22:
            out.append(r.choice(["%PARAM_SKIP_REMOVE_BEGIN%", "%PARAM_SKIP_USE_BEGIN%", "%PARAM_SKIP_END%", "%PARAM_SKIP_END%", "%PARAM_SKIP_OTHER%", "%PARAM_SKIP_END%%", " %PARAM_SKIP_END%"]))
        elif k < .35:
            kind = r.choice("fos")
            n = r.choice([2, 2, 3, 5])
            out.append("@\n".join(rnd_line(r, kind if r.random() < .7 else "") for _ in range(n)))
        elif k < .38:
            out.append("@\n" + rnd_line(r, ""))
        else:
            out.append(rnd_line(r, r.choice(["f", "o", "s", "", ""])))
    return "\n".join(out) + r.choice(["\n", "\n", "", "\n\n"])


def seen_syms(s):
    return [Sym(a, b, c, d) for a, b, c, d in s.funcs], [Sym(a, b) for a, b in s.objs]


def substitution(ctx, tool, n):
    b = Run("placeholders", "%d random templates (all placeholders, joined lines, PARAM_SKIP blocks, text without meaning) over random symbol lists: the output is, byte for byte, "
            "the one an independent model computes; templates that mix placeholder kinds in one entry are errors" % n)

    def one(i):
        r = random.Random("C14 %s %d" % (ctx.seed, i))
        used = set()
        kinds = r.choice([None, None, None, ["func"], ["obj", "arr", "fptr"]])
        ds = [D.decl(r, used, kinds=kinds) for _ in range(r.choice([1, 2, 3, 6]))]
        hdr = D.header(r, ds, rich=False, blocks=False)
        mode = r.choice(["read", "read", "skip", "create"])
        a = ["-param=" + mode]
        s = observe(tool, hdr, a, typedefs=False)
        if s.rc:
            return
        fs, os_ = seen_syms(s)
        for j in range(4):
            t = rnd_template(r)
            d = tool.dir()
            with open(d + "/t", "w", newline="", encoding="utf-8", errors="surrogateescape") as f:
                f.write(t)
            p = tool.run(a + ["-template=" + d + "/t", "-"], hdr)
            want = model(t, fs, os_, mode == "skip")
            if want is None:
                if p.rc in (0, None) or p.rc < 0 or not p.err.strip():
                    b.fail("C14-mix-%d-%d" % (i, j), "mixed placeholder kinds in one entry accepted (exit status %s)" % p.rc, template=t, header=hdr, args=a)
            elif p.rc or p.out != want:
                b.fail("C14-%d-%d" % (i, j), "exit status %s %s; output %r, expected %r" % ((p.rc, p.err[:200]) + diff(p.out, want)), template=t, header=hdr, args=a)
            b.ok((t, hdr))
            shutil.rmtree(d)
    pmap(one, range(n))
    return b


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    i = max(0, i - 40)
    return a[i:i + 160], b[i:i + 160]


def builtin(ctx, tool, n):
    """every built-in format equals the model applied to the template files"""
    b = Run("formats", "%d random symbol lists, each format: the expanded template part of the output is, byte for byte, the model applied to the files in src/templates, "
            "in the documented order (common header, common body, header, body)" % n)
    td = os.path.join(build.SRC, "templates")
    T = lambda f: entries(open(os.path.join(td, f), newline="", encoding="utf-8", errors="surrogateescape").read())
    parts = {"c": ["common.h", "common.c", "c.h", "c.c"], "c++": ["common.h", "common.c", "cxx.hpp", "cxx.cpp"], "plugin": ["common.h", "common.c", "plugin.h", "plugin.c"],
             "minimal": ["minimal.h"], "minimal-c++": ["minimal_cxxeh.hpp"]}

    def one(i):
        r = random.Random("C14b %s %d" % (ctx.seed, i))
        used = set()
        ds = [D.decl(r, used, kinds=r.choice([None, None, ["func"], ["obj", "arr", "fptr"]])) for _ in range(r.choice([1, 2, 5]))]
        hdr = D.header(r, ds, rich=False, blocks=False)
        mode = r.choice(["read", "skip", "create"])
        pfx = r.choice(PFX)
        a = ["-param=" + mode, "-prefix=" + pfx]
        s = observe(tool, hdr, a, typedefs=False)
        if s.rc:
            return
        fs, os_ = seen_syms(s)
        f = FORMATS[i % 5]
        sep = r.random() < .4 and not f.startswith("minimal")
        ps = parts[f]
        d = tool.dir()
        if sep:
            x = "hpp" if "+" in f else "h"
            p = tool.run(a + ["-format=" + f, "-separate", "-out=" + d + "/o." + r.choice(["h", "c", "x", "hpp"]), "-"], hdr)
            want = [("o." + x, [ps[0], ps[2]]), ("o." + ("cpp" if "+" in f else "c"), [ps[1], ps[3]])]
            left = set(os.listdir(d)) ^ {w[0] for w in want}
            if left:
                b.fail("C14-files-%d" % i, "-separate wrote %s" % sorted(os.listdir(d)), args=a, header=hdr)
                return
        else:
            p = tool.run(a + ["-format=" + f, "-"], hdr)
            want = [(None, ps)]
        for w, ts in want:
            out = p.out if w is None else open(os.path.join(d, w), newline="").read()
            exp = "".join(model_lines(T(t), fs, os_, mode == "skip", pfx) for t in ts)
            if exp not in out:
                pos, first = 0, ""
                for l in exp.split("\n"):
                    q = out.find(l + "\n", pos)
                    if q < 0:
                        first = l
                        break
                    pos = q
                b.fail("C14-fmt-%d" % i, "format %s%s: the output differs from the expanded templates %s near %r" % (f, " -separate" if sep else "", ts, first), args=a, header=hdr)
            b.ok((f, hdr, w))
        shutil.rmtree(d)
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C15

def line_info(out, own):
    """for every output line: (file, number) in force, or None before the first directive"""
    cur, res, lines = None, [], out.split("\n")
    for k, l in enumerate(lines):
        m = re.match(r'#line (\d+)(?: "([^"]*)")?$', l)
        if m:
            cur = [m.group(2) if m.group(2) is not None else (cur[0] if cur else None), int(m.group(1))]
            res.append(None)
            continue
        res.append(tuple(cur) if cur else None)
        if cur:
            cur[1] += 1
    return lines, res


def matches(tl, ol):
    """can output line ol come from template line tl (both after prefix replacement)"""
    if "%%" not in tl:
        return tl == ol
    rx = re.escape(tl)
    rx = re.sub(r"%%return%%(\\ )?", lambda m: r"(?:return%s)?" % (" " if m.group(1) else ""), rx)
    rx = re.sub(r"%%(type|obj_type)%%\\ ", r".*", rx)
    for k in FK + OK + SK:
        rx = rx.replace(k, ".*")
    return re.fullmatch(rx, ol) is not None


def check_lines(out, own, tpl, pfx, base=lambda f: f):
    """-> None or a description of the first line whose #line number is wrong"""
    lines, info = line_info(out, own)
    for k, (l, at) in enumerate(zip(lines, info)):
        if at is None or (k == len(lines) - 1 and l == ""):
            continue
        f, no = at
        if f == own:
            if no != k + 1:
                return "line %d of the output is marked as line %d of %s: %r" % (k + 1, no, f, l)
            continue
        t = tpl(f)
        if t is None:
            return "line %d is marked as line %d of the unknown file %r" % (k + 1, no, f)
        if not (1 <= no <= len(t)):
            if base(f) == "filename_macros.h":
                continue        # generated defines follow this file
            return "line %d (%r) is marked as line %d of %s, which has %d lines" % (k + 1, l, no, f, len(t))
        tl = t[no - 1]
        if not matches(reprefix(tl, pfx), l):
            return "line %d (%r) is marked as line %d of %s, which is %r" % (k + 1, l, no, f, tl)
    return None


def phys(text):
    """physical template lines without the joining character"""
    out = []
    for e, n in entries(text):
        out += e.split("\n") if n > 1 else [e]
    return out


def lines(ctx, tool, n):
    b = Run("line directives", "%d random symbol lists (also without functions or without objects), every format, prefix, parameter mode, built-in, external and custom templates: each output "
            "line that a #line directive attributes to a template line is an expansion of that line, and directives that name the output file give the true line number" % n)
    td = os.path.join(build.SRC, "templates")
    cache = {f: phys(open(os.path.join(td, f), newline="", encoding="utf-8", errors="surrogateescape").read()) for f in os.listdir(td) if f.endswith((".c", ".h", ".cpp", ".hpp"))}

    def one(i):
        r = random.Random("C15 %s %d" % (ctx.seed, i))
        used = set()
        ds = [D.decl(r, used, kinds=r.choice([None, ["func"], ["obj", "arr", "fptr"]])) for _ in range(r.choice([1, 2, 3, 6]))]
        hdr = D.header(r, ds, rich=False, blocks=False)
        mode = r.choice(["read", "skip", "create"])
        pfx = r.choice(PFX)
        a = ["-param=" + mode, "-prefix=" + pfx, "-line"]
        if r.random() < .4:
            a.append("-no-pragma-once")
        if r.random() < .3:
            a += ["-DFOO=1", "-include=x.h", "-library=z"]
        d = tool.dir()
        f = FORMATS[i % 5]
        kind = r.choice(["builtin", "builtin", "builtin", "path", "custom", "file"])
        own = None
        tpl = lambda g: cache.get(g[len("<built-in>/"):]) if g.startswith("<built-in>/") else None
        base = lambda g: g.split("/")[-1]
        outs = []
        if kind == "custom":
            t = rnd_template(r)
            with open(d + "/t", "w", newline="") as fo:
                fo.write(t)
            p = tool.run(a + ["-template=" + d + "/t", "-"], hdr)
            if p.rc and "mix" in p.err:
                shutil.rmtree(d)
                return
            ls = phys(t)
            tpl = lambda g: ls if g == d + "/t" else None
            outs = [p.out]
        else:
            if kind == "path":
                a.append("-templates-path=" + td + r.choice(["", "/"]))
                tpl = lambda g: cache.get(g)
            sep = kind == "file" and r.random() < .5 and not f.startswith("minimal")
            if kind == "file":
                p = tool.run(a + ["-format=" + f, "-out=" + d + "/my out.h"] + ["-separate"] * sep + ["-"], hdr)
                x = "hpp" if sep and "+" in f else "h"
                own = "my out." + x
                outs = [open(os.path.join(d, g), newline="").read() for g in sorted(os.listdir(d))]
                nfiles = 2 if sep else 1
                if len(outs) != nfiles:
                    b.fail("C15-files-%d" % i, "wrote %s: %s" % (os.listdir(d), p.err), args=a, header=hdr)
                    return
            else:
                p = tool.run(a + ["-format=" + f, "-"], hdr)
                own = pfx + (".hpp" if "+" in f else ".h")
                outs = [p.out]
        if p.rc:
            b.fail("C15-rc-%d" % i, "exit status %s: %s" % (p.rc, p.err[:300]), args=a, header=hdr)
        for o in outs:
            m = check_lines(o, own, tpl, pfx, base)
            if "#line" not in o:
                m = "no #line directive in the output"
            if m:
                b.fail("C15-%d" % i, "format %s: %s" % (f if kind != "custom" else "custom template", m), args=a, header=hdr, template=t if kind == "custom" else "")
            b.ok((kind, f, hdr, pfx))
        shutil.rmtree(d)
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C16

def roundtrip(ctx, tool, n):
    b = Run("template round trip", "dumped templates equal the files in src/templates; output generated from dumped (and from random edited) templates equals the built-in output "
            "(respectively the model of the edited files), %d symbol lists" % n)
    td = os.path.join(build.SRC, "templates")
    names = re.findall(r"TEMPLATE\(\s*([^,\s]+)\s*,", open(os.path.join(build.SRC, "list.h")).read())
    d0 = tool.dir()
    dump = d0 + "/sub/dir"
    p = tool.run(["-dump-templates=" + dump])
    if p.rc or sorted(os.listdir(dump) if os.path.isdir(dump) else []) != sorted(names):
        b.fail("C16-dump", "-dump-templates: exit status %s, files %s" % (p.rc, os.listdir(dump) if os.path.isdir(dump) else None))
        return b
    for x in names:
        if open(dump + "/" + x, "rb").read() != open(td + "/" + x, "rb").read():
            b.fail("C16-dump-" + x, "dumped %s differs from the template in src/templates" % x)
        b.ok(x)

    def one(i):
        r = random.Random("C16 %s %d" % (ctx.seed, i))
        used = set()
        ds = [D.decl(r, used, kinds=r.choice([None, None, ["func"], ["obj", "arr", "fptr"]])) for _ in range(r.choice([1, 2, 4]))]
        hdr = D.header(r, ds, rich=False, blocks=False)
        f = FORMATS[i % 5]
        pfx = r.choice(PFX)
        mode = r.choice(["read", "skip", "create"])
        a = ["-no-date", "-format=" + f, "-param=" + mode, "-prefix=" + pfx] + r.choice([[], ["-library=foo"], ["-no-pragma-once"], ["-Dx=1"]])
        sep = r.random() < .4
        res = []
        for tp in ([], ["-templates-path=" + dump + r.choice(["", "/"])]):
            d = tool.dir()
            o = ["-separate", "-out=" + d + "/o.h"] if sep else []
            q = tool.run(a + tp + o + ["-"], hdr)
            res.append((q.rc, q.out, {g: open(d + "/" + g, "rb").read() for g in sorted(os.listdir(d))}))
            shutil.rmtree(d)
        if res[0] != res[1] or res[0][0] != 0:
            b.fail("C16-reload-%d" % i, "output from the dumped templates differs from the built-in one (exit status %s and %s)" % (res[0][0], res[1][0]), args=a + ["-separate"] * sep, header=hdr)
        b.ok((f, hdr, pfx))
        # edited templates: joined lines, CRLF joins, `@' in other places, no newline at the end
        e = tool.dir()
        s = observe(tool, hdr, ["-param=" + mode, "-prefix=" + pfx], typedefs=False)
        fs, os_ = seen_syms(s)
        txt = {}
        for x in names:
            t = rnd_template(r)
            while model(t, fs, os_, mode == "skip", pfx) is None or t.startswith("#line"):
                t = rnd_template(r)
            if r.random() < .2:
                t = t.replace("@\n", "@\r\n")
            txt[x] = t
            with open(e + "/" + x, "w", newline="", encoding="utf-8", errors="surrogateescape") as fo:
                fo.write(t)
        q = tool.run(a + ["-templates-path=" + e, "-"], hdr)
        parts = {"c": ["common.h", "common.c", "c.h", "c.c"], "c++": ["common.h", "common.c", "cxx.hpp", "cxx.cpp"], "plugin": ["common.h", "common.c", "plugin.h", "plugin.c"],
                 "minimal": ["minimal.h"], "minimal-c++": ["minimal_cxxeh.hpp"]}[f]
        # PARAM_SKIP blocks may span template files
        want = model_lines([y for x in parts for y in entries(txt[x])], fs, os_, mode == "skip", pfx)
        lic = "".join(reprefix(y, pfx) + "\n" for y, _ in entries(txt["license.h"]))
        if q.rc or want not in q.out or lic not in q.out:
            b.fail("C16-edited-%d" % i, "output from edited templates is not their expansion (exit status %s %s)%s" % (q.rc, q.err[:200], "" if lic in q.out else "; license.h is not used"),
                   args=a, header=hdr, template={x: txt[x] for x in parts + ["license.h"]}, got=q.out[:3000], expected=want[:2000])
        b.ok(str(txt))
        shutil.rmtree(e)
    pmap(one, range(n))
    return b
