"""Bounded black-box runs for the front end: C08 to C13."""
import os, random, re
from . import decl as D
from .cli import Tool, Run, toks, pmap

OBS = "F<%%func_symbol%%<%%type%%<%%args%%<%%param_names%%<\nO<%%obj_symbol%%<%%obj_type%%<\n"


class Seen:
    """what one run of the tool read from a header"""
    def __init__(self, rc, err):
        self.rc, self.err = rc, err
        self.funcs, self.objs, self.typedefs, self.raw = [], [], [], ""

    def flat(self):
        return (self.rc == 0, [(s, toks(t), toks(a), n) for s, t, a, n in self.funcs], [(s, toks(t)) for s, t in self.objs],
                [toks(t) for t in self.typedefs])


def template(tool):
    return tool.file("obs.tpl", OBS)


def observe(tool, text, args=(), typedefs=True):
    r = tool.run(list(args) + ["-template=" + template(tool), "-"], text)
    s = Seen(r.rc, r.err)
    s.raw = r.out
    if r.rc == 0:
        for l in r.out.split("\n"):
            p = l.split("<")
            if p[0] == "F" and len(p) == 6:
                s.funcs.append(tuple(p[1:5]))
            elif p[0] == "O" and len(p) == 4:
                s.objs.append(tuple(p[1:3]))
    if typedefs and r.rc == 0:
        q = tool.run(list(args) + ["-print-symbols", "-"], text)
        s.symbols_rc, s.symbols_out = q.rc, q.out
        if "/* typedefs */\n" in q.out:
            blk = q.out.split("/* typedefs */\n", 1)[1].split("\n\n", 1)[0]
            s.typedefs = blk.split("\n")
    return s


def expect(decls, mode="read", pfx="gdo"):
    fs, os_, td = [], [], []
    for d in decls:
        if d.kind == "func":
            a, n = (d.args, d.names) if mode != "create" else d.created()
            fs.append((d.sym, d.typ, a, "" if mode == "skip" else ", ".join(n)))
        elif d.kind == "obj":
            os_.append((d.sym, d.typ))
        else:
            nm = "%s_%s__t" % (pfx, d.sym)
            os_.append((d.sym, [nm]))
            i = d.typ.index("[") if d.kind == "arr" else d.typ.index("(") + 2
            td.append(["typedef"] + d.typ[:i] + [nm] + d.typ[i:] + [";"])
    return (True, fs, os_, td)


def explain(got, want):
    for i, n in enumerate(("exit status", "functions (symbol, type, arguments, names)", "objects (symbol, type)", "typedefs")):
        if got[i] != want[i]:
            if isinstance(want[i], list):
                for a, b in zip(got[i], want[i]):
                    if a != b:
                        return "%s: got %s, expected %s" % (n, a, b)
                return "%s: got %d entries, expected %d (%s)" % (n, len(got[i]), len(want[i]), [x[0] for x in got[i]] + ["vs"] + [x[0] for x in want[i]])
            return "%s: got %s, expected %s" % (n, got[i], want[i])


# ---------------------------------------------------------------- C08

def wellformed(ctx, tool, n):
    b = Run("declarations", "%d random headers (1-12 declarations of the six forms, random spacing, comments, preprocessor lines, ignored blocks): "
            "the symbols, kinds, types, arguments and order that gendlopen reports equal the ones the generator declared" % n)

    def one(i):
        r = random.Random("C08 %s %d" % (ctx.seed, i))
        used = set()
        mode = r.choice(["read", "skip"])
        pool = D.WORDS + ["data1", "data2"]
        ds = [D.decl(r, used, named=mode == "read" or r.random() < .5, pool=pool) for _ in range(r.choice([1, 2, 3, 5, 8, 12]))]
        txt = D.header(r, ds, rich=r.random() < .8)
        s = observe(tool, txt, ["-param=" + mode])
        want = expect(ds, mode)
        got = s.flat()
        if got != want:
            b.fail("C08-decl-%d" % i, explain(got, want) + ("; " + s.err.strip() if s.rc else ""), header=txt, args="-param=" + mode)
        b.ok(txt)
    pmap(one, range(n))
    return b


# small lexical cases with a fixed meaning, each between two ordinary declarations
LEX = [("/* c */", 0), ("// c\n", 0), ("// c \\\n int hidden(void);\n", 0), ("/* // */ ", 0), ("/\\\n/ int hidden(void);\n", 0), ("/\\\n* int hidden(void); *\\\n/", 0),
       ("\n#define A int hidden(void);\n", 0), ("\n#define A \\\n int hidden(void);\n", 0), ("\n# /* x */ define B /* y\n int hidden(void); */\n", 0),
       ("\n\t #if 0\n", 0), ("\n#x // int hidden(void); \\\n int hidden2(void);\n", 0), ("/* ; { = */", 0), ("/***/", 0), ("/* * / int hidden(void); */", 0),
       (";;;", 0), ("struct a { int b; int c; };", 0), ("union a { int b; };", 0), ("enum { X = 1, Y = X };", 0), ("typedef int (*t)(int a);", 0),
       ("typedef struct { struct { int a; } x; int b; } t;", 0), ("extern ;", 0), ("struct x;", 0), ("extern struct s { int hidden; };", 0), ("enum e { A, B } ;", 0),
       ("\n%option no-date\n", 0), ("\ufeff", 0), ("\r\n", 0), ("\f\v", 0), ("struct a {\n%option no-date\n int b; };", 0), ("struct a { int b; } /* c */ ;", 0)]


def lexical(ctx, tool):
    b = Run("lexical cases", "%d fixed comment, preprocessor, block and line-continuation cases between (and inside) ordinary declarations change nothing" % (2 * len(LEX)))

    def one(c):
        i, (t, _) = c
        for j, txt in enumerate(("int first(int a);%s int second(char *b);" % t, "int first(int %s a); int second(char *b);" % t)):
            if j and (t.lstrip().startswith(("struct", "union", "enum", "typedef", "extern", "\n%option", ";")) or "%option" in t):
                continue
            s = observe(tool, txt, ())
            got = s.flat()
            want = (True, [("first", ["int"], ["int", "a"], "a"), ("second", ["int"], ["char", "*", "b"], "b")], [], [])
            if got != want:
                b.fail("C08-lex-%d-%d" % (i, j), explain(got, want) + "; " + s.err.strip(), header=txt)
            b.ok(txt)
    pmap(one, enumerate(LEX))
    return b


def malformed(ctx, tool, n):
    b = Run("malformed", "%d random headers with one statement that is no declaration of a symbol: the tool exits with an error and writes nothing" % n)

    def one(i):
        r = random.Random("C08m %s %d" % (ctx.seed, i))
        used = set()
        ds = [D.decl(r, used) for _ in range(r.choice([1, 1, 2, 4]))]
        k = r.randrange(len(ds))
        t = list(ds[k].tokens)
        kind = r.choice(["char", "brace", "equal", "short", "first", "nosym", "noend", "noname", "trail"])
        if kind == "char":
            t.insert(r.randrange(1, len(t) + 1), r.choice(list("\"'@-+!$:<>&?|~^.`%") + ["\x01", "\x7f"]))
        elif kind == "brace":
            t.insert(r.randrange(1, len(t) + 1), r.choice("{}"))
        elif kind == "equal":
            t.insert(r.randrange(1, len(t) + 1), "=")
        elif kind == "short":
            t = [r.choice(["int", "foo", "*", "(", "x1"])]
        elif kind == "first":
            t = [r.choice(["*", "(", "[", ")", "]", ",", "..."])] + t
        elif kind == "nosym":
            d = D.decl(r, used, kinds=["obj"])
            t = d.tokens[:-1] + ["*"]
        elif kind == "noend":
            d = D.decl(r, used, kinds=["func", "arr", "fparen"])
            t = d.tokens + [r.choice(["foo", "*", "x"])]
        elif kind == "noname":
            t = [r.choice(["int", "foo"]), "("] + r.choice([["int", "a"], [], ["void"]]) + [")"]
        elif kind == "trail":
            t = D.decl(r, used, kinds=["obj"]).tokens + r.choice([["]"], [")"], [","], ["["], ["("], [",", "b"], ["..."]])
        ds[k] = D.Decl("bad", t, [], "")
        txt = D.header(r, ds, rich=False, blocks=False, last_semi=True)
        mode = r.choice(["-param=read", "-param=skip", "-param=create"])
        out = r.choice(["stdout", "file", "template"])
        d = tool.dir()
        a = {"stdout": ["-print-symbols"], "file": ["-out=" + d + "/o.h", "-format=" + r.choice(["c", "c++", "minimal", "plugin"])], "template": ["-template=" + template(tool)]}[out]
        p = tool.run([mode] + a + ["-"], txt)
        if p.rc in (0, None) or p.rc < 0 or not p.err.strip() or p.out.strip() or os.path.exists(d + "/o.h"):
            b.fail("C08-bad-%d" % i, "malformed statement `%s' accepted or not reported: exit status %s, stderr %r, output %r%s" % (
                " ".join(t), p.rc, p.err[:200], p.out[:200], ", output file created" if os.path.exists(d + "/o.h") else ""), header=txt, args=[mode] + a)
        b.ok(kind + "|" + txt)
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C09

def names(ctx, tool, n):
    b = Run("parameters", "%d random headers of functions with 0-8 parameters (objects, pointers, arrays, function pointers with nested lists, `...'), each in "
            "the modes read, create and skip: arguments and parameter names equal the declared ones" % n)

    def one(i):
        r = random.Random("C09 %s %d" % (ctx.seed, i))
        used = set()
        named = r.random() < .6
        ds = [D.decl(r, used, named=named, kinds=["func", "func", "fparen", "fpp"]) for _ in range(r.choice([1, 2, 4, 8]))]
        txt = D.header(r, ds, rich=r.random() < .3)
        for mode in (["read", "skip"] if named else ["skip", "create"]):
            s = observe(tool, txt, ["-param=" + mode], typedefs=False)
            got, want = s.flat(), expect(ds, mode)
            if got != want:
                b.fail("C09-%d-%s" % (i, mode), explain(got, want) + ("; " + s.err.strip() if s.rc else ""), header=txt, args="-param=" + mode)
            b.ok(mode + txt)
    pmap(one, range(n))
    return b


def bad_params(ctx, tool, n):
    b = Run("bad parameters", "%d random functions with one parameter that the mode cannot handle (empty, name missing, type missing): an error, no output" % n)

    def one(i):
        r = random.Random("C09b %s %d" % (ctx.seed, i))
        used = set()
        mode = r.choice(["read", "create"])
        ps = [D.param(r, used, mode == "read") for _ in range(r.choice([0, 1, 2, 3]))]
        kinds = {"read": [[], ["int"], ["foo_t"], ["*", "a"], ["char", "*"], ["const", "char", "*", "*"], ["*"], ["char", "[", "]"], ["int", "(", "*", ")", "(", "int", ")"]],
                 "create": [[], ["*"], ["*", "a"], ["*", "int", "a"]]}
        bad = r.choice(kinds[mode])
        at = r.randrange(len(ps) + 1)
        if bad == [] and not ps:
            ps.append(D.param(r, used, mode == "read"))     # `f()' has no parameter, `f(,int a)' has an empty one
            at = r.randrange(2)
        pl = [p.tokens for p in ps]
        pl.insert(at, bad)
        t = ["int", "fn_%d" % i, "("]
        for j, p in enumerate(pl):
            t += ([","] if j else []) + p
        t += [")"]
        txt = "int before(int a); " + D.render(r, t, False) + "; int after(char b);"
        if mode == "create":
            txt = D.render(r, t, False) + ";"
        p = tool.run(["-param=" + mode, "-template=" + template(tool), "-"], txt)
        if p.rc in (0, None) or p.rc < 0 or not p.err.strip() or p.out.strip():
            b.fail("C09-bad-%d" % i, "parameter `%s' accepted in mode %s: exit status %s, output %r" % (" ".join(bad), mode, p.rc, p.out[:300]), header=txt, args="-param=" + mode)
        b.ok(mode + txt)
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C10

def pairs(t):
    st, out = [], []
    for i, x in enumerate(t):
        if x == "(":
            st.append(i)
        elif x == ")":
            out.append((st.pop(), i))
    return out


def enclosing(ps, i):
    return max((p for p in ps if p[0] < i < p[1]), default=None)


def reduced(t):
    """t without the pairs that directly enclose a text that begins with `(' and ends with `)'"""
    drop = {k for a, z in pairs(t) if z > a + 1 and t[a + 1] == "(" and t[z - 1] == ")" for k in (a, z)}
    return [x for k, x in enumerate(t) if k not in drop]


def group(r, d=0):
    """random parenthesised text"""
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < .55 and d < 5:
            out += ["("] + group(r, d + 1) + [")"]
        else:
            out.append(r.choice(["x", "*", "y", "int", "z1"]))
    return out


def parens(ctx, tool, n):
    b = Run("parentheses", "%d random headers in which 1-4 parenthesised groups (or runs from one group to another) are wrapped in further parentheses (1-3 deep): read exactly as "
            "without them; and functions with randomly parenthesised parameters (-param=skip): exactly the redundant pairs are gone" % n)

    def one(i):
        r = random.Random("C10 %s %d" % (ctx.seed, i))
        used = set()
        if i % 4 == 3:
            return skipmode(i, r)
        ds = [D.decl(r, used, kinds=["func", "fparen", "fpp", "fptr", "obj", "arr", "func", "fptr"]) for _ in range(r.choice([1, 2, 4]))]
        want = expect(ds)
        ds2 = []
        for d in ds:
            t = list(d.tokens)
            for _ in range(r.choice([0, 1, 1, 2, 4])):
                ps = pairs(t)
                if not ps:
                    break
                a, z = r.choice(ps)
                z = r.choice([z] + [q for p, q in ps if p > z and enclosing(ps, p) == enclosing(ps, a) and not {",", "..."} & set(t[z:p])])
                k = r.choice([1, 1, 2, 3])
                t[z:z + 1] = [")"] * (k + 1)
                t[a:a + 1] = ["("] * (k + 1)
            ds2.append(D.Decl(d.kind, t, d.typ, d.sym, d.params, d.form, d.void))
        txt = D.header(r, ds2, rich=r.random() < .3)
        s = observe(tool, txt)
        got = s.flat()
        if got != want:
            b.fail("C10-%d" % i, explain(got, want) + ("; " + s.err.strip() if s.rc else ""), header=txt)
        b.ok(txt)

    def skipmode(i, r):
        ps = [["int"] + group(r) for _ in range(r.choice([1, 2, 2, 3]))]
        args = [x for k, p in enumerate(ps) for x in ([","] if k else []) + p]
        txt = "void " + " ".join(["f", "("] + args + [")"]) + ";\n"
        s = observe(tool, txt, ["-param=skip"], typedefs=False)
        want = [("f", ["void"], reduced(args), "")]
        got = [(f[0], toks(f[1]), toks(f[2]), f[3]) for f in s.funcs]
        if s.rc or got != want:
            b.fail("C10-%d" % i, "got %s, expected %s; %s" % (got, want, s.err.strip()), header=txt, args="-param=skip")
        b.ok(txt)
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C11

def filters(ctx, tool, n):
    b = Run("filters", "%d random headers with random -P and -S lists: the reported symbols are exactly the ones that have a listed prefix or are listed, each once; "
            "a listed symbol that is not declared, or an empty result, is an error" % n)

    def one(i):
        r = random.Random("C11 %s %d" % (ctx.seed, i))
        used = set()
        pool = ["foo_a", "foo_b", "foo", "foobar", "fo", "bar_foo", "bar", "bar_", "bar_x", "Foo_a", "x", "xx", "xfoo_", "foo_a1", "_foo", "ba"]
        ds = [D.decl(r, used, pool=pool) for _ in range(r.choice([1, 3, 5, 8]))]
        syms = [d.sym for d in ds]
        P = [r.choice(["foo_", "foo", "bar", "bar_", "f", "x", "zzz", "Foo", r.choice(syms), r.choice(syms)[:3]]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        S = [r.choice(syms + syms + syms + (["nope", "foo_", "fo"] if r.random() < .3 else [])) for _ in range(r.choice([0, 0, 1, 2, 4]))]
        if S and r.random() < .3:
            S.append(S[0])
        miss = [x for x in S if x not in syms]
        keep = [d for d in ds if (not P and not S) or any(d.sym.startswith(p) for p in P) or d.sym in S]
        txt = D.header(r, ds, rich=r.random() < .2)
        a = []
        for x in P:
            a += r.choice([["-P" + x], ["-P", x]])
        for x in S:
            a.insert(r.randrange(len(a) + 1) if not P else len(a), "-S" + x)
        s = observe(tool, txt, a)
        if miss or not keep:
            if s.rc in (0, None) or s.rc < 0 or s.raw.strip():
                b.fail("C11-miss-%d" % i, "expected an error (%s), got exit status %s and %r" % ("not declared: %s" % miss if miss else "no symbol left", s.rc, s.raw[:300]), header=txt, args=a)
            elif miss and not all(re.search(r"(?<!\w)%s(?!\w)" % re.escape(x), s.err) for x in miss):
                b.fail("C11-msg-%d" % i, "the message does not name %s: %r" % (miss, s.err[:300]), header=txt, args=a)
        else:
            got, want = s.flat(), expect(keep)
            key = lambda v: (v[0],) + tuple(sorted(x, key=str) for x in v[1:])
            if key(got) != key(want):
                b.fail("C11-%d" % i, explain(key(got), key(want)) + ("; " + s.err.strip() if s.rc else ""), header=txt, args=a)
        b.ok((txt, tuple(a)))
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C12

def duplicates(ctx, tool, n):
    b = Run("duplicates", "%d random headers, half of them with one symbol declared twice (any kinds, any distance, also filtered out or in repeated form): exactly those are errors" % n)

    def one(i):
        r = random.Random("C12 %s %d" % (ctx.seed, i))
        used = set()
        ds = [D.decl(r, used, pool=["aa", "aaa", "a", "aA", "AA", "a_", "_a"]) for _ in range(r.choice([1, 2, 3, 6, 10]))]
        dup = r.random() < .5
        args = []
        if dup:
            j = r.randrange(len(ds))
            d = ds[j] if r.random() < .3 else None
            while d is None or d.sym != ds[j].sym:
                d = D.decl(r, set(), pool=[ds[j].sym])
                if r.random() < .2:
                    d = ds[j]
            ds.insert(r.choice([j + 1, len(ds), 0]), d)
            if r.random() < .3:
                args = ["-P" + ds[r.randrange(len(ds))].sym[:1]]
        txt = D.header(r, ds, rich=r.random() < .2)
        dd = tool.dir()
        out = r.random() < .3
        p = tool.run(args + (["-out=" + dd + "/o.h"] if out else ["-template=" + template(tool)]) + ["-"], txt)
        if dup:
            if p.rc in (0, None) or p.rc < 0 or p.out.strip() or os.path.exists(dd + "/o.h") or d.sym not in p.err:
                b.fail("C12-%d" % i, "symbol `%s' is declared twice, exit status %s, stderr %r, stdout %r" % (d.sym, p.rc, p.err[:200], p.out[:200]), header=txt, args=args)
        elif p.rc != 0:
            b.fail("C12-ok-%d" % i, "no symbol is declared twice, but: %s" % p.err[:300], header=txt)
        b.ok(txt)
    pmap(one, range(n))
    return b


# ---------------------------------------------------------------- C13

def typedefs(ctx, tool, n):
    b = Run("typedefs", "%d random headers with array and function pointer objects under random prefixes: one typedef per such object, of exactly its declared type, "
            "and all types and arguments keep their tokens with no stray blanks, in -print-symbols and in every output format" % n)

    def one(i):
        r = random.Random("C13 %s %d" % (ctx.seed, i))
        used = set()
        ds = [D.decl(r, used, kinds=["arr", "fptr", "arr", "fptr", "obj", "func"]) for _ in range(r.choice([1, 2, 4, 7]))]
        pfx = r.choice(["gdo", "foo", "MyLib", "my.lib", "x-y", "a1"])
        low = "".join(c.lower() if c.isalnum() else "_" for c in pfx)
        txt = D.header(r, ds, rich=r.random() < .3)
        a = ["-prefix=" + pfx, "-param=skip"]
        s = observe(tool, txt, a)
        want = expect(ds, "skip", low)
        got = s.flat()
        if got != want:
            b.fail("C13-%d" % i, explain(got, want) + ("; " + s.err.strip() if s.rc else ""), header=txt, args=a)
        else:
            for x in [t for _, t in s.objs] + [y for f in s.funcs for y in f[1:3]] + s.typedefs:
                if x != x.strip() or "  " in x or "\n" in x or " )" in x or "( " in x or " ]" in x or "[ " in x or " ," in x or " [" in x or "* " in x:
                    b.fail("C13-ws-%d" % i, "badly formatted: %r" % x, header=txt, args=a)
            f = r.choice(["c", "c++", "minimal", "minimal-c++", "plugin"])
            p = tool.run(a + ["-format=" + f, "-"], txt)
            td = [toks(l) for l in re.findall(r"^typedef .*;$", p.out.split("/* typedefs */\n", 1)[-1].split("\n\n", 1)[0], re.M)] if "/* typedefs */\n" in p.out else []
            if p.rc or td != want[3]:
                b.fail("C13-out-%d" % i, "typedefs in %s output: %s, expected %s" % (f, td, want[3]), header=txt, args=a + ["-format=" + f])
        b.ok(txt)
    pmap(one, range(n))
    return b
