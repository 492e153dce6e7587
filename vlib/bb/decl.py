"""Random C declarations with the symbols they declare (the oracle side never parses)."""

TYPES = [["int"], ["char"], ["void"], ["unsigned", "int"], ["const", "char"], ["size_t"], ["my_type_t"], ["long", "long"],
         ["unsigned", "long", "long"], ["const", "my_type_t"], ["FILE"], ["const", "struct", "foo"], ["volatile", "union", "bar_u"],
         ["const", "enum", "e1"], ["double"], ["uint8_t"], ["T0"], ["_x"]]
PTYPES = TYPES + [["struct", "foo"], ["union", "bar_u"], ["enum", "e1"]]
WORDS = ["foo", "bar", "baz", "init", "quit", "hello", "x", "y1", "Zed", "_u", "a_b", "get", "set", "void_", "int8", "structure",
         "externs", "typedefs", "enum_", "union1", "A", "B2", "gdo", "GDO", "gdo_x", "return_", "data", "ptr"]


class Param:
    def __init__(self, kind, tokens, name=None, created=None):
        self.kind, self.tokens, self.name, self.created = kind, tokens, name, created   # created(n): tokens of -param=create


class Decl:
    """kind: func obj arr fptr"""
    def __init__(self, kind, tokens, typ, sym, params=None, form="", void=None):
        self.kind, self.tokens, self.typ, self.sym, self.params, self.form, self.void = kind, tokens, typ, sym, params, form, void

    @property
    def args(self):
        if self.void is not None:
            return list(self.void)
        out = []
        for i, p in enumerate(self.params or ()):
            out += ([","] if i else []) + p.tokens
        return out

    @property
    def names(self):
        return [p.name for p in self.params or () if p.name]

    def created(self):
        """(argument tokens, names) of -param=create"""
        if self.void is not None:
            return list(self.void), []
        out, names, n = [], [], 0
        for i, p in enumerate(self.params or ()):
            if p.kind == "va":
                t = ["..."]
            else:
                n += 1
                t = p.created("a%d" % n)
                names.append("a%d" % n)
            out += ([","] if i else []) + t
        return out, names


def ident(r, used, pool=None):
    while True:
        k = r.random()
        if pool and k < 0.5:
            s = r.choice(pool)
        elif k < 0.7:
            s = r.choice(WORDS)
        else:
            s = r.choice(WORDS) + "_" + r.choice(WORDS) + (str(r.randrange(100)) if r.random() < .5 else "")
        if s in used or s in ("extern", "struct", "union", "enum", "typedef"):
            s += "_%d" % r.randrange(10000)
        if s not in used:
            used.add(s)
            return s


def ptype(r, types, allow_void=True):
    t = list(r.choice(types))
    st = ["*"] * r.choice([0, 0, 0, 1, 1, 2, 3])
    if st and r.random() < .2:
        st.append(r.choice(["const", "restrict", "volatile"]))
    if t == ["void"] and not st and not allow_void:
        t = ["int"]
    return t + st


def dims(r):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        out += ["["] + ([r.choice(["4", "16", "N", "MAX_LEN", "0x20"])] if r.random() < .7 else []) + ["]"]
    return out


def plist(r, depth=0, named=True):
    """parameter list inside a function pointer type: flat tokens"""
    n = r.choice([0, 1, 1, 2, 3])
    if n == 0:
        return [] if r.random() < .5 else ["void"]
    out = []
    for i in range(n):
        out += [","] if i else []
        k = r.random()
        if k < .15 and depth < 2:
            out += ptype(r, PTYPES) + ["(", "*"] + ([r.choice(WORDS)] if r.random() < .5 else []) + [")", "("] + plist(r, depth + 1) + [")"]
        elif k < .25 and i:
            out += ["..."] if i == n - 1 else ptype(r, PTYPES, False)
        else:
            t = ptype(r, PTYPES, False)
            out += t + ([r.choice(WORDS)] if r.random() < .5 else [])
            if r.random() < .15:
                out += dims(r)
    return out


def param(r, used, named=True):
    k = r.random()
    nm = ident(r, used)
    if k < .62:
        t = ptype(r, PTYPES, False)
        return Param("obj", t + ([nm] if named else []), nm if named else None, lambda a: t + ([nm] if named else []) + [a])
    if k < .8:
        t, d = ptype(r, PTYPES, False), dims(r)
        return Param("arr", t + ([nm] if named else []) + d, nm if named else None, lambda a: t + ([nm] if named else []) + [a] + d)
    t, p = ptype(r, PTYPES), plist(r)
    return Param("fptr", t + ["(", "*"] + ([nm] if named else []) + [")", "("] + p + [")"], nm if named else None,
                 lambda a: t + ["(", "*", a, ")", "("] + p + [")"])


def params(r, named=True):
    """-> (params, void tokens or None)"""
    n = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 7])
    if n == 0:
        return [], ([] if r.random() < .5 else [r.choice(["void", "void", "void", "VOID"])])
    used = set()
    ps = [param(r, used, named) for _ in range(n)]
    if r.random() < .2:
        ps.append(Param("va", ["..."], None, None))
    return ps, None


def flat(ps):
    out = []
    for i, p in enumerate(ps):
        out += ([","] if i else []) + p.tokens
    return out


def decl(r, used, named=True, pool=None, kinds=None):
    sym = ident(r, used, pool)
    k = r.choice(kinds or ["func", "func", "func", "fparen", "fpp", "obj", "arr", "fptr"])
    if k == "obj":
        t = ptype(r, TYPES, False)
        return Decl("obj", t + [sym], t, sym)
    if k == "arr":
        t, d = ptype(r, TYPES, False), dims(r)
        return Decl("arr", t + [sym] + d, t + d, sym)
    if k == "fptr":
        t, p = ptype(r, TYPES), plist(r)
        return Decl("fptr", t + ["(", "*", sym, ")", "("] + p + [")"], t + ["(", "*", ")", "("] + p + [")"], sym)
    ps, void = params(r, named)
    a = void if void is not None else flat(ps)
    if k == "func":
        t = ptype(r, TYPES)
        return Decl("func", t + [sym, "("] + a + [")"], t, sym, ps, "func", void)
    if k == "fparen":
        t = ptype(r, TYPES)
        return Decl("func", t + ["(", sym, ")", "("] + a + [")"], t, sym, ps, "fparen", void)
    base, st = list(r.choice(TYPES)), ["*"] * r.choice([1, 2])
    return Decl("func", base + ["("] + st + [sym, "("] + a + [")", ")"], base + st, sym, ps, "fpp", void)


def is_id(t):
    return t[0].isalnum() or t[0] == "_"


def noise(r, need, rich=True):
    """a separator that is no token: spaces, comments, preprocessor lines"""
    k = r.random()
    if not rich or k < .72:
        if not need and r.random() < .5:
            return ""
        return r.choice([" ", " ", " ", "  ", "\n", "\t", " \n\t", "\r\n"])
    if k < .82:
        return r.choice(["/**/", "/* int x; */", " /* ( */ ", "/* line\n * line 2 ;\n **/", "/*//*/", "/* \" ' */ ", "/* # */"])
    if k < .9:
        return r.choice(["// comment\n", " // int z(void);\n", "// split \\\n still comment ; {\n", "//\n", "// /* \n"])
    return r.choice(["\n#define X 1\n", "\n#include <stdio.h>\n", "\n  #if 0 /* c */\n", "\n# define Y(a) \\\n  {a;} \n", "\n#endif\n", "\n#ifdef A /* a\n b */\n",
                     "\n#pragma x // foo (\n"])


def render(r, tokens, rich=True):
    out, prev = [], None
    for t in tokens:
        if prev is not None:
            out.append(noise(r, is_id(prev) and (is_id(t) or t == "..."), rich))
        if is_id(t) and r.random() < .03:
            out.append("extern ")
        out.append(t)
        prev = t
    return "".join(out)


BLOCKS = ["typedef int myint_t;", "typedef struct _s { int a; struct { int b; } c; } s_t;", "struct fwd;", "enum { A = 1, B, C = A };",
          "union u { int i; struct x { long l; }; };", "struct s1 { void (*f)(int); int a[4]; };", "typedef void (*cb_t)(int, char *);",
          "struct foo *ignored_one(void);", "enum e2 { Q };", "extern struct s2 { int a; };", "typedef union { struct { enum { K } k; } y; int z; } w_t;", ";", ";;", " ; ;"]


def header(r, decls, rich=True, blocks=True, last_semi=None):
    out = []
    if rich and r.random() < .1:
        out.append("\ufeff")
    for i, d in enumerate(decls):
        if r.random() < .5:
            out.append(noise(r, False, rich))
        if blocks and r.random() < .3:
            out.append(r.choice(BLOCKS) + noise(r, False, rich))
        out.append(render(r, ["extern"] * (r.random() < .2) + d.tokens, rich))
        if i + 1 < len(decls) or (last_semi if last_semi is not None else r.random() < .9):
            out.append(noise(r, False, rich) + ";")
    out.append(r.choice(["", "\n", "\n\n", " "]))
    return "".join(out)
