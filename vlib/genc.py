"""Contract on dump() of src/gen_templates_data.c (CBMC, loop invariant)."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from . import build, cbmc
from .runner import Obl

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = os.path.join(HERE, "contracts", "gen", "gen.c")


class Cannot(Exception):
    pass


def blank(s):
    """comments and literals overwritten by spaces"""
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: re.sub(r"[^\n]", " ", m.group()), s, flags=re.S)


def close(b, i, o, c):
    n = 0
    while i < len(b):
        n += (b[i] == o) - (b[i] == c)
        if n == 0:
            return i
        i += 1
    raise Cannot("unbalanced text")


def annotate(text):
    """the source with the invariant at the loop of dump() and without main()"""
    b = blank(text)
    m = re.search(r"\bvoid\s+dump\s*\(", b)
    if not m:
        raise Cannot("no function dump()")
    i = b.index("{", close(b, m.end() - 1, "(", ")"))
    e = close(b, i, "{", "}")
    body = b[i:e]
    loops = [x for x in re.finditer(r"\b(while|for)\s*\(", body)]
    if len(loops) != 1 or re.search(r"\b(do|goto)\b", body):
        raise Cannot("dump() has %d loops" % len(loops))
    lo, kind = i + loops[0].end(), loops[0].group(1)
    j = close(b, lo - 1, "(", ")")
    loc = []
    for d in re.finditer(r"(?m)^\s*(int|bool|size_t|unsigned(?: int)?|long)\s+([^;()]*);", body[:loops[0].start()]):
        if "[" not in d.group(2):
            loc += [(d.group(1), re.match(r"\s*(\w+)", x).group(1)) for x in d.group(2).split(",")]
    names = [x for _, x in loc]
    for x in ("new_line", "count", "percent"):
        if x not in names:
            raise Cannot("dump() has no variable " + x)
    rest = body[loops[0].start():]
    inner = set(re.findall(r"\b(?:int|bool|size_t|char|long|unsigned|\*)\s*(\w+)\s*=", rest))
    for x in re.findall(r"(\w+)\s*(?:\+\+|--|[-+*/|&^]?=(?!=))", rest) + re.findall(r"(?:\+\+|--)\s*(\w+)", rest):
        if x not in names and x not in inner:
            raise Cannot("the loop changes " + x)
    if kind == "for":
        semi = [k for k in range(lo, j) if b[k] == ";"]
        lo, j = semi[0] + 1, semi[1]
    mm = re.search(r"\bint\s+main\s*\(", b)
    out = text[:lo] + "V_HEAD(new_line, count, percent), (" + (text[lo:j].strip() or "1") + ")" + text[j:mm.start() if mm else len(text)]
    havoc = ", ".join("%s = %s" % (x, "nd_bool()" if t == "bool" else "nd_int()" if t == "int" else "nd_size()") for t, x in loc)
    return re.sub(r"(?m)^\s*#\s*include\s*<[^>]*>", "", out), havoc


def job(ctx):
    def f():
        src = open(os.path.join(build.SRC, "gen_templates_data.c")).read()
        try:
            t, havoc = annotate(src)
        except (Cannot, ValueError) as e:
            return Obl("dump", "cbmc", "undecided", 0, 0, [], "extraction: %s" % e, 0.0, "")
        d = os.path.dirname(ctx.path("genc", "x"))
        with open(d + "/source.inc", "w") as o:
            o.write(t)
        n = len(re.findall(r"(?m)^\s*TEMPLATE\(", open(os.path.join(build.SRC, "list.h")).read()))
        runs = [(1, 0, 0), (1, 0, 1), (2, 0, 0)] + [(p, k, q) for k in range(n) for p, q in ((0, 0), (3, 0), (3, 1), (4, 0))]

        def one(pk):
            c = d + "/dump_%d_%d_%d.c" % pk
            with open(c, "w") as o:
                o.write('#define V_PART %d\n#define V_NAME %d\n#define V_PCT %d\n#define V_SOURCE "%s"\n#define V_LIST "%s"\n#define V_HAVOC %s\n#include "%s"\n' % (
                    pk[0], pk[1], pk[2], d + "/source.inc", os.path.join(build.SRC, "list.h"), havoc, PRELUDE))
            return cbmc.verify(d, c, None, [], unwind=66, timeout=400 if ctx.tier == "quick" else 800, extra_cbmc=["--unwindset", "o_str.0:%d" % (34 if pk[0] else 66)])
        with ThreadPoolExecutor(4) as ex:
            rs = list(ex.map(one, runs))
        if os.environ.get('V'):
            for pk, r in zip(runs, rs):
                print(pk, r.status, r.reason[:200], '%.1f' % r.time, [x[1] for x in r.failed])
        st = "failed" if any(r.status == "failed" for r in rs) else "proved" if all(r.status == "proved" for r in rs) else "undecided"
        failed = [x for r in rs for x in r.failed]
        o = Obl("dump", "cbmc (loop invariant)", st, sum(r.obligations for r in rs), sum(r.discharged for r in rs), [(x, "gen_templates_data.c") for x in dict.fromkeys(x[1] for x in failed)],
                "; ".join(dict.fromkeys(r.reason for r in rs if r.reason))[:600], sum(r.time for r in rs), rs[0].cmd)
        o.detail = "\n".join("%s: %s\n  %s" % (x[0], x[1], "\n  ".join(x[2])) for x in failed)[:20000]
        return o
    return f
