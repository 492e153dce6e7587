"""Properties of the generator (C08-C26): Verus contracts on the C++ functions
of /repo/src, with black-box runs of the tool built from the same tree as
bounded stand-ins."""
import copy, os, threading
from . import build, genc
from .runner import Obl, Bounded
from .cxx import unit
from .bb import front, back, rest, cli

SAFETY = ("safety", "precondition", "termination")


def tool_job(ctx, prop, name, fn, n, variant, seed=None):
    def f():
        c = ctx
        if seed is not None:
            c = copy.copy(ctx)
            c.seed = seed
        t = cli.Tool(c, variant)
        return fn(c, t, n) if n else fn(c, t)
    return f


class CxxProp:
    level = "proof"
    runs = ()            # (function, quick count, thorough count[, variant]); count 0: takes no count
    every = False        # the safety obligations of all functions
    note = ()
    extra_groups = ()
    timeout = {"quick": 420, "thorough": 800}

    @property
    def pid(self):
        return type(self).__name__

    def cons(self):
        unit.load_contracts()
        out = []
        for n, c in unit.CONTRACTS.items():
            if c.axiom:
                continue
            if self.every or c.prop == self.pid or self.pid in c.also or any(pr == self.pid for _, pr, _ in unit.clauses(c)):
                out.append(c)
        return out

    def groups(self, cons):
        gs = []

        def add(g):
            if g in unit.GROUPS and g not in gs:
                for d in unit.GROUPS[g]["deps"]:
                    add(d)
                gs.append(g)
        for c in cons:
            add(c.group)
        for g in self.extra_groups:
            add(g)
        return gs

    def mine(self, con, name, prop):
        if self.every:
            return name.startswith(SAFETY) and not prop or name.startswith("postcondition") and prop == self.pid
        return (prop or con.prop or self.pid) == self.pid

    def proof(self, ctx, con):
        def f():
            r = unit.verify(con, os.path.dirname(ctx.path("verus", "x")), timeout=self.timeout[ctx.tier])
            o = Obl(con.name, "verus (Z3)", r.status, r.obligations, r.discharged, [(x[0], x[2]) for x in r.failed], r.reason, r.time, r.cmd)
            if r.status == "failed":
                mine = [x for x in r.failed if self.mine(con, x[0], x[2])]
                if not mine:
                    o.status, o.foreign = "undecided", o.failed
                    o.reason = "fails an obligation that belongs to another property: " + r.failed[0][0]
                o.failed = [(x[0], con.tu) for x in mine]
                o.detail = "\n".join("%s\n%s" % (x[0], x[1]) for x in mine)[:20000]
            elif r.status == "undecided":
                o.detail = r.output[-3000:]
            return o
        return f

    def lemmas(self, ctx, g):
        def f():
            r = unit.verify_group(g, os.path.dirname(ctx.path("verus", "x")))
            return Obl("lemmas of contracts/cxx/%s.rs" % g, "verus (Z3)", r.status, r.obligations, r.discharged, [], r.reason, r.time, r.cmd)
        return f

    generator = False

    def more_jobs(self, ctx):
        return [("proof", "dump", genc.job(ctx))] if self.generator else []

    def jobs(self, ctx):
        build.build_gendlopen()
        for v in {r[3] for r in self.runs if len(r) > 3}:
            build.build_gendlopen(v)
        cons = self.cons()
        J = [("proof", c.name, self.proof(ctx, c)) for c in sorted(cons, key=lambda c: -c.rlimit)]
        J += self.more_jobs(ctx)
        J += [("proof", "lemmas of " + g, self.lemmas(ctx, g)) for g in self.groups(cons) if unit.has_lemmas(g)]
        for r in self.runs:
            n = r[2] if ctx.thorough else r[1]
            J.append(("bounded", r[0].__name__, tool_job(ctx, self, r[0].__name__, r[0], n, r[3] if len(r) > 3 else "plain")))
        return J

    def deep_search(self, ctx, failed):
        out = []
        for k in range(2 if not ctx.thorough else 4):
            for r in self.runs:
                if r[1]:
                    b = tool_job(ctx, self, "", r[0], min(r[2], r[1] * 3), r[3] if len(r) > 3 else "plain", ctx.seed + 7001 + k)()
                    b.name += " (deeper search, seed %d)" % (ctx.seed + 7001 + k)
                    out.append(b)
                    if b.failures:
                        return out
        return out

    def trusted(self, ctx):
        ax = sorted(n for n, c in unit.CONTRACTS.items() if c.axiom)
        used = sorted(self.callees())
        if self.generator:
            return ["cbmc 6.11 (back end)", "vlib/genc.py: the loop rule (invariant, arbitrary state, one iteration) put into the text of dump()",
                    "contracts/gen/gen.c: meaning of a template file and of C++ string literals; stand-ins for stdio"]
        return ["verus 0.2026.09.13 and Z3 (back end)", "clang 18 (AST of the C++ sources)",
                "vlib/cxx/trans.py: translation of the AST to Verus (value semantics of std::string, std::vector, iterators, exceptions as results)",
                "contracts/cxx/prelude.rs: meaning of the library functions of <string>, <vector>, <cctype>, <cstring>"] + \
            (["assumed contracts: " + ", ".join(ax)] if ax else []) + \
            (["contracts of callees used here, proved by the check of the property named: " + ", ".join(used)] if used else [])

    def callees(self):
        mine = {c.name for c in self.cons()}
        out = set()
        for n in unit.USED:
            if n in mine:
                for x in unit.USED[n]:
                    if x not in mine and not unit.CONTRACTS[x].axiom:
                        ps = sorted({p for _, p, _ in unit.clauses(unit.CONTRACTS[x]) if p})
                        out.add("%s (%s)" % (x, "/".join(ps)))
        return out

    def assumptions(self, ctx):
        return ["machine integers are treated as mathematical integers except where the source converts or subtracts unsigned values (those are obligations)",
                "strings and containers stay below 2^63 elements; memory allocation does not fail",
                "POSIX build (no _WIN32)", "C locale"] + list(self.note)


def P(pid, runs, **k):
    c = type(pid, (CxxProp,), dict(runs=runs, **k))
    return c


PROPS = {}
for pid, runs, k in [
    ("C08", [(front.wellformed, 400, 8000), (front.lexical, 0, 0), (front.malformed, 400, 8000)], {}),
    ("C09", [(front.names, 400, 8000), (front.bad_params, 400, 6000)], {}),
    ("C10", [(front.parens, 500, 8000)], {}),
    ("C11", [(front.filters, 500, 8000)], {}),
    ("C12", [(front.duplicates, 500, 8000)], {}),
    ("C13", [(front.typedefs, 500, 8000)], {}),
    ("C14", [(back.substitution, 1500, 20000), (back.builtin, 100, 1000)], {}),
    ("C15", [(back.lines, 200, 3000)], {}),
    ("C16", [(back.roundtrip, 250, 3000)], {}),
    ("C17", [(rest.outfiles, 600, 10000)], {}),
    ("C18", [(rest.library, 300, 5000)], {"note": ["the regular expression (.*?):(.*) splits a line at its first colon (specification of std::regex in contracts/cxx/save.rs)"]}),
    ("C19", [(rest.defines, 400, 6000)], {}),
    ("C20", [(rest.prefixes, 300, 5000)], {}),
    ("C21", [(rest.common, 400, 8000)], {}),
    ("C22", [(rest.clang_ast, 120, 3000)], {"note": ["the lexer delivers the declaration and parameter lines of the dump; std::regex finds symbol and type of a line (uninterpreted in contracts/cxx/clang.rs; a change of these expressions is decided by the bounded runs)"]}),
    ("C23", [(rest.failures, 150, 3000)], {}),
    ("C24", [(rest.data_gen, 20, 300)], {"generator": True, "note": ["a template file whose last byte is @ is not considered", "the file can be read and the output can be written"]}),
    ("C25", [(rest.robust, 2000, 60000, "asan")], {"every": True}),
    ("C27", [(rest.composition, 600, 8000)], {}),
    ("C26", [(rest.options, 300, 6000)], {}),
]:
    PROPS[pid] = P(pid, runs, **k)
