"""Contracts on the C++ functions of /repo/src and their verification by Verus.

A contract file contracts/cxx/<group>.py is Python that calls C(...) once per
function; contracts/cxx/<group>.rs holds the spec functions and lemmas it uses.
For every function the translator's text, the contract and the contracts of
the functions it calls become one Verus file."""
import json, os, re, signal, subprocess, threading, time
from . import astload, trans
from .trans import INT, BOOL, STR, ITER, CSTR, VOID, vec, vty, Unsupported, Fn, Obligation, STRUCT_FIELDS, rid

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CDIR = os.path.join(HERE, "contracts", "cxx")
STR_VEC = vec(STR)
PROTO = ("st", "Proto")
RECORDS = [("Proto", "_proto", "parse.cpp"), ("Template", "_template", "utils.cpp"), ("Entry", "_entry", "tokenize.cpp"),
           ("SeqPat", "_seq", "check_pattern.cpp"), ("Gdo", "gendlopen", "gendlopen.cpp")]
GROOT = {"g": "Gdo", "ofs": "Seq<int>", "cout": "Seq<int>", "cin": "Seq<int>", "lx": "Lex", "fs": "Fs", "tp": "Seq<Seq<Template>>", "td": "Seq<Seq<Template>>"}


class Param:
    def __init__(self, name, t, inout=False, prov=None, default=None, ghost_of=None, same_as=None, alias=None):
        self.alias = alias            # a reference to an element of a global table: (table, parameter with the index)
        self.name, self.t, self.inout, self.prov, self.default = name, t, inout, prov, default
        self.same_as = same_as        # no C++ parameter: whether that iterator points into this container
        self.ghost_of = ghost_of      # no C++ parameter: the container of that iterator parameter


class Con:
    def __init__(self, name, tu, params, ret=VOID, req=(), ens=(), modifies=(), reads=(), throws=False, loops=None, hints=None,
                 ret_in=None, qt=None, group=None, spec=None, axiom=False, prop="", locals=(), note="", rlimit=30, method=False, cxxname=None, pre="", ghost=(), hide=(), also=(), isolate=False):
        self.also = also              # further properties that depend on this function
        self.hide = list(hide)
        self.isolate = isolate        # only the invariants are known after a loop
        self.name, self.tu = name, tu
        self.cxxname = cxxname or name.split("::")[-1]
        self.vname = re.sub(r"\W+", "_", name)
        self.cparams = params
        self.ret, self.req, self.ens = ret, list(req), list(ens)
        self.modifies, self.reads, self.throws = list(modifies), list(reads), throws
        self.loops, self.hints, self.ret_in, self.qt = loops or {}, hints or {}, ret_in, qt
        self.group, self.spec, self.pure = group, spec, bool(spec)
        self.axiom = axiom            # assumed, not verified
        self.prop, self.note, self.rlimit = prop, note, rlimit
        self.recorded_locals = list(locals)
        self.method = method
        self.pre = pre
        self.ghost = list(ghost)
        self.nparams = len([p for p in params if not p.ghost_of])
        self.real = [p for p in params if not p.ghost_of]


CONTRACTS = {}
GROUPS = {}
GLOBALS = {}
USED = {}        # function -> the contracts its proof uses
_loaded = [False]
_lock = threading.Lock()


def P(name, t, **k):
    return Param(name, t, **k)


CONSTS = {}


def load_contracts():
    with _lock:
        if _loaded[0]:
            return
        for f in sorted(os.listdir(CDIR)):
            if f.endswith(".py"):
                g = f[:-3]
                GROUPS[g] = {"deps": [], "names": []}

                def C(name, tu, params, **k):
                    c = Con(name, tu, params, group=g, **k)
                    CONTRACTS[name] = c
                    GROUPS[g]["names"].append(name)
                    return c
                env = {"C": C, "P": P, "INT": INT, "BOOL": BOOL, "STR": STR, "ITER": ITER, "CSTR": CSTR, "VOID": VOID, "vec": vec, "TPTR": trans.TPTR, "PROTO": PROTO,
                       "STRV": STR_VEC, "st": lambda n: ("st", n), "consts": CONSTS.update, "deps": lambda *a, g=g: GROUPS[g]["deps"].extend(a)}
                exec(compile(open(os.path.join(CDIR, f)).read(), f, "exec"), env)
        _loaded[0] = True


def has_lemmas(g):
    p = os.path.join(CDIR, g + ".rs")
    return os.path.exists(p) and "proof fn " in open(p).read()


def group_text(g, seen):
    if g in seen:
        return ""
    seen.add(g)
    s = "".join(group_text(d, seen) for d in GROUPS.get(g, {}).get("deps", []))
    p = os.path.join(CDIR, g + ".rs")
    if os.path.exists(p):
        s += "// ---- %s.rs\n" % g + open(p).read() + "\n"
    return s


_enum = {}
ENUMS = ["proto::" + x for x in ("function", "function_pointer", "object", "object_array")] + \
        ["output::" + x for x in ("c", "cxx", "plugin", "minimal", "minimal_cxx")] + ["param::" + x for x in ("read", "create", "skip")] + \
        ["filter::" + x for x in ("none", "prefix", "list", "pfx_list")]


def enum_value(q):
    with _lock:
        if not _enum:
            try:
                _enum.update(astload.enum_values(ENUMS))
            except Exception as e:
                raise Unsupported("enumerators: %s" % e)
        if q not in _enum:
            try:
                _enum.update(astload.enum_values([q]))
            except Exception as e:
                raise Unsupported("enumerator %s: %s" % (q, e))
        return _enum[q]


def norm(qt):
    q = re.sub(r"\s+", " ", qt or "")
    q = q.replace("(anonymous namespace)::", "").replace("std::__cxx11::", "std::").replace("std::basic_string<char>", "std::string")
    return q.replace("const ", "const ").strip()


class Unit:
    """verification of one function"""
    def __init__(self, con):
        self.con = con
        self.obls = []
        self.used = set()
        self.globals = GLOBALS
        self.texts = {}

    def obligation(self, fn, kind, what):
        o = Obligation(len(self.obls), fn, kind, what)
        self.obls.append(o)
        return o

    def mark(self):
        return len(self.obls)

    def enum(self, q):
        return "%dint" % enum_value(q)

    def throw_kind(self, t):
        if "error_cmd" in t:
            return "2int"
        return "1int"

    def contract(self, name):
        if name not in CONTRACTS:
            raise Unsupported("call of " + name)
        return CONTRACTS[name]

    def find_fn(self, tu, name, qt):
        c = tu.funcs.get(name, [])
        hit = [n for n in c if norm(n["type"]["qualType"]) == norm(qt)]
        return hit

    def is_user(self, tu, name, qt):
        for c in CONTRACTS.values():
            if c.cxxname == name and not c.method and (c.qt is None or norm(c.qt) == norm(qt)) and \
                    (self.find_fn(tu, name, qt) or any(norm(n["type"]["qualType"]) == norm(qt) for n in tu.decls.get(name, []))):
                return True
        return bool(self.find_fn(tu, name, qt))

    def resolve(self, tu, name, qt, method, args, fn, node):
        if method:
            c = node["inner"][0]
            while c.get("kind") != "MemberExpr":
                c = c["inner"][-1]
            qt = tu.types.get(c.get("referencedMemberDecl"))
        cands = [c for c in CONTRACTS.values() if c.cxxname == name and c.method == method]
        if len(cands) > 1 or (cands and cands[0].qt):
            real = [a for a in args]
            cands = [c for c in cands if (c.qt is None or method and not qt or norm(c.qt) == norm(qt)) and c.nparams == len(real)
                     and (c.tu == tu.name or len([x for x in CONTRACTS.values() if x.cxxname == name]) == 1 or not method or True)]
            if method and len(cands) > 1:
                raise Unsupported("overloaded method " + name)
        if cands and method:
            # overloaded setters share names with contracted members: compare parameter types
            t0 = cands[0].real[0].t if cands[0].real else None
            if t0 is not None and args and args[0].get("kind") != "CXXDefaultArgExpr":
                at = trans.node_type(args[0])
                if (t0 == CSTR) != (at == CSTR or at == ("null",)) and at[0] in ("int", "bool", "cstr"):
                    cands = []
            elif t0 is None and args or t0 is not None and not args:
                cands = []
        if cands:
            if len(cands) > 1:
                cands = [c for c in cands if c.tu == tu.name] or cands
            con = cands[0]
            if con.name == self.con.name:
                raise Unsupported("recursion")
            return con, None
        if method:
            hit = [n for n in tu.funcs.get(name, []) if len([c for c in n.get("inner", []) if c["kind"] == "ParmVarDecl"]) == len(args)
                   and (not qt or norm(n["type"]["qualType"]) == norm(qt))]
        else:
            hit = self.find_fn(tu, name, qt)
        if not hit:
            raise Unsupported("call of %s, which has neither a contract nor a visible body" % name)
        if method and len(hit) > 1:
            raise Unsupported("overloaded method " + name)
        return None, hit[0]

    def lits(self, e):
        def f(m):
            b = m.group(1).encode().decode("unicode_escape").encode("latin1")
            return trans.literal(b)
        return re.sub(r'@"((?:[^"\\]|\\.)*)"', f, e)


# ---------------------------------------------------------------- file assembly
_records = {}


def load_records():
    with _lock:
        if _records:
            return
        for st, rec, tu in RECORDS:
            fs = astload.record(tu, rec)
            if fs is not None:
                _records[st] = fs
        for st in _records:
            fs = []
            for f, node in _records[st]:
                ty = trans.node_type(node)
                if ty[0] == "opaque":
                    continue
                fs.append((rid(f), ty))
            STRUCT_FIELDS[st] = fs


def struct_text():
    out = []
    for st in _records:
        out.append("#[verifier::ext_equal]\npub struct %s { %s }" % (st, ", ".join("pub %s: %s" % (f, vty(t)) for f, t in STRUCT_FIELDS[st])))
        out.append("pub uninterp spec fn %s_junk() -> %s;" % (st.lower(), st))
        # default initialisation: class members are empty, scalars are indeterminate
        fl = []
        for f, t in STRUCT_FIELDS[st]:
            d = trans.default(t) if t[0] in ("str", "cstr", "vec") else "%s_junk().%s" % (st.lower(), f)
            fl.append("%s: %s" % (f, d))
        out.append("pub open spec fn %s_default() -> %s { %s { %s } }" % (st.lower(), st, st, ", ".join(fl)))
    return "\n".join(out) + "\n"


def const_text(text):
    return "".join("pub open spec fn %s() -> int { %d }\n" % (n, enum_value(q)) for n, q in sorted(CONSTS.items()) if re.search(r"\b%s\(\)" % n, text))


def lit_text(text):
    out = [const_text(text)]
    for b, n in sorted(trans._LITS.items(), key=lambda x: x[1]):
        if re.search(r"\b%s\(\)" % re.escape(n), text):
            out.append("pub open spec fn %s() -> Seq<int> { %s }" % (n, trans.literal_seq(b)))
    return "\n".join(out) + "\n"


def expand_lits(text):
    return Unit(None).lits(text)


def sig(con):
    ps = []
    for p in con.cparams:
        if not p.alias:
            ps.append("Ghost(%s_in): Ghost<%s>" % (p.name, vty(p.t)))
    for x in trans.GLOBALS_ORDER:
        if x in con.reads or x in con.modifies:
            ps.append("Ghost(%s_in): Ghost<%s>" % (x, GROOT[x]))
    rt = [vty(con.ret)] + [vty(p.t) for p in con.cparams if p.inout] + [GROOT[x] for x in con.modifies] + (["int"] if con.throws else [])
    return ps, "Ghost<(%s,)>" % ", ".join(rt)


def bind(con, text):
    """names of results inside ensures"""
    names = ["ret"] + [p.name + "_out" for p in con.cparams if p.inout] + [x + "_out" for x in con.modifies] + (["threw"] if con.throws else [])
    for i, n in enumerate(names):
        text = re.sub(r"(?<![\w.])%s\b" % n, "res@.%d" % i, text)
    return text


def clauses(con):
    """[(label, property, text)]: (label, text) or (label, text, property)"""
    out = []
    for e in con.ens:
        lab, txt = e[0], e[1]
        pr = e[2] if len(e) > 2 else con.prop
        out.append((lab, pr, txt))
    return out


def stub(con, u):
    ps, rt = sig(con)
    s = "#[verifier::external_body]\npub fn %s(%s) -> (res: %s)\n" % (con.vname, ", ".join(ps), rt)
    if con.req:
        s += "    requires\n"
        for q in con.req:
            m = ""
            if not isinstance(q, str):
                o = u.obligation(con.name, "precondition", "%s: %s" % (con.name, q[0]))
                o.prop, o.kind = q[2], "return"
                m = " /*@Q%d*/" % o.oid
            s += "        %s,%s\n" % (u.lits(q if isinstance(q, str) else q[1]).replace("\n", " "), m)
    if con.ens:
        s += "    ensures\n" + "".join("        %s,\n" % bind(con, u.lits(t)) for _, _, t in clauses(con))
    return s + "{ unimplemented!() }\n"


class VResult:
    def __init__(self):
        self.status, self.reason, self.failed, self.obligations, self.discharged, self.time, self.output = "undecided", "", [], 0, 0, 0.0, ""
        self.text = ""
        self.props = {}


def find_node(con):
    tu = astload.load(con.tu)
    c = tu.funcs.get(con.cxxname, [])
    if con.qt:
        c = [n for n in c if norm(n["type"]["qualType"]) == norm(con.qt)]
    c = [n for n in c if len([x for x in n.get("inner", []) if x["kind"] == "ParmVarDecl"]) == con.nparams]
    if con.name.split("/")[0] != con.name:      # a template: any instantiation
        c = [n for n in c if n.get("mangledName")][:1]
    # several redeclarations of the same body are one
    uniq = {}
    for n in c:
        uniq.setdefault((n.get("mangledName"), n["type"]["qualType"]), n)
    c = list(uniq.values())
    if len(c) != 1:
        raise Unsupported("%d definitions of %s in %s" % (len(c), con.cxxname, con.tu))
    return tu, c[0]


def build_file(con):
    load_contracts()
    load_records()
    u = Unit(con)
    tu, node = find_node(con)
    f = Fn(u, tu, node, con)
    body = f.translate()
    USED[con.name] = sorted(u.used)
    seen = set()
    spec = open(os.path.join(CDIR, "prelude.rs")).read()
    groups = [con.group] + [CONTRACTS[x].group for x in sorted(u.used)]
    gt = "".join(group_text(g, seen) for g in groups)
    stubs = "\n".join(stub(CONTRACTS[x], u) for x in sorted(u.used))
    ps, rt = sig(con)
    fn = "%s\npub fn F_%s(%s) -> (res: %s)\n" % ("" if con.isolate else "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]", con.vname, ", ".join(ps), rt)
    if con.req:
        fn += "    requires\n" + "".join("        %s,\n" % u.lits(q if isinstance(q, str) else q[1]) for q in con.req)
    ens = []
    for lab, pr, t in clauses(con):
        o = u.obligation(con.name, "postcondition", lab)
        o.prop = pr
        ens.append("        %s, /*@O%d*/\n" % (bind(con, u.lits(t)).replace("\n", " "), o.oid))
    if ens:
        fn += "    ensures\n" + "".join(ens)
    fn += "{\n" + "".join("    hide(%s);\n" % h for h in con.hide) + "\n".join(body) + "\n}\n"
    main = expand_lits(struct_text() + gt) + stubs + fn
    if "LITERALS" in con.hide:
        main = main.replace("    hide(LITERALS);\n", "".join("    hide(%s);\n" % x for x in sorted(set(re.findall(r"\b(L_\w+)\(\)", main)))))
    text = "#![allow(unused)]\nuse vstd::prelude::*;\nverus! {\n" + spec + lit_text(main) + main + "\n}\nfn main() {}\n"
    return u, f, text


def run_verus(path, timeout, rlimit, fn=None, extra=()):
    cmd = ["verus", "--error-format=json", "--rlimit", str(rlimit), "--num-threads", "1", "--output-json", path]
    if fn:
        cmd[1:1] = ["--verify-root", "--verify-function", fn]
    t0 = time.time()
    p = subprocess.Popen(cmd + list(extra), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(path), start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)        # with its solver
        p.communicate()
        return None, [], "", time.time() - t0, cmd
    msgs = []
    for l in err.decode(errors="replace").splitlines():
        if l.startswith("{"):
            try:
                msgs.append(json.loads(l))
            except ValueError:
                pass
    summary = None
    try:
        summary = json.loads(out.decode())
    except ValueError:
        pass
    return summary, msgs, err.decode(errors="replace"), time.time() - t0, cmd


def classify(u, text, summary, msgs, r, fname):
    lines = text.splitlines()
    mark = {}
    for i, l in enumerate(lines, 1):
        m = re.findall(r"/\*@O(\d+)\*/", l)
        if m:
            mark[i] = [int(x) for x in m]
    errs = [m for m in msgs if m.get("level") == "error" and m.get("message", "").strip() and not m["message"].startswith("aborting")]
    vr = (summary or {}).get("verification-results", {})
    r.obligations = len([o for o in u.obls if o.kind != "return"])
    if summary is None or "verified" not in vr or vr.get("encountered-vir-error") or vr.get("encountered-error") and not vr.get("verified") and not vr.get("errors"):
        r.reason = "verus: " + "; ".join(e["message"] for e in errs)[:800]
        return r
    bad = {}
    und = []
    for e in errs:
        msg = e["message"]
        sp = [s for s in e.get("spans", [])]
        ids = []
        for s in sorted(sp, key=lambda s: not s.get("is_primary")):
            for ln in range(s["line_start"], s["line_end"] + 1):
                ids += mark.get(ln, [])
        if "rlimit" in msg.lower() or "resource limit" in msg.lower():
            und.append(msg)
            continue
        lab = [u.obls[i] for i in ids]
        if "postcondition" in msg:
            lab = [o for o in lab if o.kind == "postcondition"] or lab
        elif "precondition" in msg:
            for x in sp:
                for q in re.findall(r"/\*@Q(\d+)\*/", lines[x["line_start"] - 1]):
                    lab = [u.obls[int(q)]]
                    lab[0].kind = "precondition"
            lab = [o for o in lab if o.kind == "precondition"] or lab
        key = (lab[0].oid if lab else msg)
        name = "%s: %s" % (lab[0].kind, lab[0].what) if lab else msg + ": " + (sp[0]["text"][0]["text"].strip() if sp and sp[0].get("text") else "")
        bad[key] = (name, lab[0] if lab else None, e.get("rendered", "")[:1500])
    if und:
        r.reason = und[0]
        return r
    r.failed = [(n, rend, getattr(o, "prop", "") if o is not None else "") for n, o, rend in bad.values()]
    r.discharged = max(0, r.obligations - len(bad))
    r.status = "failed" if bad else ("proved" if vr.get("errors") == 0 and vr.get("verified", 0) > 0 else "undecided")
    return r


def verify(con, workdir, timeout=240):
    r = VResult()
    t0 = time.time()
    try:
        u, f, text = build_file(con)
    except Unsupported as e:
        r.reason = "extraction: %s" % e
        return r
    except (KeyError, IndexError, TypeError, AttributeError, RuntimeError, ValueError) as e:
        import traceback
        r.reason = "extraction: %s" % (traceback.format_exc().strip().splitlines()[-1],)
        r.output = traceback.format_exc()
        return r
    path = os.path.join(workdir, "F_%s.rs" % con.vname)
    with open(path, "w") as fo:
        fo.write(text)
    r.text = path
    s, msgs, raw, dt, cmd = run_verus(path, timeout, con.rlimit, "F_" + con.vname)
    r.cmd = " ".join(cmd).replace(workdir + "/", "")
    r.output = raw
    if s is None and not msgs:
        r.reason = "timeout" if dt >= timeout - 1 else "verus: " + raw[-500:]
        r.time = time.time() - t0
        return r
    classify(u, text, s, msgs, r, con.vname)
    r.time = time.time() - t0
    return r


def verify_group(g, workdir, timeout=240):
    """the lemmas of a group"""
    load_contracts()
    load_records()
    r = VResult()
    t0 = time.time()
    seen = set()
    deps = "".join(group_text(d, seen) for d in GROUPS[g]["deps"])
    own = group_text(g, seen)
    names = re.findall(r"proof fn (\w+)", own)
    if deps:
        # the lemmas of the groups below are verified with those groups
        own = "pub mod own {\nuse vstd::prelude::*;\nuse super::*;\n" + own + "}\n"
    main = expand_lits(struct_text() + deps + own)
    text = "#![allow(unused)]\nuse vstd::prelude::*;\nverus! {\n" + open(os.path.join(CDIR, "prelude.rs")).read() + lit_text(main) + main + "\n}\nfn main() {}\n"
    path = os.path.join(workdir, "G_%s.rs" % g)
    with open(path, "w") as fo:
        fo.write(text)
    s, msgs, raw, dt, cmd = run_verus(path, timeout, 60, extra=("--verify-module", "own") if deps else ())
    r.cmd = " ".join(cmd).replace(workdir + "/", "")
    r.output, r.time, r.text = raw, dt, path
    vr = (s or {}).get("verification-results", {})
    r.obligations = len(names)
    if s is None or vr.get("errors") != 0 or vr.get("encountered-vir-error") or vr.get("verified", 0) < len(names) or any(m.get("level") == "error" for m in msgs):
        r.reason = "lemmas of %s: %s" % (g, "; ".join(m.get("message", "") for m in msgs if m.get("level") == "error")[:600])
        return r
    r.status, r.discharged = "proved", len(names)
    return r


if __name__ == "__main__":
    import sys, tempfile
    load_contracts()
    wd = os.environ.get("VW", "/tmp/x/vw")
    os.makedirs(wd, exist_ok=True)
    from concurrent.futures import ThreadPoolExecutor

    def one(a):
        if a.startswith("g:"):
            return a, verify_group(a[2:], wd)
        return a, verify(CONTRACTS[a], wd)
    names = sys.argv[1:]
    if names == ["all"]:
        names = ["g:" + g for g in GROUPS] + [n for n, c in CONTRACTS.items() if not c.axiom]
    with ThreadPoolExecutor(6) as ex:
        for a, r in ex.map(one, names):
            print("%-50s %-10s %d/%d %.1fs %s" % (a, r.status, r.discharged, r.obligations, r.time, r.reason))
            for x in r.failed:
                print("   FAILED", x[0])
                if os.environ.get("V"):
                    print(x[1])
