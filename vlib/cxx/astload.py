"""Load the clang AST of one translation unit of /repo/src (only the parts the
translator needs), by name filters, so that the standard headers are parsed but
not dumped."""
import hashlib, json, os, pickle, re, subprocess, threading
from .. import build

FILTERS = ("(anonymous", "gendlopen::", "utils::", "parse::", "save::", "cio::", "open_file::", "lex::", "yylex", "help::", "yyset_in", "set_illegal_char")
_cache = {}


def _docs(s):
    d = json.JSONDecoder()
    i, n = 0, len(s)
    while True:
        while i < n and s[i] in " \n\r\t":
            i += 1
        if i >= n:
            return
        o, i = d.raw_decode(s, i)
        yield o


def clang_cmd(src, flt):
    return ["clang++", "-std=c++23", "-DHAVE_PROGRAM_INVOCATION_SHORT_NAME", "-I" + build.SRC, "-fsyntax-only", "-w",
            "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, src]


def _run_filters(src, flts):
    ps = [subprocess.Popen(clang_cmd(src, f), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for f in flts]
    outs = [None] * len(ps)

    def rd(i):
        outs[i] = ps[i].communicate()[0]
    ts = [threading.Thread(target=rd, args=(i,)) for i in range(len(ps))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if any(p.returncode for p in ps):
        raise RuntimeError("clang cannot parse " + src)
    return [o.decode(errors="replace") for o in outs]


class TU:
    def __init__(self, name, flts=FILTERS):
        self.name = name
        self.funcs = {}      # name -> [node with a body]
        self.decls = {}      # name -> [FunctionDecl nodes without a body]
        self.records = {}    # name -> [(field, type node, node)]
        self.vars = {}       # namespace-scope variables
        self.types = {}      # id of a function declaration -> its type
        src = os.path.join(build.SRC, name)
        seen = set()
        for out in _run_filters(src, flts):
            for d in _docs(out):
                self._walk(d, seen)

    def _walk(self, n, seen, tmpl=False):
        k = n.get("kind")
        inner = n.get("inner", [])
        if k in ("FunctionDecl", "CXXMethodDecl"):
            has = any(c.get("kind") == "CompoundStmt" for c in inner)
            self.types[n.get("id")] = n.get("type", {}).get("qualType", "")
            key = (n.get("mangledName"), n.get("name"), has, n.get("type", {}).get("qualType"))
            if key in seen:
                return
            seen.add(key)
            if tmpl and not n.get("mangledName"):
                pass                      # the uninstantiated pattern
            (self.funcs if has else self.decls).setdefault(n["name"], []).append(n)
            return
        if k == "CXXRecordDecl" and n.get("completeDefinition"):
            self.records.setdefault(n.get("name", ""), [(c["name"], c) for c in inner if c.get("kind") == "FieldDecl" and "name" in c])
        if k == "VarDecl" and "name" in n:
            self.vars.setdefault(n["name"], n)
        for c in inner:
            if isinstance(c, dict):
                self._walk(c, seen, tmpl or k == "FunctionTemplateDecl")


def _key(name, flts):
    h = hashlib.sha256((name + repr(flts)).encode())
    for f in sorted(os.listdir(build.SRC)):
        if f.endswith((".cpp", ".hpp", ".h")):
            h.update(f.encode() + open(os.path.join(build.SRC, f), "rb").read())
    h.update(open(__file__, "rb").read())
    return h.hexdigest()[:24]


def _load(name, flts):
    with _glock:
        lk = _locks.setdefault((name, flts), threading.Lock())
    with lk:
        if (name, flts) in _cache:
            return _cache[(name, flts)]
        cd = os.environ.get("VERIF_CACHE")
        p = cd and os.path.join(cd, "ast-%s.pickle" % _key(name, flts))
        if p and os.path.exists(p):
            with open(p, "rb") as f:
                t = pickle.load(f)
        else:
            t = TU(name, flts)
            if p:
                os.makedirs(cd, exist_ok=True)
                tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
                with open(tmp, "wb") as f:
                    pickle.dump(t, f)
                os.replace(tmp, p)
        _cache[(name, flts)] = t
        return t


def load(name):
    return _load(name, FILTERS)


def record(tu, rec):
    return _load(tu, (rec,)).records.get(rec)


_glock = threading.Lock()
_locks = {}


def enum_values(pairs):
    """values of macros / enumerators, from the compiler"""
    key = tuple(sorted(set(pairs)))
    if key in _cache:
        return _cache[key]
    src = '#include <stdio.h>\n#include "gendlopen.hpp"\n#include "lex.h"\nint main() {\n'
    for k in key:
        src += '  printf("%s=%%ld\\n", (long)(%s));\n' % (k, k)
    src += "}\n"
    import tempfile
    d = tempfile.mkdtemp(dir=build.scratch())
    f = os.path.join(d, "e.cpp")
    with open(f, "w") as fo:
        fo.write(src)
    p = subprocess.run(["g++", "-std=gnu++23", "-w", "-I" + build.SRC, f, "-c", "-o", f + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError("enum values: " + p.stdout.decode()[-500:])
    subprocess.run(["g++", f + ".o", "-o", f + ".x"], check=True)
    out = subprocess.run([f + ".x"], stdout=subprocess.PIPE, check=True).stdout.decode()
    _cache[key] = dict((l.rsplit("=", 1)[0], int(l.rsplit("=", 1)[1])) for l in out.splitlines())
    return _cache[key]
