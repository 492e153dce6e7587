"""Mechanical translation of the C++ functions of /repo/src (clang AST) into Verus
functions over mathematical values, with the contracts and loop invariants of
contracts/cxx/*.py woven in.

  std::string -> Seq<int>       std::vector<T> -> Seq<T>       iterator -> index
  char, int, size_t, enum -> int (mathematical; wrap-around of unsigned subtraction
      and out-of-range positions are obligations)
  const char * (NUL-terminated) -> Seq<int> of the characters before the NUL
  T & parameter -> value in, value out          save::ofs << x -> ofs = ofs + text(x)
  throw -> return with threw = <kind>           std::cerr -> dropped
Functions without a contract and lambdas are inlined.  Anything else is
`Unsupported', which makes the obligations of that function undecided.
"""
import re


class Unsupported(Exception):
    pass


class Impure(Exception):
    """an expression that was tried as a pure one has side effects"""


# ---------------------------------------------------------------- types
INT, BOOL, STR, ITER, CSTR, VOID, OPQ = ("int",), ("bool",), ("str",), ("iter",), ("cstr",), ("void",), ("opaque",)


TPTR = ("tptr", ("st", "Template"))     # const template_t *: what the pointer and the elements behind it hold


# a FILE pointer: 0 none, 1 standard input, 2 a file; the characters still to be read are the global `cin'
FILEP = ("file",)


def vec(t):
    return ("vec", t)


STRUCTS = {"proto_t": "Proto", "_proto": "Proto", "template_t": "Template", "_template": "Template", "entry_t": "Entry",
           "_entry": "Entry", "gendlopen": "Gdo", "seq_t": "SeqPat", "_seq": "SeqPat"}
ALIASES = {"vstring_t": vec(STR), "vproto_t": vec(("st", "Proto")), "ventry_t": vec(("st", "Entry")), "iter_t": ITER,
           "list_t": vec(CSTR), "vtemplate_t": vec(TPTR)}
INTS = {"char", "int", "size_t", "unsigned long", "long", "unsigned int", "unsigned char", "size_type", "difference_type", "value_type",
        "std::size_t", "ptrdiff_t", "std::string::value_type", "long long", "unsigned", "short", "signed char", "unsigned long long"}


def strip_cv(q):
    q = q.strip()
    while True:
        o = q
        q = re.sub(r"^(const|volatile|typename|struct|class|enum)\s+", "", q)
        q = re.sub(r"\s*(&&|&)$", "", q)
        q = re.sub(r"\s+(const|volatile)$", "", q)
        if q == o:
            return q


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_type(q):
    q = strip_cv(q)
    q = re.sub(r"\(anonymous namespace\)::", "", q)
    if q in STRUCTS:
        return ("st", STRUCTS[q])
    if q in ALIASES:
        return ALIASES[q]
    if q == "bool":
        return BOOL
    if q == "void":
        return VOID
    if q in INTS:
        return INT
    if re.match(r"^(std::)?(__cxx11::)?(string|basic_string<char(, .*)?>)$", q):
        return STR
    if re.match(r"^(std::filesystem::|fs::)(__cxx11::)?path$", q):
        return STR
    if re.match(r"^(std::filesystem::|fs::)?file_status$", q):
        return ("fstat",)
    if re.match(r"^char( const)?\s*\*( const)?$", q) or re.match(r"^(const )?char\s*\[\d*\]$", q) or re.match(r"^char\s*\(&?\)\s*\[\d+\]$", q):
        return CSTR
    if q in ("std::smatch", "std::match_results<std::__cxx11::basic_string<char>::const_iterator>", "smatch"):
        return vec(STR)
    m = re.match(r"^(std::)?(vector|list|initializer_list)<(.*)>$", q)
    if m and not q.endswith(">::iterator"):
        return vec(parse_type(split_targs(m.group(3))[0]))
    if "__normal_iterator<" in q or q.endswith("iterator") or "_List_iterator" in q or "_List_const_iterator" in q:
        return ITER
    if re.match(r"^(proto::type|output::format|param::names|filter::mode|templates::name|proto|type|names|mode|format)$", q):
        return INT
    if re.match(r"^(FILE|_IO_FILE)\s*\*( const)?$", q):
        return FILEP
    if q in ("time_t", "__time_t"):
        return INT
    m = re.match(r"^(vstring_t|std::vector<(?:std::)?string>|std::vector<std::__cxx11::basic_string<char>>)\s*\*( const)?$", q)
    if m:
        return ("opt", vec(STR))
    m = re.match(r"^(?:const )?(_?template|template_t)\s*\*( const)?$", q)
    if m:
        return TPTR
    return ("opaque", q)


def node_type(n):
    t = n.get("type", {})
    q = t.get("qualType", "")
    if re.search(r"\bvalue_type\b", q) and t.get("desugaredQualType"):
        q = t["desugaredQualType"]
    a = parse_type(q)
    if a[0] == "opaque" and t.get("desugaredQualType"):
        b = parse_type(t["desugaredQualType"])
        if b[0] != "opaque":
            return b
    return a


def vty(t):
    k = t[0]
    if k in ("int", "iter", "file"):
        return "int"
    if k in ("bool", "fstat"):
        return "bool"
    if k in ("str", "cstr"):
        return "Seq<int>"
    if k in ("vec", "tptr"):
        return "Seq<%s>" % vty(t[1])
    if k == "st":
        return t[1]
    if k == "void":
        return "()"
    if k == "opt":
        return "Option<%s>" % vty(t[1])
    if k == "ghost":
        return t[1]
    raise Unsupported("type %s" % (t,))


def default(t):
    k = t[0]
    if k in ("str", "cstr"):
        return "Seq::<int>::empty()"
    if k in ("vec", "tptr"):
        return "Seq::<%s>::empty()" % vty(t[1])
    if k == "st":
        return "%s_default()" % t[1].lower()
    if k == "void":
        return "()"
    return "arbitrary::<%s>()" % vty(t)


# the state outside a function that contracts name: the object, the output file, standard output and input, the lexer
GLOBALS_ORDER = ("g", "ofs", "cout", "cin", "lx", "fs", "tp", "td")


# ---------------------------------------------------------------- values
class V:
    def __init__(self, s, t, prov=None, lv=None, lit=None):
        self.s, self.t, self.prov, self.lv, self.lit = s, t, prov, lv, lit

    def __repr__(self):
        return "V(%s:%s)" % (self.s, self.t)


class LV:
    """an lvalue: a ghost variable and a path of fields and indices into it"""
    def __init__(self, root, path, t, prov=None):
        self.root, self.path, self.t, self.prov = root, tuple(path), t, prov
        self.same = {}          # another container -> condition under which this is the same one

    def key(self):
        return (self.root, self.path)

    def get(self, upto=None):
        s = self.root
        for k, x in self.path[:upto]:
            s = s + "." + x if k == "f" else "%s->Some_0" % s if k == "o" else "%s[%s]" % (s, x)
        return s

    def field(self, f, t):
        return LV(self.root, self.path + (("f", f),), t)

    def index(self, i, t):
        return LV(self.root, self.path + (("i", i),), t)

    def updated(self, val, structs):
        return self._upd(0, self.root, val, structs)

    def _upd(self, d, base, val, structs):
        if d == len(self.path):
            return val
        k, x = self.path[d]
        if k == "f":
            st = structs["owner"](self, d)
            inner = self._upd(d + 1, "%s.%s" % (base, x), val, structs)
            return "%s { %s: %s, ..%s }" % (st, x, inner, base)
        if k == "o":
            return "Some(%s)" % self._upd(d + 1, "%s->Some_0" % base, val, structs)
        inner = self._upd(d + 1, "%s[%s]" % (base, x), val, structs)
        return "%s.update(%s, %s)" % (base, x, inner)

    def same_root(self, other):
        return self.root == other.root


class PtrTo:
    """a local pointer to an lvalue, NULL unless the condition holds"""
    def __init__(self, lv, cond):
        self.lv, self.cond = lv, cond


# std::regex expressions with a specification (contracts/cxx/*.rs): condition of a full match, the groups
REGEX = {"(.*?):(.*)": ("re_pair(%s)", ["re_first(%s)", "re_second(%s)"]),
         "^[|`]-FunctionDecl 0x.*? ([a-zA-Z0-9_]*?) '(.*?)'.*": ("re_func(%s)", ["re_func_sym(%s)", "re_func_type(%s)"]),
         "^[|`]-VarDecl 0x.*? ([a-zA-Z0-9_]*?) '(.*?)'.*": ("re_var(%s)", ["re_var_sym(%s)", "re_var_type(%s)"]),
         "^[| ] [|`]-ParmVarDecl 0x.*? '(.*?)'.*": ("re_parm(%s)", ["re_parm_type(%s)"])}
# the three patterns of replace_prefixes: the prefix at the beginning of an identifier (after an optional underscore)
REGEX_REPLACE = {"(([^a-zA-Z0-9_]|^)[_]?)(GDO_)": "re_gdo_upper(%s, %s)", "(([^a-zA-Z0-9_]|^)[_]?)(gdo_)": "re_gdo_lower(%s, %s)",
                 "([^a-zA-Z0-9_]|^)(gdo)(?=[^a-zA-Z0-9_]|$)": "re_gdo(%s, %s)"}      # regex_replace(text, reg, format)
REGEX_ERASE = {"\\x1B\\[[0-9;]*m": "no_ansi(%s)"}      # regex_replace(text, reg, "")


class Stream:
    """a local cio::ofstream: the text written to it since it was opened"""
    def __init__(self, root):
        self.root = root


class OpenFile:
    """a local open_file"""
    def __init__(self, var):
        self.var = var


class OptParser:
    """a local opt (opt_parser++.hpp): the ghost variable and what the error handler throws"""
    def __init__(self, var, kind):
        self.var, self.kind = var, kind


class Regex:
    def __init__(self, pat):
        self.pat = pat


def find_literal(n):
    """the string literals below n"""
    out = []
    if n.get("kind") == "StringLiteral":
        return [decode_cstr(n["value"]).decode("latin1")]
    for c in n.get("inner", []):
        if isinstance(c, dict):
            out += find_literal(c) or []
    return out


def find_kind(n, k):
    """the first node of kind k at or below n"""
    if n.get("kind") == k:
        return n
    for c in n.get("inner", []):
        if isinstance(c, dict):
            r = find_kind(c, k)
            if r is not None:
                return r
    return None


class Lambda:
    def __init__(self, node):
        self.node = node


# field renames (Rust keywords)
KW = {"type": "type_", "mod": "mod_", "end": "end", "loop": "loop_", "ref": "ref_", "box": "box_", "move": "move_", "match": "match_",
      "in": "in_", "fn": "fn_", "let": "let_", "str": "str_", "int": "int_", "is": "is_", "has": "has_", "self": "self_", "tracked": "tracked_",
      "ghost": "ghost_", "proof": "proof_", "spec": "spec_", "exec": "exec_", "use": "use_", "as": "as_", "char": "char_", "closed": "closed_",
      "open": "open_", "by": "by_", "via": "via_", "mut": "mut_", "pub": "pub_", "nat": "nat_", "bool": "bool_", "final": "final_", "old": "old_"}


def rid(n):
    return KW.get(n, n)


STRUCT_FIELDS = {}   # Verus struct -> [(field, type)]


def literal_seq(b):
    if not b:
        return "Seq::<int>::empty()"
    return "seq![%s]" % ", ".join("%dint" % (c if c < 128 else c - 256) for c in b)


_LITS = {}


def lit_name(b):
    if b not in _LITS:
        base = "L_" + (re.sub(r"[^A-Za-z0-9]+", "_", b.decode("latin1"))[:24].strip("_") or "x")
        names = set(_LITS.values())
        n, k = base, 1
        while n in names:
            k += 1
            n = "%s_%d" % (base, k)
        _LITS[b] = n
    return _LITS[b]


def literal(b):
    """short literals are written out; long ones are named (opaque)"""
    if len(b) <= 3:
        return literal_seq(b)
    return lit_name(b) + "()"


def decode_cstr(v):
    v = v[v.index('"') + 1:v.rindex('"')]
    out = bytearray()
    i = 0
    bs = v.encode("utf-8", "surrogateescape")
    esc = {b"n": 10, b"t": 9, b"r": 13, b"\\": 92, b'"': 34, b"'": 39, b"0": 0, b"a": 7, b"b": 8, b"f": 12, b"v": 11, b"?": 63}
    while i < len(bs):
        c = bs[i:i + 1]
        if c == b"\\":
            i += 1
            c = bs[i:i + 1]
            if c == b"x":
                m = re.match(rb"[0-9A-Fa-f]+", bs[i + 1:])
                out.append(int(m.group(0), 16) & 255)
                i += 1 + len(m.group(0))
                continue
            m = re.match(rb"[0-7]{1,3}", bs[i:])
            if m:
                out.append(int(m.group(0), 8) & 255)
                i += len(m.group(0))
                continue
            out.append(esc[c])
            i += 1
            continue
        out += c
        i += 1
    return bytes(out)


class Obligation:
    def __init__(self, oid, fn, kind, what):
        self.oid, self.fn, self.kind, self.what = oid, fn, kind, what


PURE = {"isalnum": ("is_alnum", BOOL), "isspace": ("is_space", BOOL), "toupper": ("to_upper_c", INT), "tolower": ("to_lower_c", INT),
        "isgraph": ("is_graph", BOOL)}


class Fn:
    """translate one function"""

    def __init__(self, unit, tu, node, con):
        self.unit, self.tu, self.node, self.con = unit, tu, node, con
        self.lines = []
        self.ind = 1
        self.env = {}
        self.names = {}
        self.locals = []         # (C++ name, type, verus name) in declaration order
        self.loopn = 0
        self.loops = []          # active loops: dict(cont=[lines emitted before continue])
        self.exits = []          # emulated exits (switch / inlined functions)
        self.tmp = 0
        self.roots = {}          # verus root var -> type
        self.modified = set()
        self.inline_stack = []
        self.nobl = 0
        self.cout = None
        self.loop_info = []

    # ---- output
    pure_asserts = None      # collects (condition, obligation) while an expression is tried as a pure one

    def emit(self, s):
        if self.pure_asserts is not None:
            raise Impure()
        self.lines.append("    " * self.ind + s)

    def try_pure(self, f):
        """evaluate without emitting statements -> (value, [(cond, oid)]) or None"""
        names, nobl, mark, roots, outer = dict(self.names), self.nobl, self.unit.mark(), dict(self.roots), self.pure_asserts
        modified, used = set(self.modified), set(self.unit.used)
        stack, exits, loops, locs, env, disc = list(self.inline_stack), list(self.exits), self.loops, len(self.locals), dict(self.env), getattr(self, "discard", False)
        self.pure_asserts = []
        try:
            v = f()
            return v, self.pure_asserts
        except (Impure, Unsupported):
            self.names, self.nobl, self.roots, self.modified = names, nobl, roots, modified
            del self.unit.obls[mark:]
            self.inline_stack, self.exits, self.loops, self.env, self.discard = stack, exits, loops, env, disc
            del self.locals[locs:]
            self.unit.used.intersection_update(used)
            return None
        finally:
            self.pure_asserts = outer

    def assert_all(self, lst, guard=None):
        for c, oid in lst:
            c = c if guard is None else "%s ==> (%s)" % (paren(guard), c)
            if self.pure_asserts is not None:
                self.pure_asserts.append((c, oid))
            else:
                self.emit("proof { assert(%s); } /*@O%d*/" % (c, oid))

    def assign(self, var, val):
        self.modified.add(var)
        self.emit("proof { %s = %s; }" % (var, val))

    def fresh(self, base):
        base = rid(re.sub(r"\W", "_", base))
        n = base
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return n if k == 0 else "%s_%d" % (base, k + 1)

    def oblige(self, cond, what):
        if cond in ("true", ""):
            return
        o = self.unit.obligation(self.con.name, "safety", what)
        self.nobl += 1
        self.assert_all([(cond, o.oid)])

    def let(self, base, val, t):
        n = self.fresh(base)
        self.roots[n] = t
        self.emit("let ghost mut %s: %s = %s;" % (n, vty(t), val))
        return n

    def temp(self, val, t):
        if re.match(r"^[A-Za-z_][\w.]*$|^-?\d+$", val):
            pass
        n = self.fresh("t")
        self.roots[n] = t
        self.emit("let ghost %s: %s = %s;" % (n, vty(t), val))
        return V(n, t)

    # ---- lvalues
    def owner(self, lv, depth):
        t = self.roots[lv.root]
        for k, x in lv.path[:depth]:
            t = dict(STRUCT_FIELDS[t[1]])[x] if k == "f" else t[1]
        return t[1]

    def set(self, lv, val):
        if lv.root in self.readonly and not lv.root.startswith("local:"):
            raise Unsupported("assignment to a read-only parameter %s" % lv.root)
        self.modified.add(lv.root)
        self.emit("proof { %s = %s; }" % (lv.root, lv.updated(val, {"owner": self.owner})))

    # ---- conversions
    def as_bool(self, v):
        if v.t == BOOL:
            return v.s
        if v.t == INT:
            return "(%s != 0)" % v.s
        if v.t[0] == "opt":
            return "(%s is Some)" % v.s
        raise Unsupported("to bool from %s" % (v.t,))

    def as_int(self, v):
        if v.t == BOOL:
            return "(if %s { 1int } else { 0int })" % v.s
        return v.s

    def as_str(self, v):
        if v.t in (STR, CSTR):
            return v.s
        raise Unsupported("string from %s" % (v.t,))

    def unwrap(self, v):
        """a pointer to text that may be NULL, where it must not be"""
        if v.t[0] == "opt" and v.t[1] in (CSTR, STR):
            self.oblige("%s is Some" % v.s, "pointer is not NULL")
            return V("(%s)->Some_0" % v.s, v.t[1])
        return v

    def char_or_str(self, v):
        """an argument that may be a char or a string, as a sequence"""
        if v.t in (STR, CSTR):
            return v.s
        if v.t == INT:
            return "seq![%s]" % v.s
        raise Unsupported("text from %s" % (v.t,))

    # ---- expressions
    SKIP = ("ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr",
            "FullExpr")

    def peel(self, n):
        while n.get("kind") in self.SKIP or (n.get("kind") == "ImplicitCastExpr" and n.get("castKind") in
                                             ("NoOp", "LValueToRValue", "ArrayToPointerDecay", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ConstructorConversion",
                                              "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase")) or \
                (n.get("kind") in ("CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr") and n.get("castKind") in ("NoOp", "ConstructorConversion")):
            n = [c for c in n["inner"] if c.get("kind") not in ("NonTypeTemplateParmDecl",)][-1]
        return n

    def lvalue(self, n):
        """-> LV or None"""
        n = self.peel(n)
        k = n.get("kind")
        if k == "DeclRefExpr":
            rd = n["referencedDecl"]
            b = self.env.get(rd["id"])
            if isinstance(b, LV):
                return b
            if rd["kind"] == "VarDecl":
                return self.template_var(rd)
            return None
        if k == "MemberExpr":
            base = n["inner"][0]
            if self.peel(base).get("kind") == "CXXThisExpr":
                return self.this_field(n)
            b = self.lvalue(base)
            if b is None:
                return None
            if b.t[0] == "tptr" and n.get("isArrow"):
                self.oblige("%s.len() > 0" % b.get(), "pointer to an element")
                b = b.index("0", b.t[1])
            return b.field(rid(n["name"]), self.field_type(b.t, rid(n["name"])))
        if k == "UnaryOperator" and n.get("opcode") == "*":
            return self.deref(n["inner"][0])
        if k == "CXXOperatorCallExpr":
            op = self.opname(n)
            if op == "*" and len(n["inner"]) == 2:
                return self.deref(n["inner"][1])
            if op == "->":
                return self.deref(n["inner"][1])
            if op == "[]":
                b = self.lvalue(n["inner"][1])
                if b is None:
                    return None
                i = self.ex(n["inner"][2])
                if b.t[0] == "vec":
                    self.oblige("0 <= %s < %s.len()" % (i.s, b.get()), "index within the container")
                    return b.index(self.freeze(i).s, b.t[1])
                if b.t == STR:
                    return None
        if k == "CXXMemberCallExpr":
            m = n["inner"][0]
            if m.get("kind") == "MemberExpr" and m["name"] in ("front", "back", "at", "data"):
                b = self.lvalue(m["inner"][0])
                if b is not None and b.t[0] in ("vec", "str"):
                    et = INT if b.t == STR else b.t[1]
                    if m["name"] == "at":
                        i = self.freeze(self.ex(n["inner"][1]))
                        self.oblige("0 <= %s < %s.len()" % (i.s, b.get()), "at(): position within the container")
                        return b.index(i.s, et)
                    if m["name"] == "data":
                        return None
                    self.oblige("%s.len() > 0" % b.get(), m["name"] + "() on a non-empty container")
                    return b.index("0" if m["name"] == "front" else "%s.len() - 1" % b.get(), et)
        if k == "ArraySubscriptExpr":
            return None
        return None

    def template_var(self, rd):
        """templates::ptr_NAME, templates::data_NAME: element NAME of the table of templates"""
        m = re.match(r"^(ptr|data)_(\w+)$", rd["name"])
        if not m or node_type(rd) not in (TPTR, vec(("st", "Template"))):
            return None
        r = "tp" if m.group(1) == "ptr" else "td"
        if r not in self.con.reads and r not in self.con.modifies:
            raise Unsupported("templates")
        return LV(r, (("i", self.unit.enum("templates::file_" + m.group(2))),), self.roots[r][1])

    def freeze(self, v):
        """an index that is later used in a path must not change"""
        if re.match(r"^\d+(int)?$", v.s) or self.pure_asserts is not None:
            return v
        return self.temp(v.s, v.t)

    def deref(self, n):
        v = self.ex(n)
        if v.t == ITER:
            if v.prov is None:
                raise Unsupported("iterator of an unknown container")
            self.oblige("0 <= %s < %s.len()" % (v.s, v.prov.get()), "dereferenced iterator points to an element")
            et = v.prov.t[1] if v.prov.t[0] == "vec" else INT
            return v.prov.index(self.freeze(v).s, et)
        if v.t[0] == "tptr":
            lv = self.lvalue(n)
            if lv is not None:
                self.oblige("%s.len() > 0" % lv.get(), "pointer to an element")
                return lv.index("0", v.t[1])
        return None

    def this_field(self, n):
        f = rid(n["name"])
        if f not in dict(STRUCT_FIELDS["Gdo"]):
            raise Unsupported("member " + f)
        return LV("g", (("f", f),), self.field_type(("st", "Gdo"), f))

    def field_type(self, t, f):
        if t[0] != "st":
            raise Unsupported("field %s of %s" % (f, t))
        return dict(STRUCT_FIELDS[t[1]])[f]

    def opname(self, n):
        c = self.peel(n["inner"][0])
        if c.get("kind") == "DeclRefExpr":
            return c["referencedDecl"]["name"].replace("operator", "")
        raise Unsupported("operator call")

    def ex(self, n):
        k = n.get("kind")
        m = getattr(self, "ex_" + k, None) if k else None
        if k in self.SKIP:
            return self.ex([c for c in n["inner"] if c.get("kind") != "NonTypeTemplateParmDecl"][-1])
        if m is None:
            raise Unsupported("expression %s" % k)
        return m(n)

    def ex_IntegerLiteral(self, n):
        return V("%sint" % n["value"], INT, lit=int(n["value"]))

    def ex_CharacterLiteral(self, n):
        v = int(n["value"])
        return V("%dint" % (v if v < 128 else v - 256), INT, lit=v)

    def ex_CXXBoolLiteralExpr(self, n):
        return V("true" if n["value"] else "false", BOOL)

    def ex_GNUNullExpr(self, n):
        return V("None", ("null",))
    ex_CXXNullPtrLiteralExpr = ex_GNUNullExpr

    def ex_StringLiteral(self, n):
        b = decode_cstr(n["value"])
        return V(literal(b), CSTR, lit=b)

    def ex_PredefinedExpr(self, n):
        return V(literal(b"function"), CSTR)

    def ex_UnaryExprOrTypeTraitExpr(self, n):
        # sizeof of an array (string literal or char array)
        a = n.get("argType", {}).get("qualType", "")
        if not a and n.get("inner"):
            a = n["inner"][0].get("type", {}).get("qualType", "")
            if "inner" in n and n["inner"][0].get("kind") == "ParenExpr":
                a = n["inner"][0]["inner"][0].get("type", {}).get("qualType", a)
        m = re.search(r"char\s*\[(\d+)\]", a)
        if not m:
            raise Unsupported("sizeof " + a)
        return V(m.group(1) + "int", INT, lit=int(m.group(1)))

    def ex_ImplicitValueInitExpr(self, n):
        t = node_type(n)
        if t == INT:
            return V("0int", INT, lit=0)
        if t == BOOL:
            return V("false", BOOL)
        return V(default(t), t)

    def ex_CXXThisExpr(self, n):
        return V("g", ("st", "Gdo"), lv=LV("g", (), ("st", "Gdo")))

    def ex_CXXDefaultArgExpr(self, n):
        raise Unsupported("default argument")

    def ex_CXXDefaultInitExpr(self, n):
        return self.ex(n["inner"][0])

    def ex_DeclRefExpr(self, n):
        rd = n["referencedDecl"]
        b = self.env.get(rd["id"])
        if isinstance(b, LV):
            return V(b.get(), b.t, prov=b.prov, lv=b)
        if isinstance(b, V):
            return b
        if rd["kind"] == "EnumConstantDecl":
            ty = rd.get("type", {}).get("qualType", "")
            ns = ty.rsplit("::", 1)[0] + "::" if "::" in ty else ""
            return V(self.unit.enum(ns + rd["name"]), INT)
        if rd["name"] == "npos":
            return V("npos()", INT)
        if rd["kind"] == "VarDecl" and rd["name"] == "stdin":
            return V("1int", FILEP)
        if rd["kind"] == "VarDecl" and self.template_var(rd) is not None:
            lv = self.template_var(rd)
            return V(lv.get(), lv.t, lv=lv)
        if isinstance(b, PtrTo):
            return V("(if %s { Some(%s) } else { None })" % (b.cond, b.lv.get()) if b.lv else "None", ("opt", vec(STR)))
        if rd["kind"] == "VarDecl" and rd["name"] == "lex_errmsg":
            return self.temp("arbitrary::<Seq<int>>()", CSTR)
        if rd["kind"] == "VarDecl" and rd["name"] == "yytext":
            if "lx" not in self.con.reads and "lx" not in self.con.modifies:
                raise Unsupported("text of the token")
            return V("lx_text(lx)", CSTR)
        if rd["kind"] in ("VarDecl",) and rd["name"] in self.unit.globals:
            t = self.unit.globals[rd["name"]]
            return V(rd["name"], t)
        raise Unsupported("reference to %s %s" % (rd["kind"], rd["name"]))

    def ex_MemberExpr(self, n):
        lv = self.lvalue(n)
        if lv is not None:
            return V(lv.get(), lv.t, prov=lv.prov, lv=lv)
        b = self.ex(n["inner"][0])
        if b.t[0] == "st":
            f = rid(n["name"])
            return V("%s.%s" % (b.s, f), self.field_type(b.t, f))
        raise Unsupported("member " + n.get("name", ""))

    def ex_ImplicitCastExpr(self, n):
        ck = n["castKind"]
        inner = n["inner"][-1]
        if ck == "NullToPointer":
            return V("None", ("null",))
        v = self.ex(inner)
        if ck in ("NoOp", "LValueToRValue", "ArrayToPointerDecay", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "ConstructorConversion", "UserDefinedConversion",
                  "DerivedToBase", "UncheckedDerivedToBase"):
            return v
        if ck == "IntegralToBoolean" or ck == "PointerToBoolean":
            return V(self.as_bool(v), BOOL)
        if ck == "IntegralCast":
            return self.int_cast(v, inner, n)
        if ck == "ToVoid":
            return v
        raise Unsupported("cast " + ck)

    def int_cast(self, v, inner, n):
        if v.t == BOOL:
            return V(self.as_int(v), INT)
        if v.t != INT and v.t != ITER:
            raise Unsupported("integral cast from %s" % (v.t,))
        if v.lit is not None:
            return v
        to = strip_cv(n["type"].get("desugaredQualType", n["type"]["qualType"]))
        fr = strip_cv(inner.get("type", {}).get("desugaredQualType", inner.get("type", {}).get("qualType", "")))
        if to == "char" and fr != "char" and self.char_valued(inner):
            return v
        if to == "char" and fr != "char":
            return V("as_char(%s)" % v.s, INT)
        if to == "unsigned char" and fr != "unsigned char":
            return V("as_uchar(%s)" % v.s, INT)
        if to.startswith("unsigned") and not fr.startswith("unsigned") and fr != "bool" and "::" not in fr:
            self.oblige("%s >= 0" % v.s, "conversion of a non-negative value to an unsigned type")
        return v

    def char_valued(self, n):
        """an int expression whose value is that of a char"""
        n = self.peel(n)
        if n.get("kind") == "ImplicitCastExpr" and n.get("castKind") == "IntegralCast":
            q = n["inner"][-1].get("type", {})
            if strip_cv(q.get("desugaredQualType", q.get("qualType", ""))) == "char":
                return True
            return self.char_valued(n["inner"][-1])
        if n.get("kind") == "ConditionalOperator":
            return self.char_valued(n["inner"][1]) and self.char_valued(n["inner"][2])
        if n.get("kind") in ("IntegerLiteral", "CharacterLiteral"):
            return 0 <= int(n["value"]) < 128
        return False

    def ex_CXXStaticCastExpr(self, n):
        ck = n.get("castKind")
        if ck == "NoOp":
            return self.ex(n["inner"][-1])
        if ck == "IntegralCast":
            return self.int_cast(self.ex(n["inner"][-1]), n["inner"][-1], n)
        raise Unsupported("static_cast " + str(ck))
    ex_CStyleCastExpr = ex_CXXStaticCastExpr

    def ex_CXXFunctionalCastExpr(self, n):
        t = node_type(n)
        if n.get("castKind") == "IntegralCast":
            return self.int_cast(self.ex(n["inner"][-1]), n["inner"][-1], n)
        return self.ex(n["inner"][-1])

    def ex_UnaryOperator(self, n):
        op = n["opcode"]
        a = n["inner"][0]
        if op == "!":
            return V("!%s" % paren(self.as_bool(self.ex(a))), BOOL)
        if op == "-":
            v = self.ex(a)
            return V("(-%s)" % v.s, INT, lit=-v.lit if v.lit is not None else None)
        if op == "+":
            return self.ex(a)
        if op == "*":
            v = self.ex(a)
            if v.t == ("opt", CSTR):
                v = self.unwrap(v)
            if v.t == CSTR:
                return V("c_at(%s)" % v.s, INT)
            lv = self.deref(a)
            if lv is not None:
                return V(lv.get(), lv.t, lv=lv)
        if op in ("++", "--"):
            lv = self.lvalue(a)
            if lv is None:
                raise Unsupported("++ on a non-lvalue")
            old = None
            if n.get("isPostfix") and not getattr(self, "discard", False):
                old = self.temp(lv.get(), lv.t)
            self.step(lv, op)
            return V(old.s if old else lv.get(), lv.t, prov=lv.prov)
        if op == "&":
            lv = self.lvalue(a)
            if lv is not None:
                return V(lv.get(), ("ref", lv.t), lv=lv)
        raise Unsupported("unary " + op)

    def step(self, lv, op):
        if lv.t == CSTR or lv.t[0] == "tptr":
            if op == "--":
                raise Unsupported("-- on a pointer")
            self.oblige("%s.len() > 0" % lv.get(), "pointer is not advanced past the terminator")
            self.set(lv, "%s.skip(1)" % lv.get())
            return
        if lv.t == ITER and lv.prov is not None:
            if op == "++":
                self.oblige("%s < %s.len()" % (lv.get(), lv.prov.get()), "iterator is not advanced past the end")
            else:
                self.oblige("%s > 0" % lv.get(), "iterator is not moved before the begin")
        elif op == "--" and lv.t == INT and self.is_unsigned.get(lv.root) and not lv.path:
            self.oblige("%s > 0" % lv.get(), "unsigned decrement does not wrap")
        self.set(lv, "%s %s 1" % (lv.get(), op[0]))

    def ex_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            return self.do_assign(a, b)
        if op in ("&&", "||"):
            x = self.as_bool(self.ex(a))
            pr = self.try_pure(lambda: self.as_bool(self.ex(b)))
            if pr is not None:
                self.assert_all(pr[1], x if op == "&&" else "!" + paren(x))
                return V("(%s %s %s)" % (x, op, pr[0]), BOOL)
            if self.pure_asserts is not None:
                raise Impure()
            mark = len(self.lines)
            save = self.ind
            self.ind += 1
            y = self.as_bool(self.ex(b))
            self.ind = save
            new = self.lines[mark:]
            del self.lines[mark:]
            t = self.let("c", x, BOOL)
            self.emit("if test(Ghost(%s)) {" % (t if op == "&&" else "!" + t))
            self.lines += new
            self.ind += 1
            self.assign(t, y)
            self.ind -= 1
            self.emit("}")
            return V(t, BOOL)
        if op == ",":
            self.ex(a)
            return self.ex(b)
        x, y = self.ex(a), self.ex(b)
        return self.binop(op, x, y, n)

    def same(self, a, b):
        """condition under which two iterators point into the same container"""
        if a.key() == b.key():
            return "true"
        c = a.same.get(b.key()) or b.same.get(a.key())
        if c is None:
            raise Unsupported("iterators into different containers")
        return c

    def binop(self, op, x, y, n=None):
        if op in ("==", "!=", "<", ">", "<=", ">=", "-") and x.t == ITER and y.t == ITER and x.prov is not None and y.prov is not None:
            c = self.same(x.prov, y.prov)
            if c != "true" and op not in ("==", "!="):
                raise Unsupported("iterators into different containers")
            if c != "true":
                return V("(%s(%s && %s == %s))" % ("" if op == "==" else "!", c, x.s, y.s), BOOL)
        if op in ("==", "!="):
            if x.t == BOOL and y.t == INT:
                x = V(self.as_int(x), INT)
            if y.t == BOOL and x.t == INT:
                y = V(self.as_int(y), INT)
            if "null" in (x.t[0], y.t[0]):
                o = y if x.t[0] == "null" else x
                if o.t[0] != "opt":
                    raise Unsupported("comparison with NULL")
                return V("(%s is %s)" % (o.s, "None" if op == "==" else "Some"), BOOL)
            if x.t == CSTR and y.t == CSTR:
                raise Unsupported("pointer comparison")
            return V("(%s %s %s)" % (x.s, op, y.s), BOOL)
        if op in ("<", ">", "<=", ">="):
            return V("(%s %s %s)" % (self.as_int(x), op, self.as_int(y)), BOOL)
        if op in ("+", "-", "*"):
            if x.t == CSTR and op == "+":
                self.oblige("0 <= %s <= %s.len()" % (y.s, x.s), "pointer stays within the string")
                return V("%s.skip(%s)" % (paren(x.s), y.s), CSTR)
            if x.t == ITER or y.t == ITER:
                return self.iter_arith(op, x, y)
            xs, ys = self.as_int(x), self.as_int(y)
            if op == "-" and n is not None and "unsigned" in (n["type"].get("desugaredQualType", "") + n["type"].get("qualType", "")) or \
                    op == "-" and n is not None and parse_type(n["type"].get("qualType", "")) == INT and "size" in n["type"].get("qualType", ""):
                self.oblige("%s >= %s" % (xs, ys), "unsigned subtraction does not wrap")
            lit = None
            if x.lit is not None and y.lit is not None and isinstance(x.lit, int) and isinstance(y.lit, int):
                lit = {"+": x.lit + y.lit, "-": x.lit - y.lit, "*": x.lit * y.lit}[op]
                return V("%s" % (lit if lit >= 0 else "(%d)" % lit) + ("int" if lit >= 0 else ""), INT, lit=lit)
            return V("(%s %s %s)" % (xs, op, ys), INT)
        if op in ("&", "|", "<<"):
            if op == "<<":
                return V("bit_shl(%s, %s)" % (self.as_int(x), self.as_int(y)), INT)
            return V("bit_%s(%s, %s)" % ({"&": "and", "|": "or"}[op], self.as_int(x), self.as_int(y)), INT)
        raise Unsupported("operator " + op)

    def iter_arith(self, op, x, y):
        if x.t == ITER and y.t == ITER:
            if op != "-":
                raise Unsupported("iterator arithmetic")
            return V("(%s - %s)" % (x.s, y.s), INT)
        it = x if x.t == ITER else y
        r = "(%s %s %s)" % (x.s, op, y.s)
        if it.prov is not None:
            self.oblige("0 <= %s <= %s.len()" % (r, it.prov.get()), "iterator stays within its container")
        return V(r, ITER, prov=it.prov)

    def ex_ArraySubscriptExpr(self, n):
        a, i = self.ex(n["inner"][0]), self.ex(n["inner"][1])
        if a.t == CSTR:
            self.oblige("0 <= %s <= %s.len()" % (i.s, a.s), "index within the string")
            return V("s_at(%s, %s)" % (a.s, i.s), INT)
        if a.t[0] == "vec":
            self.oblige("0 <= %s < %s.len()" % (i.s, a.s), "index within the array")
            return V("%s[%s]" % (a.s, i.s), a.t[1])
        raise Unsupported("subscript of %s" % (a.t,))

    def ex_CXXRewrittenBinaryOperator(self, n):
        return self.ex(n["inner"][0])

    def ex_CompoundAssignOperator(self, n):
        a, b = n["inner"]
        lv = self.lvalue(a)
        y = self.ex(b)
        if lv is None:
            raise Unsupported("compound assignment")
        op = n["opcode"][:-1]
        q = (n.get("type", {}).get("desugaredQualType") or n.get("type", {}).get("qualType", "")).replace("const ", "").strip()
        nar = {"char": "as_char(%s)", "signed char": "as_char(%s)", "unsigned char": "as_uchar(%s)"}.get(q)
        if nar is None and lv.t == INT and any(w in q for w in ("short", "int8", "uint16", "int16")):
            raise Unsupported("compound assignment to " + q)
        if nar and lv.t == INT and op in "+-|":
            self.set(lv, nar % ("bit_or(%s, %s)" % (lv.get(), self.as_int(y)) if op == "|" else "%s %s %s" % (lv.get(), op, self.as_int(y))))
        elif op in ("+", "-") and lv.t == INT:
            self.oblige("%s >= %s" % (lv.get(), y.s), "unsigned subtraction does not wrap") if op == "-" else None
            self.set(lv, "%s %s %s" % (lv.get(), op, self.as_int(y)))
        elif op == "|" and lv.t == INT:
            self.set(lv, "bit_or(%s, %s)" % (lv.get(), self.as_int(y)))
        elif lv.t == CSTR and op == "+":
            self.oblige("0 <= %s <= %s.len()" % (y.s, lv.get()), "pointer stays within the string")
            self.set(lv, "%s.skip(%s)" % (lv.get(), y.s))
        elif lv.t == ITER and op in "+-":
            r = self.iter_arith(op, V(lv.get(), ITER, prov=lv.prov), y)
            self.set(lv, r.s)
        else:
            raise Unsupported("compound assignment " + n["opcode"])
        return V(lv.get(), lv.t, lv=lv)

    def ex_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        cs = self.as_bool(self.ex(c))
        px = self.try_pure(lambda: self.ex(a))
        py = self.try_pure(lambda: self.ex(b)) if px is not None else None
        la = lb = ()
        if px is not None and py is not None:
            self.assert_all(px[1], cs)
            self.assert_all(py[1], "!" + paren(cs))
            x, y = px[0], py[0]
        else:
            if self.pure_asserts is not None:
                raise Impure()
            m0 = len(self.lines)
            self.ind += 1
            x = self.ex(a)
            la = self.lines[m0:]
            del self.lines[m0:]
            y = self.ex(b)
            lb = self.lines[m0:]
            del self.lines[m0:]
            self.ind -= 1
        if x.t[0] == "ref":
            x = V("Some(%s)" % x.s, ("opt", x.t[1]))
        t = x.t if x.t[0] != "null" else y.t
        if x.t == BOOL and y.t == INT or x.t == INT and y.t == BOOL:
            x, y, t = V(self.as_int(x), INT), V(self.as_int(y), INT), INT
        if y.t[0] == "null" and x.t[0] not in ("null", "opt"):
            x, y, t = V("Some(%s)" % x.s, ("opt", x.t)), V("None", ("opt", x.t)), ("opt", x.t)
        elif x.t[0] == "null" and y.t[0] not in ("null", "opt"):
            x, y, t = V("None", ("opt", y.t)), V("Some(%s)" % y.s, ("opt", y.t)), ("opt", y.t)
        if x.t == ITER and y.t == ITER and x.prov is not None and y.prov is not None and x.prov.key() != y.prov.key():
            # an iterator into one of two containers
            if la or lb or self.pure_asserts is not None or x.prov.t != y.prov.t:
                raise Unsupported("iterator into one of two containers")
            cs = self.temp(cs, BOOL).s
            w = self.let("w", "if %s { %s } else { %s }" % (cs, x.prov.get(), y.prov.get()), x.prov.t)
            self.readonly.add(w)
            self.locals.append(("container", vty(x.prov.t), w))
            prov = LV(w, (), x.prov.t)
            prov.same = {x.prov.key(): cs, y.prov.key(): "!" + cs}
            return V("(if %s { %s } else { %s })" % (cs, x.s, y.s), ITER, prov=prov)
        if not la and not lb:
            return V("(if %s { %s } else { %s })" % (cs, x.s, y.s), t)
        v = self.let("q", default(t), t)
        self.emit("if test(Ghost(%s)) {" % cs)
        self.lines += la
        self.ind += 1
        self.assign(v, x.s)
        self.ind -= 1
        self.emit("} else {")
        self.lines += lb
        self.ind += 1
        self.assign(v, y.s)
        self.ind -= 1
        self.emit("}")
        return V(v, t)

    def do_assign(self, a, b):
        lv = self.lvalue(a)
        if lv is None:
            pa = self.peel(a)
            raise Unsupported("assignment to " + pa.get("kind", "?"))
        # chained assignment  x = y = e
        v = self.ex(b)
        self.store(lv, v, b)
        return V(lv.get(), lv.t, lv=lv, prov=v.prov)

    def store(self, lv, v, node=None):
        lv.prov_new = v.prov
        s = v.s
        if lv.t == INT:
            s = self.as_int(v)
        elif lv.t == BOOL:
            s = self.as_bool(v)
        elif lv.t == STR and v.t == INT:
            s = "seq![%s]" % v.s
        elif lv.t == STR:
            s = self.as_str(v)
        elif lv.t[0] == "opt":
            if v.t[0] == "null":
                s = "None"
            elif v.t[0] != "opt":
                s = "Some(%s)" % s
        elif lv.t == CSTR and v.t[0] == "opt":
            raise Unsupported("nullable pointer")
        elif lv.t != v.t and not (lv.t[0] == "vec" and v.t[0] == "vec"):
            raise Unsupported("assignment of %s to %s" % (v.t, lv.t))
        if lv.t == ITER and v.prov is not None and not lv.path:
            # re-seat: keep provenance
            for k, b in list(self.env.items()):
                if isinstance(b, LV) and b.root == lv.root and not b.path:
                    if b.prov is None:
                        b.prov = v.prov
                    elif b.prov.root != v.prov.root:
                        raise Unsupported("iterator moves to another container")
        self.set(lv, s)

    # ---- constructors
    def ex_CXXConstructExpr(self, n):
        t = node_type(n)
        args = [a for a in n.get("inner", []) if a.get("kind") != "CXXDefaultArgExpr"]
        if t[0] == "opaque":
            if "path" in t[1] and len(args) == 1:
                return self.ex(args[0])
            raise Unsupported("construction of %s" % (t,))
        if not args:
            return V(default(t), t)
        if len(args) == 1:
            v = self.ex(args[0])
            if t == STR:
                v = self.unwrap(v)
                if v.t == STR or v.t == CSTR:
                    v2 = V(v.s, STR, lit=v.lit, lv=v.lv)
                    self.moved(n, v)
                    return v2
                raise Unsupported("string from %s" % (v.t,))
            if t == ITER:
                return v
            if v.t == t:
                v2 = V(v.s, t, lv=v.lv)
                self.moved(n, v)
                return v2
        if t == STR and len(args) == 2:
            a, b = self.ex(args[0]), self.ex(args[1])
            if a.t == INT and b.t == INT:
                self.oblige("%s >= 0" % a.s, "length is not negative")
                return V("rep(%s, %s)" % (b.s, a.s), STR)
        raise Unsupported("construction of %s from %d arguments" % (t, len(args)))

    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr

    def moved(self, n, v):
        pass

    def ex_InitListExpr(self, n):
        t = node_type(n)
        inner = n.get("inner", [])
        if t == STR and not inner:
            return V(default(t), t)
        if t[0] == "vec":
            vs = [self.ex(i) for i in inner]
            return V("seq![%s]" % ", ".join(v.s for v in vs) if vs else default(t), t)
        if t[0] == "st":
            fs = STRUCT_FIELDS[t[1]]
            vals = []
            for (f, ft), i in zip(fs, inner):
                v = self.ex(i)
                s = self.as_int(v) if ft == INT else self.as_bool(v) if ft == BOOL else v.s
                vals.append("%s: %s" % (f, s))
            if len(vals) != len(fs):
                raise Unsupported("initialiser list")
            return V("%s { %s }" % (t[1], ", ".join(vals)), t)
        if t in (INT, BOOL) and len(inner) == 1:
            return self.ex(inner[0])
        raise Unsupported("initialiser list of %s" % (t,))

    def ex_CXXStdInitializerListExpr(self, n):
        x = self.peel(n["inner"][0])
        if x.get("kind") == "InitListExpr":
            vs = [self.ex(i) for i in x.get("inner", [])]
            return V("seq![%s]" % ", ".join(v.s for v in vs), vec(vs[0].t if vs else STR))
        raise Unsupported("initializer_list")

    # ---- operator calls
    def ex_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        args = n["inner"][1:]
        callee = self.peel(n["inner"][0])
        if op == "()":
            pc = self.peel(args[0])
            if pc.get("kind") == "DeclRefExpr":
                b = self.env.get(pc["referencedDecl"]["id"])
                if isinstance(b, Lambda):
                    return self.inline(b.node, args[1:], "lambda")
            raise Unsupported("call of an object")
        if op == "<<":
            return self.stream_out(args)
        if op in ("*", "->") and len(args) == 1:
            lv = self.deref(args[0])
            if lv is None:
                raise Unsupported("dereference")
            return V(lv.get(), lv.t, lv=lv)
        if op == "[]":
            lv = self.lvalue(n)
            if lv is not None:
                return V(lv.get(), lv.t, lv=lv)
            b = self.ex(args[0])
            i = self.ex(args[1])
            if b.t == STR:
                # s[s.size()] is the terminator
                self.oblige("0 <= %s <= %s.len()" % (i.s, b.s), "index within the string")
                return V("s_at(%s, %s)" % (b.s, i.s), INT)
            raise Unsupported("[]")
        if op in ("++", "--"):
            lv = self.lvalue(args[0])
            if lv is None:
                raise Unsupported(op)
            old = None
            if len(args) == 2 and not getattr(self, "discard", False):
                old = self.temp(lv.get(), lv.t)
            self.step(lv, op)
            return V(old.s if old else lv.get(), lv.t, prov=lv.prov, lv=None)
        if op == "=":
            lv = self.lvalue(args[0])
            if lv is None:
                raise Unsupported("assignment to " + str(self.peel(args[0]).get("kind")))
            v = self.ex(args[1])
            self.store(lv, v)
            self.do_move(args[1], lv)
            return V(lv.get(), lv.t, lv=lv)
        if op == "+=":
            lv = self.lvalue(args[0])
            v = self.ex(args[1])
            if lv is None:
                raise Unsupported("+=")
            if lv.t == STR:
                self.set(lv, "%s + %s" % (lv.get(), self.char_or_str(v)))
            elif lv.t == ITER:
                r = self.iter_arith("+", V(lv.get(), ITER, prov=lv.prov), v)
                self.set(lv, r.s)
            else:
                raise Unsupported("+= on %s" % (lv.t,))
            return V(lv.get(), lv.t, lv=lv)
        if op == "-=":
            lv = self.lvalue(args[0])
            v = self.ex(args[1])
            r = self.iter_arith("-", V(lv.get(), ITER, prov=lv.prov), v)
            self.set(lv, r.s)
            return V(lv.get(), lv.t, lv=lv)
        x = self.ex(args[0])
        y = self.ex(args[1]) if len(args) > 1 else None
        if op in ("==", "!=") and (x.t in (STR, CSTR)) and y.t in (STR, CSTR):
            return V("(%s %s %s)" % (x.s, "=~=" if op == "==" else "!~=", y.s), BOOL) if False else \
                V(("seq_eq(%s, %s)" if op == "==" else "!seq_eq(%s, %s)") % (x.s, y.s), BOOL)
        if op == "+" and (x.t in (STR, CSTR) or y.t in (STR, CSTR)):
            return V("(%s + %s)" % (self.char_or_str(x), self.char_or_str(y)), STR)
        if op in ("==", "!=", "<", ">", "<=", ">=") and x.t == ITER and y.t == ITER:
            return self.binop(op, x, y, n)
        if op in ("+", "-") and ITER in (x.t, y.t):
            return self.iter_arith(op, x, y)
        raise Unsupported("operator%s on %s" % (op, x.t))

    def do_move(self, node, dest):
        """std::move(x): x is left in an unspecified state"""
        p = self.peel(node)
        if p.get("kind") == "CallExpr":
            c = self.peel(p["inner"][0])
            if c.get("kind") == "DeclRefExpr" and c["referencedDecl"]["name"] == "move":
                lv = self.lvalue(p["inner"][1])
                if lv is not None and lv.path:
                    self.set(lv, default(lv.t) if False else "arbitrary()")

    def stream_target(self, n):
        """innermost stream of a << chain"""
        p = self.peel(n)
        if p.get("kind") == "CXXOperatorCallExpr" and self.opname(p) == "<<":
            return self.stream_target(p["inner"][1])
        if p.get("kind") == "CXXMemberCallExpr":
            return None
        if p.get("kind") == "DeclRefExpr":
            return p["referencedDecl"]["name"]
        if p.get("kind") == "MemberExpr":
            return p["name"]
        return None

    def stream_decl(self, n):
        p = self.peel(n)
        if p.get("kind") == "CXXOperatorCallExpr" and self.opname(p) == "<<":
            return self.stream_decl(p["inner"][1])
        return p.get("referencedDecl", {}).get("id")

    def stream_out(self, args):
        tgt = self.stream_target(args[0])
        p = self.peel(args[0])
        if p.get("kind") == "CXXOperatorCallExpr":
            self.ex(p)
        a = self.peel(args[1])
        if tgt == "cerr":
            return V("()", VOID)
        if a.get("kind") == "DeclRefExpr" and a["referencedDecl"]["name"] == "endl":
            v = V("seq![10int]", STR)
        elif a.get("kind") == "CallExpr" and self.peel(a["inner"][0]).get("referencedDecl", {}).get("name") == "put_time":
            v = self.temp("arbitrary::<Seq<int>>()", STR)
            self.emit("assume(no_break(%s));" % v.s)
        else:
            v = self.ex(args[1])
        ts = args[1].get("type", {})
        if v.t == INT:
            q = strip_cv(self.peel(args[1]).get("type", {}).get("desugaredQualType", self.peel(args[1]).get("type", {}).get("qualType", "")))
            if q == "char":
                s = "seq![%s]" % v.s
            else:
                s = "dec(%s)" % v.s
        elif v.t in (STR, CSTR):
            s = v.s
        else:
            raise Unsupported("<< of %s" % (v.t,))
        b = self.env.get(self.stream_decl(args[0]))
        if isinstance(b, Stream):
            root = b.root
        elif tgt == "ofs":
            root = "ofs"
        elif tgt == "cout":
            root = "cout"
        elif tgt is not None and tgt in self.streams:
            root = self.streams[tgt]
        else:
            raise Unsupported("stream " + str(tgt))
        if root in ("ofs", "cout") and root not in self.con.modifies:
            self.oblige("false", "writes to %s, which its contract does not allow" % root)
            return V("()", VOID)
        self.modified.add(root)
        self.emit("proof { %s = %s + %s; }" % (root, root, s))
        return V("()", VOID)

    # ---- member calls
    def ex_CXXMemberCallExpr(self, n):
        m = n["inner"][0]
        args = [a for a in n["inner"][1:]]
        if m.get("kind") != "MemberExpr":
            raise Unsupported("member call")
        name = m["name"]
        base = m["inner"][0]
        pb = self.peel(base)
        bt = node_type(pb)
        if pb.get("kind") == "CXXThisExpr" or bt == ("st", "Gdo"):
            return self.user_call(name, args, n, method=True)
        if bt[0] == "opaque":
            return self.opaque_member(name, pb, bt, args, n)
        lv = self.lvalue(base)
        if lv is not None and lv.t[0] == "opt" and lv.t[1][0] == "vec" and m.get("isArrow"):
            self.oblige("%s is Some" % lv.get(), "pointer is not NULL")
            lv = LV(lv.root, lv.path + (("o", None),), lv.t[1])
        v = V(lv.get(), lv.t, lv=lv) if lv is not None else self.ex(base)
        if v.t == CSTR:
            v.t = STR
        if v.t == STR:
            return self.str_method(name, v, lv, args, n)
        if v.t == vec(STR) and name == "str" and len(self.realargs(args)) == 1:
            # std::smatch
            i = self.ex(args[0])
            self.oblige("0 <= %s < %s.len()" % (i.s, v.s), "group of the match")
            return V("%s[%s]" % (v.s, i.s), STR)
        if v.t[0] == "vec":
            return self.vec_method(name, v, lv, args, n)
        raise Unsupported("%s() on %s" % (name, v.t))

    def opaque_member(self, name, pb, bt, args, n):
        if re.match(r"^(cio::)?ofstream$", bt[1]) and pb.get("kind") == "DeclRefExpr":
            rd = pb["referencedDecl"]
            b = self.env.get(rd["id"])
            if name == "open":
                t = self.realargs(args)[0].get("type", {}) if args else {}
                q = t.get("desugaredQualType", t.get("qualType", ""))
                name = "open" if re.search(r"\bpath\b", q) else "open_string" if "string" in q else "?"
            con = self.unit.contract("cio::ofstream::" + name)
            if isinstance(b, Stream):
                return self.contract_call(con, None, self.realargs(args), ren={"ofs": b.root})
            if b is None and rd["kind"] == "VarDecl" and rd["name"] == "ofs":
                return self.contract_call(con, None, self.realargs(args))
        b = self.env.get(pb.get("referencedDecl", {}).get("id"))
        args = self.realargs(args)
        if isinstance(b, Stream) and name == "str" and not args:
            return V(b.root, STR)
        if isinstance(b, OptParser):
            return self.opt_member(name, b, args)
        if isinstance(b, OpenFile):
            if name == "is_open" and not args:
                return V("(%s != 0)" % b.var, BOOL)
            if name == "file_pointer" and not args:
                return V(b.var, FILEP)
            if name == "open" and len(args) == 1:
                return self.open_file(b, args[0])
        raise Unsupported("%s() on %s" % (name, bt[1]))

    def opt_member(self, name, b, args):
        o = b.var
        if name == "iterate" and not args:
            r = self.temp("op_more(%s)" % o, BOOL)
            self.assign(o, "op_next(%s)" % o)
            return r
        if name == "current" and not args:
            return V("%s.cur" % o, CSTR)
        if name == "pfxlen" and not args:
            return V("%s.pfx" % o, INT)
        if name == "flag" and len(args) == 1:
            return V("op_flag(%s, %s)" % (o, self.ex(args[0]).s), BOOL)
        if name == "arg" and len(args) == 2:
            lv = self.lvalue(args[0])
            if lv is None or lv.t != ("opt", CSTR):
                raise Unsupported("value of an option")
            n = self.temp(self.ex(args[1]).s, STR).s
            self.emit("if test(Ghost(op_bad(%s, %s))) {" % (o, n))
            self.ind += 1
            self.do_throw(b.kind)
            self.ind -= 1
            self.emit("}")
            r = self.temp("op_takes(%s, %s)" % (o, n), BOOL)
            self.set(lv, "if %s { Some(op_value(%s, %s)) } else { None }" % (r.s, o, n))
            self.assign(o, "op_used(%s, %s)" % (o, n))
            return r
        raise Unsupported("%s() of the option parser" % name)

    def realargs(self, args):
        return [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]

    def str_method(self, name, v, lv, args, n):
        args = self.realargs(args)
        if name == "str" and not args:
            return v
        if name.startswith("operator ") and not args:
            return v
        if name in ("empty", "size", "length", "c_str", "front", "back", "clear", "pop_back", "string", "str", "filename", "data"):
            if name == "empty":
                return V("(%s.len() == 0)" % v.s, BOOL)
            if name in ("size", "length"):
                return V("%s.len() as int" % v.s, INT) if False else V("slen(%s)" % v.s, INT)
            if name in ("c_str", "data"):
                return V("c_str(%s)" % v.s, CSTR)
            if name in ("string", "str"):
                return v
            if name in ("front", "back"):
                self.oblige("%s.len() > 0" % v.s, name + "() on a non-empty string")
                if name == "front":
                    return V("%s[0]" % v.s, INT, lv=lv.index("0", INT) if lv else None)
                return V("%s[%s.len() - 1]" % (v.s, v.s), INT, lv=None)
            if name == "filename":
                return V("path_name(%s)" % v.s, STR)
            if name == "clear":
                self.set(lv, "Seq::<int>::empty()")
                return V("()", VOID)
            if name == "pop_back":
                self.oblige("%s.len() > 0" % v.s, "pop_back() on a non-empty string")
                self.set(lv, "%s.drop_last()" % v.s)
                return V("()", VOID)
        A = [self.ex(x) for x in args]
        if name == "replace_extension" and len(A) == 1 and lv is not None:
            self.set(lv, "path_ext(%s, %s)" % (v.s, self.as_str(A[0])))
            return V(lv.get(), STR, lv=lv)
        if name in ("starts_with", "ends_with"):
            if A[0].t == INT:
                return V("%s_c(%s, %s)" % (name, v.s, A[0].s), BOOL)
            return V("%s(%s, %s)" % (name, v.s, self.char_or_str(A[0])), BOOL)
        if name == "find":
            frm = A[1].s if len(A) > 1 else "0"
            return V("str_find(%s, %s, %s)" % (v.s, self.char_or_str(A[0]), frm), INT)
        if name == "push_back":
            self.set(lv, "%s.push(%s)" % (v.s, A[0].s))
            return V("()", VOID)
        if name == "substr":
            self.oblige("0 <= %s <= %s.len()" % (A[0].s if A else "0", v.s), "substr(): start within the string")
            if len(A) == 1:
                return V("%s.skip(%s)" % (v.s, A[0].s), STR)
            return V("substr(%s, %s, %s)" % (v.s, A[0].s, A[1].s), STR)
        if name == "erase":
            if lv is None:
                raise Unsupported("erase")
            self.oblige("0 <= %s <= %s.len()" % (A[0].s, v.s), "erase(): position within the string")
            self.set(lv, "str_erase(%s, %s, %s)" % (v.s, A[0].s, A[1].s if len(A) > 1 else "npos()"))
            return V(lv.get(), STR, lv=lv)
        if name == "insert":
            self.oblige("0 <= %s <= %s.len()" % (A[0].s, v.s), "insert(): position within the string")
            if len(A) == 2:
                ins = self.as_str(A[1])
            elif len(A) == 3 and A[1].t == INT and A[2].t == INT:
                ins = "rep(%s, %s)" % (A[2].s, A[1].s)
            else:
                raise Unsupported("insert")
            self.set(lv, "str_insert(%s, %s, %s)" % (v.s, A[0].s, ins))
            return V(lv.get(), STR, lv=lv)
        if name == "replace" and len(A) == 3:
            self.oblige("0 <= %s <= %s.len()" % (A[0].s, v.s), "replace(): position within the string")
            self.set(lv, "str_replace(%s, %s, %s, %s)" % (v.s, A[0].s, A[1].s, self.as_str(A[2])))
            return V(lv.get(), STR, lv=lv)
        if name == "append" and len(A) == 2 and A[0].t == INT:
            self.oblige("%s >= 0" % A[0].s, "append(): count is not negative")
            self.set(lv, "%s + rep(%s, %s)" % (v.s, A[1].s, A[0].s))
            return V(lv.get(), STR, lv=lv)
        if name == "append" and len(A) == 1:
            self.set(lv, "%s + %s" % (v.s, self.as_str(A[0])))
            return V(lv.get(), STR, lv=lv)
        if name == "at":
            self.oblige("0 <= %s < %s.len()" % (A[0].s, v.s), "at(): position within the string")
            return V("%s[%s]" % (v.s, A[0].s), INT)
        if name == "compare" and len(A) == 3:
            self.oblige("0 <= %s <= %s.len()" % (A[0].s, v.s), "compare(): position within the string")
            return V("str_compare(substr(%s, %s, %s), %s)" % (v.s, A[0].s, A[1].s, self.as_str(A[2])), INT)
        if name == "compare" and len(A) == 1:
            return V("str_compare(%s, %s)" % (v.s, self.as_str(A[0])), INT)
        if name == "contains":
            return V("(str_find(%s, %s, 0) != npos())" % (v.s, self.char_or_str(A[0])), BOOL)
        if name in ("begin", "cbegin"):
            return V("0int", ITER, prov=lv)
        if name in ("end", "cend"):
            return V("slen(%s)" % v.s, ITER, prov=lv)
        raise Unsupported("string::%s/%d" % (name, len(A)))

    def vec_method(self, name, v, lv, args, n):
        args = self.realargs(args)
        et = v.t[1]
        if name == "data" and TPTR[1] == et:
            return V(v.s, TPTR)       # as it is now
        if name == "empty":
            return V("(%s.len() == 0)" % v.s, BOOL)
        if name == "size":
            return V("slen(%s)" % v.s, INT)
        if name in ("begin", "cbegin"):
            return V("0int", ITER, prov=lv)
        if name in ("end", "cend"):
            return V("slen(%s)" % v.s, ITER, prov=lv)
        if name in ("front", "back"):
            self.oblige("%s.len() > 0" % v.s, name + "() on a non-empty container")
            i = "0" if name == "front" else "%s.len() - 1" % v.s
            l2 = lv.index(i, et) if lv is not None else None
            return V("%s[%s]" % (v.s, i), et, lv=l2)
        if name == "clear":
            self.set(lv, default(v.t))
            return V("()", VOID)
        if name == "pop_back":
            self.oblige("%s.len() > 0" % v.s, "pop_back() on a non-empty container")
            self.set(lv, "%s.drop_last()" % v.s)
            return V("()", VOID)
        A = [self.ex(x) for x in args]
        if name in ("push_back", "emplace_back"):
            a = A[0]
            s = a.s
            if et == STR:
                s = self.as_str(a)
            elif et[0] == "vec" and a.t == ITER:
                raise Unsupported("pointer element")
            self.set(lv, "%s.push(%s)" % (v.s, s))
            self.do_move(args[0], lv)
            return V("()", VOID)
        if name == "at":
            self.oblige("0 <= %s < %s.len()" % (A[0].s, v.s), "at(): position within the container")
            return V("%s[%s]" % (v.s, A[0].s), et)
        if name == "erase" and len(A) == 1 and A[0].t == ITER:
            self.oblige("0 <= %s < %s.len()" % (A[0].s, v.s), "erase(): iterator points to an element")
            self.set(lv, "%s.remove(%s)" % (v.s, A[0].s))
            return V(A[0].s, ITER, prov=lv)
        if name == "erase" and len(A) == 2:
            self.oblige("0 <= %s <= %s <= %s.len()" % (A[0].s, A[1].s, v.s), "erase(): valid range")
            self.set(lv, "%s.subrange(0, %s) + %s.skip(%s)" % (v.s, A[0].s, v.s, A[1].s))
            return V(A[0].s, ITER, prov=lv)
        raise Unsupported("vector::%s/%d" % (name, len(A)))

    # ---- function calls
    def ex_CallExpr(self, n):
        c = self.peel(n["inner"][0])
        args = n["inner"][1:]
        if c.get("kind") == "MemberExpr":
            return self.user_call(c["name"], args, n, method=True)
        if c.get("kind") != "DeclRefExpr":
            raise Unsupported("call")
        rd = c["referencedDecl"]
        name = rd["name"]
        b = self.env.get(rd["id"])
        if isinstance(b, Lambda):
            return self.inline(b.node, args, "lambda")
        qt = rd.get("type", {}).get("qualType", "")
        h = getattr(self, "call_" + name, None)
        if name in ("remove", "exists", "symlink_status", "status", "create_directories") and re.search(r"\b(path|file_status)\b", qt):
            return self.call_fs(name, self.realargs(args))
        if name in PURE and len(args) == 1:
            v = self.ex(args[0])
            return V("%s(%s)" % (PURE[name][0], v.s), PURE[name][1])
        if self.unit.is_user(self.tu, name, qt):
            return self.user_call(name, args, n, qt=qt)
        if h is not None:
            return h(args, n)
        raise Unsupported("call of " + name)

    def call_fs(self, name, args):
        """std::filesystem: what exists is a set of names (links count as themselves); following links is another set"""
        if len(args) != 1 or "fs" not in self.con.reads and "fs" not in self.con.modifies:
            raise Unsupported("std::filesystem")
        if name in ("remove", "create_directories"):
            return self.contract_call(self.unit.contract("fs::" + name), None, args)
        v = self.ex(args[0])
        if name == "exists":
            if v.t == ("fstat",):
                return V("%s" % v.s, BOOL)
            return V("fs_follow(fs).contains(%s)" % v.s, BOOL)
        return V("%s.contains(%s)" % ("fs.present" if name == "symlink_status" else "fs_follow(fs)", v.s), ("fstat",))

    def regex(self, n):
        """[(condition, expression)]: the std::regex objects an expression may be"""
        p = self.peel(n)
        if p.get("kind") == "ConditionalOperator":
            c = self.temp(self.as_bool(self.ex(p["inner"][0])), BOOL).s
            return [("%s && %s" % (c, k), r) for k, r in self.regex(p["inner"][1])] + [("!%s && %s" % (c, k), r) for k, r in self.regex(p["inner"][2])]
        r = self.env.get(p.get("referencedDecl", {}).get("id"))
        if not isinstance(r, Regex):
            raise Unsupported("regular expression")
        return [("true", r.pat)]

    def call_regex_match(self, args, n):
        """regex_match(text, m, reg) for the expressions of REGEX: trusted specification"""
        m = self.lvalue(args[1]) if len(self.realargs(args)) == 3 else None
        if m is None or m.t != vec(STR):
            raise Unsupported("regex_match")
        x = self.freeze(self.ex(args[0])).s
        rs = self.regex(args[2])
        if any(r not in REGEX for _, r in rs):
            raise Unsupported("regex_match")
        ok = self.temp("(" + " || ".join("%s && %s" % (c, REGEX[r][0] % x) for c, r in rs) + ")", BOOL)
        val = "Seq::empty()"
        for c, r in rs:
            val = "if %s { seq![%s] } else { %s }" % (c, ", ".join([x] + [g % x for g in REGEX[r][1]]), val)
        self.set(m, "(if !%s { Seq::empty() } else { %s })" % (ok.s, val))
        return ok

    def call_regex_replace(self, args, n):
        args = self.realargs(args)
        rs = self.regex(args[1])
        x = self.ex(args[0])
        y = self.ex(args[2])
        if len(args) == 3 and len(rs) == 1 and rs[0][1] in REGEX_REPLACE and x.t == STR and y.t == STR:
            return V(REGEX_REPLACE[rs[0][1]] % (x.s, y.s), STR)
        if len(args) != 3 or len(rs) != 1 or rs[0][1] not in REGEX_ERASE or y.lit != b"" or x.t != STR:
            raise Unsupported("regex_replace")
        return V(REGEX_ERASE[rs[0][1]] % x.s, STR)

    def call_exit(self, args, n):
        v = self.ex(args[0])
        if not self.con.throws or v.s not in ("0", "0int"):
            raise Unsupported("exit()")
        self.throw_seen = True
        self.do_throw("3int")
        self.dead = True
        return V("()", VOID)

    def call_fgetc(self, args, n):
        f = self.ex(args[0])
        if f.t != FILEP or "cin" not in self.con.modifies:
            raise Unsupported("fgetc")
        self.oblige("%s != 0" % f.s, "fgetc(): the file is open")
        r = self.temp("if cin.len() == 0 { -1int } else { cin[0] }", INT)
        self.modified.add("cin")
        self.assign("cin", "if cin.len() == 0 { cin } else { cin.skip(1) }")
        return r

    def call_time(self, args, n):
        return self.temp("arbitrary::<int>()", INT)

    def call_localtime_r(self, args, n):
        return self.temp("arbitrary::<Option<Seq<int>>>()", ("opt", CSTR))

    def call_move(self, args, n):
        return self.ex(args[0])
    call_forward = call_move

    def call_distance(self, args, n):
        a, b = self.ex(args[0]), self.ex(args[1])
        return V("(%s - %s)" % (b.s, a.s), INT)

    def call_strcmp(self, args, n):
        a, b = self.ex(args[0]), self.ex(args[1])
        return V("str_compare(%s, %s)" % (a.s, b.s), INT)

    def call_strncmp(self, args, n):
        a, b, c = [self.ex(x) for x in args]
        return V("str_compare(take(%s, %s), take(%s, %s))" % (a.s, c.s, b.s, c.s), INT)

    def call_strcasecmp(self, args, n):
        a, b = self.ex(args[0]), self.ex(args[1])
        return V("str_compare(lower(%s), lower(%s))" % (a.s, b.s), INT)

    def call_strncasecmp(self, args, n):
        a, b, c = [self.ex(x) for x in args]
        return V("str_compare(lower(take(%s, %s)), lower(take(%s, %s)))" % (a.s, c.s, b.s, c.s), INT)

    def call_strlen(self, args, n):
        return V("slen(%s)" % self.ex(args[0]).s, INT)

    def call_to_string(self, args, n):
        return V("dec(%s)" % self.ex(args[0]).s, STR)

    def call_erase(self, args, n):
        lv = self.lvalue(args[0])
        x = self.ex(args[1])
        if lv is None or lv.t[0] != "vec":
            raise Unsupported("std::erase")
        c = self.temp("count_of(%s, %s)" % (lv.get(), x.s), INT)
        self.set(lv, "erase_all(%s, %s)" % (lv.get(), x.s))
        return c

    def call_find(self, args, n):
        if len(args) == 3:
            a, b, x = [self.ex(q) for q in args]
            if a.prov is not None:
                return V("seq_find(%s, %s, %s, %s)" % (a.prov.get(), a.s, b.s, x.s), ITER, prov=a.prov)
        raise Unsupported("std::find")

    def call_max_element(self, args, n):
        """std::max_element(first, last[, less]): trusted: no element is greater than the one found"""
        a, b = self.ex(args[0]), self.ex(args[1])
        if a.prov is None or b.prov is None or a.prov.key() != b.prov.key() or self.pure_asserts is not None:
            raise Unsupported("std::max_element")
        c = a.prov
        r, j = self.fresh("most"), self.fresh("j")
        if len(args) > 2:
            lam = args[2]
            while lam.get("kind") not in ("DeclRefExpr", "LambdaExpr") and lam.get("inner"):
                lam = lam["inner"][-1]
            lam = Lambda(lam) if lam.get("kind") == "LambdaExpr" else self.env.get(lam.get("referencedDecl", {}).get("id"))
            if not isinstance(lam, Lambda):
                raise Unsupported("std::max_element")
            node = lam.node
            op = [x for x in node["inner"][0]["inner"] if x.get("kind") == "CXXMethodDecl" and x["name"] == "operator()"][0]
            ps = [x for x in op["inner"] if x["kind"] == "ParmVarDecl"]
            st = node["inner"][-1].get("inner", [])
            if len(ps) != 2 or len(st) != 1 or st[0]["kind"] != "ReturnStmt":
                raise Unsupported("std::max_element")
            self.env[ps[0]["id"]], self.env[ps[1]["id"]] = c.index(r, c.t[1]), c.index(j, c.t[1])
            pr = self.try_pure(lambda: self.as_bool(self.ex(st[0]["inner"][0])))
            if pr is None or pr[1]:
                raise Unsupported("std::max_element")
            less = pr[0]
        elif c.t[1] == INT:
            less = "%s[%s] < %s[%s]" % (c.get(), r, c.get(), j)
        else:
            raise Unsupported("std::max_element")
        self.roots[r] = ITER
        self.emit("let ghost %s: int = arbitrary::<int>();" % r)
        self.emit("assume(%s <= %s <= %s && (%s < %s ==> %s < %s && forall|%s: int| %s <= %s < %s ==> !(%s)));" % (
            a.s, r, b.s, a.s, b.s, r, b.s, j, a.s, j, b.s, less))
        return V(r, ITER, prov=c)

    # ---- user functions
    def user_call(self, name, args, n, method=False, qt=None):
        nreal = len(args)
        con, callee = self.unit.resolve(self.tu, name, qt, method, args, self, n)
        if con is None:
            return self.inline(callee, args, name)
        return self.contract_call(con, callee, args)

    def contract_call(self, con, callee, args, ren={}):
        params = con.cparams
        vals, outs = [], []
        if len(args) < con.nparams:
            raise Unsupported("arguments of " + con.name)
        if self.pure_asserts is not None and not con.pure:
            raise Impure()
        real = iter(args)
        args = [None if p.ghost_of else next(real) for p in params]
        for p, a in zip(params, args):
            if p.alias:
                lv = self.lvalue(a)
                if lv is None or lv.root != p.alias[0] or len(lv.path) != 1:
                    raise Unsupported("argument %s of %s" % (p.name, con.name))
                k = vals[[q.name for q in params].index(p.alias[1])]
                self.oblige("%s == %s" % (lv.path[0][1], k), "the pointer belongs to the template")
                continue
            if a is None:
                k = [q.name for q in params].index(p.ghost_of)
                v = self.ex(args[k])
                if v.prov is None:
                    raise Unsupported("iterator of an unknown container")
                if p.same_as:
                    w = self.lvalue(args[[q.name for q in params].index(p.same_as)])
                    if w is None:
                        raise Unsupported("container")
                    vals.append(self.same(v.prov, w))
                else:
                    vals.append(v.prov.get())
                continue
            if a.get("kind") == "CXXDefaultArgExpr":
                if p.default is None:
                    raise Unsupported("default argument of " + con.name)
                vals.append(p.default)
                continue
            if p.inout and p.t[0] == "opt" and p.t[1][0] == "vec":
                # a nullable pointer to a container
                q = self.pointer_to(a)
                if q is None:
                    raise Unsupported("argument %s of %s" % (p.name, con.name))
                if isinstance(q, PtrTo):
                    x = self.temp(q.cond, BOOL).s
                    outs.append((p, (q.lv, x)))
                    vals.append("if %s { Some(%s) } else { None }" % (x, q.lv.get()) if q.lv else "None")
                else:
                    outs.append((p, q))
                    vals.append(q.get())
                continue
            if p.inout:
                lv = self.lvalue(a)
                if lv is None:
                    raise Unsupported("argument %s of %s is not an lvalue" % (p.name, con.name))
                outs.append((p, lv))
                vals.append(lv.get())
            else:
                v = self.ex(a)
                s = v.s
                if p.t == INT:
                    s = self.as_int(v)
                elif p.t == BOOL:
                    s = self.as_bool(v)
                elif p.t in (STR, CSTR):
                    v = self.unwrap(v)
                    s = v.s
                    if v.t == ITER or v.t[0] == "opt":
                        raise Unsupported("pointer argument")
                    s = self.char_or_str(v) if v.t == INT else self.as_str(v)
                elif p.t == ITER and v.t == CSTR:
                    raise Unsupported("iterator argument")
                elif p.t[0] == "vec" and v.t == ITER:
                    # pointer to the first element of an array of templates
                    s = "%s.skip(%s)" % (v.prov.get(), v.s) if v.prov else v.s
                vals.append(s)
        gl = [x for x in GLOBALS_ORDER if x in con.reads or x in con.modifies]
        for x in con.modifies:
            if x in ren:
                self.modified.add(ren[x])
                continue
            if x not in self.con.modifies:
                self.oblige("false", "calls %s, which modifies %s" % (con.name, x))
                raise Unsupported("effect on %s" % x)
            self.modified.add(x)
        for x in gl:
            vals.append(ren.get(x, x))
        if con.pure:
            return V("%s(%s)" % (con.spec, ", ".join(vals)), con.ret, prov=self.ret_prov(con, params, args))
        r = self.fresh("r")
        for k, q in enumerate(con.req):
            self.nobl += 1
        for k, x in enumerate(vals):
            if "seq![" in x:
                a = self.fresh("arg")
                self.emit("let ghost %s = %s;" % (a, x))
                vals[k] = a
        line = "let %s = %s(%s);" % (r, con.vname, ", ".join("Ghost(%s)" % x for x in vals))
        o = self.unit.obligation(self.con.name, "precondition", "precondition of " + con.name)
        self.emit(line + " /*@O%d*/" % o.oid)
        self.unit.used.add(con.name)
        i = 1
        vout = []
        for p, lv in outs:
            if isinstance(lv, tuple):
                if lv[0] is not None:
                    self.set(lv[0], "if %s { %s@.%d->Some_0 } else { %s }" % (lv[1], r, i, lv[0].get()))
            else:
                self.set(lv, "%s@.%d" % (r, i))
            i += 1
        for x in con.modifies:
            self.assign(ren.get(x, x), "%s@.%d" % (r, i))
            i += 1
        if con.throws:
            self.emit("if test(Ghost(%s@.%d != 0)) {" % (r, i))
            self.ind += 1
            self.do_throw("%s@.%d" % (r, i))
            self.ind -= 1
            self.emit("}")
        for h in self.con.hints.get("call:" + con.name, []):
            self.emit("proof { %s }" % self.subst(h.replace("$result", "%s@.0" % r), None))
        if con.ret == VOID:
            return V("()", VOID)
        return V("%s@.0" % r, con.ret, prov=self.ret_prov(con, params, args))

    def pointer_to(self, n):
        """the address of a container or NULL -> PtrTo; a nullable pointer parameter -> its LV"""
        n = self.peel(n)
        k = n.get("kind")
        if k == "DeclRefExpr":
            b = self.env.get(n["referencedDecl"]["id"])
            return b if isinstance(b, PtrTo) or isinstance(b, LV) and b.t[0] == "opt" else None
        if k == "UnaryOperator" and n.get("opcode") == "&":
            lv = self.lvalue(n["inner"][0])
            return PtrTo(lv, "true") if lv is not None else None
        if k == "ImplicitCastExpr" and n.get("castKind") == "NullToPointer" or k == "CXXNullPtrLiteralExpr":
            return PtrTo(None, "false")
        if k == "ConditionalOperator":
            c = self.as_bool(self.ex(n["inner"][0]))
            a, b = self.pointer_to(n["inner"][1]), self.pointer_to(n["inner"][2])
            if isinstance(a, PtrTo) and isinstance(b, PtrTo) and (a.lv is None or b.lv is None):
                return PtrTo(a.lv or b.lv, "(if %s { %s } else { %s })" % (c, a.cond, b.cond))
        return None

    def ret_prov(self, con, params, args):
        if con.ret == ITER and con.ret_in is not None:
            for p, a in zip(params, args):
                if p.name == con.ret_in:
                    return self.lvalue(a)
        return None

    def do_throw(self, kind):
        if not self.con.throws:
            self.oblige("false", "throws an exception, which its contract does not allow")
            self.emit("return %s;" % self.ret_tuple(default(self.con.ret), None))
            return
        self.emit_return(default(self.con.ret), kind)

    def ex_CXXThrowExpr(self, n):
        kind = "1int"
        t = n["inner"][0].get("type", {}).get("qualType", "")
        q = self.unit.throw_kind(t)
        self.throw_seen = True
        self.do_throw(q)
        self.dead = True
        return V("()", VOID)

    # ---- inlining
    def inline(self, node, args, name):
        if len(self.inline_stack) > 6 or name in self.inline_stack and name != "lambda":
            raise Unsupported("recursive call of " + name)
        if node["kind"] == "LambdaExpr":
            call = [c for c in node["inner"][0]["inner"] if c.get("kind") == "CXXMethodDecl" and c["name"] == "operator()"][0]
            body = node["inner"][-1]
            params = [c for c in call["inner"] if c["kind"] == "ParmVarDecl"]
            rt = parse_type(re.sub(r"\s*\(.*$", "", call["type"]["qualType"]).replace("auto ", ""))
            m = re.search(r"->\s*(.*)$", call["type"]["qualType"])
            if m:
                rt = parse_type(m.group(1))
        else:
            params = [c for c in node.get("inner", []) if c["kind"] == "ParmVarDecl"]
            body = [c for c in node["inner"] if c["kind"] == "CompoundStmt"][0]
            rt = parse_type(node["type"]["qualType"].split("(")[0])
        st0 = body.get("inner", [])
        if len(st0) == 1 and st0[0]["kind"] == "ReturnStmt" and st0[0].get("inner"):
            pr = self.try_pure(lambda: self.inline_pure(params, args, st0[0]["inner"][0], rt, name))
            if pr is not None:
                self.assert_all(pr[1])
                return pr[0]
        if self.pure_asserts is not None and st0:
            raise Impure()
        for p, a in zip(params, args):
            if a.get("kind") == "CXXDefaultArgExpr":
                a = [c for c in p.get("inner", []) if "Expr" in c["kind"] or "Literal" in c["kind"]]
                if not a:
                    raise Unsupported("default argument")
                a = a[0]
            q = p["type"]["qualType"]
            isref = q.rstrip().endswith("&")
            lv = self.lvalue(a)
            if isref and lv is not None:
                self.env[p["id"]] = lv
                continue
            v = V(lv.get(), lv.t, prov=lv.prov) if lv is not None else self.ex(a)
            t = node_type(p)
            if t[0] == "opaque":
                t = v.t
            if t == STR and v.t == CSTR:
                v = V(v.s, STR, lit=v.lit)
            if t == CSTR and v.t == STR:
                raise Unsupported("pointer parameter")
            if t == ITER and v.prov is None and v.t == ITER:
                pass
            if v.t[0] == "null":
                raise Unsupported("NULL argument")
            if t == BOOL:
                v = V(self.as_bool(v), BOOL)
            elif t == INT and v.t == BOOL:
                v = V(self.as_int(v), INT)
            if "const" in q and isref or re.match(r"^(const\s|.*\bconst$)", q):
                if v.lit is not None or re.match(r"^\w+$", v.s) and False:
                    self.env[p["id"]] = V(v.s, v.t, lit=v.lit, prov=v.prov)
                    continue
            nme = self.let(p.get("name", "p"), v.s, v.t)
            self.env[p["id"]] = LV(nme, (), v.t, prov=v.prov)
        self.inline_stack.append(name)
        frame = {"kind": "fn", "ret": None, "flag": None, "rt": rt, "var": None, "prov": None, "loopdepth": len(self.loops)}
        st = [c for c in body.get("inner", [])]
        # the common case: one return statement
        if len(st) == 1 and st[0]["kind"] == "ReturnStmt" and st[0].get("inner"):
            v = self.ex(st[0]["inner"][0])
            self.inline_stack.pop()
            if rt == BOOL:
                return V(self.as_bool(v), BOOL)
            if rt == INT and v.t == BOOL:
                return V(self.as_int(v), INT)
            if rt == STR and v.t == CSTR:
                return V(v.s, STR)
            return v
        if rt != VOID:
            frame["var"] = self.let("rv", default(rt if rt[0] != "opaque" else INT), rt)
        self.exits.append(frame)
        saved_loops, self.loops = self.loops, []
        self.stmts(st, tail=True)
        self.loops = saved_loops
        self.exits.pop()
        self.inline_stack.pop()
        self.dead = False
        if rt == VOID:
            return V("()", VOID)
        return V(frame["var"], rt, prov=frame["prov"])

    def inline_pure(self, params, args, expr, rt, name):
        new = {}
        for p, a in zip(params, args):
            if a.get("kind") == "CXXDefaultArgExpr":
                a = [c for c in p.get("inner", []) if "Expr" in c["kind"] or "Literal" in c["kind"]][0]
            q = p["type"]["qualType"]
            lv = self.lvalue(a)
            if q.rstrip().endswith("&") and lv is not None:
                new[p["id"]] = lv
                continue
            v = V(lv.get(), lv.t, prov=lv.prov) if lv is not None else self.ex(a)
            t = node_type(p)
            if v.t[0] == "null":
                raise Impure()
            if t == STR and v.t == CSTR:
                v = V(v.s, STR, lit=v.lit)
            elif t == BOOL:
                v = V(self.as_bool(v), BOOL)
            elif t == INT and v.t == BOOL:
                v = V(self.as_int(v), INT)
            elif t == CSTR and v.t == STR:
                raise Impure()
            new[p["id"]] = v
        self.env.update(new)
        self.inline_stack.append(name)
        v = self.ex(expr)
        self.inline_stack.pop()
        if rt == BOOL:
            return V(self.as_bool(v), BOOL)
        if rt == INT and v.t == BOOL:
            return V(self.as_int(v), INT)
        if rt == STR and v.t == CSTR:
            return V(v.s, STR)
        return v

    # ---- statements
    def stmts(self, lst, tail=False):
        """translate a statement list; returns True if control never reaches its end"""
        for k, s in enumerate(lst):
            last = k == len(lst) - 1
            rest = lst[k + 1:]
            fr = self.exits[-1] if self.exits else None
            if fr is not None and s["kind"] in ("IfStmt", "SwitchStmt", "ForStmt", "WhileStmt", "CXXForRangeStmt", "CompoundStmt") and rest and self.may_exit(s, fr):
                if s["kind"] == "IfStmt" and tail:
                    ie = s["inner"]
                    has_else = len([c for c in ie if c]) > 2 and s.get("hasElse")
                    thn = ie[1] if not s.get("hasInit") and not s.get("hasVar") else None
                    if thn is not None and self.definite(thn, fr):
                        c = self.as_bool(self.ex(ie[0]))
                        self.emit("if test(Ghost(%s)) {" % c)
                        self.ind += 1
                        d1 = self.stmts(self.body(thn), tail=True)
                        self.ind -= 1
                        self.emit("} else {")
                        self.ind += 1
                        self.dead = False
                        d2 = self.stmts((self.body(ie[2]) if has_else else []) + rest, tail=True)
                        self.ind -= 1
                        self.emit("}")
                        self.dead = d1 and d2
                        return d1 and d2
                # general case: a flag
                mine = fr["flag"] is None
                if mine:
                    fr["flag"] = self.let("left", "false", BOOL)
                try:
                    d = self.stmt(s, False)
                    if d:
                        return True
                    self.emit("if test(Ghost(!%s)) {" % fr["flag"])
                    self.ind += 1
                    d = self.stmts(rest, tail)
                    self.ind -= 1
                    self.emit("}")
                    self.dead = False
                    return False
                finally:
                    if mine:
                        fr["flag"] = None
            d = self.stmt(s, tail and last)
            if d:
                return True
        return False

    def body(self, s):
        if not s:
            return []
        return s.get("inner", []) if s["kind"] == "CompoundStmt" else [s]

    def may_exit(self, s, fr, depth=0):
        """does s contain an emulated exit of frame fr?"""
        k = s.get("kind")
        if not k:
            return False
        if fr["kind"] == "fn" and k == "ReturnStmt":
            return True
        if fr["kind"] == "switch":
            if k == "BreakStmt":
                return True
            if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt"):
                return False
        if k == "LambdaExpr":
            return False
        return any(self.may_exit(c, fr) for c in s.get("inner", []) if isinstance(c, dict))

    def definite(self, s, fr):
        """control certainly leaves s by an exit of fr, a return, continue or throw"""
        k = s.get("kind")
        if k == "CompoundStmt":
            return any(self.definite(c, fr) for c in s.get("inner", []))
        if k in ("ReturnStmt", "ContinueStmt"):
            return True
        if k == "BreakStmt":
            return True
        if k == "ExprWithCleanups":
            return self.definite(s["inner"][0], fr)
        if k == "CXXThrowExpr":
            return True
        if k == "IfStmt" and s.get("hasElse"):
            return self.definite(s["inner"][1], fr) and self.definite(s["inner"][2], fr)
        return False

    def stmt(self, s, tail=False):
        k = s.get("kind")
        self.dead = False
        m = getattr(self, "st_" + k, None)
        if m is not None:
            r = m(s, tail)
            return bool(r)
        # expression statement
        self.discard = True
        try:
            p = self.peel(s)
            if p.get("kind") in ("UnaryOperator", "CXXOperatorCallExpr"):
                self.ex(p)
            else:
                self.discard = False
                self.ex(s)
        finally:
            self.discard = False
        d = self.dead
        self.dead = False
        return d

    def st_NullStmt(self, s, tail):
        return False
    st_AttributedStmt = st_NullStmt
    st_StaticAssertDecl = st_NullStmt

    def st_CompoundStmt(self, s, tail):
        return self.stmts(s.get("inner", []), tail)

    is_unsigned = {}
    streams = {}

    def st_DeclStmt(self, s, tail):
        for d in s["inner"]:
            if d["kind"] in ("StaticAssertDecl", "TypedefDecl", "UsingDecl"):
                continue
            if d["kind"] != "VarDecl":
                raise Unsupported("declaration " + d["kind"])
            self.var_decl(d)
        return False

    def var_decl(self, d):
        t = node_type(d)
        q = d["type"]["qualType"]
        init = [c for c in d.get("inner", []) if isinstance(c, dict) and c.get("kind") not in ("FullComment",)]
        init = init[0] if init else None
        if init is not None:
            p = self.peel(init)
            if p.get("kind") == "LambdaExpr":
                self.env[d["id"]] = Lambda(p)
                return
        if t[0] == "opaque":
            return self.opaque_decl(d, t, init)
        if t[0] == "opt" and t[1][0] == "vec" and init is not None:
            b = self.pointer_to(init)
            if not isinstance(b, PtrTo):
                raise Unsupported("pointer to a container")
            self.env[d["id"]] = PtrTo(b.lv, self.temp(b.cond, BOOL).s)
            return
        isref = q.rstrip().endswith("&")
        if isref and init is not None:
            lv = self.lvalue(init)
            if lv is not None:
                self.env[d["id"]] = lv
                return
        if init is None:
            v = V(default(t), t)
        else:
            v = self.ex(init)
        if v.t[0] == "null":
            t = ("opt", t)
            v = V("None", t)
        elif v.t[0] == "opt" and t[0] != "opt":
            t = v.t
        elif v.t[0] == "ref":
            t, v = ("opt", v.t[1]), V("Some(%s)" % v.s, ("opt", v.t[1]))
        s = v.s
        if t == INT:
            s = self.as_int(v)
        elif t == BOOL:
            s = self.as_bool(v)
        elif t == STR and v.t == INT:
            raise Unsupported("string from int")
        elif t == ITER and v.t[0] == "vec":
            raise Unsupported("pointer")
        elif t[0] == "vec" and v.t[0] == "vec" and t != v.t:
            t = v.t
        n = self.let(d["name"], s, t)
        self.locals.append((d["name"], vty(t), n))
        u = strip_cv(d["type"].get("desugaredQualType", q))
        if u.startswith("unsigned") or strip_cv(q) == "size_t":
            self.is_unsigned = dict(self.is_unsigned)
            self.is_unsigned[n] = True
        lv = LV(n, (), t, prov=v.prov)
        self.env[d["id"]] = lv
        if init is not None:
            self.do_move(init, lv)

    def opaque_decl(self, d, t, init):
        if t[1] in ("std::regex", "regex", "std::basic_regex<char>") and init is not None:
            lit = find_literal(init)
            if lit is None or len(lit) != 1 or lit[0] not in REGEX and lit[0] not in REGEX_ERASE and lit[0] not in REGEX_REPLACE:
                raise Unsupported("regular expression")
            self.env[d["id"]] = Regex(lit[0])
            return
        if re.match(r"^(cio::)?ofstream$", t[1]):
            if "fs" not in self.con.modifies:
                raise Unsupported("local of type " + t[1])
            r = self.let("out", "Seq::empty()", STR)
            self.env[d["id"]] = Stream(r)
            self.alias = getattr(self, "alias", {})
            self.alias[d["name"]] = lambda: r
            return
        if re.match(r"^(std::)?(__cxx11::)?(basic_)?o?stringstream(<char>)?$", t[1]):
            self.env[d["id"]] = Stream(self.let("text", "Seq::empty()", STR))
            return
        if t[1] == "tm":
            return
        if t[1] == "opt" and init is not None:
            a = [c for c in init.get("inner", []) if c.get("kind") != "CXXDefaultArgExpr"]
            lam = find_kind(a[2], "DeclRefExpr") if len(a) == 3 else None
            lam = self.env.get(lam["referencedDecl"]["id"]) if lam else None
            thr = find_kind(lam.node, "CXXThrowExpr") if isinstance(lam, Lambda) else None
            if thr is None:
                raise Unsupported("error handler of the option parser")
            c, v = self.ex(a[0]), self.ex(a[1])
            if v.t != vec(CSTR):
                raise Unsupported("argument vector")
            self.oblige("%s == %s.len()" % (c.s, v.s), "the number of arguments")
            k = self.unit.throw_kind(thr["inner"][0].get("type", {}).get("qualType", ""))
            b = OptParser(self.let(d["name"], "op_start(%s)" % v.s, ("ghost", "Op")), k)
            self.env[d["id"]] = b
            self.locals.append((d["name"], "Op", b.var))
            return
        if t[1] == "open_file":
            if "cin" not in self.con.modifies:
                raise Unsupported("local of type " + t[1])
            a = [c for c in (init or {}).get("inner", []) if c.get("kind") != "CXXDefaultArgExpr"]
            self.env[d["id"]] = OpenFile(self.let("file", "1int", FILEP))
            if a:
                self.open_file(self.env[d["id"]], a[0])
            return
        raise Unsupported("local of type " + t[1])

    def open_file(self, f, arg):
        """open_file: an empty name and - are standard input; otherwise the file is opened or not"""
        x = self.freeze(self.ex(arg))
        std = self.temp("is_stdin(%s)" % x.s, BOOL).s
        r = self.temp("opens(%s)" % x.s, BOOL).s
        self.assign(f.var, "if %s { 1int } else if %s { 2int } else { 0int }" % (std, r))
        self.modified.add("cin")
        self.assign("cin", "file_text(%s)" % x.s)
        self.emit("assume(bytes(cin));")
        return V("(%s != 0)" % f.var, BOOL)

    def emit_return(self, val, threw=None):
        self.run_hint("return")
        if self.con.throws and threw is None:
            threw = "0int"
        o = self.unit.obligation(self.con.name, "return", "postcondition at a return")
        self.emit("return %s; /*@R*/" % self.ret_tuple(val, threw))

    def ret_tuple(self, val, threw):
        xs = [val if val is not None else "()"]
        for p in self.con.cparams:
            if p.inout:
                xs.append(p.name)
        xs += list(self.con.modifies)
        if self.con.throws:
            xs.append(threw if threw is not None else "1int")
        return "Ghost((%s))" % (", ".join(xs) + ("," if len(xs) == 1 else ""))

    def st_ReturnStmt(self, s, tail):
        inner = [c for c in s.get("inner", []) if c]
        fns = [f for f in self.exits if f["kind"] == "fn"]
        if fns:
            self.cur_ret = "()"
            for L in self.loops:
                self.run_loop_hint(L, "return")
            fr = fns[-1]
            if inner:
                v = self.ex(inner[0])
                if fr["rt"] != VOID:
                    s2 = self.as_bool(v) if fr["rt"] == BOOL else self.as_int(v) if fr["rt"] == INT else v.s
                    if fr["rt"][0] == "opt" and v.t[0] == "null":
                        s2 = "None"
                    self.assign(fr["var"], s2)
                    fr["prov"] = v.prov
            if fr is not self.exits[-1]:
                raise Unsupported("return out of a switch in an inlined function")
            if fr["flag"] is not None:
                self.assign(fr["flag"], "true")
            if self.loops:
                self.emit("break;")
                self.loops[-1]["brk"] = True
            elif not tail and fr["flag"] is None:
                raise Unsupported("early return in an inlined function")
            return True
        if inner:
            v = self.ex(inner[0])
            if self.dead:
                return True
            r = self.con.ret
            if r == BOOL:
                s2 = self.as_bool(v)
            elif r == INT:
                s2 = self.as_int(v)
            elif r == STR:
                s2 = "seq![%s]" % v.s if v.t == INT else self.as_str(v)
            elif r[0] == "opt":
                s2 = "None" if v.t[0] == "null" else v.s if v.t[0] == "opt" else "Some(%s)" % v.s
            else:
                s2 = v.s
            if not re.match(r"^[\w@.]+$", s2):
                t = self.fresh("ret_val")
                self.emit("let ghost %s: %s = %s;" % (t, vty(r), s2))
                self.roots[t] = r
                s2 = t
            self.cur_ret = s2
        else:
            s2 = None
            self.cur_ret = "()"
        for L in self.loops:
            self.run_loop_hint(L, "return")
        self.emit_return(s2)
        return True

    def st_IfStmt(self, s, tail):
        inner = s["inner"]
        if s.get("hasInit") or s.get("hasVar"):
            # if (init; cond)
            raise Unsupported("if with initialiser")
        if s.get("isConstexpr"):
            raise Unsupported("if constexpr")
        c = self.as_bool(self.ex(inner[0]))
        self.emit("if test(Ghost(%s)) {" % c)
        self.ind += 1
        d1 = self.stmts(self.body(inner[1]), tail)
        self.ind -= 1
        d2 = False
        if s.get("hasElse"):
            self.emit("} else {")
            self.ind += 1
            d2 = self.stmts(self.body(inner[2]), tail)
            self.ind -= 1
        self.emit("}")
        return d1 and d2

    def st_SwitchStmt(self, s, tail):
        v = self.ex(s["inner"][0])
        x = self.temp(self.as_int(v), INT)
        body = s["inner"][-1]
        # flatten:  [(labels, statements)]
        groups = []

        def add(st):
            if st["kind"] in ("CaseStmt", "DefaultStmt"):
                lab = []
                cur = st
                while cur["kind"] in ("CaseStmt", "DefaultStmt"):
                    if cur["kind"] == "DefaultStmt":
                        lab.append(None)
                        cur = cur["inner"][0]
                    else:
                        lab.append(self.case_value(cur["inner"][0]))
                        cur = cur["inner"][-1]
                groups.append([lab, [cur]])
            else:
                if not groups:
                    raise Unsupported("statement before the first case")
                groups[-1][1].append(st)
        for st in body.get("inner", []):
            add(st)
        # fall-through: append the following group's statements
        full = []
        for i, (lab, ss) in enumerate(groups):
            seq = []
            for j in range(i, len(groups)):
                seq += groups[j][1]
                if any(self.definite(q, {"kind": "switch"}) for q in groups[j][1]):
                    break
            full.append((lab, seq))
        alll = [l for lab, _ in full for l in lab if l is not None]
        fr = {"kind": "switch", "flag": None, "loops": len(self.loops)}
        self.exits.append(fr)
        mark = len(self.lines)
        first = True
        dead = []
        has_default = False
        order = [g for g in full if None not in g[0]] + [g for g in full if None in g[0]]
        for lab, seq in order:
            if None in lab:
                has_default = True
                if first:
                    self.emit("if test(Ghost(true)) {")
                else:
                    self.emit("} else {")
            else:
                c = " || ".join("%s == %s" % (x.s, l) for l in lab)
                self.emit(("if" if first else "} else if") + " test(Ghost((%s))) {" % c)
            first = False
            self.ind += 1
            # cut at the first definite exit
            dead.append(self.stmts(seq, tail=True))
            self.ind -= 1
        self.emit("}")
        self.exits.pop()
        return False if not has_default else all(d == "ret" for d in dead) and bool(dead)

    def case_value(self, n):
        n0 = n
        if n.get("kind") == "ConstantExpr" and "value" in n:
            inner = self.peel(n)
            e = n
            while e.get("kind") != "DeclRefExpr" and e.get("inner"):
                e = e["inner"][-1]
            if e.get("kind") == "DeclRefExpr" and e["referencedDecl"]["kind"] == "EnumConstantDecl":
                return self.ex(e).s
            v = int(n["value"])
            return "%dint" % v if v >= 0 else "(%dint)" % v
        return self.ex(n).s

    def st_BreakStmt(self, s, tail):
        if self.exits and self.exits[-1]["kind"] == "switch" and self.exits[-1].get("loops", 0) == len(self.loops):
            fr = self.exits[-1]
            if tail:
                return True if False else "brk" == "x"
            if fr["flag"] is not None:
                self.assign(fr["flag"], "true")
                return False
            # the rest of the list is unreachable when the caller arranged it so
            return True
        if not self.loops:
            raise Unsupported("break")
        self.run_loop_hint(self.loops[-1], "break")
        self.emit("break;")
        self.loops[-1]["brk"] = True
        return True

    def st_ContinueStmt(self, s, tail):
        L = self.loops[-1]
        self.run_loop_hint(L, "end")
        for f in L["cont"]:
            f()
        self.emit("continue;")
        return True

    # ---- loops
    def has_break(self, s):
        k = s.get("kind")
        if k == "BreakStmt":
            return True
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "SwitchStmt", "LambdaExpr"):
            return False
        return any(self.has_break(c) for c in s.get("inner", []) if isinstance(c, dict) and c)

    def loop(self, cond_nodes, body, step, kind, auto_inv=(), auto_dec=None, prog=None, cond_str=None, pre_body=None):
        """emit a loop.  cond_nodes: AST condition (or None), cond_str: ready condition"""
        ln = self.loopn
        self.loopn += 1
        ann = self.con.loops.get(ln, {})
        env0 = dict(self.env)
        mark = len(self.lines)
        # does evaluating the condition need statements?
        c = cond_str
        pre = []
        cond_inv = []
        if cond_nodes is not None:
            pr = self.try_pure(lambda: self.as_bool(self.ex(cond_nodes)))
            if pr is not None:
                c, cond_inv = pr
            else:
                self.ind += 1
                m0 = len(self.lines)
                c = self.as_bool(self.ex(cond_nodes))
                pre = self.lines[m0:]
                del self.lines[m0:]
                self.ind -= 1
        inl_ret = bool(self.exits) and any(f["kind"] == "fn" for f in self.exits) and self.may_exit({"kind": "x", "inner": [body]}, {"kind": "fn"})
        brk = bool(pre) or self.has_break(body) or inl_ret
        L = {"n": ln, "cont": [], "brk": False, "prog": prog, "ann": ann, "exits": len(self.exits)}
        sub = lambda e: self.subst(e, L)
        self.loop_info.append({"n": ln, "kind": kind, "brk": brk})
        inv = [(lab, e) for lab, e in auto_inv] + [("loop invariant %d.%d" % (ln, i), e) for i, e in enumerate(ann.get("inv", []))]
        dec = ann.get("dec") or auto_dec
        if dec is None:
            raise Unsupported("loop %d has no termination measure" % ln)
        if ann.get("before"):
            for h in ann["before"]:
                self.emit("proof { %s }" % sub(h))
        if not brk:
            self.emit("while test(Ghost(%s))" % (c if c else "true"))
            self.emit("    invariant")
        else:
            self.emit("loop")
            self.emit("    invariant_except_break")
        for lab, e in inv:
            o = self.unit.obligation(self.con.name, "invariant", "%s: %s" % (lab, e))
            self.nobl += 2
            self.emit("        %s, /*@O%d*/" % (sub(e), o.oid))
        for e, oid in cond_inv:
            self.emit("        %s, /*@O%d*/" % (e, oid))
        if not inv and not cond_inv:
            self.emit("        true,")
        if brk:
            ex = ann.get("exit_only")
            if ex is None:
                ex = [e for _, e in inv] + list(ann.get("exit", []))
            self.emit("    ensures")
            if not ex:
                self.emit("        true,")
            for e in ex:
                o = self.unit.obligation(self.con.name, "invariant", "loop %d exit: %s" % (ln, e))
                self.nobl += 1
                self.emit("        %s, /*@O%d*/" % (sub(e), o.oid))
        o = self.unit.obligation(self.con.name, "termination", "loop %d terminates" % ln)
        self.nobl += 1
        self.emit("    decreases %s /*@O%d*/" % (sub(dec), o.oid))
        self.emit("{")
        self.ind += 1
        for h in ann.get("head", []):
            self.emit("proof { %s }" % sub(h))
        if brk and c:
            self.lines += pre
            self.emit("if test(Ghost(!%s)) { %s break; }" % (paren(c), self.hint_text(ann.get("cond_break"), sub)))
        self.loops.append(L)
        if pre_body:
            pre_body()
        for h in ann.get("begin", []):
            self.emit("proof { %s }" % sub(h))
        if step:
            L["cont"].append(step)
        d = self.stmts(self.body(body), tail=False)
        if not d:
            self.run_loop_hint(L, "end")
            for f in L["cont"]:
                f()
        self.loops.pop()
        self.ind -= 1
        self.emit("}")
        for h in ann.get("after", []):
            self.emit("proof { %s }" % sub(h))
        return False

    def hint_text(self, hs, sub):
        return "".join("proof { %s } " % sub(h) for h in hs or [])

    def run_loop_hint(self, L, which):
        for h in L["ann"].get(which, []):
            self.emit("proof { %s }" % self.subst(h, L))

    def run_hint(self, which):
        for h in self.con.hints.get(which, []):
            self.emit("proof { %s }" % self.subst(h, None))

    def st_WhileStmt(self, s, tail):
        inner = s["inner"]
        if len(inner) != 2:
            raise Unsupported("while with declaration")
        if self.peel(inner[0]).get("kind") == "CXXBoolLiteralExpr" and self.peel(inner[0])["value"]:
            # while (true)
            return self.loop(None, inner[1], None, "while")
        return self.loop(inner[0], inner[1], None, "while")

    def st_ForStmt(self, s, tail):
        init, _, cond, inc, body = s["inner"]
        prog = None
        if init:
            if init["kind"] == "DeclStmt":
                self.st_DeclStmt(init, False)
                ds = [d for d in init["inner"] if d["kind"] == "VarDecl"]
                if ds and isinstance(self.env.get(ds[0]["id"]), LV):
                    prog = self.env[ds[0]["id"]].root
            else:
                self.stmt(init)
        if prog is None and inc:
            e = inc
            while e.get("inner") and e.get("kind") != "DeclRefExpr":
                e = self.peel(e["inner"][-1] if e["kind"] != "CXXOperatorCallExpr" else e["inner"][1])
            if e.get("kind") == "DeclRefExpr" and isinstance(self.env.get(e["referencedDecl"]["id"]), LV):
                prog = self.env[e["referencedDecl"]["id"]].root

        def step():
            if inc:
                self.discard = True
                self.ex(inc)
                self.discard = False
        return self.loop(cond if cond else None, body, step if inc else None, "for", prog=prog)

    def st_CXXForRangeStmt(self, s, tail):
        inner = s["inner"]
        rng = inner[1]["inner"][0]
        vd = inner[6]["inner"][0]
        body = inner[7]
        rinit = rng["inner"][0]
        lv = self.lvalue(rinit)
        if lv is None:
            v = self.ex(rinit)
            if v.t[0] not in ("vec", "str"):
                raise Unsupported("range-for over %s" % (v.t,))
            n = self.let("range", v.s, v.t)
            lv = LV(n, (), v.t)
        et = INT if lv.t == STR else lv.t[1]
        idx = self.let("i", "0int", INT)
        L = {"lv": lv}
        q = vd["type"]["qualType"]

        def pre():
            el = lv.index(idx, et)
            if q.rstrip().endswith("&"):
                self.env[vd["id"]] = el
            else:
                n = self.let(vd["name"], el.get(), et)
                self.env[vd["id"]] = LV(n, (), et)
                if et[0] == "tptr":
                    self.alias[vd["name"]] = lambda: n
        # the element alias is also visible to annotations as $<name>
        self.alias = getattr(self, "alias", {})
        self.alias[vd["name"]] = lambda: lv.index(idx, et).get()
        self.range_of = getattr(self, "range_of", {})
        self.range_of[idx] = lv

        def step():
            self.modified.add(idx)
            self.emit("proof { %s = %s + 1; }" % (idx, idx))
        return self.loop(None, body, step, "range", auto_inv=[("index in range", "0 <= %s <= %s.len()" % (idx, lv.get()))],
                         auto_dec="%s.len() - %s" % (lv.get(), idx), prog=idx, cond_str="%s < %s.len()" % (idx, lv.get()), pre_body=pre)

    # ---- annotations
    def subst(self, e, L):
        def f(m):
            n = m.group(1)
            if n == "i" and L is not None and L.get("prog"):
                return L["prog"]
            if n == "ret":
                return self.cur_ret
            if n == "seq" and L is not None and L.get("prog") in getattr(self, "range_of", {}):
                return self.range_of[L["prog"]].get()       # what the loop runs over
            if n in ("rv", "left"):                        # value of the inlined function, and whether it has been left
                fr = [x for x in self.exits if x["kind"] == "fn"]
                x = fr and fr[-1][{"rv": "var", "left": "flag"}[n]]
                if x or self.local_name(n) is None:
                    if not x:
                        raise Unsupported("annotation refers to `%s', which is not used here" % n)
                    return x
            r = self.local_name(n)
            if r is None:
                raise Unsupported("annotation refers to `%s', which the function does not have" % n)
            return r
        e = re.sub(r"\$([A-Za-z_]\w*)", f, e)
        return self.unit.lits(e)

    def local_name(self, n):
        m = re.match(r"^(.*)__(\d+)$", n)
        k = 0
        base = n
        if m:
            base, k = m.group(1), int(m.group(2))
        hit = [x for x in self.locals if x[0] == base]
        if len(hit) > k:
            return hit[k][2] if not m else hit[k][2]
        al = getattr(self, "alias", {})
        if base in al:
            return al[base]()
        # renamed local: by position among the recorded locals
        rec = self.con.recorded_locals
        if rec:
            idx = [i for i, x in enumerate(rec) if x[0] == base]
            if len(idx) > k:
                i = idx[k]
                if i < len(self.locals) and self.locals[i][1] == rec[i][1] and \
                        [x[1] for x in self.locals[:i + 1]] == [x[1] for x in rec[:i + 1]]:
                    return self.locals[i][2]
        return None

    # ---- whole function
    def translate(self):
        con, node = self.con, self.node
        params = [c for c in node.get("inner", []) if c["kind"] == "ParmVarDecl"]
        if len(params) != con.nparams:
            raise Unsupported("number of parameters of " + con.name)
        self.readonly = set()
        body = [c for c in node["inner"] if c["kind"] == "CompoundStmt"][0]
        self.ind = 1
        provs = {}
        real = iter(params)
        for c in con.cparams:
            self.names[c.name] = 1
            self.roots[c.name] = c.t
            lv = LV(c.name, (), c.t)
            if c.alias:
                lv = LV(c.alias[0], (("i", c.alias[1]),), c.t)
            provs[c.name] = lv
            if c.ghost_of:
                continue
            p = next(real)
            self.env[p["id"]] = lv
            if p["type"]["qualType"].rstrip().endswith("&") and not c.inout:
                self.readonly.add(c.name)
            u = strip_cv(p["type"].get("desugaredQualType", p["type"]["qualType"]))
            if u.startswith("unsigned") or u == "size_t":
                self.is_unsigned = dict(self.is_unsigned)
                self.is_unsigned[c.name] = True
        for c in con.cparams:
            if c.prov:
                provs[c.name].prov = provs[c.prov] if c.prov in provs else None
            if c.same_as:
                # the container of that iterator is this one
                provs[[q.prov for q in con.cparams if q.name == c.ghost_of][0]].same[(c.same_as, ())] = c.name
        for x in GLOBALS_ORDER:
            self.names[x] = 1
        self.roots["g"] = ("st", "Gdo")
        self.roots["ofs"] = self.roots["cout"] = STR
        self.roots["cin"] = STR
        self.roots["lx"] = ("ghost", "Lex")
        self.roots["fs"] = ("ghost", "Fs")
        self.roots["tp"] = vec(TPTR)
        self.roots["td"] = vec(vec(("st", "Template")))
        for c in con.cparams:
            if not c.alias:
                self.emit("let ghost mut %s: %s = %s_in;" % (c.name, vty(c.t), c.name))
        for x in con.reads + con.modifies:
            self.emit("let ghost mut %s: %s = %s_in;" % (x, vty(self.roots[x]), x))
        for n, t, init in con.ghost:
            self.names[n] = 1
            self.emit("let ghost mut %s: %s = %s;" % (n, t, init))
        self.run_hint("entry")
        self.dead = False
        d = self.stmts(body.get("inner", []), tail=False)
        if not d:
            if con.ret == VOID:
                self.cur_ret = "()"
                self.emit_return(None)
            else:
                self.emit("return %s;" % self.ret_tuple(default(con.ret), "0int"))
        # parameters that are not in/out but modified are fine (by value); globals only read must stay
        for x in con.reads:
            if x in self.modified:
                raise Unsupported("modifies %s" % x)
        return self.lines


def paren(s):
    return s if re.match(r"^[\w.@]+$", s) or s.startswith("(") and match_paren(s) else "(%s)" % s


def match_paren(s):
    d = 0
    for i, ch in enumerate(s):
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
            if d == 0:
                return i == len(s) - 1
    return False
