# tokenize.cpp: reading the input
deps("base", "pattern", "parse", "paren", "typedefs", "text", "clang", "params", "select", "infile")
consts(**{"X_" + a: "LEX_" + b for a, b in dict(ERROR="ERROR", OPTION="OPTION", STRUCT="STRUCT", UNION="UNION", ENUM="ENUM", TYPEDEF="TYPEDEF", ID="ID", OTHER="OTHER", OPEN="CURLY_OPEN", CLOSE="CURLY_CLOSE", EQ="EQUAL", SEMI="SEMICOLON", AST="AST_BEGIN").items()})
C("set_illegal_char", "tokenize.cpp", [], axiom=True, note="lexer", prop="C08", ens=[("only the text of the error message changes", "true")])
R = "tz_all(tz0(), lx_in.toks, lx_in.pos)"
ST = "(Tz { vec: vec, opts: if options is Some { options->Some_0 } else { $o }, cur: $tokens, block: $block, curly: $curly_count, stop: !$loop, rv: $rv })".replace("$o", "o")
C("tokenize_stream", "tokenize.cpp", [P("vec", vec(STRV), inout=True), P("options", ("opt", STRV), inout=True)], ret=INT, modifies=["lx"], prop="C08", also=("C26",),
  req=["0 <= lx_in.pos <= lx_in.toks.len()", "vec_in.len() == 0", "options_in is Some ==> options_in->Some_0.len() == 0"],
  ghost=[("o", "Seq<Seq<int>>", "Seq::empty()"), ("s", "Tz", "tz0()")],
  loops={0: dict(before=["assert(vec =~= Seq::empty()); assert(options is Some ==> options->Some_0 =~= Seq::empty());"], inv=["lx.toks == lx_in.toks", "lx_in.pos <= lx.pos", "lx.pos <= lx.toks.len() + (if $loop { 0int } else { 1int })",
                      "options is Some == options_in is Some", "options_in is None ==> o == s.opts", "s == " + ST, "if $loop { tz_all(s, lx.toks, lx.pos) == %s } else { %s == (s, lx.pos) }" % (R, R)], dec="lx.toks.len() + 2 - lx.pos + (if $loop { 1int } else { 0int })",
                 end=["s = tz_step(s, lx_kind(lx.toks, lx.pos - 1), lx_text(lx)); o = s.opts;"])},
  ens=[("the statements, without blocks: each ends with a semicolon or the input", "vec_out == tz_vec(%s.0)" % R),
       ("the %option strings, in order", "options_out == (if options_in is Some { Some(%s.0.opts) } else { None })" % R),
       ("the token that ended the input, an error for braces and = outside of blocks", "ret == %s.0.rv" % R),
       ("the tokens read", "lx_out == (Lex { pos: %s.1, ..lx_in })" % R)])

C("yyset_in", "tokenize.cpp", [P("fp", ("file",))], axiom=True, modifies=["lx", "cin"], note="lexer", prop="C08", req=["fp_in != 0"],
  ens=[("the tokens of the file", "lx_out == (Lex { toks: lexed(cin_in), pos: 0 }) && lex_ok(lx_out.toks)")])
X = "file_text(g_in.m_input)"
V0 = "tz_vec(tk_res(%s))" % X
def cos(i, f):
    return dict(inv=["g == (Gdo { %s: g.%s, ..w%d })" % (f, f, i), "g.%s.len() == w%d.%s.len()" % (f, i, f), "forall|k: int| 0 <= k < $i ==> #[trigger] g.%s[k] == %s(w%d.%s[k])" % (f, "fmt" if f == "m_typedefs" else "fmt_p", i, f),
                     "forall|k: int| $i <= k < g.%s.len() ==> #[trigger] g.%s[k] == w%d.%s[k]" % (f, f, i, f)],
                before=(["w1 = g; assert(w1 == with_tds(with_sel(h, stripped(%s), g.m_symbol_list)));" % V0] if i == 1 else ["w%d = g;" % i]))
SRC = "src_res(g_in, %s, g_out.m_symbol_list)" % X
C("tokenize", "tokenize.cpp", [], method=True, modifies=["g", "lx", "cin"], throws=True, prop="C08", also=("C13", "C22", "C26"), rlimit=100,
  req=["g_in.m_prototypes.len() == 0 && g_in.m_objects.len() == 0"], ghost=[("h", "Gdo", "g_in")] + [("w%d" % i, "Gdo", "g_in") for i in (1, 2, 3)],
  hide=["fmt", "strs", "ents", "reduced", "decl", "decl_ok", "create_ok", "create_res", "get_ok", "get_res", "has_dup", "unlisted", "selected", "named", "all_named", "all_decl", "toks", "all_toks", "input_ok", "ast_run", "ast_good", "tds", "td", "td_obj", "td_bad", "opt_step", "tz_step", "lex_ok"],
  hints={"call:parse": ["w1 = g; let q = with_sel(h, stripped(%s), Seq::empty()); assert(w1.m_objects == q.m_objects); tds_bad_eq(w1, q);" % V0],
         "entry": ["let o = tk_res(%s).opts; opts_keep(g, o, o.len() as int); assert(tz_ok(tz0())) by { reveal(toks); reveal(all_toks); } if lex_ok(lexed(%s)) { tz_all_ok(tz0(), lexed(%s), 0); stripped_toks(%s); }" % (X, X, X, V0)]},
  loops={0: dict(before=["h = g;"], inv=["vec_tokens.len() == %s.len()".replace("vec", "$vec") % V0, "forall|k: int| 0 <= k < $i ==> #[trigger] $vec_tokens[k] == stripped(%s)[k]" % V0, "forall|k: int| $i <= k < $vec_tokens.len() ==> #[trigger] $vec_tokens[k] == %s[k]" % V0],
                 begin=["assert(toks(%s[$i])) by { reveal(all_toks); }" % V0], after=["assert($vec_tokens =~= stripped(%s));" % V0]),
         1: cos(1, "m_prototypes"), 2: cos(2, "m_objects"), 3: cos(3, "m_typedefs")},
  ens=[("an error exactly if there is no input, it cannot be read, or an option or a declaration is not accepted", "(threw == 0) == tk_ok(g_in)"),
       ("an AST dump gives its selected declarations", "threw == 0 && tk_res(%s).rv == X_AST() ==> g_out == with_tds(dump_run(g_in, %s))" % (X, X), "C22"),
       ("the selected functions, without redundant parentheses, formatted", "threw == 0 && tk_res(%s).rv != X_AST() ==> g_out.m_prototypes == %s.m_prototypes" % (X, SRC)),
       ("the selected objects and their typedefs, formatted", "threw == 0 && tk_res(%s).rv != X_AST() ==> g_out.m_objects == %s.m_objects && g_out.m_typedefs == %s.m_typedefs" % (X, SRC, SRC), "C13"),
       ("the %option strings take effect, nothing else is changed", "threw == 0 && tk_res({0}).rv != X_AST() ==> g_out == (Gdo {{ m_prototypes: g_out.m_prototypes, m_objects: g_out.m_objects, m_typedefs: g_out.m_typedefs, m_symbol_list: g_out.m_symbol_list, ..tk_opts(g_in, tk_res({0}))->Some_0 }})".format(X), "C26")])
