# clang_ast.cpp: reading a Clang AST dump. The lexer (tokens and their texts) and std::regex are trusted.
deps("base", "text")
consts(A_FUNCVAR="LEX_AST_FUNCVAR", A_PARMVAR="LEX_AST_PARMVAR", P_FUN="proto::function", P_FPTR="proto::function_pointer", P_OBJ="proto::object", P_ARR="proto::object_array",
       F_NONE="filter::none", F_PFX="filter::prefix", F_LIST="filter::list", F_BOTH="filter::pfx_list")
C("yylex", "clang_ast.cpp", [], ret=INT, axiom=True, modifies=["lx"], note="lexer", prop="C22",
  ens=[("the next token", "lx_out == (Lex { pos: lx_in.pos + 1, ..lx_in }) && ret == lx_kind(lx_in.toks, lx_in.pos)")])
C("strip_line", "clang_ast.cpp", [P("line", CSTR)], ret=STR, prop="C22",
  ens=[("the line without carriage return and colours", "ret == ast_line(line_in)")])
C("has_va_args", "clang_ast.cpp", [P("ty", STR)], ret=BOOL, prop="C22",
  loops={0: dict(inv=["$scope == depth(ty, $i)", "forall|k: int| 0 <= k < $i ==> !(ty[k] == 46 && #[trigger] depth(ty, k) == 1)"])},
  ens=[("whether the outer parentheses hold dots", "ret == variadic(ty_in)")])
C("get_parameters", "clang_ast.cpp", [P("args", STR, inout=True), P("param_names", STR, inout=True), P("param_count", INT, inout=True)], ret=BOOL, reads=["lx"], prop="C22",
  hints={"entry": ["find_spec(re_parm_type(ast_line(lx_text(lx))), @\"(*)\", 0);"]},
  ens=[("whether the line is a parameter", "ret == ast_parm(lx_in.toks, lx_in.pos - 1)"),
       ("its declaration is appended", "args_out =~= (if ret { parm_decl(args_in, re_parm_type(ast_line(lx_text(lx_in))), a_nm(param_count_in)) } else { args_in })"),
       ("its name is appended", "param_names_out =~= (if ret { param_names_in + a_nm(param_count_in) + @\", \" } else { param_names_in })"),
       ("names are counted", "param_count_out == param_count_in + (if ret { 1int } else { 0int })")])

T, POS = "lx_in.toks", "lx_in.pos"
LIST = ["g.m_symbol_list", "g.m_prefix_list"]
C("get_declarations", "clang_ast.cpp", [P("mode", INT)], ret=INT, method=True, modifies=["g", "lx"], prop="C22", req=["lx_in.pos >= 1"],
  hints={"entry": ["find_spec(re_func_type(ast_line(lx_text(lx))), s1(40), 0); find_spec(re_var_type(ast_line(lx_text(lx))), s1(91), 0); reveal(filt); reveal(cut); erase_none(g.m_symbol_list, ast_sym(lx.toks, lx.pos - 1));"]},
  loops={0: dict(inv=["lx.toks == lx_in.toks", "lx_in.pos <= lx.pos", "g == filt(g_in, mode, ast_sym(lx_in.toks, lx_in.pos - 1))",
                      "$proto == (Proto { args: $proto.args, param_names: $proto.param_names, ..ast_fun(lx_in.toks, lx_in.pos - 1) })",
                      "$param_count == lx.pos - lx_in.pos + 1", "forall|k: int| lx_in.pos <= k < lx.pos ==> #[trigger] is_parm(lx_in.toks, k)",
                      "$proto.args =~= parm_decls(lx_in.toks, lx_in.pos, lx.pos - lx_in.pos)", "$proto.param_names =~= parm_names(lx.pos - lx_in.pos)"], dec="lx_in.toks.len() - lx.pos",
    cond_break=["parm_end_is(lx_in.toks, lx_in.pos, lx.pos - 1);"], exit_only=["lx.toks == lx_in.toks", "lx_in.pos <= lx.pos - 1", "g == filt(g_in, mode, ast_sym(lx_in.toks, lx_in.pos - 1))",
      "$proto == (Proto { args: $proto.args, param_names: $proto.param_names, ..ast_fun(lx_in.toks, lx_in.pos - 1) })",
      "$proto.args =~= parm_decls(lx_in.toks, lx_in.pos, lx.pos - 1 - lx_in.pos)", "$proto.param_names =~= parm_names(lx.pos - 1 - lx_in.pos)", "parm_end(lx_in.toks, lx_in.pos) == lx.pos - 1"],
    **{"break": ["parm_end_is(lx_in.toks, lx_in.pos, lx.pos - 1);"]})},
  ens=[("one selected declaration is added", "g_out == ast_decl(g_in, mode_in, lx_in.toks, lx_in.pos - 1)"),
       ("1 exactly if a function was read", "ret == (if ast_is_fun(g_in, mode_in, lx_in.toks, lx_in.pos - 1) { 1int } else { 0int })"),
       ("the lines of its parameters are read", "lx_out == (if ret == 1 { Lex { pos: parm_end(lx_in.toks, lx_in.pos) + 1, ..lx_in } } else { lx_in })")])

RUN = "ast_run(g_in, ast_mode(g_in), lx_in.toks, lx_in.pos, lx_in.toks.len() as int)"
C("parse_clang_ast", "clang_ast.cpp", [], method=True, modifies=["g", "lx"], throws=True, prop="C22",
  req=["0 <= lx_in.pos <= lx_in.toks.len()", "ast_tokens(lx_in.toks, lx_in.pos)"],
  hints={"entry": ["ast_bits();"]}, ghost=[("lp", "int", "0")],
  loops={0: dict(inv=["lx.toks == lx_in.toks", "lx_in.pos <= lx.pos", "lx.pos <= lx.toks.len() ==> g == ast_run(g_in, $mode, lx_in.toks, lx_in.pos, lx.pos)", "lx.pos > lx.toks.len() ==> g == ast_run(g_in, $mode, lx_in.toks, lx_in.pos, lx_in.toks.len() as int)"],
                 dec="lx_in.toks.len() + 1 - lx.pos", exit_only=["g == ast_run(g_in, $mode, lx_in.toks, lx_in.pos, lx_in.toks.len() as int)"],
                 head=["lp = lx.pos;"], cond_break=["let p = lx.pos - 1; if p < lx.toks.len() { assert(lx.toks[p].0 == lx_kind(lx.toks, p)); }"],
                 **{"break": ["if lx.pos <= lx.toks.len() { run_done(g_in, lx_in.toks, lx_in.pos, lx.pos, lx_in.toks.len() as int); }"]}),
         1: dict(inv=["lx.toks == lx_in.toks", "lx_in.pos + 1 <= lx.pos <= lx.toks.len() + 1", "lp < lx.pos", "g == ast_run(g_in, $mode, lx_in.toks, lx_in.pos, lx.pos - 1)"], dec="lx_in.toks.len() + 2 - lx.pos",
                 head=["run_step(g_in, g, $mode, lx_in.toks, lx_in.pos, lx.pos - 1);"],
                 exit_only=["lx.toks == lx_in.toks", "lx_in.pos < lx.pos <= lx.toks.len() + 1", "lp < lx.pos", "g == ast_run(g_in, $mode, lx_in.toks, lx_in.pos, if lx.pos <= lx.toks.len() { lx.pos } else { lx.toks.len() as int })"])},
  ens=[("it is an error if nothing is selected, nothing is found or a symbol of the list is missing", "(threw == 0) == ast_good(g_in, %s)" % RUN),
       ("exactly the selected declarations are read, in order", "threw == 0 ==> g_out == " + RUN)])
