deps("base", "pattern", "parse", "params")
C("parse_tokens", "parse.cpp", [P("vec_tokens", vec(STRV), inout=True), P("vproto", vec(PROTO), inout=True)], ret=BOOL, prop="C08", req=["all_toks(vec_tokens_in)"],
  ens=[("accepted exactly if every statement is a supported declaration", "ret == all_decl(vec_tokens_in)"),
       ("one symbol per statement, in order", "ret ==> vproto_out == vproto_in + decls(vec_tokens_in)"), ("the tokens are not changed", "vec_tokens_out == vec_tokens_in")],
  hints={"entry": ["spec_it_all();"], "return": ["if $ret { assert(vproto =~= vproto_in + decls(vec_tokens_in)); }"]},
  loops={0: dict(inv=["vec_tokens == vec_tokens_in", "vproto =~= vproto_in + decls(vec_tokens_in).subrange(0, $i)", "forall|k: int| 0 <= k < $i ==> decl_ok(#[trigger] vec_tokens_in[k], spec_it(vec_tokens_in[k]))"],
                 begin=["assert(toks(vec_tokens_in[$i])); special(vec_tokens_in[$i]);"],
                 **{"return": ["if !$ret { assert(!decl_ok(vec_tokens_in[$i], spec_it(vec_tokens_in[$i]))); }"]})})
D = "decls(vec_tokens_in)"
N = "named(decls(vec_tokens_in), g_in.m_parameter_names)"
OK = "input_ok(vec_tokens_in, g_in.m_parameter_names, g_in.m_prefix_list, g_in.m_symbol_list)"
FR = "g == (Gdo { m_prototypes: g.m_prototypes, m_objects: g.m_objects, m_symbol_list: g.m_symbol_list, ..g_in })"
def sel(i, fn, rest=""):
    return ["g.m_prototypes =~= %s" % (fn % (i, "true")), "g.m_objects =~= %s" % (fn % (i, "false"))]
NM = dict(inv=["g == g_in", "nm($vproto, %s, g_in.m_parameter_names, $i)" % D],
          before=["nm_begin(%s, g_in.m_parameter_names);" % D],
          begin=["nm_at($vproto, vec_tokens_in, g_in.m_parameter_names, $i);"],
          after=["nm_end($vproto, vec_tokens_in, g_in.m_parameter_names, $i); sv_begin(%s, g_in.m_prefix_list, g_in.m_symbol_list);" % N])
IS = ["assert(g.m_%s =~= selected(%s, %s, g_in.m_prefix_list, g_in.m_symbol_list));" % (w, N, f) for w, f in (("prototypes", "true"), ("objects", "false"))]
PL, SL = "g_in.m_prefix_list", "g_in.m_symbol_list"
C("parse", "parse.cpp", [P("vec_tokens", vec(STRV), inout=True), P("input_name", STR)], method=True, modifies=["g"], throws=True, prop="C11",
  req=["all_toks(vec_tokens_in)", "g_in.m_prototypes.len() == 0 && g_in.m_objects.len() == 0"],
  ens=[("what is no supported declaration is an error", "threw == 0 ==> all_decl(vec_tokens_in) && vec_tokens_in.len() > 0", "C08"),
       ("two declarations of one symbol are an error", "threw == 0 ==> !has_dup(decls(vec_tokens_in))", "C12"),
       ("parameters that cannot be handled are an error", "threw == 0 ==> all_named(decls(vec_tokens_in), g_in.m_parameter_names)", "C09"),
       ("listed symbols that are not declared and empty selections are errors", "threw == 0 ==> %s" % OK),
       ("everything else is accepted", "%s ==> threw == 0" % OK),
       ("exactly the selected functions are kept, once each", "threw == 0 ==> g_out.m_prototypes == selected(%s, true, g_in.m_prefix_list, g_in.m_symbol_list)" % N),
       ("exactly the selected objects are kept, once each", "threw == 0 ==> g_out.m_objects == selected(%s, false, g_in.m_prefix_list, g_in.m_symbol_list)" % N),
       ("nothing else is changed", "threw == 0 ==> g_out == (Gdo { m_prototypes: g_out.m_prototypes, m_objects: g_out.m_objects, m_symbol_list: g_out.m_symbol_list, ..g_in })")],
  hints={"entry": ["bits(); let d = decls(vec_tokens_in); let m = %s; named_dup(d, g_in.m_parameter_names); rest_empty(m, g_in.m_symbol_list);"
                   " sel_cases(m, true, g_in.m_prefix_list, g_in.m_symbol_list); sel_cases(m, false, g_in.m_prefix_list, g_in.m_symbol_list); step0(m, g_in.m_prefix_list, g_in.m_symbol_list); sel_all_ok(m, true, g_in.m_prefix_list, g_in.m_symbol_list); sel_all_ok(m, false, g_in.m_prefix_list, g_in.m_symbol_list);" % N]},
  loops={0: NM, 1: NM,
         2: dict(inv=[FR, "g.m_symbol_list == g_in.m_symbol_list", "sv0($vproto, %s, $i)" % N] + sel("$i", "sel_all(%s, %%s, %%s)" % N), begin=["sv0_at($vproto, %s, $i); step(%s, $i, %s, %s);" % (N, N, PL, SL)],
                 after=["sv0_len($vproto, %s, $i);" % N] + IS),
         3: dict(inv=[FR, "g.m_symbol_list == g_in.m_symbol_list", "sv($vproto, %s, %s, $i, false)" % (N, PL)] + sel("$i", "sel_pfx(%s, %%s, %%s, %s)" % (N, PL)),
                 begin=["sv_at($vproto, %s, %s, $i, false); step(%s, $i, %s, %s);" % (N, PL, N, PL, SL)], after=["sv_len($vproto, %s, %s, $i, false); sv_mid($vproto, %s, %s);" % (N, PL, N, PL), "if %s.len() == 0 { assert(%s.len() > 0); %s }" % (SL, PL, " ".join(IS))]),
         4: dict(inv=[FR, "sv($vproto, %s, %s, $i, true)" % (N, PL)] +
                 ["g.m_prototypes =~= sel_pfx({0}, {0}.len() as int, true, {1}) + sel_list({0}, $i, true, {1}, {2})".format(N, PL, SL),
                  "g.m_objects =~= sel_pfx({0}, {0}.len() as int, false, {1}) + sel_list({0}, $i, false, {1}, {2})".format(N, PL, SL),
                  "g.m_symbol_list == rest_of(%s, $i, %s)" % (N, SL)],
                 begin=["sv_at($vproto, %s, %s, $i, true); rest_step(%s, $i, %s); step(%s, $i, %s, %s);" % (N, PL, N, SL, N, PL, SL)],
                 after=["sv_len($vproto, %s, %s, $i, true); rest_empty(%s, %s); assert(g.m_symbol_list == rest_of(%s, %s.len() as int, %s)); assert((g.m_symbol_list.len() == 0) == !unlisted(%s, %s));" % (N, PL, N, SL, N, N, SL, N, SL)] + IS)}, rlimit=100,
  hide=["decl", "decl_ok", "create_ok", "create_res", "get_ok", "get_res", "has_dup", "declared", "unlisted", "bit_and", "erase_all", "count_of", "prefixed", "listed", "selected", "sel_all", "sel_pfx", "sel_list", "rest_of", "all_named", "all_decl", "all_toks", "named", "toks", "args_toks"])
