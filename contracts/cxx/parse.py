deps("base", "pattern")
consts(K_FUNC="proto::function", K_FPTR="proto::function_pointer", K_OBJ="proto::object", K_ARR="proto::object_array")
DOC = "C08"
C("parse::append_strings/3", "parse.cpp", [P("v", STRV, ghost_of="it_beg"), P("buf", STR, inout=True), P("it_beg", ITER, prov="v"), P("it_end", ITER, prov="v")],
  cxxname="append_strings", prop=DOC, req=["0 <= it_beg_in <= it_end_in <= v_in.len()"],
  ens=[("the tokens are appended in order, each followed by a space", "buf_out == buf_in + joined(v_in, it_beg_in, it_end_in)")],
  loops={0: dict(inv=["it_beg_in <= $it <= it_end_in", "buf =~= buf_in + joined(v, it_beg_in, $it)"], dec="it_end_in - $it")})
C("parse::append_strings/2", "parameter_names.cpp", [P("buf", STR, inout=True), P("vec", STRV)], cxxname="append_strings", prop="C09",
  ens=[("the tokens are appended in order, each followed by a space", "buf_out == buf_in + joined(vec_in, 0, vec_in.len() as int)")],
  loops={0: dict(inv=["buf =~= buf_in + joined(vec, 0, $i)"])})
C("copy_parameters", "parse.cpp", [P("v", STRV, ghost_of="it_beg"), P("it_beg", ITER, prov="v"), P("it_end", ITER, prov="v"), P("proto", PROTO, inout=True)], prop="C09",
  req=["0 <= it_beg_in <= it_end_in <= v_in.len()", "proto_in.args_vec.len() == 0"],
  ens=[("parameters are split at top-level commas only", "proto_out == (Proto { args_vec: proto_in.args_vec + params_of(v_in, it_beg_in, it_end_in), ..proto_in })")],
  hints={"return": ["assert(proto.args_vec =~= proto_in.args_vec + params_of(v_in, it_beg_in, it_end_in));"]},
  loops={0: dict(inv=["it_beg_in <= $it <= it_end_in", "({ let (s, c, r) = cp(v, it_beg_in, $it); scope == s && tokens == c && proto.args_vec =~= proto_in.args_vec + r })",
                      "proto == (Proto { args_vec: proto.args_vec, ..proto_in })"], dec="it_end_in - $it")})
C("multiple_definitions", "parse.cpp", [P("vproto", vec(PROTO)), P("buf", STR, inout=True)], ret=BOOL, prop="C12",
  ens=[("true exactly if two declarations have the same name", "ret == has_dup(vproto_in)")],
  loops={0: dict(inv=["0 <= $i <= vproto.len()", "forall|a: int, b: int| 0 <= b < a < $i ==> (#[trigger] vproto[a]).symbol != (#[trigger] vproto[b]).symbol"], dec="vproto.len() - $i",
                 **{"return": ["assert(vproto[$i].symbol == vproto[$j].symbol);"]}),
         1: dict(inv=["0 <= $j <= $i__0", "forall|b: int| 0 <= b < $j ==> vproto[$i__0].symbol != (#[trigger] vproto[b]).symbol"], dec="$i__0 - $j")})

def chk(name, shape, res, it=True):
    C("check_" + name, "parse.cpp", [P("v", STRV, inout=True), P("p", PROTO, inout=True)] + ([P("it", ITER, inout=True, prov="v")] if it else []), ret=BOOL, prop=DOC,
      req=["toks(v_in)", "v_in.len() >= 1", "p_in.args_vec.len() == 0"] + (["1 <= it_in < v_in.len()"] if it else []),
      ens=[("recognised exactly by its shape", "ret == %s" % shape), ("type, name and parameters are those of the declaration", "p_out == (if ret { %s } else { p_in })" % res),
           ("the tokens are not changed", "v_out == v_in")] + ([("the position is not changed", "it_out == it_in")] if it else []),
      hints={"return": ["if $ret { assert(p =~= %s); }" % res]})


chk("object", "sh_object(v_in, v_in.len() as int)", "d_object(v_in, p_in)", it=False)
chk("array", "sh_array(v_in, it_in)", "d_array(v_in, it_in, p_in)")
chk("function_pointer", "sh_fptr(v_in, it_in)", "d_fptr(v_in, it_in, p_in)")
chk("function_paren", "sh_fparen(v_in, it_in)", "d_fparen(v_in, it_in, p_in)")
chk("function_paren_pointer", "(sh_fparen_ptr(v_in, it_in, 1) || sh_fparen_ptr(v_in, it_in, 2))", "(if sh_fparen_ptr(v_in, it_in, 1) { d_fparen_ptr(v_in, it_in, 1, p_in) } else { d_fparen_ptr(v_in, it_in, 2, p_in) })")
chk("function", "sh_function(v_in, it_in)", "d_func(v_in, it_in, p_in)")
C("check_prototype", "parse.cpp", [P("v", STRV, inout=True), P("p", PROTO, inout=True)], ret=BOOL, prop=DOC, req=["toks(v_in)", "p_in.args_vec.len() == 0"],
  ens=[("exactly the supported declarations are accepted", "forall|it: int| is_special(v_in, it) ==> ret == decl_ok(v_in, it)"),
       ("type, name and parameters are those of the declaration", "forall|it: int| is_special(v_in, it) ==> p_out == (if ret { decl(v_in, it, p_in) } else { p_in })"),
       ("the tokens are not changed", "v_out == v_in")],
  hints={"return": ["assert forall|a: int, b: int| is_special(v_in, a) && is_special(v_in, b) implies a == b by { special_unique(v_in, a, b); }"]})
