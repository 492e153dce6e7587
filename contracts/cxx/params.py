deps("base", "pattern", "parse")
consts(K_SKIP="param::skip", K_CREATE="param::create", K_READ="param::read")
PP = P("proto", PROTO, inout=True)
MSG = P("msg", STR, inout=True)
C("param_void_or_empty", "parameter_names.cpp", [PP], ret=BOOL, prop="C09",
  ens=[("true exactly if there is nothing to name", "ret == (proto_in.args_vec.len() == 0 || is_void(proto_in.args_vec))"),
       ("a `void' is kept as it is written", "proto_out == (if is_void(proto_in.args_vec) { Proto { args: proto_in.args_vec[0][0], ..proto_in } } else { proto_in })")])
C("append_name", "parameter_names.cpp", [PP, P("param_count", INT, inout=True), P("separator", CSTR)], prop="C09",
  req=["no_nul(separator_in)"],
  ens=[("the next name is appended to the declaration and the list", "proto_out == (Proto { args: proto_in.args + a_name(param_count_in) + separator_in, param_names: proto_in.param_names + a_name(param_count_in) + @\", \", ..proto_in })"),
       ("names are counted", "param_count_out == param_count_in + 1")],
  hints={"return": ["assert(proto.args =~= proto_in.args + a_name(param_count_in) + separator_in); assert(proto.param_names =~= proto_in.param_names + a_name(param_count_in) + @\", \");"]})
VV = [P("v", STRV, inout=True), P("it", ITER, inout=True, prov="v"), PP, P("param_count", INT, inout=True)]
for n, cond in (("get_array_type", "sh_array_noname(v_in, it_in)"), ("get_function_pointer_type", "(sh_fptr(v_in, it_in) || sh_fptr_noname(v_in, it_in))")):
    C(n, "parameter_names.cpp", VV, ret=BOOL, prop="C09", req=["toks(v_in)", "is_special(v_in, it_in)", "it_in < v_in.len()"],
      ens=[("true exactly for that kind of type", "ret == %s" % cond),
           ("the name is inserted where the declaration has its place" , "proto_out == (if ret { Proto { args: proto_in.args + cr_arg(v_in, param_count_in), param_names: proto_in.param_names + a_name(param_count_in) + @\", \", ..proto_in } } else { proto_in })") if n[4] == "f" else
           ("the name is inserted where the declaration has its place", "!sh_fptr(v_in, it_in) && !sh_fptr_noname(v_in, it_in) ==> proto_out == (if ret { Proto { args: proto_in.args + cr_arg(v_in, param_count_in), param_names: proto_in.param_names + a_name(param_count_in) + @\", \", ..proto_in } } else { proto_in })"),
           ("names are counted", "param_count_out == param_count_in + (if ret { 1int } else { 0int })"), ("the tokens are not changed", "v_out == v_in && it_out == it_in")],
      hints={"return": ["spec_it_is(v_in, it_in); if $ret { assert(!dots(v_in)); assert(proto.args =~= proto_in.args + cr_arg(v_in, param_count_in)) ; }" if n[4] == "f" else
                        "spec_it_is(v_in, it_in); if $ret && !sh_fptr(v_in, it_in) && !sh_fptr_noname(v_in, it_in) { assert(!dots(v_in)); assert(proto.args =~= proto_in.args + cr_arg(v_in, param_count_in)); }"]})
C("read_parameter_names", "parameter_names.cpp", [PP, MSG], ret=BOOL, prop="C09", req=["args_toks(proto_in.args_vec)"],
  ens=[("an error exactly for a parameter whose name cannot be read", "ret == rd_all(proto_in.args_vec)"),
       ("the names are listed in order", "ret ==> proto_out == rd_res(proto_in)"),
       ("an error has a message", "!ret ==> msg_out.len() > 0")],
  loops={0: dict(inv=["proto == (Proto { param_names: proto_in.param_names + rd_names(proto_in.args_vec, $i), ..proto_in })", "forall|k: int| 0 <= k < $i ==> rd_ok(#[trigger] proto_in.args_vec[k])"],
                 begin=["spec_it_all();"], **{"return": ["assert(!rd_ok(proto_in.args_vec[$i]));"]})})
C("parse::get_parameter_names", "parameter_names.cpp", [PP, P("parameter_names", INT, inout=True), MSG], ret=BOOL, prop="C09", cxxname="get_parameter_names", req=["args_toks(proto_in.args_vec)"],
  ens=[("an error exactly for a parameter whose name cannot be read", "ret == get_ok(proto_in, parameter_names_in)"),
       ("the parameters and their names are listed in order", "ret ==> proto_out == get_res(proto_in, parameter_names_in)"),
       ("an error has a message", "!ret ==> msg_out.len() > 0"), ("the mode is not changed", "parameter_names_out == parameter_names_in")],
  loops={0: dict(inv=["proto == (Proto { args: proto_in.args + all_args(proto_in.args_vec, $i), ..proto_in })"])})
C("parse::create_parameter_names", "parameter_names.cpp", [PP, MSG], ret=BOOL, prop="C09", cxxname="create_parameter_names", req=["args_toks(proto_in.args_vec)"],
  ens=[("an error exactly for a parameter that cannot be named", "ret == create_ok(proto_in)"),
       ("every parameter but `...' gets the next name", "ret ==> proto_out == create_res(proto_in)"),
       ("an error has a message", "!ret ==> msg_out.len() > 0")],
  loops={0: dict(inv=["proto == (Proto { args: proto_in.args + cr_args(proto_in.args_vec, $i), param_names: proto_in.param_names + cr_names(proto_in.args_vec, $i), ..proto_in })",
                      "$param_count == cr_count(proto_in.args_vec, $i)", "forall|k: int| 0 <= k < $i ==> cr_ok(#[trigger] proto_in.args_vec[k])"],
                 begin=["spec_it_is_any(proto_in.args_vec[$i]);"],
                 end=["cr_step(proto_in, $i, proto.args, proto.param_names);"], **{"return": ["assert(!cr_ok(proto_in.args_vec[$i]));"]})}, rlimit=60)
