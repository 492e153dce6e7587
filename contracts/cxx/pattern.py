deps("base")
VI = [P("v", STRV, inout=True), P("it", ITER, prov="v")]
C("check_pattern", "check_pattern.cpp", [P("v", STRV, inout=True), P("it", ITER, prov="v"), P("sq", st("SeqPat"))], ret=BOOL, prop="C08",
  req=["0 <= it_in <= v_in.len()", "sq_in.dist_front >= 1 && sq_in.min_size >= 1", "sq_in.min_size >= sq_in.middle.len() + sq_in.end.len() + 1", "1 <= sq_in.end.len() <= 2", "sq_in.dist_end >= sq_in.middle.len()",
       "no_nul(sq_in.front) && no_nul(sq_in.middle) && no_nul(sq_in.end)", "sq_in.front.len() >= 1", "it_in == v_in.len() ==> sq_in.middle.len() == 0"],
  ens=[("the tokens match the pattern", "ret == pat_match(v_in, it_in, sq_in)"), ("the tokens are not changed", "v_out == v_in")],
  ghost=[("k", "int", "0")],
  loops={0: dict(inv=["0 <= k <= sq.middle.len()", "p =~= sq.middle.skip(k)", "it == it_in + k", "forall|j: int| 0 <= j < k ==> tmatch(front(v[it_in + j]), #[trigger] sq.middle[j])"],
                 dec="$p.len()", begin=["assert(c_at($p) == sq.middle[k]);"], end=["k = k + 1;"], **{"return": ["assert(!tmatch(front(v[it_in + k]), sq.middle[k]));"]})})

C("parse::find_first_not_pointer_or_ident", "check_pattern.cpp", [P("v", STRV, inout=True)], ret=ITER, ret_in="v", prop="C08",
  ens=[("the first token that is neither `*' nor an identifier", "is_special(v_in, ret)"), ("the tokens are not changed", "v_out == v_in")],
  loops={0: dict(inv=["0 <= $it <= v.len()", "forall|k: int| 0 <= k < $it ==> plain(front(#[trigger] v[k]))"], dec="v.len() - $it")})

def sh(name, spec, what, mid, end="", x=""):
    C("parse::" + name, "check_pattern.cpp", VI, ret=BOOL, prop="C08", req=["0 <= it_in <= v_in.len()", "toks(v_in)"] + (["it_in < v_in.len()"] if mid else []),
      ens=[("true exactly for " + what, "ret == %s" % spec), ("the tokens are not changed", "v_out == v_in")], hints={"return": [
          "let m = sq.middle; let e = sq.end; %s %s" % (" ".join("assert(m[%d] == %d);" % (i, c) for i, c in enumerate(mid)), x)]})


LP, RP, ST, SY = 40, 41, 42, 2
sh("is_object", "sh_object(v_in, it_in)", "TYPE SYMBOL", [])
sh("is_function", "sh_function(v_in, it_in)", "TYPE SYMBOL ( .. )", [LP])
sh("is_function_parentheses", "sh_fparen(v_in, it_in)", "TYPE ( SYMBOL ) ( .. )", [LP, SY, RP, LP])
sh("is_function_paren_pointer1", "sh_fparen_ptr(v_in, it_in, 1)", "TYPE ( * SYMBOL ( .. ) )", [LP, ST, SY, LP])
sh("is_function_paren_pointer2", "sh_fparen_ptr(v_in, it_in, 2)", "TYPE ( ** SYMBOL ( .. ) )", [LP, ST, ST, SY, LP])
sh("is_function_pointer", "sh_fptr(v_in, it_in)", "TYPE ( * SYMBOL ) ( .. )", [LP, ST, SY, RP, LP])
sh("is_function_pointer_no_name", "sh_fptr_noname(v_in, it_in)", "TYPE ( * ) ( .. )", [LP, ST, RP, LP])
sh("is_array", "sh_array(v_in, it_in)", "TYPE SYMBOL [ .. ]", [91])
sh("is_array_no_name", "sh_array_noname(v_in, it_in)", "TYPE [ .. ]", [91])
