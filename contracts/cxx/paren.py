deps("base", "pattern")
ENT = st("Entry")
EV = P("v", vec(ENT), inout=True)
C("erase_outer_parentheses", "tokenize.cpp", [EV, P("outer_Lparen", ITER, inout=True, prov="v")], ret=BOOL, prop="C10",
  req=["0 <= outer_Lparen_in", "outer_Lparen_in + 2 <= v_in.len()", "v_in[outer_Lparen_in].ch == 40", "v_in[outer_Lparen_in + 1].ch == 40"],
  ens=[("true exactly if the pair is redundant", "ret == redundant(v_in, outer_Lparen_in)"),
       ("a redundant pair is dropped and nothing else", "v_out == (if ret { without_pair(v_in, outer_Lparen_in) } else { v_in })"),
       ("the position stays", "outer_Lparen_out == outer_Lparen_in")],
  loops={0: dict(inv=["v == v_in && outer_Lparen == outer_Lparen_in", "outer_Lparen_in + 2 <= $it <= v_in.len()", "closing(v_in, v_in[outer_Lparen_in].num, outer_Lparen_in + 2) == closing(v_in, v_in[outer_Lparen_in].num, $it)"], dec="v_in.len() - $it",
                 **{"return": ["if $ret { assert(v =~= without_pair(v_in, outer_Lparen_in)); }"]})})
C("remove_matching_parentheses", "tokenize.cpp", [EV], prop="C10",
  ens=[("exactly the redundant pairs are dropped", "v_out == reduced(v_in, 0)")],
  loops={0: dict(inv=["0 <= $it <= v.len()", "reduced(v, $it) == reduced(v_in, 0)"], dec="v.len(), v.len() - $it",
                 begin=["if $it + 2 <= v.len() { closing_range(v, v[$it].num, $it + 2); }"])})
C("remove_superfluous_parentheses", "tokenize.cpp", [P("v_in", STRV, inout=True)], prop="C10", req=["toks(v_in_in)"],
  ens=[("exactly the redundant pairs are dropped, the other tokens stay in order", "v_in_out == strs(reduced(ents(v_in_in), 0))")],
  hints={"return": ["no_paren_v(v_in_in); assert(v_in =~= strs(reduced(ents(v_in_in), 0)));"]},
  loops={0: dict(inv=["$n == pdepth(v_in_in, $i)", "$v =~= ents(v_in_in).subrange(0, $i)", "v_in.len() == v_in_in.len()", "forall|k: int| $i <= k < v_in.len() ==> v_in[k] == v_in_in[k]"], after=["assert($v =~= ents(v_in_in));"]),
         1: dict(inv=["v_in =~= strs(reduced(ents(v_in_in), 0)).subrange(0, $i)", "$v.len() == reduced(ents(v_in_in), 0).len()", "forall|k: int| $i <= k < $v.len() ==> $v[k] == reduced(ents(v_in_in), 0)[k]"])})
