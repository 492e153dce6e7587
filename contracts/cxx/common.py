# generate.cpp: common prefix of the symbols
deps("base", "text")
VP = VEC(st("Proto")) if "VEC" in globals() else ("vec", st("Proto"))
C("compare_chars_at", "generate.cpp", [P("w", VP, ghost_of="it0"), P("same", BOOL, ghost_of="it0", same_as="vec"), P("vec", VP), P("it0", ITER, prov="w"), P("pos", INT)], ret=BOOL, prop="C21",
  req=["0 <= it0_in < w_in.len()", "same_in ==> w_in == vec_in", "0 <= pos_in < w_in[it0_in].symbol.len()", "names_ok(w_in) && names_ok(vec_in)",
       "forall|j: int| 0 <= j < vec_in.len() ==> pos_in <= (#[trigger] vec_in[j]).symbol.len()"],
  loops={0: dict(inv=["0 <= $it <= vec.len()", "forall|j: int| 0 <= j < $it ==> same_char(#[trigger] vec[j], w[it0], pos)"], dec="vec.len() - $it",
                 begin=["cstr_id(vec[$it].symbol); cstr_id(w[it0].symbol);"])},
  hints={"entry": ["cstr_id(w[it0].symbol);"]},
  ens=[("whether another symbol differs there", "ret == differ(vec_in, w_in[it0_in], pos_in)")])
C("get_common_prefix", "generate.cpp", [P("v_prot", VP), P("v_obj", VP)], ret=STR, prop="C21", req=["names_ok(v_prot_in) && names_ok(v_obj_in)"],
  loops={0: dict(inv=["0 <= $it0 < $container.len()", "0 <= $i <= $container[$it0].symbol.len()", "names_ok($container)", "$container == v_prot || $container == v_obj", "all_start(v_prot, $container[$it0].symbol.subrange(0, $i))", "all_start(v_obj, $container[$it0].symbol.subrange(0, $i))"], dec="$container[$it0].symbol.len() - $i",
    exit_only=["$i == $container[$it0].symbol.len() || differ(v_prot, $container[$it0], $i) || differ(v_obj, $container[$it0], $i)"],
    after=["no_longer(v_prot, v_obj, $container[$it0], $i);"])},
  ens=[("fewer than two symbols have no common prefix", "com_few(v_prot_in, v_obj_in, ret)"),
       ("every symbol starts with the prefix", "com_all(v_prot_in, v_obj_in, ret)"),
       ("no longer text is a prefix of all symbols", "com_max(v_prot_in, v_obj_in, ret)")])
