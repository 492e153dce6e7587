deps("base", "pattern", "parse")
C("fptr_typedef", "tokenize.cpp", [P("ty", STR), P("name", STR)], ret=STR, prop="C13",
  ens=[("the name is placed behind the first `(*'", "ret == fptr_td(ty_in, name_in)")], hints={"entry": ["find_spec(ty_in, @\"(*)\", 0);"], "return": ["assert($ret =~= fptr_td(ty_in, name_in));"]})
C("array_typedef", "tokenize.cpp", [P("ty", STR, inout=True), P("name", STR)], ret=STR, prop="C13",
  ens=[("the name is placed in front of the dimensions", "ret == arr_td(ty_in, name_in)"), ("the type is not changed", "ty_out == ty_in")],
  hints={"entry": ["find_spec(ty_in, seq![91int], 0);"], "return": ["assert($ret =~= arr_td(ty_in, name_in));"]})
C("format_prototype", "tokenize.cpp", [P("s", STR, inout=True)], prop="C13",
  ens=[("formatting is exact", "s_out == fmt(s_in)"), ("only white space is removed", "ink(s_out) == ink(s_in)")], hints={"return": ["fmt_ink(s_in);"]})
C("create_typedefs", "tokenize.cpp", [], method=True, modifies=["g"], throws=True, prop="C13",
  ens=[("an error exactly if a type has no place for the name", "(threw != 0) == exists|i: int| 0 <= i < g_in.m_objects.len() && td_bad(g_in.m_pfx_lower, #[trigger] g_in.m_objects[i])"),
       ("one typedef per array and function pointer, in order", "threw == 0 ==> g_out.m_typedefs == g_in.m_typedefs + tds(g_in.m_pfx_lower, g_in.m_objects, g_in.m_objects.len() as int)"),
       ("these objects get the typedef as type", "threw == 0 ==> g_out.m_objects == Seq::new(g_in.m_objects.len(), |i: int| td_obj(g_in.m_pfx_lower, g_in.m_objects[i]))"),
       ("nothing else is changed", "threw == 0 ==> g_out == (Gdo { m_typedefs: g_out.m_typedefs, m_objects: g_out.m_objects, ..g_in })")],
  loops={0: dict(inv=["g == (Gdo { m_typedefs: g.m_typedefs, m_objects: g.m_objects, ..g_in })", "g.m_objects.len() == g_in.m_objects.len()",
                      "g.m_typedefs =~= g_in.m_typedefs + tds(g_in.m_pfx_lower, g_in.m_objects, $i)",
                      "forall|k: int| 0 <= k < $i ==> g.m_objects[k] == td_obj(g_in.m_pfx_lower, g_in.m_objects[k]) && !td_bad(g_in.m_pfx_lower, #[trigger] g_in.m_objects[k])",
                      "forall|k: int| $i <= k < g.m_objects.len() ==> g.m_objects[k] == g_in.m_objects[k]"],
                 after=["assert(g.m_objects =~= Seq::new(g_in.m_objects.len(), |i: int| td_obj(g_in.m_pfx_lower, g_in.m_objects[i])));"],
                 **{"return": ["assert(td_bad(g_in.m_pfx_lower, g_in.m_objects[$i]));"]})})
