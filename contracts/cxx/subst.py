# substitute.cpp: expanding the templates
deps("base", "text", "save")
consts(K_C="output::c", K_SKIP="param::skip")
VP = vec(PROTO)
C("check_skip_keyword", "substitute.cpp", [P("ptr", CSTR), P("param_skip_code", BOOL, inout=True), P("parameter_names", INT)], ret=BOOL, prop="C14", req=["no_nul(ptr_in)"],
  hints={"entry": ["skip_words(ptr);"]},
  ens=[("true exactly for the three keywords", "ret == skip_kw(ptr_in)"),
       ("lines are dropped or kept as the mode says", "param_skip_code_out == skip_state(ptr_in, param_skip_code_in, parameter_names_in)")])
C("get_longest_symbol_size", "substitute.cpp", [P("v", VP)], ret=INT, prop="C14", hints={"entry": ["longest_ge(v, v.len() as int);"]},
  ens=[("the length of the longest symbol", "ret == longest(v_in, v_in.len() as int)")])
HIDE = ["count_of", "str_find", "erase_fix", "repl", "longest", "dec", "fn_lines", "obj_lines", "sym_fn_lines", "sym_obj_lines", "str_erase", "c_str", "lower"]
def R(name, done, hints, loops, ghost=(), loc=()):
    C(name, "substitute.cpp", [P("entry", STR)], ret=INT, method=True, reads=["g"], modifies=["ofs"], prop="C14", hints=hints, loops=loops, rlimit=60, hide=HIDE, ghost=ghost,
      req=["plain(g_in.m_prototypes)", "plain(g_in.m_objects)"],
      ens=[("the entry is written once per symbol, with every placeholder replaced", "ofs_out == ofs_in + " + done),
           ("the number of lines written is returned", "ret == lf(ofs_out) - lf(ofs_in)", "C15")])
def each(v, text, lines, nxt, lem, pre="Seq::<int>::empty()", begin=""):
    return dict(inv=["ofs == ofs_in + (%s + %s)" % (pre, lines % "$i"), "$line_count == lf(ofs) - lf(ofs_in)"],
                begin=["let e = g.%s[$i]; assert(plain_1(e)); cstr_id(e.type_); " % v + begin],
                end=["let e = g.%s[$i]; let t = %s; " % (v, text) + "%s line_out(g, ofs_in, %s + %s, t); %s assert((%s + %s) + one(g, t) =~= %s + (%s + one(g, t)));" % (lem, pre, lines % "$i", nxt, pre, lines % "$i", pre, lines % "$i")])
W = "pad_width(g.m_prototypes, entry, @\"%%func_symbol_pad%%\")"
E0 = "assert(ofs_in + (Seq::<int>::empty() + Seq::<int>::empty()) =~= ofs_in);"
def er(f, x):
    return dict(inv=["erase_fix(%s, $copy) == erase_fix(%s, %s)" % (f, f, x)], dec="$copy.len()", head=["erase_step(%s, $copy);" % f])
R("replace_function_prototypes", "fn_lines(g_in, entry_in, g_in.m_prototypes.len() as int)",
  {"entry": ["longest_ge(g.m_prototypes, g.m_prototypes.len() as int); fn_lines_next(g, entry, 0); " + E0 + " low_void();"],
   "return": ["assert(Seq::<int>::empty() + fn_lines(g, entry, g.m_prototypes.len() as int) =~= fn_lines(g, entry, g.m_prototypes.len() as int));"]},
  {0: each("m_prototypes", "fn_text(e, %s, entry)" % W, "fn_lines(g, entry, %s)", "fn_lines_next(g, entry, $i);", "lf_fn(entry, e, %s); assert($copy == t);" % W),
   1: er("@\"%%return%% \"", "entry"), 2: er("@\"%%return%%\"", "erase_fix(@\"%%return%% \", entry)")})
W2 = "pad_width(g.m_objects, entry, @\"%%obj_symbol_pad%%\")"
R("replace_object_prototypes", "obj_lines(g_in, entry_in, g_in.m_objects.len() as int)",
  {"entry": ["longest_ge(g.m_objects, g.m_objects.len() as int); obj_lines_next(g, entry, 0); " + E0],
   "return": ["assert(Seq::<int>::empty() + obj_lines(g, entry, g.m_objects.len() as int) =~= obj_lines(g, entry, g.m_objects.len() as int));"]},
  {0: each("m_objects", "obj_text(e, %s, entry)" % W2, "obj_lines(g, entry, %s)", "obj_lines_next(g, entry, $i);", "lf_obj(entry, e, %s); assert($copy == t);" % W2)})
FN = "sym_fn_lines(g, entry, g.m_prototypes.len() as int)"
R("replace_symbol_names", "(sym_fn_lines(g_in, entry_in, g_in.m_prototypes.len() as int) + sym_obj_lines(g_in, entry_in, g_in.m_objects.len() as int))",
  {"entry": ["sym_fn_next(g, entry, 0); sym_obj_next(g, entry, 0); " + E0]},
  {0: each("m_prototypes", "sym_text(fn_ptr(e), e, entry)", "sym_fn_lines(g, entry, %s)", "sym_fn_next(g, entry, $i);", "lf_ptr(e); lf_sym(entry, e, fn_ptr(e));"),
   1: dict(each("m_objects", "sym_text(obj_ptr(e), e, entry)", "sym_obj_lines(g, entry, %s)", "sym_obj_next(g, entry, $i);", "lf_ptr(e); lf_sym(entry, e, obj_ptr(e));", pre=FN),
           before=["assert(%s + Seq::<int>::empty() =~= Seq::<int>::empty() + %s);" % (FN, FN)])})
C("replace_prefixes", "gendlopen.cpp", [P("input", STR)], ret=STR, method=True, reads=["g"], prop="C20",
  ens=[("upper case, lower case and standalone prefixes, in this order", "ret == pfx_text(g_in, input_in)")])
FIND = dict(inv=["no_kw($buf, $seq, $i)", "!$left"], exit_only=["$left == any_kw($buf, $seq)", "$left ==> $rv == 1"])
C("substitute_line", "substitute.cpp", [P("line", st("Template")), P("param_skip_code", BOOL, inout=True)], ret=INT, method=True, reads=["g"], modifies=["ofs"], throws=True, prop="C14", rlimit=60, hide=HIDE + ["bit_or", "bit_shl", "as_char", "rep", "no_nul"],
  req=["plain(g_in.m_prototypes)", "plain(g_in.m_objects)"],
  hints={"entry": ["or_bits();", "if line.data.len() > 0 { cstr_prefix(line.data); }", "lf_one(10); let t = s1(10); count_concat(ofs, t, 10int); lf_none(Seq::empty()); assert(ofs + Seq::<int>::empty() =~= ofs);",
                   "let n = g.m_substitute_lineno + 1; lf_dirn(g, n); count_concat(ofs, dir_at(g, n), 10int); assert(ofs + (@\"#line \" + dec(n) + s1(10)) =~= ofs + @\"#line \" + dec(n) + s1(10));",
                   "let b = prefixed_text(g, line.data); kw_lists(b); let n = g.m_substitute_lineno + lf(b) + 1; lf_dirn(g, n); count_concat(ofs, dir_at(g, n), 10int); assert(ofs + (@\"#line \" + dec(n) + s1(10)) =~= ofs + @\"#line \" + dec(n) + s1(10));",
                   "let b = prefixed_text(g, line.data); count_concat(b, s1(10), 10int); count_concat(ofs, b + s1(10), 10int); assert(ofs + (b + s1(10)) =~= ofs + b + s1(10));"]},
  loops={0: FIND, 1: FIND, 2: FIND},
  ens=[("the text that replaces the line", "threw == 0 ==> ofs_out == ofs_in + sub_text(g_in, line_in, param_skip_code_in)"),
       ("lines are dropped or kept as the mode says", "threw == 0 ==> param_skip_code_out == sub_skip(g_in, line_in, param_skip_code_in)"),
       ("exactly a mix of placeholders of different kinds is an error", "(threw != 0) == mixed(g_in, line_in, param_skip_code_in)"),
       ("the number of lines written is returned", "threw == 0 ==> ret == lf(ofs_out) - lf(ofs_in)", "C15")])
C("substitute", "substitute.cpp", [P("vec", vec(TPTR))], ret=INT, method=True, modifies=["g", "ofs"], throws=True, prop="C14", rlimit=60,
  hide=HIDE + ["rep", "no_nul", "sub_text", "sub_skip", "mixed", "plain", "wf", "take"],
  req=["plain(g_in.m_prototypes)", "plain(g_in.m_objects)", "all_wf(vec_in)"],
  ghost=[("sk", "bool", "false"), ("o0", "Seq<int>", "ofs_in"), ("cur", "Seq<Template>", "Seq::empty()")],
  hints={"entry": ["v_next(g, vec, 0); assert(ofs + Seq::<int>::empty() =~= ofs);"]},
  loops={0: dict(inv=["g == at_no(g_in, g.m_substitute_lineno)", "ofs == ofs_in + v_text(g_in, vec, $i)", "$param_skip_code == v_skip(g_in, vec, $i)", "v_ok(g_in, vec, $i)", "$lines_written == lf(ofs) - lf(ofs_in)"],
                 begin=["let s = vec[$i]; assert(wf(s)); wf_body(g_in, s); cstr_prefix(s[0].data); v_next(g_in, vec, $i); v_never(g_in, vec, $i + 1, vec.len() as int);", "sk = $param_skip_code;", "o0 = ofs;", "cur = body_of(g_in, vec[$i]);"],
                 end=["assert(ofs_in + (v_text(g_in, vec, $i) + l_text(g_in, cur, cur.len() - 1, sk)) =~= o0 + l_text(g_in, cur, cur.len() - 1, sk));"]),
         1: dict(before=["wf_at(cur, 0); assert($list == cur); l_next(g, cur, 0, sk); assert($list =~= cur.skip(0)); assert(ofs + Seq::<int>::empty() =~= ofs);"],
                 inv=["1 <= $list.len() <= cur.len()", "$list == cur.skip(cur.len() - $list.len())", "g == at_line(g_in, cur, cur.len() - $list.len())",
                      "ofs == o0 + l_text(g_in, cur, cur.len() - $list.len(), sk)", "$param_skip_code == l_skip(g_in, cur, cur.len() - $list.len(), sk)",
                      "l_ok(g_in, cur, cur.len() - $list.len(), sk)", "$lines_written == lf(ofs) - lf(ofs_in)"],
                 dec="$list.len()",
                 begin=["let n = cur.len() - $list.len(); wf_at(cur, n); assert($list[0] == cur[n]); l_next(g_in, cur, n, sk); l_never(g_in, cur, n + 1, cur.len() - 1, sk); assert($list.skip(1) =~= cur.skip(n + 1)); assert(o0 + (l_text(g_in, cur, n, sk) + sub_text(g, cur[n], $param_skip_code)) =~= ofs + sub_text(g, cur[n], $param_skip_code));"],
                 after=["let n = cur.len() - $list.len(); wf_at(cur, n); assert($list[0] == cur[n]);"])},
  ens=[("every template is expanded line by line, in order", "threw == 0 ==> ofs_out == ofs_in + v_text(g_in, vec_in, vec_in.len() as int)"),
       ("exactly missing symbols and mixed placeholders are errors", "(threw != 0) == (vec_in.len() > 0 && (g_in.m_prototypes.len() == 0 && g_in.m_objects.len() == 0 || !v_ok(g_in, vec_in, vec_in.len() as int)))"),
       ("nothing else is changed", "g_out == at_no(g_in, g_out.m_substitute_lineno)"),
       ("the number of lines written is returned", "threw == 0 ==> ret == lf(ofs_out) - lf(ofs_in)", "C15")])
