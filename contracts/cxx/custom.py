# gendlopen.cpp: expanding a template of the user
HIDE = ["count_of", "str_find", "erase_fix", "repl", "longest", "dec", "fn_lines", "obj_lines", "sym_fn_lines", "sym_obj_lines", "str_erase", "c_str", "lower"]
deps("base", "text", "save", "subst", "files", "load")
ALL = "read_all(file_text(g_in.m_custom_template))"
C("process_custom_template", "gendlopen.cpp", [], method=True, modifies=["g", "ofs", "fs", "cin"], throws=True, prop="C14", also=("C15", "C17", "C23"), rlimit=80,
  req=["plain(g_in.m_prototypes)", "plain(g_in.m_objects)", "fs_in.to.len() == 0", "ofs_in.len() == 0"],
  hide=HIDE + ["sub_text", "sub_skip", "mixed", "plain", "read_entry", "is_stdin", "take", "rep", "no_nul", "read_all"],
  ghost=[("n", "int", "0"), ("all", "Seq<Template>", ALL)],
  hints={"entry": ["assert(ofs =~= Seq::<int>::empty()); c_next(g, c_base(g), all, 0); assert(all.skip(0) =~= all);"]},
  loops={0: dict(before=["assert(ofs =~= c_head(g_in)); assert(ofs + Seq::<int>::empty() =~= ofs); assert(g == at_no(g_in, c_base(g_in)));"],
                 begin=["read_all_next(cin); read_less(cin, fresh_entry()); c_next(g_in, c_base(g_in), all, n); c_never(g_in, c_base(g_in), all, n + 1, all.len() as int);",
                        "let r = read_entry(cin, fresh_entry()); let rest = read_all(r.1); if r.2 || r.0.data.len() > 0 { assert(all[n] == all.skip(n)[0]); assert(all.skip(n + 1) =~= all.skip(n).skip(1)); assert(r.2 ==> all.skip(n).skip(1) =~= rest); }",
                        "assert(c_head(g_in) + (c_text(g_in, c_base(g_in), all, n) + sub_text(g, all[n], $param_skip_code)) =~= ofs + sub_text(g, all[n], $param_skip_code));"],
                 inv=["bytes(cin)", "0 <= n <= all.len()", "$rv ==> all.skip(n) == read_all(cin)", "!$rv ==> n == all.len()",
                      "g == at_no(g_in, c_base(g_in) + lines_of(all, n))", "ofs == c_head(g_in) + c_text(g_in, c_base(g_in), all, n)",
                      "$param_skip_code == c_skip(g_in, c_base(g_in), all, n)", "c_ok(g_in, c_base(g_in), all, n)", "fs.to == to_of(g_in.m_output)", "fs.done == fs_in.done"],
                 end=["n = n + 1;"],
                 exit_only=["n == all.len()"],
                 dec="cin.len() + (if $rv { 1int } else { 0int })")},
  ens=[("the whole template is expanded, line by line, and written completely", "threw == 0 ==> fs_out.done == fs_in.done.push((to_of(g_in.m_output), c_head(g_in) + c_text(g_in, c_base(g_in), %s, %s.len() as int)))" % (ALL, ALL)),
       ("placeholders of different kinds on a line are an error", "threw == 0 ==> c_ok(g_in, c_base(g_in), %s, %s.len() as int)" % (ALL, ALL)),
       ("nothing else is changed", "g_out == at_no(g_in, g_out.m_substitute_lineno)"),
       ("no existing file is written to", "fs_out.over == fs_in.over", "C17"),
       ("only the output file is opened", "fs_out.opened == fs_in.opened || is_file(g_in.m_output) && fs_out.opened == fs_in.opened.push(g_in.m_output)", "C17"),
       ("nothing is removed, except the output file with -force", "fs_out.removed == fs_in.removed || g_in.m_force && is_file(g_in.m_output) && fs_out.removed == fs_in.removed.push(g_in.m_output)", "C17")])
