# utils.cpp, data.cpp: reading template files
deps("base", "infile", "text", "save", "subst", "files")
TE = st("Template")
C("save_to_line", "utils.cpp", [P("c", INT), P("entry", TE, inout=True)], ret=BOOL, prop="C16", req=["-1 <= c_in < 256"],
  hints={"return": ["assert(entry.data =~= on_char(c, entry_in).0.data);"]},
  ens=[("lines that end in @ go on, every other character is kept", "(entry_out, ret) == on_char(c_in, entry_in)")])
C("utils::get_lines", "utils.cpp", [P("fp", ("file",)), P("entry", TE, inout=True)], ret=BOOL, modifies=["cin"], prop="C16", req=["fp_in != 0", "bytes(cin_in)"],
  loops={0: dict(inv=["bytes(cin)", "read_entry(cin, entry) == read_entry(cin_in, fresh_entry())"], exit_only=["(entry, cin, $c != -1) == read_entry(cin_in, fresh_entry())", "bytes(cin)"], dec="cin.len()")},
  hints={"entry": []},
  ens=[("one entry is read", "(entry_out, cin_out, ret) == read_entry(cin_in, fresh_entry())"), ("the rest of the file", "bytes(cin_out)")])
C("load_from_file", "data.cpp", [P("data", vec(TE), inout=True), P("dir", STR), P("file", CSTR), P("line_directive", BOOL)], modifies=["cin"], throws=True, prop="C16", rlimit=60, req=["no_nul(file_in)"],
  hide=["read_entry", "is_stdin"],
  hints={"entry": ["cstr_id(file);"]},
  loops={0: dict(before=["read_all_next(cin);"], begin=["read_all_next(cin); read_less(cin, fresh_entry()); assert(data + Seq::<Template>::empty() =~= data);"],
                 inv=["bytes(cin)", "$rv ==> data + read_all(cin) =~= first_entry(dir_in, file_in, line_directive_in) + read_all(file_text(dir_in + file_in))",
                      "!$rv ==> data =~= first_entry(dir_in, file_in, line_directive_in) + read_all(file_text(dir_in + file_in))"],
                 exit_only=["data =~= first_entry(dir_in, file_in, line_directive_in) + read_all(file_text(dir_in + file_in))"],
                 after=["assert(data.push(end_entry()) =~= loaded(dir_in, file_in, line_directive_in));"],
                 dec="cin.len() + (if $rv { 1int } else { 0int })")},
  ens=[("the entries of the file, behind a #line directive if asked for", "threw == 0 ==> data_out == loaded(dir_in, file_in, line_directive_in)")])

LICENSE, MACROS = 0, 1
consts(**{"T_" + n: "templates::file_" + n for n in ("license", "filename_macros", "common_header", "common_body", "c_header", "c_body", "cxx_header", "cxx_body", "min_c_header", "min_cxx_header", "plugin_header", "plugin_body")})
C("load_template", "data.cpp", [P("file", INT)], method=True, modifies=["g", "cin", "tp", "td"], throws=True, prop="C16", req=["is_tpl(file_in)", "tp_in.len() == 12", "td_in.len() == 12"], rlimit=80,
  ens=[("without a path the built-in template stays", "g_in.m_templates_path.len() == 0 ==> threw == 0 && tp_out == tp_in"),
       ("with a path the file of that name is loaded", "threw == 0 && g_in.m_templates_path.len() > 0 ==> tp_out =~= tp_in.update(file_in, loaded(g_in.m_templates_path, tpl_name(file_in), g_in.m_line_directive))"),
       ("table", "tp_out.len() == 12 && td_out.len() == 12"),
       ("nothing else is changed", "g_out == g_in")])
C("fs::create_directories", "data.cpp", [P("p", STR)], ret=BOOL, modifies=["fs"], throws=True, axiom=True, ens=[("only directories are made", "fs_out == fs_in || fs_out == fs_dir(fs_in, p_in)")])
DUMP = lambda t, f="fs_in": "dumped(%s, dir_in, %s, 12)" % (f, t)
C("dump_templates", "data.cpp", [P("dir", CSTR)], method=True, modifies=["g", "cout", "fs", "tp"], throws=True, prop="C16", req=["tp_in.len() == 12", "all_wf(tp_in)"], hide=["wf", "dump", "dumped"],
  hints={"entry": ["dumped_all(fs.done, sep_added(dir), tp); to_name(sep_added(dir));"]},
  ens=[("every template is saved under its name, completely", "threw == 0 ==> fs_out.done =~= dumped(fs_in.done, sep_added(dir_in), tp_in, 12)"),
       ("nothing is changed", "g_out == g_in && tp_out == tp_in")])
