# options.cpp: the command line
deps("base", "text", "save", "subst", "files", "load")
C("help::print", "options.cpp", [P("prog", CSTR)], cxxname="print", axiom=True, modifies=["cout"], prop="C26", ens=[("the help is printed", "true")])
C("help::print_full", "options.cpp", [P("prog", CSTR)], cxxname="print_full", axiom=True, modifies=["cout"], prop="C26", ens=[("the help is printed", "true")])
RES = "cm_result(argv_in, g_in)"
C("parse_cmdline", "options.cpp", [P("argc", INT), P("argv", vec(CSTR))], method=True, isolate=True, modifies=["g", "cout", "fs", "tp"], throws=True, prop="C26",
  req=["argc_in == argv_in.len()", "argc_in >= 1", "texts(argv_in)", "tp_in.len() == 12", "all_wf(tp_in)"], rlimit=100,
  hide=["wf", "dump", "dumped", "all_wf", "cm_all", "cm_step", "op_done", "op_which", "on_off", "names", "fmt_of", "par_of", "lower", "up_us", "low_us", "c_str", "def_lines", "inc_text", "fmt_upper", "fmt_lower", "fmt_alone"],
  loops={0: dict(inv=["argc == argv_in.len()", "argv == argv_in", "argc >= 1", "texts(argv_in)", "tp_in.len() == 12", "all_wf(tp_in)", "tp == tp_in", "cout == cout_in", "fs == fs_in", "$o.argv == argv_in", "0 <= $o.iter", "$input_file is Some ==> no_nul($input_file->Some_0)", "cm_all($o, g, $input_file) == cm_all(op_start(argv_in), g_in, None)"], exit_only=["tp == tp_in && cout == cout_in && fs == fs_in", "$input_file is Some ==> no_nul($input_file->Some_0)", "cm_all(op_start(argv_in), g_in, None) == Cm::Go(g, $input_file)"], head=["cm_go($o, g, $input_file); if op_more($o) { cm_once(op_next($o), g, $input_file); }"], dec="argv_in.len() - $o.iter")},
  ens=[("the arguments have their effects in their order, or end the program, or are an error", "cm_ends(%s, threw, g_out, cout_in, cout_out, fs_in, fs_out, tp_in, tp_out)" % RES)])
