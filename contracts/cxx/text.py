# gendlopen.cpp: options that become text of the output
deps("base")
consts(K_C="output::c", K_CXX="output::cxx", K_PLUGIN="output::plugin", K_MIN="output::minimal", K_MINCXX="output::minimal_cxx", K_SKIP="param::skip", K_CREATE="param::create", K_READ="param::read")
G = lambda f: "g_out == (Gdo { %s: g_out.%s, ..g_in })" % (f, f)
C("add_inc", "gendlopen.cpp", [P("inc", STR)], method=True, modifies=["g"],
  hints={"entry": ["mode_ok(inc, seq![110int, 113, 58]); if quoted(inc) || in_brackets(inc) { }"]},
  ens=[("one more include: unquoted behind nq:, unchanged in quotes or brackets, quoted otherwise", "g_out.m_includes == g_in.m_includes.push(inc_text(inc_in))", "C19"),
       ("nothing else is changed", G("m_includes"), "C19")])
C("add_def", "gendlopen.cpp", [P("def", STR)], method=True, modifies=["g"],
  hints={"entry": ["find_spec(def, s1(61), 0);"]},
  ens=[("a guarded definition of the given value is appended, nothing without a name",
        "g_out.m_defines == g_in.m_defines + def_lines(def_in)", "C19"),
       ("nothing else is changed", G("m_defines"), "C19")])
C("format", "gendlopen.cpp", [P("str", CSTR)], method=True, modifies=["g"], throws=True, qt="void (const char *)", prop="C26", req=["chars(str_in)"],
  ens=[("the names of the formats, in any letter case", "threw == 0 ==> fmt_of(lower(str_in)) == Some(g_out.m_format)"),
       ("any other name is an error", "(threw == 0) == (fmt_of(lower(str_in)) is Some)"),
       ("errors are plain errors", "threw == 0 || threw == 1"),
       ("nothing else is changed", G("m_format"))],)
C("parameter_names", "gendlopen.cpp", [P("str", CSTR)], method=True, modifies=["g"], throws=True, qt="void (const char *)", prop="C26",
  hints={"entry": ["assert(lower(@\"skip\") =~= @\"skip\"); assert(lower(@\"create\") =~= @\"create\"); assert(lower(@\"read\") =~= @\"read\");"]},
  ens=[("the names of the modes, in any letter case", "threw == 0 ==> par_of(lower(str_in)) == Some(g_out.m_parameter_names)"),
       ("any other name is an error", "(threw == 0) == (par_of(lower(str_in)) is Some)"),
       ("errors are plain errors", "threw == 0 || threw == 1"),
       ("nothing else is changed", G("m_parameter_names"))])
C("prefix", "gendlopen.cpp", [P("str", CSTR)], method=True, modifies=["g"], prop="C20", req=["chars(str_in)"],
  ens=[("upper and lower case prefix with other characters as underscores", "g_out.m_pfx == str_in && g_out.m_pfx_upper == up_us(str_in) && g_out.m_pfx_lower == low_us(str_in)"),
       ("replacement texts", "g_out.m_fmt_upper == fmt_upper(str_in) && g_out.m_fmt_lower == fmt_lower(str_in) && g_out.m_fmt_standalone == fmt_alone(str_in)"),
       ("nothing else is changed", "g_out == (Gdo { m_pfx: g_out.m_pfx, m_pfx_upper: g_out.m_pfx_upper, m_pfx_lower: g_out.m_pfx_lower, m_fmt_upper: g_out.m_fmt_upper, m_fmt_lower: g_out.m_fmt_lower, m_fmt_standalone: g_out.m_fmt_standalone, ..g_in })")])
C("templates_path", "gendlopen.cpp", [P("str", CSTR)], method=True, modifies=["g"], prop="C16",
  ens=[("the path ends with a separator", "g_out.m_templates_path == (if str_in.len() == 0 || str_in.last() == 47 { str_in } else { str_in.push(47int) })"),
       ("nothing else is changed", G("m_templates_path"))])
C("get_option_len", "options.cpp", [P("token", STR), P("opt", CSTR), P("optlen", INT)], ret=("opt", CSTR), throws=True, prop="C26", req=["optlen_in == opt_in.len()", "no_nul(token_in)"],
  hints={"entry": ["cstr_id(token);"]},
  ens=[("the text behind the name, if the name fits", "threw == 0 ==> ret == (if starts_with(token_in, opt_in) { Some(token_in.skip(optlen_in)) } else { None::<Seq<int>> })"),
       ("a missing value is an error", "(threw != 0) == (starts_with(token_in, opt_in) && token_in.len() == opt_in.len())")])
C("parse_options", "options.cpp", [P("options", STRV)], method=True, modifies=["g"], throws=True, prop="C26", req=["texts(options_in)"],
  loops={0: dict(inv=["opt_steps(g_in, options, $i) == Some(g)"], begin=["assert(chars(options[$i])); steps_if(g_in, options, $i + 1); let s = options[$i]; cstr_id(s); assert(opt_steps(g_in, options, $i + 1) == opt_step(g, s));"])},
  ens=[("the options take effect one by one", "threw == 0 ==> opt_steps(g_in, options_in, options_in.len() as int) == Some(g_out)"),
       ("exactly unknown options, missing and unknown values are errors", "(threw == 0) == (opt_steps(g_in, options_in, options_in.len() as int) is Some)")])
