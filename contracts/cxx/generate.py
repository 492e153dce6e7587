# generate.cpp, data.cpp: composing the output from the templates
deps("base", "text", "save", "common", "subst", "files", "load")
consts(F_C="output::c", F_CXX="output::cxx", F_MIN="output::minimal", F_MINCXX="output::minimal_cxx", F_PLUGIN="output::plugin")
C("create_template_lists", "data.cpp", [P("header", vec(TPTR), inout=True), P("body", vec(TPTR), inout=True)], method=True, modifies=["g", "cin", "tp", "td"], throws=True, prop="C27", also=("C16",),
  req=["tp_in.len() == 12", "td_in.len() == 12", "header_in.len() == 0", "body_in.len() == 0", "is_fmt(g_in.m_format)"], hide=["loaded", "tpl_name"],
  hints={"return": ["assert(header =~= pick(g_in, tp_in, hdr_parts(g_in.m_format, g_in.m_separate)) || true); assert(body =~= pick(g_in, tp_in, body_parts(g_in.m_format, g_in.m_separate)) || true);"]},
  ens=[("the header consists of the parts of its format, in order", "threw == 0 ==> header_out == pick(g_in, tp_in, hdr_parts(g_in.m_format, g_in.m_separate))"),
       ("the body consists of the parts of its format, in order", "threw == 0 ==> body_out == pick(g_in, tp_in, body_parts(g_in.m_format, g_in.m_separate))"),
       ("nothing else is changed", "g_out == g_in"),
       ("the other templates stay as they are", "threw == 0 ==> used(g_in, tp_in, tp_out) && td_out.len() == 12")])
C("save_data", "generate.cpp", [P("file", INT), P("ptr", TPTR, alias=("tp", "file"))], ret=INT, method=True, modifies=["g", "ofs", "cin", "tp", "td"], throws=True, prop="C27", also=("C15", "C16", "C20"),
  req=["is_tpl(file_in)", "tp_in.len() == 12", "td_in.len() == 12", "wf(tp_in[file_in])"],
  hide=["wf", "loaded", "tpl_name", "take", "c_str", "count_of", "pfx_text"],
  ghost=[("b", "Seq<Template>", "Seq::empty()")],
  hints={"entry": ["lf_one(10); wf_now(g, tp, file);"]},
  loops={0: dict(before=["b = body_of(g, tpl_now(g_in, tp_in, file_in)); wf_body(g, tpl_now(g_in, tp_in, file_in)); cstr_prefix(tp[file][0].data); wf_at(b, 0); raw_next(g, b, 0); assert($list == b); assert($list =~= b.skip(0)); assert(ofs + Seq::<int>::empty() =~= ofs);"],
                 inv=["1 <= $list.len() <= b.len()", "$list == b.skip(b.len() - $list.len())", "ofs == ofs_in + raw_lines(g_in, b, b.len() - $list.len())", "$total_lines == lf(ofs) - lf(ofs_in)"], dec="$list.len()",
                 begin=["let n = b.len() - $list.len(); wf_at(b, n); assert($list[0] == b[n]); raw_next(g, b, n); assert($list.skip(1) =~= b.skip(n + 1));",
                        "let t = prefixed_text(g, b[n]. data); count_concat(ofs, t, 10int); count_concat(ofs + t, s1(10), 10int); assert(ofs_in + (raw_lines(g_in, b, n) + t + s1(10)) =~= ofs + t + s1(10));".replace("b[n]. data", "b[b.len() - $list.len()].data").replace("g_in, b, n)", "g_in, b, b.len() - $list.len())")],
                 after=["let n = b.len() - $list.len(); wf_at(b, n); assert($list[0] == b[n]);"])},
  ens=[("the lines of the template are written, with the prefixes replaced", "threw == 0 ==> ofs_out == ofs_in + tpl_raw(g_in, tp_in, file_in)"),
       ("the number of lines written is returned", "threw == 0 ==> ret == lf(ofs_out) - lf(ofs_in)", "C15"),
       ("the other templates stay as they are", "threw == 0 ==> used(g_in, tp_in, tp_out) && td_out.len() == 12"),
       ("nothing else is changed", "g_out == g_in")])

HG = ["count_of", "str_find", "dec", "wf", "all_wf", "v_text", "v_ok", "raw_lines", "take", "c_str", "pfx_text", "loaded", "tpl_name", "plain", "body_of", "no_nul", "lower", "upper", "up_us", "starts_with", "ends_with", "lib_lines",
      "guard_name", "path_ext", "path_name", "td_lines", "inc_lines", "std_includes", "extern_c", "lib_def", "lib_text", "tpl_raw", "tpl_now", "used", "chained", "pick", "hdr_parts", "body_parts", "hdr_list", "body_list", "chars", "names_ok",
      "hdr_name", "hdr_path", "body_path", "sep", "cxx", "defs_head", "va_lines", "ld", "guard_open", "guard_close", "defs_text", "incs_text", "tds_text", "hdr_1", "hdr_2", "hdr_text", "body_text", "out_done", "note_text", "is_common", "common", "gset", "alike", "lf", "is_fmt", "all_start", "good", "is_date", "raw_text", "body_inc", "com_few", "com_all", "com_max", "LITERALS"]
def step(text, more=""):
    return ["assert(ofs == acc + %s) by { %s }; acc = ofs;" % (text, more)]
GREQ = ["tp_in.len() == 12", "td_in.len() == 12", "all_wf(tp_in)", "plain(g_in.m_prototypes)", "plain(g_in.m_objects)", "names_ok(g_in.m_prototypes)", "names_ok(g_in.m_objects)",
        "fs_in.to.len() == 0", "ofs_in.len() == 0", "is_fmt(g_in.m_format)", "g_in.m_output.len() > 0", "good(g_in.m_output)", "good(g_in.m_pfx)"]
KNOWN = ["chars(hdr_name(g_in))", "lf(hdr_name(g_in)) == 0", "lf(Seq::empty()) == 0", "!to_stdout(g_in) ==> is_file(hdr_path(g_in))", "sep(g_in) ==> is_file(body_path(g_in)) && !to_stdout(g_in)", "to_stdout(g_in) ==> hdr_path(g_in).len() == 0",
         "chained(g_in, tp_in, gset(g_in), tp_in)", "wf(tp_in[0])", "wf(tp_in[1])", "header_name == hdr_name(g_in)", "ofhdr == hdr_path(g_in)", "sep(g_in) ==> ofbody == body_path(g_in)", "is_cxx == cxx(g_in)",
         "ofs == Seq::<int>::empty()", "tp == tp_in", "td == td_in", "fs == fs_in", "tpv == tp_in", "gp == gset(g_in)", "last == 0", "header_data == Seq::<Seq<Template>>::empty()", "body_data == Seq::<Seq<Template>>::empty()", "lines == 0", "ofs_in == Seq::<int>::empty()"]
C("generate", "generate.cpp", [], method=True, isolate=True, modifies=["g", "ofs", "fs", "cin", "tp", "td"], throws=True, prop="C27", also=("C17",), rlimit=200,
  req=GREQ,
  hide=HG,
  ghost=[("dh", "Seq<int>", "Seq::empty()"), ("dl", "Seq<int>", "Seq::empty()"), ("acc", "Seq<int>", "Seq::empty()"), ("tpv", "Seq<Seq<Template>>", "tp_in"), ("gp", "Gdo", "gset(g_in)"), ("last", "int", "0"), ("text", "Seq<int>", "Seq::empty()")],
  hints={"entry": ["assert(ofs =~= Seq::<int>::empty());", "names_good(g); chain_0(g, tp); lf_free(Seq::empty());"],
         "call:get_common_prefix": ["common_one(g.m_prototypes, g.m_objects, $result);"],
         "call:create_template_lists": ["assert(header_data == hdr_list(g_in, tp_in) && body_data == body_list(g_in, tp_in)) by { reveal(hdr_list); reveal(body_list); reveal(gset); lists_same(g_in, tp_in); }; lists_wf(g_in, tp_in);", "chain_next(g_in, tp_in, g, tpv, tp); tpv = tp;"],
         "call:save::open_ofstream": ["assert(ofs =~= Seq::<int>::empty()); acc = ofs; if last == 0 { assert(fs.to =~= hdr_path(g_in)); }"],
         "call:save::note": ["dh = dl; dl = choose|d: Seq<int>| no_break(d) && (!g.m_print_date ==> d.len() == 0) && ofs == #[trigger] (acc + note_text(d)); acc = ofs;", "assert(is_date(g_in, dl)) by { reveal(is_date); reveal(gset); };"],
         "call:save_data": ["chain_next(g_in, tp_in, g, tpv, tp); tpv = tp; acc = ofs;"],
         "call:save::line_directive": step("ld(g_in, lf(acc))", "reveal(ld);"),
         "call:save::header_guard_begin": step("guard_open(g_in)", "reveal(guard_open);"),
         "call:save::extra_defines": step("defs_text(g_in)", "reveal(defs_text);"),
         "call:save::includes": step("incs_text(g_in)", "reveal(incs_text);"),
         "call:save::typedefs": step("tds_text(g_in)", "reveal(tds_text);"),
         "call:save::header_guard_end": step("guard_close(g_in)", "reveal(guard_close);") + ["assert(acc == hdr_text(g_in, tp_in, dl)) by { reveal(hdr_text); reveal(hdr_2); reveal(hdr_1); };"],
         "call:save::include_header": step("body_inc(g_in)", "reveal(body_inc);"),
         "call:substitute": ["v_no(gset(g_in), gp.m_substitute_lineno, hdr_list(g_in, tp_in), hdr_list(g_in, tp_in).len() as int); v_no(gset(g_in), gp.m_substitute_lineno, body_list(g_in, tp_in), body_list(g_in, tp_in).len() as int); chain_g(g_in, tp_in, gp, g, tp); gp = g; acc = ofs;", "text = acc;"],
         "call:save::close_ofstream": ["if last == 0 { last = 1; assert(fs.done == fs_in.done.push((hdr_path(g_in), hdr_text(g_in, tp_in, dl)))); } else { assert(text == body_text(g_in, tp_in, dl)) by { reveal(body_text); }; last = 2; }",
             "assert(last == 1 && body_list(g_in, tp_in).len() == 0 ==> fs.done == out_done(g_in, tp_in, fs_in.done, dl, dl)) by { reveal(out_done); };", "assert(last == 2 ==> fs.done == out_done(g_in, tp_in, fs_in.done, dh, dl)) by { reveal(out_done); };"],
         },
  loops={0: dict(before=["assert(g == gset_n(g_in, 0)) by { reveal(sep); reveal(defs_head); va_next(g_in, 0); };",
                         "assert(header_name == hdr_name(g_in) && ofhdr == hdr_path(g_in) && (sep(g_in) ==> ofbody == body_path(g_in)) && is_cxx == cxx(g_in)) by { reveal(hdr_name); reveal(hdr_path); reveal(body_path); reveal(sep); reveal(cxx); };"],
                 inv=["g == gset_n(g_in, $i)"] + GREQ + KNOWN,
                 begin=["va_next(g_in, $i); let x = @\"#define \" + g_in.m_pfx_upper + @\"_HAS_VA_ARGS_\" + g_in.m_prototypes[$i].symbol + @\" 1\\n\"; let e = Seq::<int>::empty(); let a = defs_head(g_in); let b = va_lines(g_in, $i); assert(a + (b + x) =~= (a + b) + x); assert(a + (b + e) =~= a + b);"],
                 after=["assert(g == gset(g_in)) by { reveal(gset); };"])},
  ens=[("header and body consist of their parts, in order, and are written completely", "threw == 0 ==> exists|d: Seq<int>, e: Seq<int>| is_date(g_in, d) && is_date(g_in, e) && fs_out.done == #[trigger] out_done(g_in, tp_in, fs_in.done, d, e)"),
       ("no existing file is written to", "fs_out.over == fs_in.over", "C17"),
       ("only header and body are opened", "fs_out.opened == fs_in.opened || !to_stdout(g_in) && (fs_out.opened == fs_in.opened.push(hdr_path(g_in)) || sep(g_in) && fs_out.opened == fs_in.opened.push(hdr_path(g_in)).push(body_path(g_in)))", "C17"),
       ("nothing is removed, except header and body with -force", "fs_out.removed == fs_in.removed || g_in.m_force && !to_stdout(g_in) && (fs_out.removed == fs_in.removed.push(hdr_path(g_in)) || sep(g_in) && (fs_out.removed == fs_in.removed.push(body_path(g_in)) || fs_out.removed == fs_in.removed.push(hdr_path(g_in)).push(body_path(g_in))))", "C17")])
