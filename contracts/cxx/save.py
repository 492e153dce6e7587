# generate.cpp: the text around the expanded templates
deps("base", "text")
C("save::quote_lib", "generate.cpp", [P("lib", STR), P("wide", BOOL)], ret=STR, prop="C18",
  ens=[("a library name in quotes, names in quotes as they are", "ret =~= lib_text(lib_in, wide_in)")])
C("save::format_libname", "generate.cpp", [P("str", STR), P("pfx", STR)], ret=STR, prop="C18", req=["str_in.len() > 0"],
  hints={"entry": ["mode_ok(str, @\"nq:\"); mode_ok(str, @\"ext:\"); mode_ok(str, @\"api:\");"]},
  ens=[("the two macros, as the mode says", "ret =~= lib_lines(str_in, pfx_in)")])
CNT = ("the number of lines written is returned", "ret == lf(ofs_out) - lf(ofs_in)", "C15")
def W(name, params, text, label, prop, count=True, hints=None, loops=None, req=(), cnt=""):
    h = dict(hints or {})
    h["return"] = list(h.get("return", [])) + (["let x: Seq<int> = %s; assert(ofs =~= ofs_in + x); assert(ofs == ofs_in + x); count_concat(ofs_in, x, 10int); %s" % (text, cnt)] if count else ["assert(ofs =~= ofs_in + (%s));" % text, "assert(ofs == ofs_in + (%s));" % text])
    C("save::" + name, "generate.cpp", params, ret=INT if count else VOID, modifies=["ofs"], req=list(req), hints=h, loops=loops or {},
      ens=[(label, "ofs_out == ofs_in + (%s)" % text, prop)] + ([CNT] if count else []))
W("extra_defines", [P("defs", STR)], "if defs_in.len() == 0 { Seq::empty() } else { @\"/* extra defines */\\n\" + defs_in + s1(10) }", "the definitions are written as they are", "C19",
  hints={"entry": ["assert(@\"/* extra defines */\\n\" + (defs + s1(10)) =~= @\"/* extra defines */\\n\" + defs + s1(10));"]})
W("typedefs", [P("tdefs", STRV)], "if tdefs_in.len() == 0 { Seq::empty() } else { @\"/* typedefs */\\n\" + td_lines(tdefs_in, tdefs_in.len() as int) + s1(10) }", "one line per typedef, in order", "C13",
  loops={0: dict(inv=["$str =~= @\"/* typedefs */\\n\" + td_lines(tdefs, $i)"])})
W("includes", [P("incs", STRV), P("is_cxx", BOOL)], "@\"/* extra headers */\\n\" + std_includes(is_cxx_in) + inc_lines(incs_in, incs_in.len() as int) + s1(10)", "the standard headers and one line per include, in order", "C19",
  loops={0: dict(inv=["$str =~= @\"/* extra headers */\\n\" + std_includes(is_cxx) + inc_lines(incs, $i)"])})
W("header_guard_begin", [P("header_name", STR), P("pfx_upper", STR), P("pragma_once", BOOL), P("is_cxx", BOOL)],
  "(if pragma_once_in { @\"\\n#pragma once\\n\\n\" } else { @\"\\n#ifndef \" + guard_name(header_name_in, pfx_upper_in) + @\"\\n#define \" + guard_name(header_name_in, pfx_upper_in) + @\"\\n\\n\" }) + extern_c(is_cxx_in)",
  "the guard is named after prefix and file, or #pragma once", "C20", req=["chars(header_name_in)"])
W("header_guard_end", [P("header_name", STR), P("pfx_upper", STR), P("pragma_once", BOOL), P("is_cxx", BOOL)],
  "(if is_cxx_in { Seq::empty() } else { @\"#ifdef __cplusplus\\n} /* extern \\\"C\\\" */\\n#endif\\n\" }) + (if pragma_once_in { Seq::empty() } else { @\"\\n#endif //\" + guard_name(header_name_in, pfx_upper_in) + s1(10) })",
  "the guard that was opened is closed", "C20", count=False, req=["chars(header_name_in)"])
W("include_header", [P("header_name", STR), P("pfx_upper", STR)], "@\"\\n#define \" + pfx_upper_in + @\"_INCLUDED_IN_BODY\\n#include \\\"\" + header_name_in + @\"\\\"\\n\\n\"", "the body includes its header", "C20", count=False)
W("line_directive", [P("lines", INT), P("line_directive", BOOL), P("header_name", STR)], "if line_directive_in { @\"#line \" + dec(lines_in + 2) + @\" \\\"\" + header_name_in + @\"\\\"\\n\" } else { Seq::empty() }",
  "the directive gives the number of the line that follows it", "C15", req=["lines_in == lf(ofs_in)", "lf(header_name_in) == 0"],
  cnt="if line_directive { lf_dec(lines_in + 2); lf_dir(dec(lines_in + 2), header_name_in); }")
C("save::note", "generate.cpp", [P("print_date", BOOL)], ret=INT, modifies=["ofs"], prop="C15",
  hints={"entry": ["count_cat(); lf_note();"],
         "return": ["let d = note_date(ofs, ofs_in.len() as int); assert(ofs =~= ofs_in + note_text(d)); assert(ofs == ofs_in + note_text(d)); lf_note_text(d); count_concat(ofs_in, note_text(d), 10int);"]},
  ens=[("the number of lines written is returned", "ret == lf(ofs_out) - lf(ofs_in)"),
       ("the note, with the date on the same line if asked for", "exists|d: Seq<int>| no_break(d) && (!print_date_in ==> d.len() == 0) && ofs_out == #[trigger] (ofs_in + note_text(d))")])
