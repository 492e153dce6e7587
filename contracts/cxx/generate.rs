// generate.cpp, data.cpp: the output of a format consists of these parts
pub open spec fn is_fmt(f: int) -> bool { f == F_C() || f == F_CXX() || f == F_MIN() || f == F_MINCXX() || f == F_PLUGIN() }
pub open spec fn f_hdr(f: int) -> int { if f == F_C() { T_c_header() } else if f == F_CXX() { T_cxx_header() } else { T_plugin_header() } }
pub open spec fn f_body(f: int) -> int { if f == F_C() { T_c_body() } else if f == F_CXX() { T_cxx_body() } else { T_plugin_body() } }
pub open spec fn hdr_parts(f: int, sep: bool) -> Seq<int> {
    if f == F_MIN() { seq![T_min_c_header()] } else if f == F_MINCXX() { seq![T_min_cxx_header()] }
    else if sep { seq![T_common_header(), f_hdr(f)] } else { seq![T_common_header(), T_common_body(), f_hdr(f), f_body(f)] }
}
pub open spec fn body_parts(f: int, sep: bool) -> Seq<int> {
    if f == F_MIN() || f == F_MINCXX() || !sep { Seq::empty() } else { seq![T_common_body(), f_body(f)] }
}
// a template as it is used: the built-in one, or the one that is loaded from the path
pub open spec fn tpl_now(g: Gdo, tp: Seq<Seq<Template>>, i: int) -> Seq<Template> { if g.m_templates_path.len() == 0 { tp[i] } else { loaded(g.m_templates_path, tpl_name(i), g.m_line_directive) } }
pub open spec fn pick(g: Gdo, tp: Seq<Seq<Template>>, v: Seq<int>) -> Seq<Seq<Template>> { Seq::new(v.len(), |k: int| tpl_now(g, tp, v[k])) }
// every template is the same as before or has been loaded
pub open spec fn used(g: Gdo, a: Seq<Seq<Template>>, b: Seq<Seq<Template>>) -> bool { a.len() == 12 && b.len() == 12 && forall|i: int| 0 <= i < 12 ==> #[trigger] b[i] == a[i] || b[i] == tpl_now(g, a, i) }
// lines that contain no placeholders
pub open spec fn raw_lines(g: Gdo, s: Seq<Template>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { raw_lines(g, s, n - 1) + prefixed_text(g, s[n - 1].data) + s1(10) } }
pub open spec fn raw_text(g: Gdo, s: Seq<Template>) -> Seq<int> { raw_lines(g, s, s.len() - 1) }
pub proof fn raw_next(g: Gdo, s: Seq<Template>, n: int) ensures n >= 0 ==> raw_lines(g, s, n + 1) == raw_lines(g, s, n) + prefixed_text(g, s[n].data) + s1(10), raw_lines(g, s, 0) == Seq::<int>::empty() {}
pub proof fn wf_now(g: Gdo, tp: Seq<Seq<Template>>, i: int) requires wf(tp[i]) ensures wf(tpl_now(g, tp, i)), tpl_now(g, tp, i).len() > 0 { reveal(wf); if g.m_templates_path.len() > 0 { loaded_wf(g.m_templates_path, tpl_name(i), g.m_line_directive); } }

// std::filesystem::path on POSIX systems: filename() and replace_extension()
pub open spec fn last_slash(p: Seq<int>) -> int decreases p.len() { if p.len() == 0 { -1 } else if p.last() == 47 { p.len() - 1 } else { last_slash(p.drop_last()) } }
pub open spec fn last_dot(p: Seq<int>) -> int decreases p.len() { if p.len() == 0 { -1 } else if p.last() == 46 { p.len() - 1 } else { last_dot(p.drop_last()) } }
pub open spec fn path_name(p: Seq<int>) -> Seq<int> { p.skip(last_slash(p) + 1) }
pub open spec fn path_stem(p: Seq<int>) -> Seq<int> { let n = path_name(p); if n == @".." || last_dot(n) <= 0 { p } else { p.take(last_slash(p) + 1 + last_dot(n)) } }
pub open spec fn path_ext(p: Seq<int>, e: Seq<int>) -> Seq<int> { if e.len() == 0 { path_stem(p) } else if e[0] == 46 { path_stem(p) + e } else { path_stem(p) + s1(46) + e } }
pub proof fn slash_range(p: Seq<int>) ensures -1 <= last_slash(p) < p.len() decreases p.len() { if p.len() > 0 && p.last() != 47 { slash_range(p.drop_last()); } }
pub proof fn dot_range(p: Seq<int>) ensures -1 <= last_dot(p) < p.len() decreases p.len() { if p.len() > 0 && p.last() != 46 { dot_range(p.drop_last()); } }
pub open spec fn good(s: Seq<int>) -> bool { chars(s) && lf(s) == 0 }
pub proof fn lf_has(s: Seq<int>) ensures lf(s) == 0 ==> (forall|i: int| 0 <= i < s.len() ==> s[i] != 10), lf(s) >= 0 decreases s.len() {
    count_nonneg(s, 10int);
    assert forall|i: int| lf(s) == 0 && 0 <= i < s.len() implies s[i] != 10 by { if s[i] == 10 { count_pos(s, 10int, i); } }
}
pub proof fn good_by(s: Seq<int>) requires forall|i: int| 0 <= i < s.len() ==> -128 <= #[trigger] s[i] < 128 && s[i] != 10 ensures good(s) { lf_free(s); }
pub proof fn path_good(p: Seq<int>, e: Seq<int>) requires good(p), good(e) ensures good(path_name(p)), good(path_ext(p, e)), e.len() > 0 && p.len() > 0 ==> path_ext(p, e).len() > 1 && path_ext(p, e).last() == e.last() {
    lf_has(p); lf_has(e); slash_range(p); dot_range(path_name(p));
    good_by(path_name(p)); good_by(path_stem(p)); good_by(path_ext(p, e));
    if e.len() > 0 { assert(path_ext(p, e).last() == e.last()); dot_range(path_name(p)); }
}

// the settings and names that are used
pub open spec fn to_stdout(g: Gdo) -> bool { g.m_output == @"-" }
pub open spec fn sep(g: Gdo) -> bool { !to_stdout(g) && g.m_format != F_MIN() && g.m_format != F_MINCXX() && g.m_separate }
pub open spec fn cxx(g: Gdo) -> bool { g.m_format == F_CXX() || g.m_format == F_MINCXX() }
pub open spec fn hdr_path(g: Gdo) -> Seq<int> { if to_stdout(g) { Seq::empty() } else if sep(g) { path_ext(g.m_output, if cxx(g) { @"hpp" } else { @"h" }) } else { g.m_output } }
pub open spec fn body_path(g: Gdo) -> Seq<int> { path_ext(g.m_output, if cxx(g) { @"cpp" } else { @"c" }) }
pub open spec fn hdr_name(g: Gdo) -> Seq<int> { if to_stdout(g) { g.m_pfx + (if cxx(g) { @".hpp" } else { @".h" }) } else { path_name(hdr_path(g)) } }
pub open spec fn is_common(v: Seq<Proto>, o: Seq<Proto>, p: Seq<int>) -> bool { com_few(v, o, p) && com_all(v, o, p) && com_max(v, o, p) }
pub open spec fn common(v: Seq<Proto>, o: Seq<Proto>) -> Seq<int> { choose|p: Seq<int>| is_common(v, o, p) }
pub proof fn common_one(v: Seq<Proto>, o: Seq<Proto>, p: Seq<int>) requires com_few(v, o, p), com_all(v, o, p), com_max(v, o, p) ensures p == common(v, o) {
    assert(is_common(v, o, p)); let q = common(v, o); assert(is_common(v, o, q));
    if v.len() + o.len() >= 2 {
        assert(all_start(v, q) && all_start(o, q)); assert(all_start(v, p) && all_start(o, p)); assert(q.len() == p.len());
        if v.len() > 0 { assert(starts_with(v[0].symbol, p) && starts_with(v[0].symbol, q)); assert(p =~= q); }
        else { assert(starts_with(o[0].symbol, p) && starts_with(o[0].symbol, q)); assert(p =~= q); }
    } else { assert(p =~= q); }
}
pub open spec fn va_lines(g: Gdo, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { va_lines(g, n - 1) + (if ends_with(g.m_prototypes[n - 1].args, @"...") { @"#define " + g.m_pfx_upper + @"_HAS_VA_ARGS_" + g.m_prototypes[n - 1].symbol + @" 1\n" } else { Seq::empty() }) }
}
pub open spec fn defs_head(g: Gdo) -> Seq<int> {
    let a = if sep(g) { g.m_defines + (@"#define " + g.m_pfx_upper + @"_SEPARATE\n") } else { g.m_defines };
    let b = if g.m_default_lib.len() > 0 { a + lib_lines(g.m_default_lib, g.m_pfx_upper) } else { a };
    b + (@"#define " + g.m_pfx_upper + @"_COMMON_PREFIX \"" + common(g.m_prototypes, g.m_objects) + @"\"\n")
}
pub open spec fn gset(g: Gdo) -> Gdo { Gdo { m_separate: sep(g), m_defines: defs_head(g) + va_lines(g, g.m_prototypes.len() as int), ..g } }
pub proof fn va_next(g: Gdo, n: int) ensures n >= 0 ==> va_lines(g, n + 1) == va_lines(g, n) + (if ends_with(g.m_prototypes[n].args, @"...") { @"#define " + g.m_pfx_upper + @"_HAS_VA_ARGS_" + g.m_prototypes[n].symbol + @" 1\n" } else { Seq::empty() }), va_lines(g, 0) == Seq::<int>::empty() {}

// the text of the header and of the body; d: the date (empty unless asked for)
pub open spec fn tpl_raw(g: Gdo, tp: Seq<Seq<Template>>, i: int) -> Seq<int> { raw_text(g, body_of(g, tpl_now(g, tp, i))) }
pub open spec fn ld(g: Gdo, n: int) -> Seq<int> { if g.m_line_directive { @"#line " + dec(n + 2) + @" \"" + hdr_name(g) + @"\"\n" } else { Seq::empty() } }
pub open spec fn guard_open(g: Gdo) -> Seq<int> { (if g.m_pragma_once { @"\n#pragma once\n\n" } else { @"\n#ifndef " + guard_name(hdr_name(g), g.m_pfx_upper) + @"\n#define " + guard_name(hdr_name(g), g.m_pfx_upper) + @"\n\n" }) + extern_c(cxx(g)) }
pub open spec fn guard_close(g: Gdo) -> Seq<int> { (if cxx(g) { Seq::empty() } else { @"#ifdef __cplusplus\n} /* extern \"C\" */\n#endif\n" }) + (if g.m_pragma_once { Seq::empty() } else { @"\n#endif //" + guard_name(hdr_name(g), g.m_pfx_upper) + s1(10) }) }
pub open spec fn defs_text(g: Gdo) -> Seq<int> { let d = gset(g).m_defines; if d.len() == 0 { Seq::empty() } else { @"/* extra defines */\n" + d + s1(10) } }
pub open spec fn incs_text(g: Gdo) -> Seq<int> { @"/* extra headers */\n" + std_includes(cxx(g)) + inc_lines(g.m_includes, g.m_includes.len() as int) + s1(10) }
pub open spec fn tds_text(g: Gdo) -> Seq<int> { if g.m_typedefs.len() == 0 { Seq::empty() } else { @"/* typedefs */\n" + td_lines(g.m_typedefs, g.m_typedefs.len() as int) + s1(10) } }
pub open spec fn hdr_1(g: Gdo, tp: Seq<Seq<Template>>, d: Seq<int>) -> Seq<int> { Seq::<int>::empty() + note_text(d) + tpl_raw(g, tp, T_license()) }
pub open spec fn hdr_2(g: Gdo, tp: Seq<Seq<Template>>, d: Seq<int>) -> Seq<int> {
    let h = hdr_1(g, tp, d);
    h + ld(g, lf(h)) + guard_open(g) + tpl_raw(g, tp, T_filename_macros()) + defs_text(g) + incs_text(g) + tds_text(g)
}
pub open spec fn hdr_list(g: Gdo, tp: Seq<Seq<Template>>) -> Seq<Seq<Template>> { pick(g, tp, hdr_parts(g.m_format, sep(g))) }
pub open spec fn body_list(g: Gdo, tp: Seq<Seq<Template>>) -> Seq<Seq<Template>> { pick(g, tp, body_parts(g.m_format, sep(g))) }
pub open spec fn hdr_text(g: Gdo, tp: Seq<Seq<Template>>, d: Seq<int>) -> Seq<int> {
    let v = hdr_list(g, tp); let h = hdr_2(g, tp, d) + v_text(gset(g), v, v.len() as int);
    h + ld(g, lf(h)) + guard_close(g)
}
pub open spec fn body_inc(g: Gdo) -> Seq<int> { @"\n#define " + g.m_pfx_upper + @"_INCLUDED_IN_BODY\n#include \"" + hdr_name(g) + @"\"\n\n" }
pub open spec fn body_text(g: Gdo, tp: Seq<Seq<Template>>, d: Seq<int>) -> Seq<int> {
    let v = body_list(g, tp);
    Seq::<int>::empty() + note_text(d) + tpl_raw(g, tp, T_license()) + body_inc(g) + v_text(gset(g), v, v.len() as int)
}
pub open spec fn is_date(g: Gdo, d: Seq<int>) -> bool { no_break(d) && (!g.m_print_date ==> d.len() == 0) }
pub open spec fn out_done(g: Gdo, tp: Seq<Seq<Template>>, f: Seq<(Seq<int>, Seq<int>)>, d: Seq<int>, e: Seq<int>) -> Seq<(Seq<int>, Seq<int>)> {
    let a = f.push((hdr_path(g), hdr_text(g, tp, d)));
    if body_list(g, tp).len() > 0 { a.push((body_path(g), body_text(g, tp, e))) } else { a }
}
// only the settings that matter
pub open spec fn alike(a: Gdo, b: Gdo) -> bool { a == Gdo { m_separate: a.m_separate, m_defines: a.m_defines, m_substitute_lineno: a.m_substitute_lineno, ..b } }
pub proof fn raw_alike(a: Gdo, b: Gdo, s: Seq<Template>, n: int) requires alike(a, b) ensures raw_lines(a, s, n) == raw_lines(b, s, n) decreases n { if n > 0 { raw_alike(a, b, s, n - 1); } }
pub proof fn tpl_raw_alike(a: Gdo, b: Gdo, tp: Seq<Seq<Template>>, i: int) requires alike(a, b) ensures tpl_raw(a, tp, i) == tpl_raw(b, tp, i) { let s = body_of(a, tpl_now(a, tp, i)); raw_alike(a, b, s, s.len() - 1); }
pub proof fn l_no(g: Gdo, m: int, s: Seq<Template>, n: int, k: bool) ensures l_text(at_no(g, m), s, n, k) == l_text(g, s, n, k), l_skip(at_no(g, m), s, n, k) == l_skip(g, s, n, k) decreases n { if n > 0 { l_no(g, m, s, n - 1, k); } }
pub proof fn v_no(g: Gdo, m: int, v: Seq<Seq<Template>>, n: int) ensures v_text(at_no(g, m), v, n) == v_text(g, v, n), v_skip(at_no(g, m), v, n) == v_skip(g, v, n) decreases n {
    if n > 0 { v_no(g, m, v, n - 1); let s = body_of(g, v[n - 1]); l_no(g, m, s, s.len() - 1, v_skip(g, v, n - 1)); }
}
pub proof fn used_now(g: Gdo, h: Gdo, a: Seq<Seq<Template>>, b: Seq<Seq<Template>>) requires used(g, a, b), alike(h, g), all_wf(a) ensures all_wf(b), forall|i: int| 0 <= i < 12 ==> #[trigger] tpl_now(h, b, i) == tpl_now(g, a, i) {
    assert forall|i: int| 0 <= i < 12 implies wf(#[trigger] b[i]) by { wf_now(g, a, i); }
}
pub proof fn pick_wf(g: Gdo, tp: Seq<Seq<Template>>, v: Seq<int>) requires all_wf(tp), tp.len() == 12, forall|k: int| 0 <= k < v.len() ==> is_tpl(#[trigger] v[k]) ensures all_wf(pick(g, tp, v)) {
    assert forall|k: int| 0 <= k < v.len() implies wf(#[trigger] pick(g, tp, v)[k]) by { wf_now(g, tp, v[k]); }
}
pub proof fn ext_good() ensures good(@"h"), good(@"hpp"), good(@"c"), good(@"cpp"), good(@""), good(@".h"), good(@".hpp") { good_by(@"h"); good_by(@"hpp"); good_by(@"c"); good_by(@"cpp"); good_by(@""); good_by(@".h"); good_by(@".hpp"); }
pub proof fn name_good(p: Seq<int>) requires good(p) ensures good(p + @".h"), good(p + @".hpp") { ext_good(); lf_has(p); good_by(p + @".h"); good_by(p + @".hpp"); }
pub open spec fn gset_n(g: Gdo, n: int) -> Gdo { Gdo { m_separate: sep(g), m_defines: defs_head(g) + va_lines(g, n), ..g } }
pub proof fn names_good(g: Gdo) requires good(g.m_output), good(g.m_pfx), g.m_output.len() > 0 ensures chars(hdr_name(g)), lf(hdr_name(g)) == 0, !to_stdout(g) ==> is_file(hdr_path(g)), sep(g) ==> is_file(body_path(g)) && !to_stdout(g), to_stdout(g) ==> hdr_path(g).len() == 0 {
    ext_good(); let o = g.m_output; path_good(o, @"h"); path_good(o, @"hpp"); path_good(o, @"c"); path_good(o, @"cpp"); path_good(hdr_path(g), @""); name_good(g.m_pfx);
}
// from (g0, t0) on, templates have been loaded and output was counted
pub open spec fn chained(g0: Gdo, t0: Seq<Seq<Template>>, g: Gdo, t: Seq<Seq<Template>>) -> bool { g.m_templates_path == g0.m_templates_path && g.m_line_directive == g0.m_line_directive && alike(g, g0) && t0.len() == 12 && t.len() == 12 && all_wf(t) && forall|i: int| 0 <= i < 12 ==> #[trigger] tpl_now(g, t, i) == tpl_now(g0, t0, i) }
pub proof fn chain_next(g0: Gdo, t0: Seq<Seq<Template>>, g: Gdo, a: Seq<Seq<Template>>, b: Seq<Seq<Template>>)
    requires chained(g0, t0, g, a), used(g, a, b)
    ensures chained(g0, t0, g, b), b.len() == 12, wf(b[0]), wf(b[1]), tpl_raw(g, b, 0) == tpl_raw(g0, t0, 0), tpl_raw(g, b, 1) == tpl_raw(g0, t0, 1)
{
    used_now(g, g, a, b);
    assert forall|i: int| 0 <= i < 12 implies #[trigger] tpl_now(g, b, i) == tpl_now(g0, t0, i) by { assert(tpl_now(g, a, i) == tpl_now(g0, t0, i)); }
    tpl_raw_alike(g, g0, b, 0); tpl_raw_alike(g, g0, b, 1);
    let i0 = tpl_now(g, b, 0); let i1 = tpl_now(g, b, 1);
}
pub proof fn chain_g(g0: Gdo, t0: Seq<Seq<Template>>, g: Gdo, h: Gdo, t: Seq<Seq<Template>>) requires chained(g0, t0, g, t), h == at_no(g, h.m_substitute_lineno) ensures chained(g0, t0, h, t), tpl_raw(h, t, 0) == tpl_raw(g0, t0, 0), tpl_raw(h, t, 1) == tpl_raw(g0, t0, 1)
{ assert forall|i: int| 0 <= i < 12 implies #[trigger] tpl_now(h, t, i) == tpl_now(g0, t0, i) by { assert(tpl_now(g, t, i) == tpl_now(g0, t0, i)); }
  tpl_raw_alike(h, g0, t, 0); tpl_raw_alike(h, g0, t, 1); let i0 = tpl_now(h, t, 0); let i1 = tpl_now(h, t, 1); }
pub proof fn chain_0(g: Gdo, t: Seq<Seq<Template>>) requires t.len() == 12, all_wf(t) ensures chained(g, t, gset(g), t), wf(t[0]), wf(t[1]), alike(gset(g), g) {}
pub proof fn lists_same(g: Gdo, tp: Seq<Seq<Template>>) ensures pick(gset(g), tp, hdr_parts(g.m_format, sep(g))) == hdr_list(g, tp), pick(gset(g), tp, body_parts(g.m_format, sep(g))) == body_list(g, tp)
{ assert(pick(gset(g), tp, hdr_parts(g.m_format, sep(g))) =~= hdr_list(g, tp)); assert(pick(gset(g), tp, body_parts(g.m_format, sep(g))) =~= body_list(g, tp)); }
pub proof fn lists_wf(g: Gdo, tp: Seq<Seq<Template>>) requires all_wf(tp), tp.len() == 12, is_fmt(g.m_format) ensures all_wf(hdr_list(g, tp)), all_wf(body_list(g, tp)), body_list(g, tp).len() > 0 ==> sep(g), hdr_list(g, tp).len() > 0
{ pick_wf(g, tp, hdr_parts(g.m_format, sep(g))); pick_wf(g, tp, body_parts(g.m_format, sep(g))); }
