// gendlopen.cpp, generate.cpp: texts that gendlopen writes
pub open spec fn s1(c: int) -> Seq<int> { seq![c] }
pub open spec fn has_mode(s: Seq<int>, m: Seq<int>) -> bool { s.len() > m.len() && lower(take(s, m.len() as int)) =~= m }
pub open spec fn quoted(s: Seq<int>) -> bool { s.len() >= 2 && s[0] == 34 && s.last() == 34 }
pub open spec fn in_brackets(s: Seq<int>) -> bool { s.len() >= 2 && s[0] == 60 && s.last() == 62 }
pub open spec fn inc_text(s: Seq<int>) -> Seq<int> {
    if has_mode(s, seq![110int, 113, 58]) { s.skip(3) } else if quoted(s) || in_brackets(s) { s } else { s1(34) + s + s1(34) }
}
// -D name[=value]
pub open spec fn def_eq(s: Seq<int>) -> int { str_find(s, s1(61), 0) }
pub open spec fn def_name(s: Seq<int>) -> Seq<int> { strip(if def_eq(s) == npos() { s } else { s.subrange(0, def_eq(s)) }) }
pub open spec fn def_value(s: Seq<int>) -> Seq<int> { if def_eq(s) == npos() { Seq::empty() } else { s1(32) + s.skip(def_eq(s) + 1) } }
pub proof fn cstr_prefix(s: Seq<int>)
    ensures c_str(s).len() <= s.len(), c_str(s) =~= s.subrange(0, c_str(s).len() as int), c_str(s).len() < s.len() ==> s[c_str(s).len() as int] == 0, no_nul(c_str(s))
    decreases s.len()
{ if s.len() > 0 && s[0] != 0 { cstr_prefix(s.skip(1)); } }
pub proof fn mode_ok(s: Seq<int>, m: Seq<int>)
    requires no_nul(m), lower(m) =~= m
    ensures s.len() > m.len() ==> (lower(take(c_str(s), m.len() as int)) =~= lower(take(m, m.len() as int))) == has_mode(s, m)
{
    cstr_prefix(s);
    let n = m.len() as int; let c = c_str(s);
    assert(take(m, n) =~= m);
    if s.len() > n {
        if c.len() < n {
            if lower(take(s, n)) =~= m { let k = c.len() as int; assert(lower(take(s, n))[k] == m[k]); }
            if lower(take(c, n)) =~= m { assert(lower(take(c, n)).len() == m.len()); }
        } else { assert(take(c, n) =~= take(s, n)); }
    }
}
pub open spec fn fmt_of(s: Seq<int>) -> Option<int> {
    if s == @"c" { Some(K_C()) } else if s == @"cxx" || s == @"c++" || s == @"cpp" { Some(K_CXX()) }
    else if s == @"minimal" || s == @"minimal-c" { Some(K_MIN()) } else if s == @"minimal-cxx" || s == @"minimal-c++" || s == @"minimal-cpp" { Some(K_MINCXX()) }
    else if s == @"plugin" || s == @"plugin-c" { Some(K_PLUGIN()) } else { None }
}
pub open spec fn par_of(s: Seq<int>) -> Option<int> {
    if s == @"skip" { Some(K_SKIP()) } else if s == @"create" { Some(K_CREATE()) } else if s == @"read" { Some(K_READ()) } else { None }
}
// %option strings
pub open spec fn opt_arg(s: Seq<int>, n: Seq<int>) -> Seq<int> { s.skip(n.len() as int) }
pub open spec fn is_opt(s: Seq<int>, n: Seq<int>) -> bool { starts_with(s, n) && s.len() > n.len() }
pub open spec fn with_def(g: Gdo, s: Seq<int>) -> Gdo { Gdo { m_defines: g.m_defines + def_lines(s), ..g } }
pub open spec fn def_lines(s: Seq<int>) -> Seq<int> {
    if def_name(s).len() == 0 { Seq::empty() } else { @"#ifndef " + def_name(s) + s1(10) + @"# define " + def_name(s) + def_value(s) + s1(10) + @"#endif\n" }
}
// what a match of the prefix is replaced with
pub open spec fn fmt_upper(s: Seq<int>) -> Seq<int> { @"$1" + up_us(s) + s1(95) }
pub open spec fn fmt_lower(s: Seq<int>) -> Seq<int> { @"$1" + low_us(s) + s1(95) }
pub open spec fn fmt_alone(s: Seq<int>) -> Seq<int> { @"$1" + low_us(s) }
pub open spec fn with_prefix(g: Gdo, s: Seq<int>) -> Gdo {
    Gdo { m_pfx: s, m_pfx_upper: up_us(s), m_pfx_lower: low_us(s), m_fmt_upper: fmt_upper(s), m_fmt_lower: fmt_lower(s), m_fmt_standalone: fmt_alone(s), ..g }
}
// the effect of one %option string, None if it is an error
pub open spec fn opt_step(g: Gdo, s: Seq<int>) -> Option<Gdo> {
    if s == @"line" { Some(Gdo { m_line_directive: true, ..g }) }
    else if s == @"no-date" { Some(Gdo { m_print_date: false, ..g }) }
    else if s == @"no-pragma-once" { Some(Gdo { m_pragma_once: false, ..g }) }
    else if is_opt(s, @"D=") { Some(with_def(g, opt_arg(s, @"D="))) }
    else if is_opt(s, @"format=") { match fmt_of(lower(opt_arg(s, @"format="))) { Some(f) => Some(Gdo { m_format: f, ..g }), None => None } }
    else if is_opt(s, @"include=") { Some(Gdo { m_includes: g.m_includes.push(inc_text(opt_arg(s, @"include="))), ..g }) }
    else if is_opt(s, @"library=") { Some(Gdo { m_default_lib: opt_arg(s, @"library="), ..g }) }
    else if is_opt(s, @"param=") { match par_of(lower(opt_arg(s, @"param="))) { Some(f) => Some(Gdo { m_parameter_names: f, ..g }), None => None } }
    else if is_opt(s, @"prefix=") { Some(with_prefix(g, opt_arg(s, @"prefix="))) }
    else { None }
}
pub open spec fn opt_steps(g: Gdo, o: Seq<Seq<int>>, n: int) -> Option<Gdo> decreases n {
    if n <= 0 { Some(g) } else { match opt_steps(g, o, n - 1) { Some(h) => opt_step(h, o[n - 1]), None => None } }
}
pub open spec fn texts(o: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < o.len() ==> chars(#[trigger] o[i]) && no_nul(o[i]) }
pub proof fn cstr_id(s: Seq<int>) requires no_nul(s) ensures c_str(s) =~= s decreases s.len() { if s.len() > 0 { cstr_id(s.skip(1)); } }
pub proof fn steps_none(g: Gdo, o: Seq<Seq<int>>, i: int, n: int) requires i <= n, opt_steps(g, o, i) is None ensures opt_steps(g, o, n) is None decreases n - i
{ if i < n { if i >= 0 { assert(opt_steps(g, o, i + 1) is None); } steps_none(g, o, i + 1, n); } }
pub proof fn steps_if(g: Gdo, o: Seq<Seq<int>>, i: int) requires i <= o.len() ensures opt_steps(g, o, i) is None ==> opt_steps(g, o, o.len() as int) is None
{ if opt_steps(g, o, i) is None { steps_none(g, o, i, o.len() as int); } }
