// gendlopen.cpp: the entries of a template of the user are expanded in order; b is the line number before the first of them
pub open spec fn c_skip(g: Gdo, b: int, s: Seq<Template>, n: int) -> bool decreases n { if n <= 0 { false } else { sub_skip(at_no(g, b + lines_of(s, n - 1)), s[n - 1], c_skip(g, b, s, n - 1)) } }
pub open spec fn c_text(g: Gdo, b: int, s: Seq<Template>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { c_text(g, b, s, n - 1) + sub_text(at_no(g, b + lines_of(s, n - 1)), s[n - 1], c_skip(g, b, s, n - 1)) } }
pub open spec fn c_ok(g: Gdo, b: int, s: Seq<Template>, n: int) -> bool decreases n { n <= 0 || c_ok(g, b, s, n - 1) && !mixed(at_no(g, b + lines_of(s, n - 1)), s[n - 1], c_skip(g, b, s, n - 1)) }
pub proof fn c_next(g: Gdo, b: int, s: Seq<Template>, n: int)
    ensures n >= 0 ==> ({ let h = at_no(g, b + lines_of(s, n)); c_skip(g, b, s, n + 1) == sub_skip(h, s[n], c_skip(g, b, s, n)) && c_text(g, b, s, n + 1) == c_text(g, b, s, n) + sub_text(h, s[n], c_skip(g, b, s, n))
            && c_ok(g, b, s, n + 1) == (c_ok(g, b, s, n) && !mixed(h, s[n], c_skip(g, b, s, n))) && lines_of(s, n + 1) == lines_of(s, n) + s[n].line_count }),
        !c_skip(g, b, s, 0), c_text(g, b, s, 0) == Seq::<int>::empty(), c_ok(g, b, s, 0), lines_of(s, 0) == 0 {}
pub proof fn c_never(g: Gdo, b: int, s: Seq<Template>, m: int, n: int) ensures m <= n && !c_ok(g, b, s, m) ==> !c_ok(g, b, s, n) decreases n - m { if m < n && !c_ok(g, b, s, m) { if m >= 0 { c_next(g, b, s, m); } c_never(g, b, s, m + 1, n); } }
// the directive in front of the text is a line of its own
pub open spec fn c_base(g: Gdo) -> int { if g.m_line_directive { 1 } else { g.m_substitute_lineno } }
pub open spec fn c_head(g: Gdo) -> Seq<int> { if !g.m_line_directive { Seq::empty() } else if is_stdin(g.m_custom_template) { @"#line 1 \"<STDIN>\"\n" } else { @"#line 1 \"" + g.m_custom_template + @"\"\n" } }
