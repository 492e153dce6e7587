// substitute.cpp
pub open spec fn skip_kw(s: Seq<int>) -> bool { s == @"%PARAM_SKIP_REMOVE_BEGIN%" || s == @"%PARAM_SKIP_USE_BEGIN%" || s == @"%PARAM_SKIP_END%" }
pub open spec fn skip_state(s: Seq<int>, now: bool, mode: int) -> bool {
    if s == @"%PARAM_SKIP_REMOVE_BEGIN%" { mode == K_SKIP() } else if s == @"%PARAM_SKIP_USE_BEGIN%" { mode != K_SKIP() } else if s == @"%PARAM_SKIP_END%" { false } else { now }
}
pub open spec fn longest(v: Seq<Proto>, n: int) -> int decreases n { if n <= 0 { 0 } else if v[n - 1].symbol.len() > longest(v, n - 1) { v[n - 1].symbol.len() as int } else { longest(v, n - 1) } }
pub proof fn longest_ge(v: Seq<Proto>, n: int) requires 0 <= n <= v.len()
    ensures forall|j: int| 0 <= j < n ==> (#[trigger] v[j]).symbol.len() <= longest(v, n), n > 0 ==> exists|j: int| 0 <= j < n && (#[trigger] v[j]).symbol.len() == longest(v, n), longest(v, n) >= 0 decreases n
{
    if n > 0 {
        longest_ge(v, n - 1);
        let m = longest(v, n - 1);
        assert(longest(v, n) == (if v[n - 1].symbol.len() > m { v[n - 1].symbol.len() as int } else { m }));
        if v[n - 1].symbol.len() > m { assert(v[n - 1].symbol.len() == longest(v, n)); }
        else if n == 1 { assert(longest(v, 0) == 0); assert(v[0].symbol.len() == longest(v, 1)); }
        else { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] v[j]).symbol.len() == m; assert(v[j].symbol.len() == longest(v, n)); }
    }
}
// texts of a symbol: one line, no NUL
pub open spec fn plain_1(e: Proto) -> bool { no_nul(e.type_) && lf(e.type_) == 0 && lf(e.symbol) == 0 && lf(e.args) == 0 && lf(e.param_names) == 0 }
pub open spec fn plain(v: Seq<Proto>) -> bool { forall|i: int| 0 <= i < v.len() ==> plain_1(#[trigger] v[i]) }
pub open spec fn pad_width(v: Seq<Proto>, x: Seq<int>, k: Seq<int>) -> int { if str_find(x, k, 0) != npos() { longest(v, v.len() as int) } else { 0 } }
pub open spec fn padded(e: Proto, w: int) -> Seq<int> { e.symbol + rep(32, w - e.symbol.len()) }
// every occurrence is erased
pub open spec fn erase_fix(f: Seq<int>, s: Seq<int>) -> Seq<int> decreases s.len() {
    let p = str_find(s, f, 0);
    if f.len() == 0 || p < 0 || p + f.len() > s.len() { s } else { erase_fix(f, str_erase(s, p, f.len() as int)) }
}
pub open spec fn fn_return(e: Proto, x: Seq<int>) -> Seq<int> {
    if lower(e.type_) == @"void" { erase_fix(@"%%return%%", erase_fix(@"%%return%% ", x)) } else { repl(@"%%return%%", @"return", x, 0) }
}
pub open spec fn fn_text(e: Proto, w: int, x: Seq<int>) -> Seq<int> {
    let a = fn_return(e, x);
    let b = if ends_with_c(e.type_, 42) { repl(@"%%type%% ", e.type_, a, 0) } else { a };
    let c = repl(@"%%type%%", e.type_, b, 0);
    let d = repl(@"%%func_symbol%%", e.symbol, c, 0);
    let f = repl(@"%%args%%", e.args, d, 0);
    let h = repl(@"%%param_names%%", e.param_names, f, 0);
    if w > 0 { repl(@"%%func_symbol_pad%%", padded(e, w), h, 0) } else { h }
}
pub open spec fn dir(g: Gdo) -> Seq<int> { if g.m_line_directive { @"#line " + dec(g.m_substitute_lineno) + s1(10) } else { Seq::empty() } }
pub open spec fn one(g: Gdo, t: Seq<int>) -> Seq<int> { dir(g) + t + s1(10) }
pub open spec fn fn_lines(g: Gdo, x: Seq<int>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { fn_lines(g, x, n - 1) + one(g, fn_text(g.m_prototypes[n - 1], pad_width(g.m_prototypes, x, @"%%func_symbol_pad%%"), x)) }
}
pub proof fn skip_words(s: Seq<int>)
    ensures take(s, 12) == @"%PARAM_SKIP_" ==> s.len() >= 12 && (s.skip(12) == @"REMOVE_BEGIN%") == (s == @"%PARAM_SKIP_REMOVE_BEGIN%")
        && (s.skip(12) == @"USE_BEGIN%") == (s == @"%PARAM_SKIP_USE_BEGIN%") && (s.skip(12) == @"END%") == (s == @"%PARAM_SKIP_END%"),
        take(s, 12) != @"%PARAM_SKIP_" ==> !skip_kw(s)
{
    assert(@"%PARAM_SKIP_REMOVE_BEGIN%" =~= @"%PARAM_SKIP_" + @"REMOVE_BEGIN%");
    assert(@"%PARAM_SKIP_USE_BEGIN%" =~= @"%PARAM_SKIP_" + @"USE_BEGIN%");
    assert(@"%PARAM_SKIP_END%" =~= @"%PARAM_SKIP_" + @"END%");
    if take(s, 12) == @"%PARAM_SKIP_" { assert(s.len() >= 12) by { assert(@"%PARAM_SKIP_".len() == 12); } assert(s =~= s.subrange(0, 12) + s.skip(12)); }
    assert((@"%PARAM_SKIP_" + @"REMOVE_BEGIN%").skip(12) =~= @"REMOVE_BEGIN%"); assert(take(@"%PARAM_SKIP_" + @"REMOVE_BEGIN%", 12) =~= @"%PARAM_SKIP_");
    assert((@"%PARAM_SKIP_" + @"USE_BEGIN%").skip(12) =~= @"USE_BEGIN%"); assert(take(@"%PARAM_SKIP_" + @"USE_BEGIN%", 12) =~= @"%PARAM_SKIP_");
    assert((@"%PARAM_SKIP_" + @"END%").skip(12) =~= @"END%"); assert(take(@"%PARAM_SKIP_" + @"END%", 12) =~= @"%PARAM_SKIP_");
}
pub proof fn lf_dir2(g: Gdo) ensures lf(dir(g)) == (if g.m_line_directive { 1int } else { 0int }) {
    reveal_with_fuel(count_of, 8);
    lf_dec(g.m_substitute_lineno); lf_one(10);
    assert(lf(@"#line ") == 0);
    count_concat(@"#line ", dec(g.m_substitute_lineno), 10int); count_concat(@"#line " + dec(g.m_substitute_lineno), s1(10), 10int);
    assert(lf(Seq::<int>::empty()) == 0);
}
pub proof fn lf_one_text(g: Gdo, t: Seq<int>) ensures lf(one(g, t)) == lf(t) + 1 + (if g.m_line_directive { 1int } else { 0int }) {
    lf_dir2(g); lf_one(10); count_concat(dir(g), t, 10int); count_concat(dir(g) + t, s1(10), 10int);
}
// replacing text without line feeds keeps the number of lines
pub proof fn lf_cut(s: Seq<int>, p: int, n: int) requires 0 <= p, 0 <= n, p + n <= s.len() ensures lf(s) == lf(s.subrange(0, p)) + lf(s.subrange(p, p + n)) + lf(s.skip(p + n)) {
    assert(s =~= s.subrange(0, p) + s.subrange(p, p + n) + s.skip(p + n));
    count_concat(s.subrange(0, p), s.subrange(p, p + n), 10int); count_concat(s.subrange(0, p) + s.subrange(p, p + n), s.skip(p + n), 10int);
}
pub proof fn lf_repl(f: Seq<int>, t: Seq<int>, s: Seq<int>, p: int) requires lf(f) == 0, lf(t) == 0, 0 <= p <= s.len() ensures lf(repl(f, t, s, p)) == lf(s.skip(p)) decreases s.len() - p {
    let q = str_find(s, f, p);
    find_spec(s, f, p);
    if !(f.len() == 0 || q < p || q + f.len() > s.len()) {
        lf_repl(f, t, s, q + f.len());
        let r = s.skip(p);
        lf_cut(r, q - p, f.len() as int);
        assert(r.subrange(0, q - p) =~= s.subrange(p, q)); assert(r.subrange(q - p, q - p + f.len()) =~= f); assert(r.skip(q - p + f.len()) =~= s.skip(q + f.len()));
        count_concat(s.subrange(p, q), t, 10int); count_concat(s.subrange(p, q) + t, repl(f, t, s, q + f.len()), 10int);
    }
}
pub proof fn lf_erase(f: Seq<int>, s: Seq<int>) requires lf(f) == 0 ensures lf(erase_fix(f, s)) == lf(s) decreases s.len() {
    let p = str_find(s, f, 0);
    find_spec(s, f, 0);
    if !(f.len() == 0 || p < 0 || p + f.len() > s.len()) {
        lf_cut(s, p, f.len() as int); assert(s.subrange(p, p + f.len()) =~= f);
        count_concat(s.subrange(0, p), s.skip(p + f.len()), 10int);
        assert(str_erase(s, p, f.len() as int) =~= s.subrange(0, p) + s.skip(p + f.len()));
        lf_erase(f, str_erase(s, p, f.len() as int));
    }
}
pub proof fn lf_rep(c: int, n: int) requires c != 10 ensures lf(rep(c, n)) == 0 decreases n {
    if n > 0 { lf_rep(c, n - 1); assert(rep(c, n).drop_last() =~= rep(c, n - 1)); }
}
pub proof fn lf_all(s: Seq<int>, f: Seq<int>, t: Seq<int>) requires lf(f) == 0, lf(t) == 0 ensures lf(repl(f, t, s, 0)) == lf(s) { lf_repl(f, t, s, 0); assert(s.skip(0) =~= s); }

pub proof fn lf_fn(x: Seq<int>, e: Proto, w: int) requires plain_1(e) ensures lf(fn_text(e, w, x)) == lf(x) {
    lf_words(); lf_pad(e, w);
    let r = @"return"; 
    lf_all(x, @"%%return%%", @"return");
    lf_erase(@"%%return%% ", x); lf_erase(@"%%return%%", erase_fix(@"%%return%% ", x));
    let a = fn_return(e, x); assert(lf(a) == lf(x));
    lf_all(a, @"%%type%% ", e.type_);
    let b = if ends_with_c(e.type_, 42) { repl(@"%%type%% ", e.type_, a, 0) } else { a };
    lf_all(b, @"%%type%%", e.type_);
    let c = repl(@"%%type%%", e.type_, b, 0); lf_all(c, @"%%func_symbol%%", e.symbol);
    let d = repl(@"%%func_symbol%%", e.symbol, c, 0); lf_all(d, @"%%args%%", e.args);
    let f = repl(@"%%args%%", e.args, d, 0); lf_all(f, @"%%param_names%%", e.param_names);
    let h = repl(@"%%param_names%%", e.param_names, f, 0); lf_all(h, @"%%func_symbol_pad%%", padded(e, w));
}
pub proof fn lf_pad(e: Proto, w: int) requires lf(e.symbol) == 0 ensures lf(padded(e, w)) == 0 { lf_rep(32, w - e.symbol.len()); count_concat(e.symbol, rep(32, w - e.symbol.len()), 10int); }
pub open spec fn no_lf(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 10 }
pub proof fn lf_none(s: Seq<int>) requires no_lf(s) ensures lf(s) == 0 decreases s.len() { if s.len() > 0 { lf_none(s.drop_last()); } }
pub proof fn lf_words() ensures lf(@"%%return%%") == 0, lf(@"%%return%% ") == 0, lf(@"return") == 0, lf(@"%%type%%") == 0, lf(@"%%type%% ") == 0,
    lf(@"%%func_symbol%%") == 0, lf(@"%%func_symbol_pad%%") == 0, lf(@"%%args%%") == 0, lf(@"%%param_names%%") == 0,
    lf(@"%%obj_type%%") == 0, lf(@"%%obj_type%% ") == 0, lf(@"%%obj_symbol%%") == 0, lf(@"%%obj_symbol_pad%%") == 0, lf(@"%%sym_type%%") == 0, lf(@"%%symbol%%") == 0
{
    lf_none(@"%%return%%"); lf_none(@"%%return%% "); lf_none(@"return"); lf_none(@"%%type%%"); lf_none(@"%%type%% ");
    lf_none(@"%%func_symbol%%"); lf_none(@"%%func_symbol_pad%%"); lf_none(@"%%args%%"); lf_none(@"%%param_names%%");
    lf_none(@"%%obj_type%%"); lf_none(@"%%obj_type%% "); lf_none(@"%%obj_symbol%%"); lf_none(@"%%obj_symbol_pad%%"); lf_none(@"%%sym_type%%"); lf_none(@"%%symbol%%");
}

pub proof fn erase_step(f: Seq<int>, s: Seq<int>) requires f.len() > 0
    ensures str_find(s, f, 0) == npos() ==> erase_fix(f, s) == s,
        str_find(s, f, 0) != npos() ==> ({ let p = str_find(s, f, 0); 0 <= p <= s.len() && erase_fix(f, str_erase(s, p, f.len() as int)) == erase_fix(f, s) && str_erase(s, p, f.len() as int).len() < s.len() })
{ find_spec(s, f, 0); if str_find(s, f, 0) != npos() { let p = str_find(s, f, 0); assert(str_erase(s, p, f.len() as int).len() == s.len() - f.len()); } }
pub proof fn fn_lines_next(g: Gdo, x: Seq<int>, n: int) ensures n >= 0 ==> fn_lines(g, x, n + 1) == fn_lines(g, x, n) + one(g, fn_text(g.m_prototypes[n], pad_width(g.m_prototypes, x, @"%%func_symbol_pad%%"), x)), fn_lines(g, x, 0) == Seq::<int>::empty() {}
// one more line on the output
pub proof fn line_out(g: Gdo, a: Seq<int>, b: Seq<int>, t: Seq<int>)
    ensures g.m_line_directive ==> a + (b + one(g, t)) == a + b + @"#line " + dec(g.m_substitute_lineno) + s1(10) + t + s1(10) && lf(a + (b + one(g, t))) == lf(a + b) + lf(t) + 2,
        !g.m_line_directive ==> a + (b + one(g, t)) == a + b + t + s1(10) && lf(a + (b + one(g, t))) == lf(a + b) + lf(t) + 1
{
    lf_one_text(g, t); count_concat(a + b, one(g, t), 10int);
    assert(a + (b + one(g, t)) =~= (a + b) + one(g, t));
    if g.m_line_directive { assert((a + b) + one(g, t) =~= a + b + @"#line " + dec(g.m_substitute_lineno) + s1(10) + t + s1(10)); }
    else { assert((a + b) + one(g, t) =~= a + b + t + s1(10)); }
}
pub proof fn low_void() ensures lower(@"void") == @"void" { assert(lower(@"void") =~= @"void"); }
pub open spec fn obj_text(e: Proto, w: int, x: Seq<int>) -> Seq<int> {
    let b = if ends_with_c(e.type_, 42) { repl(@"%%obj_type%% ", e.type_, x, 0) } else { x };
    let c = repl(@"%%obj_type%%", e.type_, b, 0);
    let d = repl(@"%%obj_symbol%%", e.symbol, c, 0);
    if w > 0 { repl(@"%%obj_symbol_pad%%", padded(e, w), d, 0) } else { d }
}
pub open spec fn obj_lines(g: Gdo, x: Seq<int>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { obj_lines(g, x, n - 1) + one(g, obj_text(g.m_objects[n - 1], pad_width(g.m_objects, x, @"%%obj_symbol_pad%%"), x)) }
}
pub proof fn lf_obj(x: Seq<int>, e: Proto, w: int) requires plain_1(e) ensures lf(obj_text(e, w, x)) == lf(x) {
    lf_words(); lf_pad(e, w);
    lf_all(x, @"%%obj_type%% ", e.type_);
    let b = if ends_with_c(e.type_, 42) { repl(@"%%obj_type%% ", e.type_, x, 0) } else { x };
    lf_all(b, @"%%obj_type%%", e.type_);
    let c = repl(@"%%obj_type%%", e.type_, b, 0); lf_all(c, @"%%obj_symbol%%", e.symbol);
    let d = repl(@"%%obj_symbol%%", e.symbol, c, 0); lf_all(d, @"%%obj_symbol_pad%%", padded(e, w));
}
pub proof fn obj_lines_next(g: Gdo, x: Seq<int>, n: int) ensures n >= 0 ==> obj_lines(g, x, n + 1) == obj_lines(g, x, n) + one(g, obj_text(g.m_objects[n], pad_width(g.m_objects, x, @"%%obj_symbol_pad%%"), x)), obj_lines(g, x, 0) == Seq::<int>::empty() {}
// any symbol: the type of a pointer to it
pub open spec fn sym_text(ty: Seq<int>, e: Proto, x: Seq<int>) -> Seq<int> { repl(@"%%symbol%%", e.symbol, repl(@"%%sym_type%%", ty, x, 0), 0) }
pub open spec fn fn_ptr(e: Proto) -> Seq<int> { if ends_with_c(e.type_, 42) { e.type_ + @"(*)(" + e.args + @")" } else { e.type_ + @" (*)(" + e.args + @")" } }
pub open spec fn obj_ptr(e: Proto) -> Seq<int> { if ends_with_c(e.type_, 42) { e.type_ + s1(42) } else { e.type_ + @" *" } }
pub open spec fn sym_fn_lines(g: Gdo, x: Seq<int>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { sym_fn_lines(g, x, n - 1) + one(g, sym_text(fn_ptr(g.m_prototypes[n - 1]), g.m_prototypes[n - 1], x)) }
}
pub open spec fn sym_obj_lines(g: Gdo, x: Seq<int>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { sym_obj_lines(g, x, n - 1) + one(g, sym_text(obj_ptr(g.m_objects[n - 1]), g.m_objects[n - 1], x)) }
}
pub proof fn sym_fn_next(g: Gdo, x: Seq<int>, n: int) ensures n >= 0 ==> sym_fn_lines(g, x, n + 1) == sym_fn_lines(g, x, n) + one(g, sym_text(fn_ptr(g.m_prototypes[n]), g.m_prototypes[n], x)), sym_fn_lines(g, x, 0) == Seq::<int>::empty() {}
pub proof fn sym_obj_next(g: Gdo, x: Seq<int>, n: int) ensures n >= 0 ==> sym_obj_lines(g, x, n + 1) == sym_obj_lines(g, x, n) + one(g, sym_text(obj_ptr(g.m_objects[n]), g.m_objects[n], x)), sym_obj_lines(g, x, 0) == Seq::<int>::empty() {}
pub proof fn lf_sym(x: Seq<int>, e: Proto, ty: Seq<int>) requires plain_1(e), lf(ty) == 0 ensures lf(sym_text(ty, e, x)) == lf(x) {
    lf_words(); lf_all(x, @"%%sym_type%%", ty); lf_all(repl(@"%%sym_type%%", ty, x, 0), @"%%symbol%%", e.symbol);
}
pub proof fn lf_ptr(e: Proto) requires plain_1(e) ensures lf(fn_ptr(e)) == 0, lf(obj_ptr(e)) == 0 {
    lf_none(@"(*)("); lf_none(@" (*)("); lf_none(@")"); lf_none(@" *"); lf_one(42);
    count_concat(e.type_, @"(*)(", 10int); count_concat(e.type_ + @"(*)(", e.args, 10int); count_concat(e.type_ + @"(*)(" + e.args, @")", 10int);
    count_concat(e.type_, @" (*)(", 10int); count_concat(e.type_ + @" (*)(", e.args, 10int); count_concat(e.type_ + @" (*)(" + e.args, @")", 10int);
    count_concat(e.type_, s1(42), 10int); count_concat(e.type_, @" *", 10int);
}

// replace_prefixes; the three replacements are std::regex_replace
pub uninterp spec fn re_gdo_upper(s: Seq<int>, fmt: Seq<int>) -> Seq<int>;
pub uninterp spec fn re_gdo_lower(s: Seq<int>, fmt: Seq<int>) -> Seq<int>;
pub uninterp spec fn re_gdo(s: Seq<int>, fmt: Seq<int>) -> Seq<int>;
pub open spec fn pfx_text(g: Gdo, s: Seq<int>) -> Seq<int> { re_gdo(re_gdo_lower(re_gdo_upper(s, g.m_fmt_upper), g.m_fmt_lower), g.m_fmt_standalone) }
// substitute_line
pub open spec fn prefixed_text(g: Gdo, s: Seq<int>) -> Seq<int> { if g.m_pfx_upper == @"GDO" { s } else { pfx_text(g, s) } }
pub open spec fn finds(s: Seq<int>, k: Seq<int>) -> bool { str_find(s, k, 0) != npos() }
pub open spec fn fn_kw(s: Seq<int>) -> bool { finds(s, @"%%return%%") || finds(s, @"%%type%%") || finds(s, @"%%func_symbol%%") || finds(s, @"%%func_symbol_pad%%") || finds(s, @"%%args%%") || finds(s, @"%%param_names%%") }
pub open spec fn obj_kw(s: Seq<int>) -> bool { finds(s, @"%%obj_type%%") || finds(s, @"%%obj_symbol%%") || finds(s, @"%%obj_symbol_pad%%") }
pub open spec fn sym_kw(s: Seq<int>) -> bool { finds(s, @"%%sym_type%%") || finds(s, @"%%symbol%%") }
pub open spec fn kw_line(g: Gdo, l: Template) -> bool { l.maybe_keyword && finds(prefixed_text(g, l.data), @"%%") }
pub open spec fn skip_line(l: Template) -> bool { l.data.len() > 0 && l.maybe_keyword && skip_kw(c_str(l.data)) }
pub open spec fn sub_skip(g: Gdo, l: Template, skip: bool) -> bool { if skip_line(l) { skip_state(c_str(l.data), skip, g.m_parameter_names) } else { skip } }
pub open spec fn mixed(g: Gdo, l: Template, skip: bool) -> bool {
    let b = prefixed_text(g, l.data);
    l.data.len() > 0 && !skip_line(l) && !skip && kw_line(g, l) && (fn_kw(b) && obj_kw(b) || fn_kw(b) && sym_kw(b) || obj_kw(b) && sym_kw(b))
}
pub open spec fn dir_at(g: Gdo, n: int) -> Seq<int> { if g.m_line_directive { @"#line " + dec(n) + s1(10) } else { Seq::empty() } }
pub open spec fn sub_text(g: Gdo, l: Template, skip: bool) -> Seq<int> {
    let b = prefixed_text(g, l.data);
    if l.data.len() == 0 { if skip { Seq::empty() } else { s1(10) } }
    else if skip_line(l) { if sub_skip(g, l, skip) { Seq::empty() } else { dir_at(g, g.m_substitute_lineno + 1) } }
    else if skip { Seq::empty() }
    else if kw_line(g, l) && fn_kw(b) { if g.m_prototypes.len() == 0 { dir_at(g, g.m_substitute_lineno + lf(b) + 1) } else { fn_lines(g, b, g.m_prototypes.len() as int) } }
    else if kw_line(g, l) && obj_kw(b) { if g.m_objects.len() == 0 { dir_at(g, g.m_substitute_lineno + lf(b) + 1) } else { obj_lines(g, b, g.m_objects.len() as int) } }
    else if kw_line(g, l) && sym_kw(b) { sym_fn_lines(g, b, g.m_prototypes.len() as int) + sym_obj_lines(g, b, g.m_objects.len() as int) }
    else { b + s1(10) }
}
pub open spec fn no_kw(s: Seq<int>, l: Seq<Seq<int>>, n: int) -> bool { forall|j: int| 0 <= j < n ==> !finds(s, #[trigger] l[j]) }

pub proof fn or_bits() ensures bit_or(0, 0) == 0, bit_or(0, 2) == 2, bit_or(0, 4) == 4, bit_or(2, 0) == 2, bit_or(2, 4) == 6, bit_or(0, 8) == 8, bit_or(2, 8) == 10, bit_or(4, 8) == 12, bit_or(6, 8) == 14, bit_or(4, 0) == 4, bit_or(6, 0) == 6,
    as_char(0) == 0, as_char(2) == 2, as_char(4) == 4, as_char(6) == 6, as_char(8) == 8, as_char(10) == 10, as_char(12) == 12, as_char(14) == 14,
    bit_shl(0, 1) == 0, bit_shl(1, 1) == 2, bit_shl(0, 2) == 0, bit_shl(1, 2) == 4, bit_shl(0, 3) == 0, bit_shl(1, 3) == 8 {
    assert(0u64 | 0 == 0 && 0u64 | 2 == 2 && 0u64 | 4 == 4 && 2u64 | 0 == 2 && 2u64 | 4 == 6 && 0u64 | 8 == 8 && 2u64 | 8 == 10 && 4u64 | 8 == 12 && 6u64 | 8 == 14 && 4u64 | 0 == 4 && 6u64 | 0 == 6) by (bit_vector);
}
pub open spec fn any_kw(s: Seq<int>, l: Seq<Seq<int>>) -> bool { exists|j: int| 0 <= j < l.len() && finds(s, #[trigger] l[j]) }
pub proof fn kw_lists(s: Seq<int>)
    ensures any_kw(s, seq![@"%%return%%", @"%%type%%", @"%%func_symbol%%", @"%%func_symbol_pad%%", @"%%args%%", @"%%param_names%%"]) == fn_kw(s),
        any_kw(s, seq![@"%%obj_type%%", @"%%obj_symbol%%", @"%%obj_symbol_pad%%"]) == obj_kw(s), any_kw(s, seq![@"%%sym_type%%", @"%%symbol%%"]) == sym_kw(s)
{
    hide(str_find);
    let f = seq![@"%%return%%", @"%%type%%", @"%%func_symbol%%", @"%%func_symbol_pad%%", @"%%args%%", @"%%param_names%%"];
    let o = seq![@"%%obj_type%%", @"%%obj_symbol%%", @"%%obj_symbol_pad%%"]; let y = seq![@"%%sym_type%%", @"%%symbol%%"];
    assert(f[0] == @"%%return%%" && f[1] == @"%%type%%" && f[2] == @"%%func_symbol%%" && f[3] == @"%%func_symbol_pad%%" && f[4] == @"%%args%%" && f[5] == @"%%param_names%%");
    assert(o[0] == @"%%obj_type%%" && o[1] == @"%%obj_symbol%%" && o[2] == @"%%obj_symbol_pad%%" && y[0] == @"%%sym_type%%" && y[1] == @"%%symbol%%");
}
pub proof fn lf_dirn(g: Gdo, n: int) ensures lf(dir_at(g, n)) == (if g.m_line_directive { 1int } else { 0int }) {
    lf_word1(); lf_dec(n); lf_one(10); lf_none(Seq::empty());
    count_concat(@"#line ", dec(n), 10int); count_concat(@"#line " + dec(n), s1(10), 10int);
}

// substitute: a template is a list of lines that ends with a line count of 0
#[verifier::opaque]
pub open spec fn wf(s: Seq<Template>) -> bool { s.len() > 0 && s.last().line_count == 0 && s.last().data.len() == 0 && forall|i: int| 0 <= i < s.len() - 1 ==> (#[trigger] s[i]).line_count > 0 }
pub open spec fn all_wf(v: Seq<Seq<Template>>) -> bool { forall|i: int| 0 <= i < v.len() ==> wf(#[trigger] v[i]) }
pub open spec fn body_of(g: Gdo, s: Seq<Template>) -> Seq<Template> { if !g.m_line_directive && take(c_str(s[0].data), 5) == @"#line" { s.skip(1) } else { s } }
pub open spec fn lines_of(s: Seq<Template>, n: int) -> int decreases n { if n <= 0 { 0 } else { lines_of(s, n - 1) + s[n - 1].line_count } }
pub open spec fn at_no(g: Gdo, n: int) -> Gdo { Gdo { m_substitute_lineno: n, ..g } }
pub open spec fn at_line(g: Gdo, s: Seq<Template>, n: int) -> Gdo { at_no(g, lines_of(s, n)) }
pub open spec fn l_skip(g: Gdo, s: Seq<Template>, n: int, k: bool) -> bool decreases n { if n <= 0 { k } else { sub_skip(at_line(g, s, n - 1), s[n - 1], l_skip(g, s, n - 1, k)) } }
pub open spec fn l_text(g: Gdo, s: Seq<Template>, n: int, k: bool) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { l_text(g, s, n - 1, k) + sub_text(at_line(g, s, n - 1), s[n - 1], l_skip(g, s, n - 1, k)) } }
pub open spec fn l_ok(g: Gdo, s: Seq<Template>, n: int, k: bool) -> bool decreases n { n <= 0 || l_ok(g, s, n - 1, k) && !mixed(at_line(g, s, n - 1), s[n - 1], l_skip(g, s, n - 1, k)) }
pub open spec fn v_skip(g: Gdo, v: Seq<Seq<Template>>, n: int) -> bool decreases n { if n <= 0 { false } else { let s = body_of(g, v[n - 1]); l_skip(g, s, s.len() - 1, v_skip(g, v, n - 1)) } }
pub open spec fn v_text(g: Gdo, v: Seq<Seq<Template>>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { let s = body_of(g, v[n - 1]); v_text(g, v, n - 1) + l_text(g, s, s.len() - 1, v_skip(g, v, n - 1)) } }
pub open spec fn v_ok(g: Gdo, v: Seq<Seq<Template>>, n: int) -> bool decreases n { n <= 0 || { let s = body_of(g, v[n - 1]); v_ok(g, v, n - 1) && l_ok(g, s, s.len() - 1, v_skip(g, v, n - 1)) } }
pub proof fn l_next(g: Gdo, s: Seq<Template>, n: int, k: bool)
    ensures n >= 0 ==> l_skip(g, s, n + 1, k) == sub_skip(at_line(g, s, n), s[n], l_skip(g, s, n, k)) && l_text(g, s, n + 1, k) == l_text(g, s, n, k) + sub_text(at_line(g, s, n), s[n], l_skip(g, s, n, k))
            && l_ok(g, s, n + 1, k) == (l_ok(g, s, n, k) && !mixed(at_line(g, s, n), s[n], l_skip(g, s, n, k))) && lines_of(s, n + 1) == lines_of(s, n) + s[n].line_count,
        l_skip(g, s, 0, k) == k, l_text(g, s, 0, k) == Seq::<int>::empty(), l_ok(g, s, 0, k), lines_of(s, 0) == 0 {}
pub proof fn v_next(g: Gdo, v: Seq<Seq<Template>>, n: int)
    ensures n >= 0 ==> ({ let s = body_of(g, v[n]); v_skip(g, v, n + 1) == l_skip(g, s, s.len() - 1, v_skip(g, v, n)) && v_text(g, v, n + 1) == v_text(g, v, n) + l_text(g, s, s.len() - 1, v_skip(g, v, n))
            && v_ok(g, v, n + 1) == (v_ok(g, v, n) && l_ok(g, s, s.len() - 1, v_skip(g, v, n))) }),
        !v_skip(g, v, 0), v_text(g, v, 0) == Seq::<int>::empty(), v_ok(g, v, 0) {}
pub proof fn l_never(g: Gdo, s: Seq<Template>, m: int, n: int, k: bool) ensures m <= n && !l_ok(g, s, m, k) ==> !l_ok(g, s, n, k) decreases n - m { if m < n && !l_ok(g, s, m, k) { if m >= 0 { l_next(g, s, m, k); } l_never(g, s, m + 1, n, k); } }
pub proof fn v_never(g: Gdo, v: Seq<Seq<Template>>, m: int, n: int) ensures m <= n && !v_ok(g, v, m) ==> !v_ok(g, v, n) decreases n - m { if m < n && !v_ok(g, v, m) { if m >= 0 { v_next(g, v, m); } v_never(g, v, m + 1, n); } }
pub proof fn wf_body(g: Gdo, s: Seq<Template>) requires wf(s) ensures s.len() > 0, wf(body_of(g, s)), body_of(g, s).len() > 0, take(@"#line", 5) == @"#line" {
    reveal(wf); assert(take(@"#line", 5) =~= @"#line");
    if take(c_str(s[0].data), 5) == @"#line" { assert(@"#line".len() == 5); cstr_prefix(s[0].data); assert(s[0].data.len() >= 5); assert(s.len() > 1); assert(s.skip(1).last() == s.last()); }
}
pub proof fn wf_at(s: Seq<Template>, n: int) ensures wf(s) && 0 <= n < s.len() ==> (s[n].line_count == 0) == (n == s.len() - 1) { reveal(wf); }
