// clang_ast.cpp
pub struct Lex { pub toks: Seq<(int, Seq<int>)>, pub pos: int }
pub open spec fn lx_kind(t: Seq<(int, Seq<int>)>, i: int) -> int { if 0 <= i < t.len() { t[i].0 } else { 0 } }
pub open spec fn lx_line(t: Seq<(int, Seq<int>)>, i: int) -> Seq<int> { if 0 <= i < t.len() { t[i].1 } else { Seq::empty() } }
// the text of the token read last (yytext)
pub open spec fn lx_text(l: Lex) -> Seq<int> { lx_line(l.toks, l.pos - 1) }
// std::regex: the text without colour escapes; whether a line is a declaration, its symbol and type
pub uninterp spec fn no_ansi(s: Seq<int>) -> Seq<int>;
pub uninterp spec fn re_func(s: Seq<int>) -> bool;
pub uninterp spec fn re_func_sym(s: Seq<int>) -> Seq<int>;
pub uninterp spec fn re_func_type(s: Seq<int>) -> Seq<int>;
pub uninterp spec fn re_var(s: Seq<int>) -> bool;
pub uninterp spec fn re_var_sym(s: Seq<int>) -> Seq<int>;
pub uninterp spec fn re_var_type(s: Seq<int>) -> Seq<int>;
pub uninterp spec fn re_parm(s: Seq<int>) -> bool;
pub uninterp spec fn re_parm_type(s: Seq<int>) -> Seq<int>;
pub open spec fn ast_line(t: Seq<int>) -> Seq<int> { let s = if ends_with_c(t, 13) { t.drop_last() } else { t }; if s.len() == 0 { s } else { no_ansi(s) } }
pub open spec fn ast_parm(t: Seq<(int, Seq<int>)>, i: int) -> bool { let s = ast_line(lx_line(t, i)); s.len() > 0 && re_parm(s) }
pub open spec fn depth(s: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { depth(s, n - 1) + (if s[n - 1] == 40 { 1int } else if s[n - 1] == 41 { -1int } else { 0int }) } }
pub open spec fn variadic(s: Seq<int>) -> bool { exists|k: int| 0 <= k < s.len() && s[k] == 46 && #[trigger] depth(s, k) == 1 }
pub open spec fn a_nm(n: int) -> Seq<int> { s1(97) + dec(n) }
pub open spec fn parm_decl(a: Seq<int>, t: Seq<int>, n: Seq<int>) -> Seq<int> {
    let p = str_find(t, @"(*)", 0);
    if p != npos() { a + t.subrange(0, p + 2) + n + t.skip(p + 2) + @", " }
    else if ends_with_c(a + t, 42) { a + t + n + @", " } else { a + t + s1(32) + n + @", " }
}

pub open spec fn is_parm(t: Seq<(int, Seq<int>)>, i: int) -> bool { lx_kind(t, i) == A_PARMVAR() && ast_parm(t, i) }
pub open spec fn ptype(t: Seq<(int, Seq<int>)>, i: int) -> Seq<int> { re_parm_type(ast_line(lx_line(t, i))) }
// the first line from i on that is no parameter
pub open spec fn parm_end(t: Seq<(int, Seq<int>)>, i: int) -> int decreases t.len() - i { if is_parm(t, i) && i < t.len() { parm_end(t, i + 1) } else { i } }
// n parameters, declared by the lines from i on
pub open spec fn parm_decls(t: Seq<(int, Seq<int>)>, i: int, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { parm_decl(parm_decls(t, i, n - 1), ptype(t, i + n - 1), a_nm(n)) } }
pub open spec fn parm_names(n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { parm_names(n - 1) + a_nm(n) + @", " } }
#[verifier::opaque]
pub open spec fn cut(s: Seq<int>) -> Seq<int> { if ends_with(s, @", ") { s.subrange(0, s.len() - 2) } else { s } }
// the declaration in line i
pub open spec fn ast_f(t: Seq<(int, Seq<int>)>, i: int) -> bool { s_at(ast_line(lx_line(t, i)), 2) == 70 }
pub open spec fn is_decl(t: Seq<(int, Seq<int>)>, i: int) -> bool { let s = ast_line(lx_line(t, i)); s.len() > 0 && (if ast_f(t, i) { re_func(s) } else { re_var(s) }) }
pub open spec fn ast_sym(t: Seq<(int, Seq<int>)>, i: int) -> Seq<int> { let s = ast_line(lx_line(t, i)); if ast_f(t, i) { re_func_sym(s) } else { re_var_sym(s) } }
pub open spec fn ast_type(t: Seq<(int, Seq<int>)>, i: int) -> Seq<int> { let s = ast_line(lx_line(t, i)); if ast_f(t, i) { re_func_type(s) } else { re_var_type(s) } }
pub open spec fn chosen(g: Gdo, mode: int, s: Seq<int>) -> bool {
    if mode == F_PFX() { prefixed(s, g.m_prefix_list) } else if mode == F_LIST() { count_of(g.m_symbol_list, s) != 0 }
    else if mode == F_BOTH() { count_of(g.m_symbol_list, s) != 0 || prefixed(s, g.m_prefix_list) } else { true }
}
// a symbol that was found is taken off the list
#[verifier::opaque]
pub open spec fn filt(g: Gdo, mode: int, s: Seq<int>) -> Gdo { if mode == F_LIST() || mode == F_BOTH() { Gdo { m_symbol_list: erase_all(g.m_symbol_list, s), ..g } } else { g } }
pub open spec fn no_proto() -> Proto { Proto { prototype: P_FUN(), saved: false, type_: Seq::empty(), symbol: Seq::empty(), args: Seq::empty(), args_vec: Seq::empty(), param_names: Seq::empty() } }
pub open spec fn ast_fun(t: Seq<(int, Seq<int>)>, i: int) -> Proto {
    let ty = ast_type(t, i);
    Proto { symbol: ast_sym(t, i), type_: strip(ty.subrange(0, str_find(ty, s1(40), 0))), ..no_proto() }
}
pub open spec fn ast_function(t: Seq<(int, Seq<int>)>, i: int) -> Proto {
    let n = parm_end(t, i + 1) - i - 1;
    let a = parm_decls(t, i + 1, n);
    Proto { args: cut(if variadic(ast_type(t, i)) && a.len() > 0 { a + @"..., " } else { a }), param_names: cut(parm_names(n)), ..ast_fun(t, i) }
}
pub open spec fn ast_object(t: Seq<(int, Seq<int>)>, i: int) -> Proto {
    let ty = ast_type(t, i);
    Proto { symbol: ast_sym(t, i), type_: strip(ty), prototype: if str_find(ty, @"(*)", 0) != npos() { P_FPTR() } else if str_find(ty, s1(91), 0) != npos() { P_ARR() } else { P_OBJ() }, ..no_proto() }
}
pub open spec fn ast_is_fun(g: Gdo, mode: int, t: Seq<(int, Seq<int>)>, i: int) -> bool { is_decl(t, i) && chosen(g, mode, ast_sym(t, i)) && ast_f(t, i) && str_find(ast_type(t, i), s1(40), 0) != npos() }
pub open spec fn ast_decl(g: Gdo, mode: int, t: Seq<(int, Seq<int>)>, i: int) -> Gdo {
    if !is_decl(t, i) || !chosen(g, mode, ast_sym(t, i)) { g }
    else {
        let h = filt(g, mode, ast_sym(t, i));
        if !ast_f(t, i) { Gdo { m_objects: h.m_objects.push(ast_object(t, i)), ..h } }
        else if str_find(ast_type(t, i), s1(40), 0) == npos() { h }
        else { Gdo { m_prototypes: h.m_prototypes.push(ast_function(t, i)), ..h } }
    }
}
pub proof fn erase_none(l: Seq<Seq<int>>, x: Seq<int>) ensures count_of(l, x) == 0 ==> erase_all(l, x) =~= l decreases l.len() {
    reveal(Seq::filter);
    if l.len() > 0 { erase_none(l.drop_last(), x); count_nonneg(l.drop_last(), x); assert(l =~= l.drop_last().push(l.last())); }
}
// what is read of a dump, what an error is
pub open spec fn ast_mode(g: Gdo) -> int {
    if g.m_ast_all_symbols { F_NONE() } else if g.m_prefix_list.len() > 0 && g.m_symbol_list.len() > 0 { F_BOTH() } else if g.m_prefix_list.len() > 0 { F_PFX() } else if g.m_symbol_list.len() > 0 { F_LIST() } else { F_NONE() }
}
pub open spec fn ast_run(g: Gdo, mode: int, t: Seq<(int, Seq<int>)>, i: int, n: int) -> Gdo decreases n - i {
    if i >= n { g } else { let h = ast_run(g, mode, t, i, n - 1); if lx_kind(t, n - 1) == A_FUNCVAR() { ast_decl(h, mode, t, n - 1) } else { h } }
}
// the lexer: only these two kinds of lines; only the first are declarations
pub open spec fn ast_tokens(t: Seq<(int, Seq<int>)>, a: int) -> bool {
    forall|i: int| a <= i < t.len() ==> ((#[trigger] t[i]).0 == A_FUNCVAR() || t[i].0 == A_PARMVAR() && !is_decl(t, i))
}
pub open spec fn ast_good(g: Gdo, h: Gdo) -> bool {
    (g.m_ast_all_symbols || ast_mode(g) != F_NONE()) && (ast_mode(g) == F_LIST() || ast_mode(g) == F_BOTH() ==> h.m_symbol_list.len() == 0)
    && h.m_prototypes.len() + h.m_objects.len() > 0
}
pub proof fn parm_end_is(t: Seq<(int, Seq<int>)>, i: int, j: int)
    requires 0 <= i <= j, forall|k: int| i <= k < j ==> #[trigger] is_parm(t, k), !is_parm(t, j) ensures parm_end(t, i) == j decreases j - i
{ if i < j { assert(is_parm(t, i)); parm_end_is(t, i + 1, j); } }
pub open spec fn list_bits(m: int, r: bool) -> bool { (bit_and(m, 4) != 0) == r }
pub proof fn ast_bits() ensures list_bits(0, false), list_bits(2, false), list_bits(4, true), list_bits(6, true) {
    assert(0u64 & 4u64 == 0) by (bit_vector); assert(2u64 & 4u64 == 0) by (bit_vector); assert(4u64 & 4u64 == 4) by (bit_vector); assert(6u64 & 4u64 == 4) by (bit_vector);
}
pub proof fn parm_end_spec(t: Seq<(int, Seq<int>)>, i: int)
    requires 0 <= i <= t.len() ensures i <= parm_end(t, i) <= t.len(), forall|k: int| i <= k < parm_end(t, i) ==> #[trigger] is_parm(t, k) decreases t.len() - i
{ if i < t.len() && is_parm(t, i) { parm_end_spec(t, i + 1); } }
pub proof fn run_skip(g: Gdo, mode: int, t: Seq<(int, Seq<int>)>, i: int, a: int, b: int)
    requires i <= a <= b, forall|k: int| a <= k < b ==> #[trigger] is_parm(t, k), A_PARMVAR() != A_FUNCVAR() ensures ast_run(g, mode, t, i, b) == ast_run(g, mode, t, i, a) decreases b - a
{ if a < b { assert(is_parm(t, b - 1)); run_skip(g, mode, t, i, a, b - 1); } }
// one call of get_declarations for line c
pub proof fn run_step(g: Gdo, h: Gdo, mode: int, t: Seq<(int, Seq<int>)>, i: int, c: int)
    requires 0 <= i <= c <= t.len(), ast_tokens(t, i), h == ast_run(g, mode, t, i, c)
    ensures c < t.len() ==> ast_decl(h, mode, t, c) == ast_run(g, mode, t, i, c + 1), c == t.len() ==> ast_decl(h, mode, t, c) == h && !ast_is_fun(h, mode, t, c),
        ast_is_fun(h, mode, t, c) ==> c < t.len() && c < parm_end(t, c + 1) <= t.len() && ast_decl(h, mode, t, c) == ast_run(g, mode, t, i, parm_end(t, c + 1))
{
    if c < t.len() { assert(t[c].0 == A_FUNCVAR() || t[c].0 == A_PARMVAR() && !is_decl(t, c)); parm_end_spec(t, c + 1); run_skip(g, mode, t, i, c + 1, parm_end(t, c + 1)); }
}
pub proof fn run_done(g: Gdo, t: Seq<(int, Seq<int>)>, i: int, a: int, b: int)
    requires i <= a <= b, ast_run(g, F_LIST(), t, i, a).m_symbol_list.len() == 0 ensures ast_run(g, F_LIST(), t, i, b) == ast_run(g, F_LIST(), t, i, a) decreases b - a
{ if a < b { run_done(g, t, i, a, b - 1); } }
