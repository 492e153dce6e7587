// tokenize.cpp: from the tokens of the lexer to statements and options
// the tokens of a text (the lexer is trusted)
pub uninterp spec fn lexed(text: Seq<int>) -> Seq<(int, Seq<int>)>;
pub open spec fn tk_word(k: int) -> bool { k == X_ID() || k == X_OTHER() }
pub open spec fn tk_kw(k: int) -> bool { k == X_STRUCT() || k == X_UNION() || k == X_ENUM() || k == X_TYPEDEF() }
pub open spec fn tk_brace(k: int) -> bool { k == X_OPEN() || k == X_CLOSE() || k == X_EQ() }
// statements so far, options so far, the tokens of the current statement, within a block (of which depth), ended with which result
pub struct Tz { pub vec: Seq<Seq<Seq<int>>>, pub opts: Seq<Seq<int>>, pub cur: Seq<Seq<int>>, pub block: bool, pub curly: int, pub stop: bool, pub rv: int }
pub open spec fn tz0() -> Tz { Tz { vec: Seq::empty(), opts: Seq::empty(), cur: Seq::empty(), block: false, curly: 0, stop: false, rv: X_ERROR() } }
// one token
pub open spec fn tz_step(s0: Tz, k: int, x: Seq<int>) -> Tz {
    let s = Tz { rv: k, ..s0 };
    if k == X_OPTION() { Tz { opts: s.opts.push(x), ..s } }
    else if s.block {
        if tk_word(k) || tk_kw(k) || k == X_EQ() { s }
        else if k == X_OPEN() { Tz { curly: s.curly + 1, ..s } }
        else if k == X_CLOSE() { Tz { curly: s.curly - 1, ..s } }
        else if k == X_SEMI() { if s.curly < 1 { Tz { block: false, cur: Seq::empty(), ..s } } else { s } }
        else { Tz { stop: true, ..s } }
    }
    else if tk_word(k) { Tz { cur: s.cur.push(x), ..s } }
    else if tk_kw(k) { if s.cur.len() == 0 { Tz { block: true, curly: 0, ..s } } else { Tz { cur: s.cur.push(x), ..s } } }
    else if k == X_SEMI() { if s.cur.len() == 0 { s } else { Tz { vec: s.vec.push(s.cur), cur: Seq::empty(), ..s } } }
    else if tk_brace(k) { Tz { stop: true, rv: X_ERROR(), ..s } }
    else { Tz { stop: true, ..s } }
}
// all tokens from the i-th on: the result and the number of tokens read
pub open spec fn tz_all(s: Tz, t: Seq<(int, Seq<int>)>, i: int) -> (Tz, int) decreases t.len() + 1 - i {
    let n = tz_step(s, lx_kind(t, i), lx_line(t, i));
    if n.stop || i < 0 || i >= t.len() { (n, i + 1) } else { tz_all(n, t, i + 1) }
}
pub open spec fn tz_vec(s: Tz) -> Seq<Seq<Seq<int>>> { if s.cur.len() > 0 { s.vec.push(s.cur) } else { s.vec } }
// what the lexer makes: tokens are printable, texts are C strings; after the first line of an AST dump there are only its declarations
pub open spec fn tok_ok(x: Seq<int>) -> bool { front(x) > 2 && ((front(x) == 40 || front(x) == 41 || front(x) == 42) ==> x.len() == 1) }
pub open spec fn lex_ok(t: Seq<(int, Seq<int>)>) -> bool {
    forall|i: int| 0 <= i < t.len() ==> (tk_word((#[trigger] t[i]).0) || tk_kw(t[i].0) ==> tok_ok(t[i].1)) && (t[i].0 == X_OPTION() ==> chars(t[i].1) && no_nul(t[i].1)) && (t[i].0 == X_AST() ==> ast_tokens(t, i + 1))
}
pub open spec fn tz_ok(s: Tz) -> bool { toks(s.cur) && texts(s.opts) && all_toks(s.vec) }
pub proof fn tz_all_ok(s: Tz, t: Seq<(int, Seq<int>)>, i: int)
    requires tz_ok(s), lex_ok(t), 0 <= i <= t.len() ensures tz_ok(tz_all(s, t, i).0), i < tz_all(s, t, i).1 <= t.len() + 1, all_toks(tz_vec(tz_all(s, t, i).0)),
       tz_all(s, t, i).0.rv == X_AST() ==> tz_all(s, t, i).1 <= t.len() && ast_tokens(t, tz_all(s, t, i).1) decreases t.len() + 1 - i
{
    let n = tz_step(s, lx_kind(t, i), lx_line(t, i));
    if i < t.len() { assert(t[i] == t[i]); }
    assert(tz_ok(n));
    if !(n.stop || i >= t.len()) { tz_all_ok(n, t, i + 1); }
}
// the statements without redundant parentheses
pub open spec fn stripped(v: Seq<Seq<Seq<int>>>) -> Seq<Seq<Seq<int>>> { Seq::new(v.len(), |i: int| strs(reduced(ents(v[i]), 0))) }
pub proof fn reduced_toks(e: Seq<Entry>, i: int)
    requires toks(strs(e)) ensures toks(strs(reduced(e, i))) decreases e.len(), e.len() - i
{
    if i < 0 || i >= e.len() { } else if redundant(e, i) {
        closing_range(e, e[i].num, i + 2);
        let w = without_pair(e, i);
        assert forall|k: int| 0 <= k < strs(w).len() implies tok_ok(#[trigger] strs(w)[k]) by {
            let c = closing(e, e[i].num, i + 2);
            let m = e.remove(c);
            let a = if k < i { k } else { k + 1 };
            let b = if a < c { a } else { a + 1 };
            assert(w[k] == m[a] && m[a] == e[b]); assert(strs(e)[b] == e[b].str_);
        }
        if w.len() < e.len() { reduced_toks(w, i); }
    } else { reduced_toks(e, i + 1); }
}
pub proof fn stripped_toks(v: Seq<Seq<Seq<int>>>) requires all_toks(v) ensures all_toks(stripped(v)) {
    assert forall|i: int| 0 <= i < v.len() implies toks(#[trigger] stripped(v)[i]) by { assert(toks(v[i])); assert(strs(ents(v[i])) =~= v[i]); reduced_toks(ents(v[i]), 0); }
}
// the whole of gendlopen::tokenize: the text x of the input
pub open spec fn tk_res(x: Seq<int>) -> Tz { tz_all(tz0(), lexed(x), 0).0 }
pub open spec fn tk_opts(g: Gdo, s: Tz) -> Option<Gdo> { if g.m_read_options { opt_steps(g, s.opts, s.opts.len() as int) } else { Some(g) } }
pub open spec fn with_tds(g: Gdo) -> Gdo { Gdo { m_typedefs: g.m_typedefs + tds(g.m_pfx_lower, g.m_objects, g.m_objects.len() as int), m_objects: Seq::new(g.m_objects.len(), |i: int| td_obj(g.m_pfx_lower, g.m_objects[i])), ..g } }
pub open spec fn tds_bad(g: Gdo) -> bool { exists|i: int| 0 <= i < g.m_objects.len() && td_bad(g.m_pfx_lower, #[trigger] g.m_objects[i]) }
pub open spec fn fmt_p(p: Proto) -> Proto { Proto { type_: fmt(p.type_), args: fmt(p.args), ..p } }
pub open spec fn fmt_ps(v: Seq<Proto>) -> Seq<Proto> { Seq::new(v.len(), |i: int| fmt_p(v[i])) }
pub open spec fn fmt_all(g: Gdo) -> Gdo { Gdo { m_prototypes: fmt_ps(g.m_prototypes), m_objects: fmt_ps(g.m_objects), m_typedefs: Seq::new(g.m_typedefs.len(), |i: int| fmt(g.m_typedefs[i])), ..g } }
pub open spec fn with_sel(g: Gdo, v: Seq<Seq<Seq<int>>>, l: Seq<Seq<int>>) -> Gdo {
    let n = named(decls(v), g.m_parameter_names);
    Gdo { m_prototypes: selected(n, true, g.m_prefix_list, g.m_symbol_list), m_objects: selected(n, false, g.m_prefix_list, g.m_symbol_list), m_symbol_list: l, ..g }
}
pub open spec fn src_ok(g: Gdo, x: Seq<int>) -> bool {
    match tk_opts(g, tk_res(x)) { None => false, Some(h) => input_ok(stripped(tz_vec(tk_res(x))), h.m_parameter_names, h.m_prefix_list, h.m_symbol_list) && !tds_bad(with_sel(h, stripped(tz_vec(tk_res(x))), Seq::empty())) }
}
// declarations in C; l is what is left of the list of symbols
pub open spec fn src_res(g: Gdo, x: Seq<int>, l: Seq<Seq<int>>) -> Gdo { fmt_all(with_tds(with_sel(tk_opts(g, tk_res(x))->Some_0, stripped(tz_vec(tk_res(x))), l))) }
// an AST dump
pub open spec fn dump_run(g: Gdo, x: Seq<int>) -> Gdo { ast_run(g, ast_mode(g), lexed(x), tz_all(tz0(), lexed(x), 0).1, lexed(x).len() as int) }
pub open spec fn has_input(g: Gdo) -> bool { g.m_input.len() > 0 && !(g.m_input == @"-" && g.m_custom_template == @"-") && (is_stdin(g.m_input) || opens(g.m_input)) }
pub open spec fn tk_ok(g: Gdo) -> bool {
    let x = file_text(g.m_input);
    has_input(g) && tk_res(x).rv != X_ERROR() && (if tk_res(x).rv == X_AST() { ast_good(g, dump_run(g, x)) && !tds_bad(dump_run(g, x)) } else { src_ok(g, x) })
}
pub proof fn tds_bad_eq(a: Gdo, b: Gdo) requires a.m_objects == b.m_objects, a.m_pfx_lower == b.m_pfx_lower ensures tds_bad(a) == tds_bad(b) { }
pub proof fn opts_keep(g: Gdo, o: Seq<Seq<int>>, n: int)
    ensures opt_steps(g, o, n) is Some ==> opt_steps(g, o, n)->Some_0.m_prototypes == g.m_prototypes && opt_steps(g, o, n)->Some_0.m_objects == g.m_objects decreases n
{ if n > 0 { opts_keep(g, o, n - 1); } }
