// check_pattern.cpp: the shapes of declarations, as sequences of tokens
pub open spec fn tok(v: Seq<Seq<int>>, i: int) -> int { front(v[i]) }
pub open spec fn tmatch(e: int, p: int) -> bool { e == p || (p == 2 && ident(e)) }
pub open spec fn end_match(v: Seq<Seq<int>>, e: Seq<int>) -> bool {
    if e.len() == 1 { tmatch(front(v[v.len() - 1]), e[0]) } else { tmatch(front(v[v.len() - 1]), e[1]) && tmatch(front(v[v.len() - 2]), e[0]) }
}
pub open spec fn mid_match(v: Seq<Seq<int>>, it: int, m: Seq<int>) -> bool { forall|k: int| 0 <= k < m.len() ==> tmatch(front(v[it + k]), #[trigger] m[k]) }
pub open spec fn pat_match(v: Seq<Seq<int>>, it: int, sq: SeqPat) -> bool {
    v.len() >= sq.min_size && (it == v.len() || (it >= sq.dist_front && v.len() - it >= sq.dist_end))
    && (s_at(sq.front, 1) == 2 ==> ident(front(v[it - 1])))
    && end_match(v, sq.end) && mid_match(v, it, sq.middle)
}
// a declaration whose token `it' is the first that is neither `*' nor an identifier
pub open spec fn sh_object(v: Seq<Seq<int>>, it: int) -> bool { v.len() >= 2 && (it == v.len() || it >= 1) && ident(tok(v, v.len() - 1)) }
pub open spec fn sh_function(v: Seq<Seq<int>>, it: int) -> bool {
    v.len() >= 4 && 2 <= it <= v.len() - 2 && ident(tok(v, it - 1)) && tok(v, it) == 40 && tok(v, v.len() - 1) == 41
}
pub open spec fn sh_fptr(v: Seq<Seq<int>>, it: int) -> bool {
    v.len() >= 7 && 1 <= it <= v.len() - 6 && tok(v, it) == 40 && tok(v, it + 1) == 42 && ident(tok(v, it + 2)) && tok(v, it + 3) == 41 && tok(v, it + 4) == 40 && tok(v, v.len() - 1) == 41
}
pub open spec fn sh_fptr_noname(v: Seq<Seq<int>>, it: int) -> bool {
    v.len() >= 6 && 1 <= it <= v.len() - 5 && tok(v, it) == 40 && tok(v, it + 1) == 42 && tok(v, it + 2) == 41 && tok(v, it + 3) == 40 && tok(v, v.len() - 1) == 41
}
pub open spec fn sh_fparen(v: Seq<Seq<int>>, it: int) -> bool {
    v.len() >= 6 && 1 <= it <= v.len() - 5 && tok(v, it) == 40 && ident(tok(v, it + 1)) && tok(v, it + 2) == 41 && tok(v, it + 3) == 40 && tok(v, v.len() - 1) == 41
}
pub open spec fn sh_fparen_ptr(v: Seq<Seq<int>>, it: int, n: int) -> bool {
    v.len() >= 6 + n && 1 <= it <= v.len() - 5 - n && tok(v, it) == 40 && tok(v, it + 1) == 42 && (n == 2 ==> tok(v, it + 2) == 42) && ident(tok(v, it + 1 + n)) && tok(v, it + 2 + n) == 40
    && tok(v, v.len() - 1) == 41 && tok(v, v.len() - 2) == 41
}
pub open spec fn sh_array(v: Seq<Seq<int>>, it: int) -> bool {
    v.len() >= 4 && 2 <= it <= v.len() - 2 && ident(tok(v, it - 1)) && tok(v, it) == 91 && tok(v, v.len() - 1) == 93
}
pub open spec fn sh_array_noname(v: Seq<Seq<int>>, it: int) -> bool {
    v.len() >= 3 && 1 <= it <= v.len() - 2 && tok(v, it) == 91 && tok(v, v.len() - 1) == 93
}
// the first token that is neither `*' nor an identifier
pub open spec fn plain(c: int) -> bool { c == 42 || ident(c) }
pub open spec fn is_special(v: Seq<Seq<int>>, it: int) -> bool {
    0 <= it <= v.len() && (it < v.len() ==> !plain(tok(v, it))) && forall|k: int| 0 <= k < it ==> plain(front(#[trigger] v[k]))
}
// tokens begin with a printable character (the lexer makes no others)
pub open spec fn toks(v: Seq<Seq<int>>) -> bool { forall|k: int| 0 <= k < v.len() ==> front(#[trigger] v[k]) > 2 && ((front(v[k]) == 40 || front(v[k]) == 41 || front(v[k]) == 42) ==> v[k].len() == 1) }
