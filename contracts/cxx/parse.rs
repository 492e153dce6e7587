// parse.cpp: from tokens to a declaration
pub open spec fn joined(v: Seq<Seq<int>>, a: int, b: int) -> Seq<int> decreases b - a {
    if a >= b { Seq::empty() } else { joined(v, a, b - 1) + v[b - 1] + seq![32int] }
}
// parameters: commas at parenthesis depth 0 separate them
pub open spec fn cp(v: Seq<Seq<int>>, a: int, b: int) -> (int, Seq<Seq<int>>, Seq<Seq<Seq<int>>>) decreases b - a {
    if a >= b { (0, Seq::empty(), Seq::empty()) } else {
        let (s, c, r) = cp(v, a, b - 1);
        let t = front(v[b - 1]);
        if t == 44 && s == 0 { (s, Seq::empty(), r.push(c)) }
        else { (if t == 40 { s + 1 } else if t == 41 { s - 1 } else { s }, c.push(v[b - 1]), r) }
    }
}
pub open spec fn params_of(v: Seq<Seq<int>>, a: int, b: int) -> Seq<Seq<Seq<int>>> {
    let (s, c, r) = cp(v, a, b);
    if c.len() > 0 || r.len() > 0 { r.push(c) } else { r }
}
pub open spec fn decl_ok(v: Seq<Seq<int>>, it: int) -> bool {
    v.len() >= 2 && ident(tok(v, 0)) && (if it == v.len() { sh_object(v, it) }
        else if tok(v, it) == 40 { sh_fptr(v, it) || sh_fparen(v, it) || sh_fparen_ptr(v, it, 1) || sh_fparen_ptr(v, it, 2) || sh_function(v, it) }
        else if tok(v, it) == 91 { sh_array(v, it) } else { false })
}
pub open spec fn d_object(v: Seq<Seq<int>>, p: Proto) -> Proto {
    Proto { prototype: K_OBJ(), type_: p.type_ + joined(v, 0, v.len() - 1), symbol: v.last(), ..p }
}
pub open spec fn d_array(v: Seq<Seq<int>>, it: int, p: Proto) -> Proto {
    Proto { prototype: K_ARR(), type_: p.type_ + joined(v, 0, it - 1) + joined(v, it, v.len() as int), symbol: v[it - 1], ..p }
}
pub open spec fn d_fptr(v: Seq<Seq<int>>, it: int, p: Proto) -> Proto {
    Proto { prototype: K_FPTR(), type_: p.type_ + joined(v, 0, it) + seq![40int, 42int, 41int] + joined(v, it + 4, v.len() as int), symbol: v[it + 2], ..p }
}
pub open spec fn d_fparen(v: Seq<Seq<int>>, it: int, p: Proto) -> Proto {
    Proto { prototype: K_FUNC(), type_: p.type_ + joined(v, 0, it), symbol: v[it + 1], args_vec: p.args_vec + params_of(v, it + 4, v.len() - 1), ..p }
}
pub open spec fn d_fparen_ptr(v: Seq<Seq<int>>, it: int, n: int, p: Proto) -> Proto {
    Proto { prototype: K_FUNC(), type_: p.type_ + joined(v, 0, it) + joined(v, it + 1, it + 1 + n), symbol: v[it + 1 + n], args_vec: p.args_vec + params_of(v, it + n + 3, v.len() - 2), ..p }
}
pub open spec fn d_func(v: Seq<Seq<int>>, it: int, p: Proto) -> Proto {
    Proto { prototype: K_FUNC(), type_: p.type_ + joined(v, 0, it - 1), symbol: v[it - 1], args_vec: p.args_vec + params_of(v, it + 1, v.len() - 1), ..p }
}
// what the declaration v means; its first token that is neither `*' nor an identifier is number it
pub open spec fn decl(v: Seq<Seq<int>>, it: int, p: Proto) -> Proto {
    if it == v.len() { d_object(v, p) }
    else if tok(v, it) == 91 { d_array(v, it, p) }
    else if sh_fptr(v, it) { d_fptr(v, it, p) }
    else if sh_fparen(v, it) { d_fparen(v, it, p) }
    else if sh_fparen_ptr(v, it, 1) { d_fparen_ptr(v, it, 1, p) }
    else if sh_fparen_ptr(v, it, 2) { d_fparen_ptr(v, it, 2, p) }
    else { d_func(v, it, p) }
}
pub open spec fn fresh_proto(p: Proto) -> bool { p == (Proto { prototype: K_FUNC(), saved: false, ..proto_default() }) }
pub open spec fn spec_it(v: Seq<Seq<int>>) -> int { choose|it: int| is_special(v, it) }
pub open spec fn p0() -> Proto { Proto { prototype: K_FUNC(), saved: false, ..proto_default() } }
// the declarations, in order
pub open spec fn decls(vt: Seq<Seq<Seq<int>>>) -> Seq<Proto> { Seq::new(vt.len(), |i: int| decl(vt[i], spec_it(vt[i]), p0())) }
pub open spec fn has_dup(vp: Seq<Proto>) -> bool { exists|i: int, j: int| 0 <= j < i < vp.len() && (#[trigger] vp[i]).symbol == (#[trigger] vp[j]).symbol }

pub proof fn special_unique(v: Seq<Seq<int>>, a: int, b: int)
    requires is_special(v, a), is_special(v, b) ensures a == b
{ if a < b { assert(plain(front(v[a]))); } if b < a { assert(plain(front(v[b]))); } }
pub proof fn special_from(v: Seq<Seq<int>>, k: int)
    requires 0 <= k <= v.len(), forall|j: int| 0 <= j < k ==> plain(front(#[trigger] v[j])) ensures exists|i: int| is_special(v, i) decreases v.len() - k
{ if k < v.len() && plain(front(v[k])) { special_from(v, k + 1); } else { assert(is_special(v, k)); } }
pub proof fn special(v: Seq<Seq<int>>) ensures is_special(v, spec_it(v)) { special_from(v, 0); }
