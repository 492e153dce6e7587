// parameter_names.cpp: names of parameters
pub open spec fn dots(v: Seq<Seq<int>>) -> bool { v.len() == 1 && v[0] == @"..." }
pub open spec fn args_toks(a: Seq<Seq<Seq<int>>>) -> bool { forall|k: int| 0 <= k < a.len() ==> toks(#[trigger] a[k]) }
pub open spec fn del_sfx(s: Seq<int>, x: Seq<int>) -> Seq<int> { if ends_with(s, x) { s.subrange(0, s.len() - x.len()) } else { s } }
// -param=read: `TYPE name', `TYPE (*name)(..)', `TYPE name[..]' or `...'
pub open spec fn rd_ok(v: Seq<Seq<int>>) -> bool {
    dots(v) || (v.len() >= 2 && !starts_with_c(v[0], 42) && !ends_with_c(v.last(), 42) && (sh_object(v, spec_it(v)) || sh_fptr(v, spec_it(v)) || sh_array(v, spec_it(v))))
}
pub open spec fn rd_name(v: Seq<Seq<int>>) -> Seq<int> {
    if sh_object(v, spec_it(v)) { v.last() } else if sh_fptr(v, spec_it(v)) { v[spec_it(v) + 2] } else { v[spec_it(v) - 1] }
}
pub open spec fn rd_names(a: Seq<Seq<Seq<int>>>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { rd_names(a, n - 1) + (if dots(a[n - 1]) { Seq::empty() } else { rd_name(a[n - 1]) + @", " }) }
}
// -param=create: `TYPE', `TYPE (*)(..)', `TYPE (*name)(..)', `TYPE [..]' or `...'
pub open spec fn cr_ok(v: Seq<Seq<int>>) -> bool {
    v.len() >= 1 && !starts_with_c(v[0], 42) && (dots(v) || spec_it(v) == v.len() || sh_fptr(v, spec_it(v)) || sh_fptr_noname(v, spec_it(v)) || sh_array_noname(v, spec_it(v)))
}
pub open spec fn cr_count(a: Seq<Seq<Seq<int>>>, n: int) -> int decreases n { if n <= 0 { 1 } else { cr_count(a, n - 1) + (if dots(a[n - 1]) { 0int } else { 1int }) } }
pub open spec fn a_name(c: int) -> Seq<int> { @"a" + dec(c) }
pub open spec fn cr_arg(v: Seq<Seq<int>>, c: int) -> Seq<int> {
    let i = spec_it(v); let n = v.len() as int;
    if dots(v) { @"... , " }
    else if i == n { joined(v, 0, n) + a_name(c) + @", " }
    else if sh_fptr(v, i) { joined(v, 0, i + 2) + a_name(c) + @" " + joined(v, i + 3, n) + @", " }
    else if sh_fptr_noname(v, i) { joined(v, 0, i + 2) + a_name(c) + @" " + joined(v, i + 2, n) + @", " }
    else { joined(v, 0, i) + a_name(c) + @" " + joined(v, i, n) + @", " }
}
pub open spec fn cr_args(a: Seq<Seq<Seq<int>>>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { cr_args(a, n - 1) + cr_arg(a[n - 1], cr_count(a, n - 1)) } }
pub open spec fn cr_names(a: Seq<Seq<Seq<int>>>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { cr_names(a, n - 1) + (if dots(a[n - 1]) { Seq::empty() } else { a_name(cr_count(a, n - 1)) + @", " }) }
}
pub open spec fn all_args(a: Seq<Seq<Seq<int>>>, n: int) -> Seq<int> decreases n {
    if n <= 0 { Seq::empty() } else { all_args(a, n - 1) + joined(a[n - 1], 0, a[n - 1].len() as int) + @", " }
}
// no parameters, or a single `void' (saved as it is written)
pub open spec fn is_void(a: Seq<Seq<Seq<int>>>) -> bool { a.len() == 1 && a[0].len() == 1 && lower(c_str(a[0][0])) =~= @"void" }
pub open spec fn rd_all(a: Seq<Seq<Seq<int>>>) -> bool { forall|k: int| 0 <= k < a.len() ==> rd_ok(#[trigger] a[k]) }
pub open spec fn cr_all(a: Seq<Seq<Seq<int>>>) -> bool { forall|k: int| 0 <= k < a.len() ==> cr_ok(#[trigger] a[k]) }
pub open spec fn rd_res(p: Proto) -> Proto { Proto { param_names: del_sfx(p.param_names + rd_names(p.args_vec, p.args_vec.len() as int), @", "), ..p } }
pub open spec fn args_res(p: Proto) -> Proto { Proto { args: strip(del_sfx(p.args + all_args(p.args_vec, p.args_vec.len() as int), @", ")), ..p } }
pub open spec fn no_params(p: Proto) -> bool { p.prototype != K_FUNC() || p.args_vec.len() == 0 || is_void(p.args_vec) }
pub open spec fn void_res(p: Proto) -> Proto { if p.prototype == K_FUNC() && is_void(p.args_vec) { Proto { args: p.args_vec[0][0], ..p } } else { p } }
// names read from (or not looked for in) the declaration
pub open spec fn get_ok(p: Proto, mode: int) -> bool { no_params(p) || mode == K_SKIP() || rd_all(p.args_vec) }
pub open spec fn get_res(p: Proto, mode: int) -> Proto { if no_params(p) { void_res(p) } else if mode == K_SKIP() { args_res(p) } else { rd_res(args_res(p)) } }
// names created
pub open spec fn create_ok(p: Proto) -> bool { no_params(p) || cr_all(p.args_vec) }
pub open spec fn create_res(p: Proto) -> Proto {
    if no_params(p) { void_res(p) } else { let n = p.args_vec.len() as int;
        Proto { args: del_sfx(p.args + cr_args(p.args_vec, n), @", "), param_names: del_sfx(p.param_names + cr_names(p.args_vec, n), @", "), ..p } }
}
pub proof fn spec_it_is(v: Seq<Seq<int>>, i: int) requires is_special(v, i) ensures spec_it(v) == i { special_unique(v, i, spec_it(v)); }
pub proof fn spec_it_all() ensures forall|v: Seq<Seq<int>>, i: int| #[trigger] is_special(v, i) ==> spec_it(v) == i {
    assert forall|v: Seq<Seq<int>>, i: int| #[trigger] is_special(v, i) implies spec_it(v) == i by { spec_it_is(v, i); }
}
pub proof fn spec_it_is_any(v: Seq<Seq<int>>) ensures forall|i: int| #[trigger] is_special(v, i) ==> spec_it(v) == i {
    assert forall|i: int| #[trigger] is_special(v, i) implies spec_it(v) == i by { spec_it_is(v, i); }
}
pub proof fn cr_step(p: Proto, i: int, args: Seq<int>, names: Seq<int>)
    requires 0 <= i < p.args_vec.len(),
        args =~= p.args + cr_args(p.args_vec, i) + cr_arg(p.args_vec[i], cr_count(p.args_vec, i)),
        names =~= p.param_names + cr_names(p.args_vec, i) + (if dots(p.args_vec[i]) { Seq::empty() } else { a_name(cr_count(p.args_vec, i)) + @", " })
    ensures args == p.args + cr_args(p.args_vec, i + 1), names == p.param_names + cr_names(p.args_vec, i + 1)
{
    assert(args =~= p.args + cr_args(p.args_vec, i + 1));
    assert(names =~= p.param_names + cr_names(p.args_vec, i + 1));
}
