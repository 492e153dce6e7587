// parse.cpp: reading the list of declarations, selecting the symbols
#[verifier::opaque]
pub open spec fn names_ok(p: Proto, mode: int) -> bool { if mode == K_CREATE() { create_ok(p) } else { get_ok(p, mode) } }
#[verifier::opaque]
pub open spec fn names_res(p: Proto, mode: int) -> Proto { if mode == K_CREATE() { create_res(p) } else { get_res(p, mode) } }
pub open spec fn named(d: Seq<Proto>, mode: int) -> Seq<Proto> { Seq::new(d.len(), |i: int| names_res(d[i], mode)) }
pub open spec fn all_decl(vt: Seq<Seq<Seq<int>>>) -> bool { forall|i: int| 0 <= i < vt.len() ==> decl_ok(#[trigger] vt[i], spec_it(vt[i])) }
pub open spec fn all_named(d: Seq<Proto>, mode: int) -> bool { forall|i: int| 0 <= i < d.len() ==> names_ok(#[trigger] d[i], mode) }
pub open spec fn all_toks(vt: Seq<Seq<Seq<int>>>) -> bool { forall|i: int| 0 <= i < vt.len() ==> toks(#[trigger] vt[i]) }
pub open spec fn is_f(p: Proto) -> bool { p.prototype == K_FUNC() }
// the functions (f) or the other symbols (!f) among the first n that have a prefix of the list
pub open spec fn sel_all(d: Seq<Proto>, n: int, f: bool) -> Seq<Proto> decreases n {
    if n <= 0 { Seq::empty() } else if is_f(d[n - 1]) == f { sel_all(d, n - 1, f).push(d[n - 1]) } else { sel_all(d, n - 1, f) }
}
pub open spec fn sel_pfx(d: Seq<Proto>, n: int, f: bool, pl: Seq<Seq<int>>) -> Seq<Proto> decreases n {
    if n <= 0 { Seq::empty() } else if is_f(d[n - 1]) == f && prefixed(d[n - 1].symbol, pl) { sel_pfx(d, n - 1, f, pl).push(d[n - 1]) } else { sel_pfx(d, n - 1, f, pl) }
}
pub open spec fn listed(s: Seq<int>, l: Seq<Seq<int>>) -> bool { exists|k: int| 0 <= k < l.len() && #[trigger] l[k] == s }
// listed, but not selected by its prefix
pub open spec fn sel_list(d: Seq<Proto>, n: int, f: bool, pl: Seq<Seq<int>>, l: Seq<Seq<int>>) -> Seq<Proto> decreases n {
    if n <= 0 { Seq::empty() } else if is_f(d[n - 1]) == f && listed(d[n - 1].symbol, l) && !prefixed(d[n - 1].symbol, pl) { sel_list(d, n - 1, f, pl, l).push(d[n - 1]) } else { sel_list(d, n - 1, f, pl, l) }
}
pub open spec fn selected(d: Seq<Proto>, f: bool, pl: Seq<Seq<int>>, l: Seq<Seq<int>>) -> Seq<Proto> {
    let n = d.len() as int;
    if pl.len() == 0 && l.len() == 0 { sel_all(d, n, f) } else { sel_pfx(d, n, f, pl) + sel_list(d, n, f, pl, l) }
}
pub open spec fn unlisted(d: Seq<Proto>, l: Seq<Seq<int>>) -> bool { exists|k: int| 0 <= k < l.len() && !declared(d, d.len() as int, #[trigger] l[k]) }
pub open spec fn declared(d: Seq<Proto>, n: int, s: Seq<int>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] d[i]).symbol == s }
// the input is accepted
pub open spec fn input_ok(vt: Seq<Seq<Seq<int>>>, mode: int, pl: Seq<Seq<int>>, l: Seq<Seq<int>>) -> bool {
    all_decl(vt) && vt.len() > 0 && !has_dup(decls(vt)) && all_named(decls(vt), mode) && !unlisted(named(decls(vt), mode), l)
    && selected(named(decls(vt), mode), true, pl, l).len() + selected(named(decls(vt), mode), false, pl, l).len() > 0
}
// what is left of the list after the first n symbols were looked at
pub open spec fn rest_of(d: Seq<Proto>, n: int, l: Seq<Seq<int>>) -> Seq<Seq<int>> decreases n { if n <= 0 { l } else { erase_all(rest_of(d, n - 1, l), d[n - 1].symbol) } }
pub open spec fn mode_bits(m: int) -> bool { (m == 2 || m == 6) == (bit_and(m, 2) != 0) && (m == 4 || m == 6) == (bit_and(m, 4) != 0) }
pub proof fn bits() ensures mode_bits(0), mode_bits(2), mode_bits(4), mode_bits(6)
{
    assert((0u64 & 2u64) == 0u64 && (0u64 & 4u64) == 0u64 && (2u64 & 2u64) == 2u64 && (2u64 & 4u64) == 0u64 && (4u64 & 2u64) == 0u64 && (4u64 & 4u64) == 4u64
        && (6u64 & 2u64) == 2u64 && (6u64 & 4u64) == 4u64) by (bit_vector);
}
pub proof fn erase_listed(l: Seq<Seq<int>>, x: Seq<int>)
    ensures listed(x, l) == (count_of(l, x) > 0), forall|s: Seq<int>| listed(s, erase_all(l, x)) == (listed(s, l) && s != x)
    decreases l.len()
{
    reveal(Seq::filter);
    if l.len() > 0 {
        let m = l.drop_last();
        erase_listed(m, x);
        count_nonneg(m, x);
        assert(forall|s: Seq<int>| listed(s, l) == (listed(s, m) || s == l.last())) by {
            assert forall|s: Seq<int>| listed(s, l) == (listed(s, m) || s == l.last()) by {
                if listed(s, l) { let k = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == s; if k < m.len() { assert(m[k] == s); } }
                if listed(s, m) { let k = choose|k: int| 0 <= k < m.len() && #[trigger] m[k] == s; assert(l[k] == s); }
                if s == l.last() { assert(l[l.len() - 1] == s); }
            }
        }
        let e = erase_all(m, x);
        if l.last() != x {
            assert(erase_all(l, x) =~= e.push(l.last()));
            assert forall|s: Seq<int>| listed(s, e.push(l.last())) == (listed(s, e) || s == l.last()) by {
                let q = e.push(l.last());
                if listed(s, q) { let k = choose|k: int| 0 <= k < q.len() && #[trigger] q[k] == s; if k < e.len() { assert(e[k] == s); } }
                if listed(s, e) { let k = choose|k: int| 0 <= k < e.len() && #[trigger] e[k] == s; assert(q[k] == s); }
                if s == l.last() { assert(q[q.len() - 1] == s); }
            }
        } else { assert(erase_all(l, x) =~= e); }
    } else { assert(erase_all(l, x) =~= l); }
}
pub proof fn cp_toks(v: Seq<Seq<int>>, a: int, b: int)
    requires toks(v), 0 <= a, b <= v.len() ensures toks(cp(v, a, b).1), args_toks(cp(v, a, b).2) decreases b - a
{ if a < b { cp_toks(v, a, b - 1); } }
pub proof fn params_toks(v: Seq<Seq<int>>, a: int, b: int) requires toks(v), 0 <= a, b <= v.len() ensures args_toks(params_of(v, a, b)) { cp_toks(v, a, b); }
pub proof fn decl_toks(v: Seq<Seq<int>>)
    requires toks(v), decl_ok(v, spec_it(v)) ensures args_toks(decl(v, spec_it(v), p0()).args_vec), decl(v, spec_it(v), p0()).saved == false
{
    let i = spec_it(v);
    special(v);
    if i < v.len() {
        if sh_fparen(v, i) { params_toks(v, i + 4, v.len() - 1); }
        if sh_fparen_ptr(v, i, 1) { params_toks(v, i + 4, v.len() - 2); }
        if sh_fparen_ptr(v, i, 2) { params_toks(v, i + 5, v.len() - 2); }
        if sh_function(v, i) { params_toks(v, i + 1, v.len() - 1); }
        assert forall|x: Seq<Seq<Seq<int>>>| Seq::<Seq<Seq<int>>>::empty() + x =~= x by { }
    }
    assert(p0().args_vec =~= Seq::empty());
    assert(args_toks(Seq::empty()));
}
pub open spec fn shown(p: Proto, s: bool) -> Proto { Proto { saved: s, ..p } }
pub proof fn rest_listed(d: Seq<Proto>, n: int, l: Seq<Seq<int>>)
    requires 0 <= n <= d.len() ensures forall|s: Seq<int>| listed(s, rest_of(d, n, l)) == (listed(s, l) && !declared(d, n, s)) decreases n
{
    if n > 0 {
        rest_listed(d, n - 1, l);
        erase_listed(rest_of(d, n - 1, l), d[n - 1].symbol);
        assert forall|s: Seq<int>| listed(s, rest_of(d, n, l)) == (listed(s, l) && !declared(d, n, s)) by {
            assert(declared(d, n, s) == (declared(d, n - 1, s) || d[n - 1].symbol == s)) by {
                if declared(d, n, s) { let i = choose|i: int| 0 <= i < n && (#[trigger] d[i]).symbol == s; if i < n - 1 { assert(declared(d, n - 1, s)); } }
                if declared(d, n - 1, s) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] d[i]).symbol == s; assert(d[i].symbol == s); }
            }
        }
    }
}
pub proof fn rest_step(d: Seq<Proto>, n: int, l: Seq<Seq<int>>)
    requires 0 <= n < d.len(), !has_dup(d)
    ensures (count_of(rest_of(d, n, l), d[n].symbol) > 0) == listed(d[n].symbol, l), rest_of(d, n + 1, l) == erase_all(rest_of(d, n, l), d[n].symbol)
{
    rest_listed(d, n, l);
    erase_listed(rest_of(d, n, l), d[n].symbol);
    if declared(d, n, d[n].symbol) { let i = choose|i: int| 0 <= i < n && (#[trigger] d[i]).symbol == d[n].symbol; assert(d[n].symbol == d[i].symbol); assert(has_dup(d)); }
}
pub proof fn rest_empty(d: Seq<Proto>, l: Seq<Seq<int>>) ensures (rest_of(d, d.len() as int, l).len() == 0) == !unlisted(d, l)
{
    let n = d.len() as int; let r = rest_of(d, n, l);
    rest_listed(d, n, l);
    if r.len() > 0 { assert(listed(r[0], r)); assert(listed(r[0], l)); let k = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == r[0]; assert(!declared(d, n, l[k])); }
    if unlisted(d, l) { let k = choose|k: int| 0 <= k < l.len() && !declared(d, n, #[trigger] l[k]); assert(listed(l[k], l)); assert(listed(l[k], r)); }
}
pub proof fn none_pfx(d: Seq<Proto>, n: int, f: bool) ensures sel_pfx(d, n, f, Seq::empty()) == Seq::<Proto>::empty() decreases n { if n > 0 { none_pfx(d, n - 1, f); } }
pub proof fn none_list(d: Seq<Proto>, n: int, f: bool, pl: Seq<Seq<int>>) ensures sel_list(d, n, f, pl, Seq::empty()) == Seq::<Proto>::empty() decreases n { if n > 0 { none_list(d, n - 1, f, pl); } }
pub proof fn named_dup(d: Seq<Proto>, mode: int) ensures has_dup(named(d, mode)) == has_dup(d)
{
    let m = named(d, mode);
    reveal(names_res);
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] m[i]).symbol == d[i].symbol by { }
    if has_dup(d) { let (i, j) = choose|i: int, j: int| 0 <= j < i < d.len() && (#[trigger] d[i]).symbol == (#[trigger] d[j]).symbol; assert(m[i].symbol == m[j].symbol); }
    if has_dup(m) { let (i, j) = choose|i: int, j: int| 0 <= j < i < m.len() && (#[trigger] m[i]).symbol == (#[trigger] m[j]).symbol; assert(d[i].symbol == d[j].symbol); }
}
// the selection in terms of the two passes
pub proof fn sel_all_ok(d: Seq<Proto>, f: bool, pl: Seq<Seq<int>>, l: Seq<Seq<int>>)
    ensures pl.len() == 0 ==> sel_pfx(d, d.len() as int, f, pl) == Seq::<Proto>::empty(), l.len() == 0 ==> sel_list(d, d.len() as int, f, pl, l) == Seq::<Proto>::empty(),
        l.len() == 0 ==> !unlisted(d, l), pl.len() == 0 ==> forall|s: Seq<int>| !prefixed(s, pl)
{
    if pl.len() == 0 { assert(pl =~= Seq::empty()); none_pfx(d, d.len() as int, f); }
    if l.len() == 0 { assert(l =~= Seq::empty()); none_list(d, d.len() as int, f, pl); }
}
pub proof fn sel_cases(d: Seq<Proto>, f: bool, pl: Seq<Seq<int>>, l: Seq<Seq<int>>)
    ensures pl.len() == 0 && l.len() == 0 ==> selected(d, f, pl, l) == sel_all(d, d.len() as int, f),
        pl.len() > 0 && l.len() == 0 ==> selected(d, f, pl, l) == sel_pfx(d, d.len() as int, f, pl),
        l.len() > 0 ==> selected(d, f, pl, l) == sel_pfx(d, d.len() as int, f, pl) + sel_list(d, d.len() as int, f, pl, l)
{ sel_all_ok(d, f, pl, l); assert(sel_pfx(d, d.len() as int, f, pl) + Seq::<Proto>::empty() =~= sel_pfx(d, d.len() as int, f, pl)); }
pub proof fn names_is(p: Proto, mode: int)
    ensures mode == K_CREATE() ==> names_ok(p, mode) == create_ok(p) && names_res(p, mode) == create_res(p),
        mode != K_CREATE() ==> names_ok(p, mode) == get_ok(p, mode) && names_res(p, mode) == get_res(p, mode),
        names_res(p, mode).saved == p.saved, names_res(p, mode).symbol == p.symbol, names_res(p, mode).prototype == p.prototype
{ reveal(names_ok); reveal(names_res); }
pub proof fn named_fresh(vt: Seq<Seq<Seq<int>>>, mode: int)
    requires all_toks(vt), all_decl(vt) ensures forall|k: int| 0 <= k < vt.len() ==> !(#[trigger] named(decls(vt), mode)[k]).saved
{
    assert forall|k: int| 0 <= k < vt.len() implies !(#[trigger] named(decls(vt), mode)[k]).saved by {
        assert(toks(vt[k]) && decl_ok(vt[k], spec_it(vt[k])));
        decl_toks(vt[k]); names_is(decls(vt)[k], mode);
    }
}
// progress of the loops of gendlopen::parse
#[verifier::opaque]
pub open spec fn nm(vp: Seq<Proto>, d: Seq<Proto>, mode: int, i: int) -> bool {
    vp.len() == d.len() && (forall|k: int| 0 <= k < i ==> #[trigger] vp[k] == names_res(d[k], mode) && names_ok(d[k], mode)) && (forall|k: int| i <= k < vp.len() ==> #[trigger] vp[k] == d[k])
}
pub proof fn nm_begin(d: Seq<Proto>, mode: int) ensures nm(d, d, mode, 0) { reveal(nm); }
pub proof fn nm_at(vp: Seq<Proto>, vt: Seq<Seq<Seq<int>>>, mode: int, i: int)
    requires nm(vp, decls(vt), mode, i), 0 <= i < vp.len(), all_toks(vt), all_decl(vt)
    ensures args_toks(vp[i].args_vec), mode == K_CREATE() ==> names_ok(decls(vt)[i], mode) == create_ok(vp[i]) && names_res(decls(vt)[i], mode) == create_res(vp[i]),
        mode != K_CREATE() ==> names_ok(decls(vt)[i], mode) == get_ok(vp[i], mode) && names_res(decls(vt)[i], mode) == get_res(vp[i], mode),
        !names_ok(decls(vt)[i], mode) ==> !all_named(decls(vt), mode),
        forall|x: Proto| #![trigger vp.update(i, x)] x == names_res(decls(vt)[i], mode) && names_ok(decls(vt)[i], mode) ==> nm(vp.update(i, x), decls(vt), mode, i + 1)
{ reveal(nm); assert(toks(vt[i]) && decl_ok(vt[i], spec_it(vt[i]))); decl_toks(vt[i]); names_is(decls(vt)[i], mode); }
pub proof fn nm_end(vp: Seq<Proto>, vt: Seq<Seq<Seq<int>>>, mode: int, i: int)
    requires nm(vp, decls(vt), mode, i), i == vp.len(), all_toks(vt), all_decl(vt)
    ensures vp == named(decls(vt), mode), all_named(decls(vt), mode), sv(vp, vp, Seq::empty(), 0, false), named(decls(vt), mode).len() == vt.len()
{
    reveal(nm); reveal(sv);
    assert(vp =~= named(decls(vt), mode));
    named_fresh(vt, mode);
    assert forall|k: int| 0 <= k < decls(vt).len() implies names_ok(#[trigger] decls(vt)[k], mode) by { assert(vp[k] == names_res(decls(vt)[k], mode)); }
}
// the symbols from number i on are those of m, marked (s) if they have a prefix, the ones before are marked if they have a prefix
#[verifier::opaque]
pub open spec fn sv(vp: Seq<Proto>, m: Seq<Proto>, pl: Seq<Seq<int>>, i: int, s: bool) -> bool {
    vp.len() == m.len() && (forall|k: int| 0 <= k < m.len() ==> !(#[trigger] m[k]).saved) && (forall|k: int| 0 <= k < i && !s ==> #[trigger] vp[k] == shown(m[k], prefixed(m[k].symbol, pl)))
    && (forall|k: int| i <= k < vp.len() ==> #[trigger] vp[k] == shown(m[k], s && prefixed(m[k].symbol, pl)))
}
#[verifier::opaque]
pub open spec fn sv0(vp: Seq<Proto>, m: Seq<Proto>, i: int) -> bool { vp.len() == m.len() && (forall|k: int| i <= k < vp.len() ==> #[trigger] vp[k] == m[k] && !m[k].saved) }
pub proof fn sv_begin(m: Seq<Proto>, pl: Seq<Seq<int>>, l: Seq<Seq<int>>)
    requires sv(m, m, Seq::empty(), 0, false) ensures sv0(m, m, 0), sv(m, m, pl, 0, false), pl.len() == 0 ==> sv(m, m, pl, 0, true)
{ reveal(sv); reveal(sv0); sel_all_ok(m, true, pl, l); assert forall|k: int| 0 <= k < m.len() implies #[trigger] m[k] == shown(m[k], false) by { } }
pub proof fn sv_mid(vp: Seq<Proto>, m: Seq<Proto>, pl: Seq<Seq<int>>) requires sv(vp, m, pl, m.len() as int, false) ensures sv(vp, m, pl, 0, true) { reveal(sv); }
pub proof fn sv0_at(vp: Seq<Proto>, m: Seq<Proto>, i: int) requires sv0(vp, m, i), 0 <= i < vp.len()
    ensures vp[i] == m[i], !m[i].saved, vp.len() == m.len(), forall|x: Proto| #![trigger vp.update(i, x)] sv0(vp.update(i, x), m, i + 1) { reveal(sv0); }
pub proof fn sv_at(vp: Seq<Proto>, m: Seq<Proto>, pl: Seq<Seq<int>>, i: int, s: bool) requires sv(vp, m, pl, i, s), 0 <= i < vp.len()
    ensures vp[i] == shown(m[i], s && prefixed(m[i].symbol, pl)), !m[i].saved, shown(m[i], false) == m[i], vp.len() == m.len(), s || !prefixed(m[i].symbol, pl) ==> sv(vp, m, pl, i + 1, s),
        forall|x: Proto| #![trigger vp.update(i, x)] s || x == shown(m[i], prefixed(m[i].symbol, pl)) ==> sv(vp.update(i, x), m, pl, i + 1, s) { reveal(sv); }
pub proof fn sv_len(vp: Seq<Proto>, m: Seq<Proto>, pl: Seq<Seq<int>>, i: int, s: bool) requires sv(vp, m, pl, i, s) ensures vp.len() == m.len() { reveal(sv); }
pub proof fn sv0_len(vp: Seq<Proto>, m: Seq<Proto>, i: int) requires sv0(vp, m, i) ensures vp.len() == m.len() { reveal(sv0); }
pub proof fn step(d: Seq<Proto>, n: int, pl: Seq<Seq<int>>, l: Seq<Seq<int>>)
    requires 0 <= n < d.len()
    ensures forall|f: bool| #[trigger] sel_all(d, n + 1, f) == (if is_f(d[n]) == f { sel_all(d, n, f).push(d[n]) } else { sel_all(d, n, f) }),
        forall|f: bool| #[trigger] sel_pfx(d, n + 1, f, pl) == (if is_f(d[n]) == f && prefixed(d[n].symbol, pl) { sel_pfx(d, n, f, pl).push(d[n]) } else { sel_pfx(d, n, f, pl) }),
        forall|f: bool| #[trigger] sel_list(d, n + 1, f, pl, l) == (if is_f(d[n]) == f && listed(d[n].symbol, l) && !prefixed(d[n].symbol, pl) { sel_list(d, n, f, pl, l).push(d[n]) } else { sel_list(d, n, f, pl, l) }),
{ }
pub proof fn step0(d: Seq<Proto>, pl: Seq<Seq<int>>, l: Seq<Seq<int>>)
    ensures forall|f: bool| #[trigger] sel_all(d, 0, f) == Seq::<Proto>::empty(), forall|f: bool| #[trigger] sel_pfx(d, 0, f, pl) == Seq::<Proto>::empty(),
        forall|f: bool| #[trigger] sel_list(d, 0, f, pl, l) == Seq::<Proto>::empty(), rest_of(d, 0, l) == l
{ }
