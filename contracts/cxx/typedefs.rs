// tokenize.cpp: typedefs and formatting
pub open spec fn insert_at(s: Seq<int>, p: int, x: Seq<int>) -> Seq<int> { s.subrange(0, p) + x + s.skip(p) }
pub open spec fn fptr_ok(t: Seq<int>) -> bool { str_find(t, @"(*)", 0) != npos() && str_find(t, seq![40int], 0) == str_find(t, @"(*)", 0) }
pub open spec fn fptr_td(t: Seq<int>, n: Seq<int>) -> Seq<int> { if fptr_ok(t) { insert_at(t, str_find(t, @"(*)", 0) + 2, n) } else { Seq::empty() } }
pub open spec fn arr_td(t: Seq<int>, n: Seq<int>) -> Seq<int> {
    let p = str_find(t, seq![91int], 0);
    if p == npos() { Seq::empty() } else if p > 0 && t[p - 1] != 32 { insert_at(t, p, seq![32int] + n) } else { insert_at(t, p, n) }
}
pub open spec fn fmt(s: Seq<int>) -> Seq<int> {
    repl(@"* ", @"*", repl(@" ,", @",", repl(@"] ", @"]", repl(@"[ ", @"[", repl(@" ]", @"]", repl(@" [", @"[", repl(@" )", @")", repl(@") ", @")", repl(@"( ", @"(", strip(s), 0), 0), 0), 0), 0), 0), 0), 0), 0)
}
pub open spec fn td_name(pfx: Seq<int>, p: Proto) -> Seq<int> { pfx + @"_" + p.symbol + @"__t" }
pub open spec fn has_td(p: Proto) -> bool { p.prototype == K_FPTR() || p.prototype == K_ARR() }
pub open spec fn td(pfx: Seq<int>, p: Proto) -> Seq<int> { if p.prototype == K_FPTR() { fptr_td(p.type_, td_name(pfx, p)) } else { arr_td(p.type_, td_name(pfx, p)) } }
pub open spec fn tds(pfx: Seq<int>, o: Seq<Proto>, n: int) -> Seq<Seq<int>> decreases n { if n <= 0 { Seq::empty() } else if has_td(o[n - 1]) { tds(pfx, o, n - 1).push(td(pfx, o[n - 1])) } else { tds(pfx, o, n - 1) } }
pub open spec fn td_obj(pfx: Seq<int>, p: Proto) -> Proto { if has_td(p) { Proto { type_: td_name(pfx, p), ..p } } else { p } }
pub open spec fn td_bad(pfx: Seq<int>, p: Proto) -> bool { has_td(p) && td(pfx, p).len() == 0 }

// what is not white space
pub open spec fn ink(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() == 0 { s } else if is_space(s.last()) { ink(s.drop_last()) } else { ink(s.drop_last()).push(s.last()) } }
pub proof fn ink_concat(a: Seq<int>, b: Seq<int>) ensures ink(a + b) =~= ink(a) + ink(b) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); ink_concat(a, b.drop_last()); }
}
pub proof fn ink_repl(f: Seq<int>, t: Seq<int>, s: Seq<int>, p: int)
    requires ink(f) == ink(t), f.len() > 0, 0 <= p <= s.len() ensures ink(repl(f, t, s, p)) == ink(s.skip(p)) decreases s.len() - p
{
    let q = str_find(s, f, p);
    find_spec(s, f, p);
    if q >= p && q + f.len() <= s.len() {
        ink_repl(f, t, s, q + f.len());
        ink_concat(s.subrange(p, q), t);
        ink_concat(s.subrange(p, q) + t, repl(f, t, s, q + f.len()));
        assert(s.subrange(q, q + f.len()) =~= f);
        assert(s.skip(p) =~= s.subrange(p, q) + f + s.skip(q + f.len()));
        ink_concat(s.subrange(p, q), f);
        ink_concat(s.subrange(p, q) + f, s.skip(q + f.len()));
    }
}
pub proof fn ink_strip(s: Seq<int>) ensures ink(strip(s)) == ink(s) { ink_r(s); ink_l(rstrip(s)); }
pub proof fn ink_r(s: Seq<int>) ensures ink(rstrip(s)) == ink(s) decreases s.len() { if s.len() > 0 && is_space(s.last()) { ink_r(s.drop_last()); } }
pub proof fn ink_l(s: Seq<int>) ensures ink(lstrip(s)) == ink(s) decreases s.len() {
    if s.len() > 0 && is_space(s[0]) { ink_l(s.skip(1)); assert(s =~= seq![s[0]] + s.skip(1)); ink_concat(seq![s[0]], s.skip(1)); let e = Seq::<int>::empty(); assert(seq![s[0]].drop_last() =~= e); assert(ink(e) =~= e); assert(ink(seq![s[0]]) =~= e); assert(e + ink(s.skip(1)) =~= ink(s.skip(1))); }
}
pub proof fn ink2(a: int, b: int)
    ensures is_space(a) && !is_space(b) ==> ink(seq![a, b]) == seq![b], is_space(b) && !is_space(a) ==> ink(seq![a, b]) == seq![a], !is_space(a) ==> ink(seq![a]) == seq![a]
{
    let e = Seq::<int>::empty();
    assert(seq![a].drop_last() =~= e && seq![a, b].drop_last() =~= seq![a]);
    assert(ink(e) =~= e);
    if is_space(a) { assert(ink(seq![a]) =~= e); } else { assert(ink(seq![a]) =~= seq![a]); }
    if is_space(a) && !is_space(b) { assert(ink(seq![a, b]) =~= seq![b]); }
}
pub proof fn ink_step(x: int, y: int, s: Seq<int>)
    requires is_space(x) != is_space(y) ensures
        is_space(x) ==> ink(repl(seq![x, y], seq![y], s, 0)) == ink(s), is_space(y) ==> ink(repl(seq![x, y], seq![x], s, 0)) == ink(s)
{
    ink2(x, y); ink2(y, x);
    assert(s.skip(0) =~= s);
    if is_space(x) { ink_repl(seq![x, y], seq![y], s, 0); } else { ink_repl(seq![x, y], seq![x], s, 0); }
}
// formatting removes white space and nothing else
pub proof fn fmt_ink(s: Seq<int>) ensures ink(fmt(s)) == ink(s) {
    ink_strip(s);
    let a = strip(s);
    ink_step(40, 32, a); let a = repl(@"( ", @"(", a, 0);
    ink_step(41, 32, a); let a = repl(@") ", @")", a, 0);
    ink_step(32, 41, a); let a = repl(@" )", @")", a, 0);
    ink_step(32, 91, a); let a = repl(@" [", @"[", a, 0);
    ink_step(32, 93, a); let a = repl(@" ]", @"]", a, 0);
    ink_step(91, 32, a); let a = repl(@"[ ", @"[", a, 0);
    ink_step(93, 32, a); let a = repl(@"] ", @"]", a, 0);
    ink_step(32, 44, a); let a = repl(@" ,", @",", a, 0);
    ink_step(42, 32, a);
}
