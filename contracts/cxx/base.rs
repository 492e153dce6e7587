pub open spec fn up_us(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| if is_alnum(s[i]) { to_upper_c(s[i]) } else { 95 }) }
pub open spec fn low_us(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| if is_alnum(s[i]) { to_lower_c(s[i]) } else { 95 }) }
pub open spec fn chars(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> -128 <= #[trigger] s[i] < 128 }
pub open spec fn lstrip(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() > 0 && is_space(s[0]) { lstrip(s.skip(1)) } else { s } }
pub open spec fn rstrip(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() > 0 && is_space(s.last()) { rstrip(s.drop_last()) } else { s } }
pub open spec fn strip(s: Seq<int>) -> Seq<int> { lstrip(rstrip(s)) }
pub open spec fn prefixed(s: Seq<int>, l: Seq<Seq<int>>) -> bool { s.len() > 0 && exists|i: int| 0 <= i < l.len() && starts_with(s, #[trigger] l[i]) }

// s from position p on, with f replaced by t from left to right
pub open spec fn repl(f: Seq<int>, t: Seq<int>, s: Seq<int>, p: int) -> Seq<int> decreases s.len() - p {
    let q = str_find(s, f, p);
    if f.len() == 0 || p < 0 || q < p || q + f.len() > s.len() { s.skip(p) } else { s.subrange(p, q) + t + repl(f, t, s, q + f.len()) }
}

pub proof fn count_nonneg<A>(s: Seq<A>, x: A) ensures 0 <= count_of(s, x) <= s.len() decreases s.len() {
    if s.len() > 0 { count_nonneg(s.drop_last(), x); }
}
pub proof fn count_concat<A>(a: Seq<A>, b: Seq<A>, x: A) ensures count_of(a + b, x) == count_of(a, x) + count_of(b, x) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        count_concat(a, b.drop_last(), x);
    }
}
pub proof fn count_push<A>(a: Seq<A>, y: A, x: A) ensures count_of(a.push(y), x) == count_of(a, x) + (if y == x { 1int } else { 0int }) {
    assert(a.push(y).drop_last() =~= a);
}
pub proof fn count_pos<A>(s: Seq<A>, x: A, i: int) requires 0 <= i < s.len(), s[i] == x ensures count_of(s, x) > 0 decreases s.len() {
    count_nonneg(s.drop_last(), x);
    if i < s.len() - 1 { count_pos(s.drop_last(), x, i); }
}
pub proof fn find_spec(h: Seq<int>, n: Seq<int>, from: int)
    requires from >= 0
    ensures
        str_find(h, n, from) == npos() || (match_at(h, n, str_find(h, n, from)) && from <= str_find(h, n, from)),
        forall|j: int| from <= j && (str_find(h, n, from) == npos() || j < str_find(h, n, from)) ==> !#[trigger] match_at(h, n, j),
    decreases h.len() - from
{
    if from + n.len() > h.len() { } else if match_at(h, n, from) { } else { find_spec(h, n, from + 1); }
}
// what follows position k in a and position j in b is the same: the search from there is the same
pub proof fn find_shift(a: Seq<int>, j: int, b: Seq<int>, k: int, f: Seq<int>)
    requires 0 <= j <= a.len(), 0 <= k <= b.len(), a.skip(j) =~= b.skip(k)
    ensures (str_find(a, f, j) == npos()) == (str_find(b, f, k) == npos()), str_find(a, f, j) != npos() ==> str_find(a, f, j) - j == str_find(b, f, k) - k
    decreases a.len() - j
{
    assert(a.len() - j == a.skip(j).len() && b.len() - k == b.skip(k).len());
    if j + f.len() <= a.len() {
        assert(a.subrange(j, j + f.len()) =~= a.skip(j).subrange(0, f.len() as int));
        assert(b.subrange(k, k + f.len()) =~= b.skip(k).subrange(0, f.len() as int));
        if !match_at(a, f, j) && j < a.len() {
            assert(a.skip(j + 1) =~= a.skip(j).skip(1) && b.skip(k + 1) =~= b.skip(k).skip(1));
            find_shift(a, j + 1, b, k + 1, f);
            find_spec(a, f, j + 1); find_spec(b, f, k + 1);
        }
    }
}
// progress of the replacement: the first q characters of r are done, they stand for the first k of s
#[verifier::opaque]
pub open spec fn rinv(f: Seq<int>, t: Seq<int>, s: Seq<int>, r: Seq<int>, q: int, k: int) -> bool {
    0 <= k <= s.len() && 0 <= q <= r.len() && r.skip(q) =~= s.skip(k) && r.subrange(0, q) + repl(f, t, s, k) =~= repl(f, t, s, 0)
}
pub proof fn repl_begin(f: Seq<int>, t: Seq<int>, s: Seq<int>) ensures rinv(f, t, s, s, 0, 0) { reveal(rinv); }
pub proof fn repl_end(f: Seq<int>, t: Seq<int>, s: Seq<int>, r: Seq<int>, q: int, k: int)
    requires rinv(f, t, s, r, q, k), str_find(r, f, q) == npos() ensures r == repl(f, t, s, 0)
{
    reveal(rinv);
    find_shift(r, q, s, k, f);
    assert(repl(f, t, s, k) == s.skip(k));
    assert(r =~= r.subrange(0, q) + r.skip(q));
}
pub proof fn repl_next(f: Seq<int>, t: Seq<int>, s: Seq<int>, r: Seq<int>, q: int, k: int)
    requires rinv(f, t, s, r, q, k), str_find(r, f, q) != npos(), f.len() > 0
    ensures ({ let p = str_find(r, f, q); let e = str_find(s, f, k) + f.len();
        0 <= p <= r.len() && k < e <= s.len() && rinv(f, t, s, str_replace(r, p, f.len() as int, t), p + t.len(), e) })
{
    reveal(rinv);
    find_shift(r, q, s, k, f);
    find_spec(r, f, q);
    find_spec(s, f, k);
    let p = str_find(r, f, q); let z = str_find(s, f, k); let e = z + f.len();
    let n = str_replace(r, p, f.len() as int, t);
    assert(r.skip(q).len() == s.skip(k).len());
    assert(n =~= r.subrange(0, p) + t + r.skip(p + f.len()));
    assert(r.skip(p + f.len()) =~= r.skip(q).skip(p + f.len() - q));
    assert(s.skip(e) =~= s.skip(k).skip(e - k));
    assert(n.skip(p + t.len()) =~= r.skip(p + f.len()));
    assert(n.subrange(0, p + t.len()) =~= r.subrange(0, p) + t);
    assert(r.subrange(q, p) =~= r.skip(q).subrange(0, p - q));
    assert(s.subrange(k, z) =~= s.skip(k).subrange(0, z - k));
    assert(r.subrange(0, p) =~= r.subrange(0, q) + r.subrange(q, p));
    assert(repl(f, t, s, k) == s.subrange(k, z) + t + repl(f, t, s, e));
    assert(n.subrange(0, p + t.len()) + repl(f, t, s, e) =~= r.subrange(0, q) + repl(f, t, s, k));
}
