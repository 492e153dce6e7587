// tokenize.cpp: redundant parentheses
// the tokens with their parentheses numbered by depth
pub open spec fn pdepth(v: Seq<Seq<int>>, n: int) -> int decreases n {
    if n <= 0 { 0 } else { pdepth(v, n - 1) + (if tok(v, n - 1) == 40 { 1int } else if tok(v, n - 1) == 41 { -1int } else { 0int }) }
}
pub open spec fn ent(v: Seq<Seq<int>>, i: int) -> Entry {
    let c = tok(v, i);
    Entry { str_: v[i], ch: if c == 40 || c == 41 { c } else { 0 }, num: if c == 40 { pdepth(v, i) + 1 } else if c == 41 { pdepth(v, i) } else { 0 } }
}
pub open spec fn ents(v: Seq<Seq<int>>) -> Seq<Entry> { Seq::new(v.len(), |i: int| ent(v, i)) }
pub open spec fn strs(e: Seq<Entry>) -> Seq<Seq<int>> { Seq::new(e.len(), |i: int| e[i].str_) }
// the closing parenthesis of number k at or behind position j
pub open spec fn closing(e: Seq<Entry>, k: int, j: int) -> int decreases e.len() - j {
    if j >= e.len() { e.len() as int } else if e[j].ch == 41 && e[j].num == k { j } else { closing(e, k, j + 1) }
}
// a pair that directly encloses a text that begins with `(' and ends with `)'
pub open spec fn redundant(e: Seq<Entry>, i: int) -> bool {
    0 <= i && i + 1 < e.len() && e[i].ch == 40 && e[i + 1].ch == 40 && closing(e, e[i].num, i + 2) < e.len() && e[closing(e, e[i].num, i + 2) - 1].ch == 41
}
pub open spec fn without_pair(e: Seq<Entry>, i: int) -> Seq<Entry> { e.remove(closing(e, e[i].num, i + 2)).remove(i) }
// all redundant pairs from position i on are dropped, from left to right
pub open spec fn reduced(e: Seq<Entry>, i: int) -> Seq<Entry> decreases e.len(), e.len() - i {
    if i < 0 || i >= e.len() { e } else if redundant(e, i) { if without_pair(e, i).len() < e.len() { reduced(without_pair(e, i), i) } else { e } } else { reduced(e, i + 1) }
}
pub proof fn closing_range(e: Seq<Entry>, k: int, j: int)
    requires 0 <= j <= e.len() ensures j <= closing(e, k, j) <= e.len(),
        closing(e, k, j) < e.len() ==> e[closing(e, k, j)].ch == 41 && e[closing(e, k, j)].num == k
    decreases e.len() - j
{ if j < e.len() && !(e[j].ch == 41 && e[j].num == k) { closing_range(e, k, j + 1); } }
pub proof fn no_paren(e: Seq<Entry>, i: int)
    requires 0 <= i <= e.len(), e.len() < 4 || forall|k: int| 0 <= k < e.len() ==> (#[trigger] e[k]).ch != 40
    ensures reduced(e, i) == e decreases e.len() - i
{
    if i < e.len() {
        if i + 2 <= e.len() { closing_range(e, e[i].num, i + 2); }
        assert(!redundant(e, i));
        no_paren(e, i + 1);
    }
}
pub proof fn no_paren_v(v: Seq<Seq<int>>)
    ensures v.len() < 4 ==> strs(reduced(ents(v), 0)) == v,
        toks(v) && seq_find(v, 0, v.len() as int, seq![40int]) == v.len() ==> strs(reduced(ents(v), 0)) == v
{
    assert(strs(ents(v)) =~= v);
    if v.len() < 4 { no_paren(ents(v), 0); }
    if toks(v) && seq_find(v, 0, v.len() as int, seq![40int]) == v.len() {
        find_none(v, 0, v.len() as int, seq![40int]);
        assert forall|k: int| 0 <= k < ents(v).len() implies (#[trigger] ents(v)[k]).ch != 40 by { if front(v[k]) == 40 { assert(v[k] =~= seq![40int]); } }
        no_paren(ents(v), 0);
    }
}
pub proof fn find_none<A>(s: Seq<A>, a: int, b: int, x: A)
    requires 0 <= a <= b <= s.len(), seq_find(s, a, b, x) == b ensures forall|k: int| a <= k < b ==> #[trigger] s[k] != x decreases b - a
{ if a < b { if s[a] == x { } else { find_none(s, a + 1, b, x); } } }
