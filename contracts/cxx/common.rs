// generate.cpp: common prefix of the symbols
pub open spec fn names_ok(v: Seq<Proto>) -> bool { forall|i: int| 0 <= i < v.len() ==> no_nul(#[trigger] v[i].symbol) }
pub open spec fn same_char(a: Proto, b: Proto, pos: int) -> bool { pos < a.symbol.len() && a.symbol[pos] == b.symbol[pos] }
pub open spec fn all_start(v: Seq<Proto>, p: Seq<int>) -> bool { forall|i: int| 0 <= i < v.len() ==> starts_with(#[trigger] v[i].symbol, p) }
pub open spec fn differ(v: Seq<Proto>, a: Proto, pos: int) -> bool { exists|j: int| 0 <= j < v.len() && !same_char(#[trigger] v[j], a, pos) }
pub proof fn no_longer(v: Seq<Proto>, o: Seq<Proto>, a: Proto, i: int)
    requires v.contains(a) || o.contains(a), i == a.symbol.len() || differ(v, a, i) || differ(o, a, i), 0 <= i <= a.symbol.len()
    ensures forall|p: Seq<int>| p.len() > i ==> !(#[trigger] all_start(v, p) && all_start(o, p))
{
    assert forall|p: Seq<int>| p.len() > i implies !(#[trigger] all_start(v, p) && all_start(o, p)) by {
        if all_start(v, p) && all_start(o, p) {
            if v.contains(a) { let k = choose|k: int| 0 <= k < v.len() && v[k] == a; assert(starts_with(v[k].symbol, p)); }
            else { let k = choose|k: int| 0 <= k < o.len() && o[k] == a; assert(starts_with(o[k].symbol, p)); }
            assert(p[i] == a.symbol.subrange(0, p.len() as int)[i]);
            if differ(v, a, i) { let j = choose|j: int| 0 <= j < v.len() && !same_char(#[trigger] v[j], a, i); assert(p[i] == v[j].symbol.subrange(0, p.len() as int)[i]); }
            else { let j = choose|j: int| 0 <= j < o.len() && !same_char(#[trigger] o[j], a, i); assert(p[i] == o[j].symbol.subrange(0, p.len() as int)[i]); }
        }
    }
}
// the longest text every symbol starts with
pub open spec fn com_few(v: Seq<Proto>, o: Seq<Proto>, p: Seq<int>) -> bool { v.len() + o.len() < 2 ==> p.len() == 0 }
pub open spec fn com_all(v: Seq<Proto>, o: Seq<Proto>, p: Seq<int>) -> bool { v.len() + o.len() >= 2 ==> all_start(v, p) && all_start(o, p) }
pub open spec fn com_max(v: Seq<Proto>, o: Seq<Proto>, p: Seq<int>) -> bool { v.len() + o.len() >= 2 ==> forall|q: Seq<int>| q.len() > p.len() ==> !(#[trigger] all_start(v, q) && all_start(o, q)) }
