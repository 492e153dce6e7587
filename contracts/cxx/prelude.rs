// Values of the C++ types used by gendlopen and the library functions it calls
// (std::string, <cctype>, <cstring>), as mathematical functions.
global size_of usize == 8;

// std::string::npos: the largest size_t, i.e. -1 modulo 2^64 (no string is that long)
pub open spec fn npos() -> int { -1 }

#[verifier::external_body]
pub fn test(b: Ghost<bool>) -> (r: bool) ensures r == b@ { unimplemented!() }

pub open spec fn slen<A>(s: Seq<A>) -> int { s.len() as int }
pub open spec fn is_space(c: int) -> bool { c == 32 || (9 <= c && c <= 13) }
pub open spec fn is_digit(c: int) -> bool { 48 <= c && c <= 57 }
pub open spec fn is_up(c: int) -> bool { 65 <= c && c <= 90 }
pub open spec fn is_low(c: int) -> bool { 97 <= c && c <= 122 }
pub open spec fn is_alnum(c: int) -> bool { is_digit(c) || is_up(c) || is_low(c) }
pub open spec fn is_graph(c: int) -> bool { 33 <= c && c <= 126 }
pub open spec fn to_upper_c(c: int) -> int { if is_low(c) { c - 32 } else { c } }
pub open spec fn to_lower_c(c: int) -> int { if is_up(c) { c + 32 } else { c } }
pub open spec fn ident(c: int) -> bool { is_alnum(c) || c == 95 }
pub open spec fn as_char(c: int) -> int { if -128 <= c && c < 128 { c } else { (c + 128) % 256 - 128 } }
pub open spec fn as_uchar(c: int) -> int { if 0 <= c && c < 256 { c } else { c % 256 } }
pub open spec fn bit_and(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }
pub open spec fn bit_or(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub open spec fn bit_shl(a: int, b: int) -> int { if b == 0 { a } else if b == 1 { 2 * a } else if b == 2 { 4 * a } else if b == 3 { 8 * a } else { a * vstd::arithmetic::power2::pow2(b as nat) as int } }

pub open spec fn no_nul(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 0 }
// the characters before the first NUL
pub open spec fn c_str(s: Seq<int>) -> Seq<int> decreases s.len() {
    if s.len() == 0 || s[0] == 0 { Seq::empty() } else { seq![s[0]] + c_str(s.skip(1)) }
}
pub open spec fn c_at(s: Seq<int>) -> int { if s.len() > 0 { s[0] } else { 0 } }
pub open spec fn s_at(s: Seq<int>, i: int) -> int { if 0 <= i < s.len() { s[i] } else { 0 } }
pub open spec fn seq_eq(a: Seq<int>, b: Seq<int>) -> bool { a == b }
pub open spec fn rep(c: int, n: int) -> Seq<int> { if n <= 0 { Seq::empty() } else { Seq::new(n as nat, |i: int| c) } }
pub open spec fn starts_with(s: Seq<int>, p: Seq<int>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) =~= p }
pub open spec fn ends_with(s: Seq<int>, p: Seq<int>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) =~= p }
pub open spec fn match_at(h: Seq<int>, n: Seq<int>, i: int) -> bool { 0 <= i && i + n.len() <= h.len() && h.subrange(i, i + n.len()) =~= n }
pub open spec fn str_find(h: Seq<int>, n: Seq<int>, from: int) -> int decreases h.len() - from {
    if from < 0 || from + n.len() > h.len() { npos() } else if match_at(h, n, from) { from } else { str_find(h, n, from + 1) }
}
pub open spec fn clip(s: Seq<int>, p: int, n: int) -> int { if 0 <= n && n < s.len() - p { p + n } else { s.len() as int } }
pub open spec fn substr(s: Seq<int>, p: int, n: int) -> Seq<int> { s.subrange(p, clip(s, p, n)) }
pub open spec fn str_erase(s: Seq<int>, p: int, n: int) -> Seq<int> { s.subrange(0, p) + s.skip(clip(s, p, n)) }
pub open spec fn str_insert(s: Seq<int>, p: int, x: Seq<int>) -> Seq<int> { s.subrange(0, p) + x + s.skip(p) }
pub open spec fn str_replace(s: Seq<int>, p: int, n: int, x: Seq<int>) -> Seq<int> { s.subrange(0, p) + x + s.skip(clip(s, p, n)) }
pub open spec fn take(s: Seq<int>, n: int) -> Seq<int> { if n < s.len() { s.subrange(0, n) } else { s } }
pub open spec fn lower(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| to_lower_c(s[i])) }
pub open spec fn upper(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| to_upper_c(s[i])) }
// 0 iff equal (only the sign of strcmp and its like is specified)
pub uninterp spec fn cmp_sign(a: Seq<int>, b: Seq<int>) -> int;
pub open spec fn str_compare(a: Seq<int>, b: Seq<int>) -> int { if a =~= b { 0 } else if cmp_sign(a, b) == 0 { 1 } else { cmp_sign(a, b) } }
pub open spec fn dec(n: int) -> Seq<int> decreases (if n < 0 { -n + 1 } else { n }) {
    if n < 0 { seq![45int] + dec(-n) } else if n < 10 { seq![48 + n] } else { dec(n / 10) + seq![48 + n % 10] }
}
pub uninterp spec fn date_text() -> Seq<int>;
pub open spec fn count_of<A>(s: Seq<A>, x: A) -> int decreases s.len() {
    if s.len() == 0 { 0 } else { count_of(s.drop_last(), x) + (if s.last() == x { 1int } else { 0int }) }
}
pub open spec fn erase_all<A>(s: Seq<A>, x: A) -> Seq<A> { s.filter(|y: A| y != x) }
pub open spec fn seq_find<A>(s: Seq<A>, a: int, b: int, x: A) -> int decreases b - a {
    if a >= b { b } else if s[a] == x { a } else { seq_find(s, a + 1, b, x) }
}
pub open spec fn front(s: Seq<int>) -> int { if s.len() > 0 { s[0] } else { 0 } }
pub open spec fn starts_with_c(s: Seq<int>, c: int) -> bool { s.len() > 0 && s[0] == c }
pub open spec fn ends_with_c(s: Seq<int>, c: int) -> bool { s.len() > 0 && s.last() == c }
