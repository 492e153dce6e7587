// generate.cpp: the text around the expanded templates
pub open spec fn lib_text(s: Seq<int>, wide: bool) -> Seq<int> {
    if wide && s.len() >= 3 && s[0] == 76 && s[1] == 34 && s.last() == 34 { s }
    else if quoted(s) { if wide { s1(76) + s } else { s } }
    else if wide { s1(76) + s1(34) + s + s1(34) } else { s1(34) + s + s1(34) }
}
pub open spec fn colon(s: Seq<int>) -> int { str_find(s, s1(58), 0) }
pub open spec fn lib_def(s: Seq<int>, pfx: Seq<int>, wide: bool) -> Seq<int> {
    let x = if wide { s1(87) } else { s1(65) };
    if has_mode(s, @"nq:") { s.skip(3) }
    else if has_mode(s, @"ext:") { lib_text(s.skip(4), wide) + s1(32) + pfx + @"_LIBEXT" + x }
    else if has_mode(s, @"api:") && re_pair(s.skip(4)) { pfx + @"_LIBNAME" + x + s1(40) + re_second(s.skip(4)) + s1(44) + re_first(s.skip(4)) + s1(41) }
    else { lib_text(s, wide) }
}
pub open spec fn lib_lines(s: Seq<int>, pfx: Seq<int>) -> Seq<int> {
    @"#define " + pfx + @"_HARDCODED_DEFAULT_LIBA " + lib_def(s, pfx, false) + s1(10) + @"#define " + pfx + @"_HARDCODED_DEFAULT_LIBW " + lib_def(s, pfx, true) + s1(10)
}
// the regular expression (.*?):(.*): text without line breaks, split at the first colon
pub open spec fn no_eol(s: Seq<int>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != 10 && s[i] != 13 }
pub open spec fn re_pair(s: Seq<int>) -> bool { colon(s) != npos() && no_eol(s) }
pub open spec fn re_first(s: Seq<int>) -> Seq<int> { s.subrange(0, colon(s)) }
pub open spec fn re_second(s: Seq<int>) -> Seq<int> { s.skip(colon(s) + 1) }
pub open spec fn td_lines(v: Seq<Seq<int>>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { td_lines(v, n - 1) + @"typedef " + v[n - 1] + @";\n" } }
pub open spec fn inc_lines(v: Seq<Seq<int>>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { inc_lines(v, n - 1) + @"#include " + v[n - 1] + s1(10) } }
pub open spec fn std_includes(cxx: bool) -> Seq<int> { if cxx { @"#include <cstddef>\n#include <cstring>\n" } else { @"#include <stddef.h>\n#include <string.h>\n" } }
pub open spec fn guard_name(h: Seq<int>, pfx: Seq<int>) -> Seq<int> { s1(95) + pfx + s1(95) + up_us(h) + s1(95) }
pub open spec fn extern_c(cxx: bool) -> Seq<int> { if cxx { Seq::empty() } else { @"#ifdef __cplusplus\nextern \"C\" {\n#endif\n\n" } }
pub open spec fn lf(s: Seq<int>) -> int { count_of(s, 10int) }

pub proof fn lf_one(c: int) ensures lf(s1(c)) == (if c == 10 { 1int } else { 0int }) { reveal_with_fuel(count_of, 2); assert(s1(c).drop_last() =~= Seq::empty()); }
pub proof fn lf_dec(n: int) ensures lf(dec(n)) == 0 decreases (if n < 0 { -n + 1 } else { n }) {
    if n < 0 { lf_dec(-n); lf_one(45); count_concat(s1(45), dec(-n), 10int); assert(dec(n) == s1(45) + dec(-n)); }
    else if n < 10 { lf_one(48 + n); assert(dec(n) == s1(48 + n)); }
    else { lf_dec(n / 10); lf_one(48 + n % 10); count_concat(dec(n / 10), s1(48 + n % 10), 10int); assert(dec(n) == dec(n / 10) + s1(48 + n % 10)); }
}
pub proof fn lf_word1() ensures lf(@"#line ") == 0 { reveal_with_fuel(count_of, 8); }
pub proof fn lf_word2() ensures lf(@" \"") == 0 { reveal_with_fuel(count_of, 4); }
pub proof fn lf_word3() ensures lf(@"\"\n") == 1 { reveal_with_fuel(count_of, 4); }
pub proof fn lf_dir(d: Seq<int>, h: Seq<int>) requires lf(d) == 0, lf(h) == 0
    ensures lf(@"#line " + d + @" \"" + h + @"\"\n") == 1
{
    lf_word1(); lf_word2(); lf_word3();
    count_concat(@"#line ", d, 10int);
    count_concat(@"#line " + d, @" \"", 10int);
    count_concat(@"#line " + d + @" \"", h, 10int);
    count_concat(@"#line " + d + @" \"" + h, @"\"\n", 10int);
}
// the note on top of each file; d: the date
pub open spec fn no_break(s: Seq<int>) -> bool { lf(s) == 0 }
pub open spec fn note_text(d: Seq<int>) -> Seq<int> { @"// Do not edit this file!\n// It was automatically generated by gendlopen" + d + @".\n// All changes made will be lost.\n\n" }
pub open spec fn note_date(o: Seq<int>, n: int) -> Seq<int> { o.subrange(n + @"// Do not edit this file!\n// It was automatically generated by gendlopen".len(), o.len() - @".\n// All changes made will be lost.\n\n".len()) }
pub proof fn count_cat() ensures forall|a: Seq<int>, b: Seq<int>| #[trigger] count_of(a + b, 10int) == count_of(a, 10int) + count_of(b, 10int)
{ assert forall|a: Seq<int>, b: Seq<int>| #[trigger] count_of(a + b, 10int) == count_of(a, 10int) + count_of(b, 10int) by { count_concat(a, b, 10int); } }
pub proof fn lf_note() ensures lf(@"// Do not edit this file!\n// It was automatically generated by gendlopen") == 1, lf(@".\n// All changes made will be lost.\n\n") == 3, lf(@" on ") == 0, lf(Seq::empty()) == 0
{
    reveal_with_fuel(count_of, 6);
    let a = @"// Do not edit this file!"; let b = @"// It was automatically generated by gendlopen"; let c = @"// All changes made will be lost."; let n = s1(10);
    lf_free(a); lf_free(b); lf_free(c); lf_free(@" on "); lf_one(10); lf_one(46);
    assert(@"// Do not edit this file!\n// It was automatically generated by gendlopen" =~= a + n + b); count_concat(a, n, 10int); count_concat(a + n, b, 10int);
    assert(@".\n// All changes made will be lost.\n\n" =~= s1(46) + n + c + n + n); count_concat(s1(46), n, 10int); count_concat(s1(46) + n, c, 10int); count_concat(s1(46) + n + c, n, 10int); count_concat(s1(46) + n + c + n, n, 10int);
}
pub proof fn lf_free(s: Seq<int>) requires forall|i: int| 0 <= i < s.len() ==> s[i] != 10 ensures lf(s) == 0 decreases s.len() { if s.len() > 0 { lf_free(s.drop_last()); } }
pub proof fn lf_note_text(d: Seq<int>) ensures lf(note_text(d)) == lf(d) + 4 { lf_note(); count_concat(@"// Do not edit this file!\n// It was automatically generated by gendlopen", d, 10int); count_concat(@"// Do not edit this file!\n// It was automatically generated by gendlopen" + d, @".\n// All changes made will be lost.\n\n", 10int); }
