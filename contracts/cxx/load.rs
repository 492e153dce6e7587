// data.cpp, utils.cpp: reading and writing template files. A file is the sequence of its bytes
// one character of a template file: (entry, the entry goes on)
pub open spec fn on_char(c: int, e: Template) -> (Template, bool) {
    if c == 10 {
        if ends_with_c(e.data, 64) { (Template { data: e.data.drop_last().push(10), line_count: e.line_count + 1, ..e }, true) }
        else if ends_with(e.data, @"@\r") { (Template { data: e.data.take(e.data.len() - 2) + @"\r\n", line_count: e.line_count + 1, ..e }, true) }
        else { (e, false) }
    } else if c == -1 {
        (if ends_with_c(e.data, 64) { Template { data: e.data.drop_last(), ..e } } else { e }, false)
    } else {
        (Template { data: e.data.push(as_char(c)), maybe_keyword: e.maybe_keyword || c == 37, ..e }, true)
    }
}
// an entry: the lines up to the first line feed that is not behind @: (entry, rest of the file, ended by a line feed)
pub open spec fn read_entry(s: Seq<int>, e: Template) -> (Template, Seq<int>, bool) decreases s.len() {
    if s.len() == 0 { (on_char(-1, e).0, s, false) }
    else { let r = on_char(s[0], e); if r.1 { read_entry(s.skip(1), r.0) } else { (r.0, s.skip(1), true) } }
}
pub open spec fn fresh_entry() -> Template { Template { data: Seq::empty(), maybe_keyword: false, line_count: 1 } }
pub open spec fn end_entry() -> Template { Template { data: Seq::empty(), maybe_keyword: false, line_count: 0 } }
// the entries of a file
pub open spec fn read_all(s: Seq<int>) -> Seq<Template> decreases s.len() via read_all_dec {
    let r = read_entry(s, fresh_entry());
    if r.2 { seq![r.0] + read_all(r.1) } else if r.0.data.len() == 0 { Seq::empty() } else { seq![r.0] }
}
#[via_fn]
proof fn read_all_dec(s: Seq<int>) { read_less(s, fresh_entry()); }
pub proof fn read_less(s: Seq<int>, e: Template)
    ensures read_entry(s, e).1.len() <= s.len(), read_entry(s, e).2 ==> read_entry(s, e).1.len() < s.len(), e.line_count > 0 ==> read_entry(s, e).0.line_count > 0, bytes(s) ==> bytes(read_entry(s, e).1)
    decreases s.len()
{ if s.len() > 0 { let r = on_char(s[0], e); assert(bytes(s) ==> bytes(s.skip(1))); if r.1 { read_less(s.skip(1), r.0); } } }
pub proof fn read_all_next(s: Seq<int>) ensures ({ let r = read_entry(s, fresh_entry()); read_all(s) == (if r.2 { seq![r.0] + read_all(r.1) } else if r.0.data.len() == 0 { Seq::empty() } else { seq![r.0] }) }) {}
pub open spec fn line_entry(name: Seq<int>, std: bool) -> Template { Template { data: if std { @"#line 1 \"<STDIN>\"" } else { @"#line 1 \"" + name + @"\"" }, maybe_keyword: false, line_count: 1 } }
pub open spec fn first_entry(dir: Seq<int>, name: Seq<int>, line: bool) -> Seq<Template> { if line && name != @"license.h" { seq![line_entry(name, is_stdin(dir + name))] } else { Seq::empty() } }
// a template that was loaded from a file
pub open spec fn loaded(dir: Seq<int>, name: Seq<int>, line: bool) -> Seq<Template> { first_entry(dir, name, line) + read_all(file_text(dir + name)) + seq![end_entry()] }
pub open spec fn lines_ok(s: Seq<Template>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).line_count > 0 }
pub proof fn read_all_ok(s: Seq<int>) ensures lines_ok(read_all(s)) decreases s.len() {
    read_all_next(s); read_less(s, fresh_entry());
    let r = read_entry(s, fresh_entry());
    if r.2 { read_all_ok(r.1); let t = read_all(r.1); assert forall|i: int| 0 <= i < read_all(s).len() implies (#[trigger] read_all(s)[i]).line_count > 0 by { if i > 0 { assert(read_all(s)[i] == t[i - 1]); } } }
}
pub proof fn loaded_wf(dir: Seq<int>, name: Seq<int>, line: bool) ensures wf(loaded(dir, name, line)) {
    reveal(wf); read_all_ok(file_text(dir + name));
    let a = first_entry(dir, name, line); let b = read_all(file_text(dir + name)); let s = loaded(dir, name, line);
    assert forall|i: int| 0 <= i < s.len() - 1 implies (#[trigger] s[i]).line_count > 0 by { if i >= a.len() { assert(s[i] == b[i - a.len()]); } else { assert(s[i] == a[i]); } }
}

// the templates and the files they are kept in
pub open spec fn is_tpl(i: int) -> bool { 0 <= i < 12 }
pub open spec fn tpl_name(i: int) -> Seq<int> {
    if i == T_license() { @"license.h" } else if i == T_filename_macros() { @"filename_macros.h" } else if i == T_common_header() { @"common.h" } else if i == T_common_body() { @"common.c" }
    else if i == T_c_header() { @"c.h" } else if i == T_c_body() { @"c.c" } else if i == T_cxx_header() { @"cxx.hpp" } else if i == T_cxx_body() { @"cxx.cpp" }
    else if i == T_min_c_header() { @"minimal.h" } else if i == T_min_cxx_header() { @"minimal_cxxeh.hpp" } else if i == T_plugin_header() { @"plugin.h" } else { @"plugin.c" }
}
pub open spec fn fs_dir(f: Fs, p: Seq<int>) -> Fs { Fs { present: f.present.insert(p), ..f } }
pub open spec fn dumped(d: Seq<(Seq<int>, Seq<int>)>, dir: Seq<int>, tp: Seq<Seq<Template>>, n: int) -> Seq<(Seq<int>, Seq<int>)> decreases n {
    if n <= 0 { d } else { dumped(d, dir, tp, n - 1).push((dir + tpl_name(n - 1), dump(tp[n - 1]))) }
}
pub proof fn dumped_all(d: Seq<(Seq<int>, Seq<int>)>, dir: Seq<int>, tp: Seq<Seq<Template>>)
    ensures dumped(d, dir, tp, 12) == d.push((dir + tpl_name(0), dump(tp[0]))).push((dir + tpl_name(1), dump(tp[1]))).push((dir + tpl_name(2), dump(tp[2]))).push((dir + tpl_name(3), dump(tp[3]))).push((dir + tpl_name(4), dump(tp[4]))).push((dir + tpl_name(5), dump(tp[5]))).push((dir + tpl_name(6), dump(tp[6]))).push((dir + tpl_name(7), dump(tp[7]))).push((dir + tpl_name(8), dump(tp[8]))).push((dir + tpl_name(9), dump(tp[9]))).push((dir + tpl_name(10), dump(tp[10]))).push((dir + tpl_name(11), dump(tp[11])))
{ reveal_with_fuel(dumped, 13); }
pub proof fn to_name(dir: Seq<int>) ensures forall|i: int| is_tpl(i) ==> to_of(#[trigger] (dir + tpl_name(i))) == dir + tpl_name(i)
{ assert forall|i: int| is_tpl(i) implies to_of(#[trigger] (dir + tpl_name(i))) == dir + tpl_name(i) by { assert(tpl_name(i).len() >= 3); assert((dir + tpl_name(i)).len() >= 3); } }
