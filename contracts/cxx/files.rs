// output files. The file system is a set of names (a link counts as a name of its own); std::filesystem and std::ofstream are assumed to work on it as stated
pub struct Fs {
    pub present: Set<Seq<int>>,                   // names that exist
    pub removed: Seq<Seq<int>>,                   // names that were removed, in order
    pub opened: Seq<Seq<int>>,                    // names that were opened for writing, in order
    pub over: Seq<Seq<int>>,                      // those that existed when they were opened
    pub to: Seq<int>,                             // name of the file that is being written, empty for standard output
    pub done: Seq<(Seq<int>, Seq<int>)>,          // files completely written: name and content
}
// names that exist when links are followed
pub uninterp spec fn fs_follow(f: Fs) -> Set<Seq<int>>;
pub open spec fn fs_rm(f: Fs, p: Seq<int>) -> Fs { Fs { present: f.present.remove(p), removed: f.removed.push(p), ..f } }
pub open spec fn fs_open(f: Fs, p: Seq<int>) -> Fs { Fs { present: f.present.insert(p), opened: f.opened.push(p), over: if f.present.contains(p) { f.over.push(p) } else { f.over }, to: p, ..f } }
pub open spec fn fs_done(f: Fs, t: Seq<int>) -> Fs { Fs { done: f.done.push((f.to, t)), ..f } }
pub open spec fn fs_std(f: Fs) -> Fs { Fs { to: Seq::empty(), ..f } }
pub open spec fn is_file(p: Seq<int>) -> bool { p.len() > 0 && p != @"-" }
// dumping a template: one line per entry, the line feeds inside an entry are escaped
pub open spec fn esc_nl(s: Seq<int>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else if s[n - 1] == 10 { esc_nl(s, n - 1) + @"@\n" } else { esc_nl(s, n - 1).push(s[n - 1]) } }
pub open spec fn dump_line(t: Template) -> Seq<int> { (if t.line_count == 1 { t.data } else { esc_nl(t.data, t.data.len() as int) }).push(10) }
pub open spec fn dump_body(s: Seq<Template>) -> Seq<Template> { if starts_with(s[0].data, @"#line") { s.skip(1) } else { s } }
pub open spec fn dump_text(s: Seq<Template>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { dump_text(s, n - 1) + dump_line(s[n - 1]) } }
pub open spec fn dump(s: Seq<Template>) -> Seq<int> { let b = dump_body(s); dump_text(b, b.len() - 1) }
pub open spec fn to_of(p: Seq<int>) -> Seq<int> { if p == @"-" { Seq::empty() } else { p } }
pub proof fn dump_next(s: Seq<Template>, n: int) ensures n >= 0 ==> dump_text(s, n + 1) == dump_text(s, n) + dump_line(s[n]), dump_text(s, 0) == Seq::<int>::empty() {}
pub proof fn esc_next(s: Seq<int>, n: int) ensures n >= 0 ==> esc_nl(s, n + 1) == (if s[n] == 10 { esc_nl(s, n) + @"@\n" } else { esc_nl(s, n).push(s[n]) }), esc_nl(s, 0) == Seq::<int>::empty() {}
pub proof fn dump_wf(s: Seq<Template>) requires wf(s) ensures s.len() > 0, wf(dump_body(s)), dump_body(s).len() > 0 {
    reveal(wf);
    if starts_with(s[0].data, @"#line") { assert(@"#line".len() == 5); assert(s[0].data.len() >= 5); assert(s.len() > 1); assert(s.skip(1).last() == s.last()); }
}
pub open spec fn sep_added(p: Seq<int>) -> Seq<int> { if p.len() == 0 || p.last() == 47 { p } else { p.push(47int) } }
