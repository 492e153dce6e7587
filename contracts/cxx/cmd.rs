// options.cpp: the command line. The option parser (src/opt_parser.h, src/opt_parser++.hpp): the arguments, the number of the
// argument read last, the current argument and the length of its prefix. C07 proves that the functions of opt_parser.h do this
pub struct Op { pub argv: Seq<Seq<int>>, pub iter: int, pub cur: Seq<int>, pub pfx: int }
pub open spec fn op_start(a: Seq<Seq<int>>) -> Op { Op { argv: a, iter: 0, cur: Seq::empty(), pfx: 0 } }
pub open spec fn op_pfx(a: Seq<int>) -> int { if s_at(a, 0) != 45 || s_at(a, 1) == 0 { 0 } else if s_at(a, 1) != 45 { 1 } else if s_at(a, 2) != 0 { 2 } else { 0 } }
pub open spec fn op_more(o: Op) -> bool { o.iter + 1 < o.argv.len() }
pub open spec fn op_next(o: Op) -> Op { if op_more(o) { Op { iter: o.iter + 1, cur: o.argv[o.iter + 1], pfx: op_pfx(o.argv[o.iter + 1]), ..o } } else { Op { iter: o.iter + 1, ..o } } }
pub open spec fn op_name(o: Op) -> Seq<int> { o.cur.skip(o.pfx) }
pub open spec fn op_flag(o: Op, n: Seq<int>) -> bool { n.len() > 0 && o.pfx != 0 && op_name(o) =~= n }
pub open spec fn op_rest(o: Op, n: Seq<int>) -> Seq<int> { op_name(o).skip(n.len() as int) }
// the option n, which takes a value
pub open spec fn op_takes(o: Op, n: Seq<int>) -> bool {
    n.len() > 0 && o.pfx != 0 && (n.len() != 1 || o.pfx == 1) && starts_with(op_name(o), n) && (op_rest(o, n).len() == 0 || n.len() == 1 || op_rest(o, n)[0] == 61)
}
pub open spec fn op_own(o: Op, n: Seq<int>) -> bool { op_rest(o, n).len() > 0 }
pub open spec fn op_value(o: Op, n: Seq<int>) -> Seq<int> {
    if !op_own(o, n) { if op_more(o) { o.argv[o.iter + 1] } else { Seq::empty() } } else if n.len() == 1 { op_rest(o, n) } else { op_rest(o, n).skip(1) }
}
// it must not be missing or empty
pub open spec fn op_bad(o: Op, n: Seq<int>) -> bool { op_takes(o, n) && op_value(o, n).len() == 0 }
pub open spec fn op_used(o: Op, n: Seq<int>) -> Op { if op_takes(o, n) && !op_own(o, n) { Op { iter: o.iter + 1, ..o } } else { o } }
// what an argument does: a changed object and input file; print help or the version; -dump-templates; an error
pub enum Cm { Go(Gdo, Option<Seq<int>>), Exit, Dump(Seq<int>), Bad }
pub open spec fn on_off(o: Op, g: Gdo) -> Option<Gdo> {
    if op_flag(o, @"ast-all-symbols") { Some(Gdo { m_ast_all_symbols: true, ..g }) } else if op_flag(o, @"force") { Some(Gdo { m_force: true, ..g }) }
    else if op_flag(o, @"ignore-options") { Some(Gdo { m_read_options: false, ..g }) } else if op_flag(o, @"line") { Some(Gdo { m_line_directive: true, ..g }) }
    else if op_flag(o, @"no-date") { Some(Gdo { m_print_date: false, ..g }) } else if op_flag(o, @"no-pragma-once") { Some(Gdo { m_pragma_once: false, ..g }) }
    else if op_flag(o, @"print-symbols") { Some(Gdo { m_print_symbols: true, ..g }) } else if op_flag(o, @"separate") { Some(Gdo { m_separate: true, ..g }) } else { None }
}
pub open spec fn names() -> Seq<Seq<int>> {
    seq![@"D", @"dump-templates", @"format", @"include", @"library", @"out", @"P", @"prefix", @"param", @"S", @"template", @"templates-path"]
}
// the option among names() that the current argument gives a value to
pub open spec fn op_which(o: Op, k: int) -> int decreases 12 - k { if k < 0 || k >= 12 { 12 } else if op_takes(o, names()[k]) { k } else { op_which(o, k + 1) } }
pub open spec fn set_value(g: Gdo, k: int, v: Seq<int>) -> Option<Gdo> {
    if k == 0 { Some(with_def(g, v)) }
    else if k == 2 { match fmt_of(lower(v)) { Some(f) => Some(Gdo { m_format: f, ..g }), None => None } }
    else if k == 3 { Some(Gdo { m_includes: g.m_includes.push(inc_text(v)), ..g }) }
    else if k == 4 { Some(Gdo { m_default_lib: v, ..g }) }
    else if k == 5 { Some(Gdo { m_output: v, ..g }) }
    else if k == 6 { Some(Gdo { m_prefix_list: g.m_prefix_list.push(v), ..g }) }
    else if k == 7 { Some(with_prefix(g, v)) }
    else if k == 8 { match par_of(lower(v)) { Some(f) => Some(Gdo { m_parameter_names: f, ..g }), None => None } }
    else if k == 9 { Some(Gdo { m_symbol_list: g.m_symbol_list.push(v), ..g }) }
    else if k == 10 { Some(Gdo { m_custom_template: v, ..g }) }
    else { Some(Gdo { m_templates_path: if v.last() == 47 { v } else { v.push(47int) }, ..g }) }
}
pub open spec fn cm_step(o: Op, g: Gdo, inp: Option<Seq<int>>) -> Cm {
    let k = op_which(o, 0);
    if o.pfx == 0 { Cm::Go(g, if inp is None { Some(o.cur) } else { inp }) }
    else if op_flag(o, @"?") || op_flag(o, @"help") || op_flag(o, @"full-help") || op_flag(o, @"version") { Cm::Exit }
    else if on_off(o, g) is Some { Cm::Go(on_off(o, g)->Some_0, inp) }
    else if k >= 12 || op_bad(o, names()[k]) { Cm::Bad }
    else if k == 1 { Cm::Dump(op_value(o, names()[k])) }
    else { match set_value(g, k, op_value(o, names()[k])) { Some(h) => Cm::Go(h, inp), None => Cm::Bad } }
}
pub open spec fn op_done(o: Op) -> Op { let k = op_which(o, 0); if 0 <= k < 12 { op_used(o, names()[k]) } else { o } }
pub open spec fn cm_all(o: Op, g: Gdo, inp: Option<Seq<int>>) -> Cm decreases o.argv.len() - o.iter {
    if !op_more(o) { Cm::Go(g, inp) } else { match cm_step(op_next(o), g, inp) { Cm::Go(h, i) => cm_all(op_done(op_next(o)), h, i), x => x } }
}
pub open spec fn cm_result(a: Seq<Seq<int>>, g: Gdo) -> Cm {
    match cm_all(op_start(a), g, None) { Cm::Go(h, i) => if i is Some && i->Some_0.len() > 0 { Cm::Go(Gdo { m_input: i->Some_0, ..h }, i) } else { Cm::Bad }, x => x }
}
pub proof fn which_step(o: Op, k: int, n: Seq<int>)
    requires 0 <= k < 12, names()[k] == n
    ensures op_which(o, k) == (if op_takes(o, n) { k } else { op_which(o, k + 1) })
{}
// how the command line r ends: normally, or with exit(0), or with an error
pub open spec fn cm_ends(r: Cm, threw: int, g1: Gdo, c0: Seq<int>, c1: Seq<int>, fs0: Fs, fs1: Fs, tp0: Seq<Seq<Template>>, tp1: Seq<Seq<Template>>) -> bool {
    match r {
        Cm::Go(h, _) => threw == 0 && g1 == h && c1 == c0 && fs1 == fs0 && tp1 == tp0,
        Cm::Exit => threw == 3 && fs1 == fs0 && tp1 == tp0,
        Cm::Dump(_) => threw != 0,
        Cm::Bad => (threw == 1 || threw == 2) && c1 == c0 && fs1 == fs0 && tp1 == tp0,
    }
}
// the letters that tell the options apart
pub proof fn which_apart(o: Op)
    ensures
        op_takes(o, @"D") ==> op_which(o, 0) == 0,
        op_takes(o, @"dump-templates") ==> op_which(o, 0) == 1,
        op_takes(o, @"format") ==> op_which(o, 0) == 2,
        op_takes(o, @"include") ==> op_which(o, 0) == 3,
        op_takes(o, @"library") ==> op_which(o, 0) == 4,
        op_takes(o, @"out") ==> op_which(o, 0) == 5,
        op_takes(o, @"P") ==> op_which(o, 0) == 6,
        op_takes(o, @"prefix") ==> op_which(o, 0) == 7,
        op_takes(o, @"param") ==> op_which(o, 0) == 8,
        op_takes(o, @"S") ==> op_which(o, 0) == 9,
        op_takes(o, @"template") ==> op_which(o, 0) == 10,
        op_takes(o, @"templates-path") ==> op_which(o, 0) == 11,
        op_flag(o, @"ast-all-symbols") ==> op_which(o, 0) == 12,
        op_flag(o, @"force") ==> op_which(o, 0) == 12,
        op_flag(o, @"ignore-options") ==> op_which(o, 0) == 12,
        op_flag(o, @"line") ==> op_which(o, 0) == 12,
        op_flag(o, @"no-date") ==> op_which(o, 0) == 12,
        op_flag(o, @"no-pragma-once") ==> op_which(o, 0) == 12,
        op_flag(o, @"print-symbols") ==> op_which(o, 0) == 12,
        op_flag(o, @"separate") ==> op_which(o, 0) == 12,
        op_flag(o, @"?") ==> op_which(o, 0) == 12,
        op_flag(o, @"help") ==> op_which(o, 0) == 12,
        op_flag(o, @"full-help") ==> op_which(o, 0) == 12,
        op_flag(o, @"version") ==> op_which(o, 0) == 12,
        op_which(o, 0) != 12 ==> op_takes(o, @"D") || op_takes(o, @"dump-templates") || op_takes(o, @"format") || op_takes(o, @"include") || op_takes(o, @"library") || op_takes(o, @"out") || op_takes(o, @"P") || op_takes(o, @"prefix") || op_takes(o, @"param") || op_takes(o, @"S") || op_takes(o, @"template") || op_takes(o, @"templates-path"),
{
    let m = op_name(o);
    which_step(o, 0, @"D");
    which_step(o, 1, @"dump-templates");
    which_step(o, 2, @"format");
    which_step(o, 3, @"include");
    which_step(o, 4, @"library");
    which_step(o, 5, @"out");
    which_step(o, 6, @"P");
    which_step(o, 7, @"prefix");
    which_step(o, 8, @"param");
    which_step(o, 9, @"S");
    which_step(o, 10, @"template");
    which_step(o, 11, @"templates-path");
    assert(op_which(o, 12) == 12);
    if op_takes(o, @"D") { assert(m.subrange(0, 1)[0] == 68); }
    if op_takes(o, @"dump-templates") { assert(m[0] == 100); assert(m[1] == 117); assert(m[2] == 109); assert(m[3] == 112); assert(m[4] == 45); assert(m[5] == 116); assert(m[6] == 101); assert(m[7] == 109); assert(m[8] == 112); assert(m[9] == 108); assert(m[10] == 97); assert(m[11] == 116); assert(m[12] == 101); assert(m[13] == 115); }
    if op_takes(o, @"format") { assert(m[0] == 102); assert(m[1] == 111); assert(m[2] == 114); assert(m[3] == 109); assert(m[4] == 97); assert(m[5] == 116); }
    if op_takes(o, @"include") { assert(m[0] == 105); assert(m[1] == 110); assert(m[2] == 99); assert(m[3] == 108); assert(m[4] == 117); assert(m[5] == 100); assert(m[6] == 101); }
    if op_takes(o, @"library") { assert(m[0] == 108); assert(m[1] == 105); assert(m[2] == 98); assert(m[3] == 114); assert(m[4] == 97); assert(m[5] == 114); assert(m[6] == 121); }
    if op_takes(o, @"out") { assert(m[0] == 111); assert(m[1] == 117); assert(m[2] == 116); }
    if op_takes(o, @"P") { assert(m.subrange(0, 1)[0] == 80); }
    if op_takes(o, @"prefix") { assert(m[0] == 112); assert(m[1] == 114); assert(m[2] == 101); assert(m[3] == 102); assert(m[4] == 105); assert(m[5] == 120); }
    if op_takes(o, @"param") { assert(m[0] == 112); assert(m[1] == 97); assert(m[2] == 114); assert(m[3] == 97); assert(m[4] == 109); }
    if op_takes(o, @"S") { assert(m.subrange(0, 1)[0] == 83); }
    if op_takes(o, @"template") { assert(m[0] == 116); assert(m[1] == 101); assert(m[2] == 109); assert(m[3] == 112); assert(m[4] == 108); assert(m[5] == 97); assert(m[6] == 116); assert(m[7] == 101); }
    if op_takes(o, @"templates-path") { assert(m[0] == 116); assert(m[1] == 101); assert(m[2] == 109); assert(m[3] == 112); assert(m[4] == 108); assert(m[5] == 97); assert(m[6] == 116); assert(m[7] == 101); assert(m[8] == 115); assert(m[9] == 45); assert(m[10] == 112); assert(m[11] == 97); assert(m[12] == 116); assert(m[13] == 104); }
    if op_flag(o, @"ast-all-symbols") { assert(m[0] == 97); assert(m[1] == 115); assert(m[2] == 116); assert(m[3] == 45); assert(m[4] == 97); assert(m[5] == 108); assert(m[6] == 108); assert(m[7] == 45); assert(m[8] == 115); assert(m[9] == 121); assert(m[10] == 109); assert(m[11] == 98); assert(m[12] == 111); assert(m[13] == 108); assert(m[14] == 115); }
    if op_flag(o, @"force") { assert(m[0] == 102); assert(m[1] == 111); assert(m[2] == 114); assert(m[3] == 99); assert(m[4] == 101); }
    if op_flag(o, @"ignore-options") { assert(m[0] == 105); assert(m[1] == 103); assert(m[2] == 110); assert(m[3] == 111); assert(m[4] == 114); assert(m[5] == 101); assert(m[6] == 45); assert(m[7] == 111); assert(m[8] == 112); assert(m[9] == 116); assert(m[10] == 105); assert(m[11] == 111); assert(m[12] == 110); assert(m[13] == 115); }
    if op_flag(o, @"line") { assert(m[0] == 108); assert(m[1] == 105); assert(m[2] == 110); assert(m[3] == 101); }
    if op_flag(o, @"no-date") { assert(m[0] == 110); assert(m[1] == 111); assert(m[2] == 45); assert(m[3] == 100); assert(m[4] == 97); assert(m[5] == 116); assert(m[6] == 101); }
    if op_flag(o, @"no-pragma-once") { assert(m[0] == 110); assert(m[1] == 111); assert(m[2] == 45); assert(m[3] == 112); assert(m[4] == 114); assert(m[5] == 97); assert(m[6] == 103); assert(m[7] == 109); assert(m[8] == 97); assert(m[9] == 45); assert(m[10] == 111); assert(m[11] == 110); assert(m[12] == 99); assert(m[13] == 101); }
    if op_flag(o, @"print-symbols") { assert(m[0] == 112); assert(m[1] == 114); assert(m[2] == 105); assert(m[3] == 110); assert(m[4] == 116); assert(m[5] == 45); assert(m[6] == 115); assert(m[7] == 121); assert(m[8] == 109); assert(m[9] == 98); assert(m[10] == 111); assert(m[11] == 108); assert(m[12] == 115); }
    if op_flag(o, @"separate") { assert(m[0] == 115); assert(m[1] == 101); assert(m[2] == 112); assert(m[3] == 97); assert(m[4] == 114); assert(m[5] == 97); assert(m[6] == 116); assert(m[7] == 101); }
    if op_flag(o, @"?") { assert(m[0] == 63); }
    if op_flag(o, @"help") { assert(m[0] == 104); assert(m[1] == 101); assert(m[2] == 108); assert(m[3] == 112); }
    if op_flag(o, @"full-help") { assert(m[0] == 102); assert(m[1] == 117); assert(m[2] == 108); assert(m[3] == 108); assert(m[4] == 45); assert(m[5] == 104); assert(m[6] == 101); assert(m[7] == 108); assert(m[8] == 112); }
    if op_flag(o, @"version") { assert(m[0] == 118); assert(m[1] == 101); assert(m[2] == 114); assert(m[3] == 115); assert(m[4] == 105); assert(m[5] == 111); assert(m[6] == 110); }
}
pub proof fn flags_apart(o: Op, g: Gdo)
    ensures
        op_flag(o, @"ast-all-symbols") ==> on_off(o, g) == Some(Gdo { m_ast_all_symbols: true, ..g }),
        op_flag(o, @"force") ==> on_off(o, g) == Some(Gdo { m_force: true, ..g }),
        op_flag(o, @"ignore-options") ==> on_off(o, g) == Some(Gdo { m_read_options: false, ..g }),
        op_flag(o, @"line") ==> on_off(o, g) == Some(Gdo { m_line_directive: true, ..g }),
        op_flag(o, @"no-date") ==> on_off(o, g) == Some(Gdo { m_print_date: false, ..g }),
        op_flag(o, @"no-pragma-once") ==> on_off(o, g) == Some(Gdo { m_pragma_once: false, ..g }),
        op_flag(o, @"print-symbols") ==> on_off(o, g) == Some(Gdo { m_print_symbols: true, ..g }),
        op_flag(o, @"separate") ==> on_off(o, g) == Some(Gdo { m_separate: true, ..g }),
        op_flag(o, @"?") ==> on_off(o, g) is None,
        op_flag(o, @"help") ==> on_off(o, g) is None,
        op_flag(o, @"full-help") ==> on_off(o, g) is None,
        op_flag(o, @"version") ==> on_off(o, g) is None,
        op_which(o, 0) != 12 ==> on_off(o, g) is None && !op_flag(o, @"?") && !op_flag(o, @"help") && !op_flag(o, @"full-help") && !op_flag(o, @"version"),
{
    which_apart(o);
    let m = op_name(o);
    if op_flag(o, @"ast-all-symbols") { assert(m[0] == 97); assert(m[1] == 115); assert(m[2] == 116); assert(m[3] == 45); }
    if op_flag(o, @"force") { assert(m[0] == 102); assert(m[1] == 111); assert(m[2] == 114); assert(m[3] == 99); }
    if op_flag(o, @"ignore-options") { assert(m[0] == 105); assert(m[1] == 103); assert(m[2] == 110); assert(m[3] == 111); }
    if op_flag(o, @"line") { assert(m[0] == 108); assert(m[1] == 105); assert(m[2] == 110); assert(m[3] == 101); }
    if op_flag(o, @"no-date") { assert(m[0] == 110); assert(m[1] == 111); assert(m[2] == 45); assert(m[3] == 100); }
    if op_flag(o, @"no-pragma-once") { assert(m[0] == 110); assert(m[1] == 111); assert(m[2] == 45); assert(m[3] == 112); }
    if op_flag(o, @"print-symbols") { assert(m[0] == 112); assert(m[1] == 114); assert(m[2] == 105); assert(m[3] == 110); }
    if op_flag(o, @"separate") { assert(m[0] == 115); assert(m[1] == 101); assert(m[2] == 112); assert(m[3] == 97); }
    if op_flag(o, @"?") { assert(m[0] == 63); }
    if op_flag(o, @"help") { assert(m[0] == 104); assert(m[1] == 101); assert(m[2] == 108); assert(m[3] == 112); }
    if op_flag(o, @"full-help") { assert(m[0] == 102); assert(m[1] == 117); assert(m[2] == 108); assert(m[3] == 108); }
    if op_flag(o, @"version") { assert(m[0] == 118); assert(m[1] == 101); assert(m[2] == 114); assert(m[3] == 115); }
}
// one argument
pub proof fn cm_once(o: Op, g: Gdo, inp: Option<Seq<int>>)
    ensures
        o.pfx == 0 ==> cm_step(o, g, inp) == Cm::Go(g, if inp is None { Some(o.cur) } else { inp }) && op_done(o) == o,
        o.pfx != 0 && (op_flag(o, @"?") || op_flag(o, @"help") || op_flag(o, @"full-help") || op_flag(o, @"version")) ==> cm_step(o, g, inp) is Exit,
        op_flag(o, @"ast-all-symbols") ==> cm_step(o, g, inp) == Cm::Go(Gdo { m_ast_all_symbols: true, ..g }, inp) && op_done(o) == o,
        op_flag(o, @"force") ==> cm_step(o, g, inp) == Cm::Go(Gdo { m_force: true, ..g }, inp) && op_done(o) == o,
        op_flag(o, @"ignore-options") ==> cm_step(o, g, inp) == Cm::Go(Gdo { m_read_options: false, ..g }, inp) && op_done(o) == o,
        op_flag(o, @"line") ==> cm_step(o, g, inp) == Cm::Go(Gdo { m_line_directive: true, ..g }, inp) && op_done(o) == o,
        op_flag(o, @"no-date") ==> cm_step(o, g, inp) == Cm::Go(Gdo { m_print_date: false, ..g }, inp) && op_done(o) == o,
        op_flag(o, @"no-pragma-once") ==> cm_step(o, g, inp) == Cm::Go(Gdo { m_pragma_once: false, ..g }, inp) && op_done(o) == o,
        op_flag(o, @"print-symbols") ==> cm_step(o, g, inp) == Cm::Go(Gdo { m_print_symbols: true, ..g }, inp) && op_done(o) == o,
        op_flag(o, @"separate") ==> cm_step(o, g, inp) == Cm::Go(Gdo { m_separate: true, ..g }, inp) && op_done(o) == o,
        op_bad(o, @"D") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"D") && !op_bad(o, @"D") ==> op_done(o) == op_used(o, @"D") && cm_step(o, g, inp) == (match set_value(g, 0, op_value(o, @"D")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"dump-templates") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"dump-templates") && !op_bad(o, @"dump-templates") ==> cm_step(o, g, inp) == Cm::Dump(op_value(o, @"dump-templates")),
        op_bad(o, @"format") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"format") && !op_bad(o, @"format") ==> op_done(o) == op_used(o, @"format") && cm_step(o, g, inp) == (match set_value(g, 2, op_value(o, @"format")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"include") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"include") && !op_bad(o, @"include") ==> op_done(o) == op_used(o, @"include") && cm_step(o, g, inp) == (match set_value(g, 3, op_value(o, @"include")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"library") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"library") && !op_bad(o, @"library") ==> op_done(o) == op_used(o, @"library") && cm_step(o, g, inp) == (match set_value(g, 4, op_value(o, @"library")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"out") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"out") && !op_bad(o, @"out") ==> op_done(o) == op_used(o, @"out") && cm_step(o, g, inp) == (match set_value(g, 5, op_value(o, @"out")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"P") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"P") && !op_bad(o, @"P") ==> op_done(o) == op_used(o, @"P") && cm_step(o, g, inp) == (match set_value(g, 6, op_value(o, @"P")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"prefix") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"prefix") && !op_bad(o, @"prefix") ==> op_done(o) == op_used(o, @"prefix") && cm_step(o, g, inp) == (match set_value(g, 7, op_value(o, @"prefix")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"param") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"param") && !op_bad(o, @"param") ==> op_done(o) == op_used(o, @"param") && cm_step(o, g, inp) == (match set_value(g, 8, op_value(o, @"param")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"S") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"S") && !op_bad(o, @"S") ==> op_done(o) == op_used(o, @"S") && cm_step(o, g, inp) == (match set_value(g, 9, op_value(o, @"S")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"template") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"template") && !op_bad(o, @"template") ==> op_done(o) == op_used(o, @"template") && cm_step(o, g, inp) == (match set_value(g, 10, op_value(o, @"template")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        op_bad(o, @"templates-path") ==> cm_step(o, g, inp) is Bad,
        op_takes(o, @"templates-path") && !op_bad(o, @"templates-path") ==> op_done(o) == op_used(o, @"templates-path") && cm_step(o, g, inp) == (match set_value(g, 11, op_value(o, @"templates-path")) { Some(h) => Cm::Go(h, inp), None => Cm::Bad }),
        o.pfx != 0 && !op_takes(o, @"D") && !op_takes(o, @"dump-templates") && !op_takes(o, @"format") && !op_takes(o, @"include") && !op_takes(o, @"library") && !op_takes(o, @"out") && !op_takes(o, @"P") && !op_takes(o, @"prefix") && !op_takes(o, @"param") && !op_takes(o, @"S") && !op_takes(o, @"template") && !op_takes(o, @"templates-path") && !op_flag(o, @"ast-all-symbols") && !op_flag(o, @"force") && !op_flag(o, @"ignore-options") && !op_flag(o, @"line") && !op_flag(o, @"no-date") && !op_flag(o, @"no-pragma-once") && !op_flag(o, @"print-symbols") && !op_flag(o, @"separate") && !op_flag(o, @"?") && !op_flag(o, @"help") && !op_flag(o, @"full-help") && !op_flag(o, @"version") ==> cm_step(o, g, inp) is Bad,
{
    which_apart(o); flags_apart(o, g);
    which_step(o, 0, @"D");
    which_step(o, 1, @"dump-templates");
    which_step(o, 2, @"format");
    which_step(o, 3, @"include");
    which_step(o, 4, @"library");
    which_step(o, 5, @"out");
    which_step(o, 6, @"P");
    which_step(o, 7, @"prefix");
    which_step(o, 8, @"param");
    which_step(o, 9, @"S");
    which_step(o, 10, @"template");
    which_step(o, 11, @"templates-path");
}
pub proof fn cm_go(o: Op, g: Gdo, inp: Option<Seq<int>>)
    ensures
        !op_more(o) ==> cm_all(o, g, inp) == Cm::Go(g, inp),
        op_more(o) && cm_step(op_next(o), g, inp) is Go ==> cm_all(o, g, inp) == cm_all(op_done(op_next(o)), cm_step(op_next(o), g, inp)->Go_0, cm_step(op_next(o), g, inp)->Go_1),
        op_more(o) && !(cm_step(op_next(o), g, inp) is Go) ==> cm_all(o, g, inp) == cm_step(op_next(o), g, inp),
{}
// an %option string s has the effect of the command line argument -s or --s (D=v that of -Dv)
pub proof fn same_as_option(o: Op, g: Gdo, inp: Option<Seq<int>>, s: Seq<int>)
    requires o.pfx != 0, opt_step(g, s) is Some,
        is_opt(s, @"D=") ==> o.pfx == 1 && op_name(o) =~= s1(68) + opt_arg(s, @"D="), !is_opt(s, @"D=") ==> op_name(o) == s
    ensures cm_step(o, g, inp) == Cm::Go(opt_step(g, s)->Some_0, inp), op_done(o) == o
{
    hide(fmt_of); hide(par_of); hide(lower); hide(with_def); hide(with_prefix); hide(inc_text); hide(def_lines); hide(cm_step); hide(op_done); hide(op_which); hide(on_off); hide(names);
    cm_once(o, g, inp);
    if is_opt(s, @"D=") {
        assert(op_name(o).subrange(0, 1) =~= @"D"); assert(op_takes(o, @"D")); assert(op_rest(o, @"D") =~= opt_arg(s, @"D="));
        assert(s.subrange(0, 2)[0] == 68);
    }
    else if is_opt(s, @"format=") {
        let r = op_rest(o, @"format");
        assert(s.subrange(0, 7)[6] == 61); assert(s.subrange(0, 6) =~= s.subrange(0, 7).subrange(0, 6)); assert(s.subrange(0, 6) =~= @"format");
        assert(r[0] == s[6]); assert(op_takes(o, @"format")); assert(r.skip(1) =~= opt_arg(s, @"format=")); assert(op_value(o, @"format") =~= opt_arg(s, @"format="));
    }
    else if is_opt(s, @"include=") {
        let r = op_rest(o, @"include");
        assert(s.subrange(0, 8)[7] == 61); assert(s.subrange(0, 7) =~= s.subrange(0, 8).subrange(0, 7)); assert(s.subrange(0, 7) =~= @"include");
        assert(r[0] == s[7]); assert(op_takes(o, @"include")); assert(r.skip(1) =~= opt_arg(s, @"include=")); assert(op_value(o, @"include") =~= opt_arg(s, @"include="));
    }
    else if is_opt(s, @"library=") {
        let r = op_rest(o, @"library");
        assert(s.subrange(0, 8)[7] == 61); assert(s.subrange(0, 7) =~= s.subrange(0, 8).subrange(0, 7)); assert(s.subrange(0, 7) =~= @"library");
        assert(r[0] == s[7]); assert(op_takes(o, @"library")); assert(r.skip(1) =~= opt_arg(s, @"library=")); assert(op_value(o, @"library") =~= opt_arg(s, @"library="));
    }
    else if is_opt(s, @"param=") {
        let r = op_rest(o, @"param");
        assert(s.subrange(0, 6)[5] == 61); assert(s.subrange(0, 5) =~= s.subrange(0, 6).subrange(0, 5)); assert(s.subrange(0, 5) =~= @"param");
        assert(r[0] == s[5]); assert(op_takes(o, @"param")); assert(r.skip(1) =~= opt_arg(s, @"param=")); assert(op_value(o, @"param") =~= opt_arg(s, @"param="));
    }
    else if is_opt(s, @"prefix=") {
        let r = op_rest(o, @"prefix");
        assert(s.subrange(0, 7)[6] == 61); assert(s.subrange(0, 6) =~= s.subrange(0, 7).subrange(0, 6)); assert(s.subrange(0, 6) =~= @"prefix");
        assert(r[0] == s[6]); assert(op_takes(o, @"prefix")); assert(r.skip(1) =~= opt_arg(s, @"prefix=")); assert(op_value(o, @"prefix") =~= opt_arg(s, @"prefix="));
    }
}
