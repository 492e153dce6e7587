# generate.cpp, data.cpp: output files
deps("base", "text", "save", "subst")
C("fs::remove", "generate.cpp", [P("p", STR)], ret=BOOL, modifies=["fs"], throws=True, axiom=True,
  ens=[("the name is gone", "threw == 0 ==> fs_out == fs_rm(fs_in, p_in)"), ("an error changes nothing", "threw != 0 ==> fs_out == fs_in")])
C("cio::ofstream::open", "generate.cpp", [P("p", STR)], ret=BOOL, modifies=["ofs", "fs"], axiom=True,
  ens=[("written to the file", "ret ==> fs_out == fs_open(fs_in, p_in) && ofs_out == Seq::<int>::empty()"), ("not opened", "!ret ==> fs_out == fs_std(fs_in)")])
C("cio::ofstream::open_string", "data.cpp", [P("p", STR)], ret=BOOL, modifies=["ofs", "fs"], axiom=True,
  ens=[("written to the file", "ret && p_in != @\"-\" ==> fs_out == fs_open(fs_in, p_in)"), ("nothing written yet", "ret ==> ofs_out == Seq::<int>::empty()"), ("not opened", "!ret || p_in == @\"-\" ==> fs_out == fs_std(fs_in)")])
C("cio::ofstream::close", "generate.cpp", [], modifies=["ofs", "fs"], axiom=True,
  ens=[("standard output again", "fs_out == fs_std(fs_in)"), ("text", "ofs_out == (if fs_in.to.len() == 0 { ofs_in } else { Seq::empty() })")])
C("cio::ofstream::flush", "generate.cpp", [], ret=BOOL, reads=["ofs"], modifies=["fs"], axiom=True,
  ens=[("everything has been written", "ret ==> fs_out == fs_done(fs_in, ofs_in)"), ("a write has failed", "!ret ==> fs_out == fs_in")])
C("save::open_ofstream", "generate.cpp", [P("opath", STR), P("force", BOOL)], modifies=["ofs", "fs"], throws=True, prop="C17", req=["fs_in.to.len() == 0", "ofs_in.len() == 0"],
  hints={"entry": ["assert(fs.to =~= Seq::<int>::empty()); assert(ofs =~= Seq::<int>::empty());"]},
  ens=[("without -force an existing name is an error", "threw == 0 && is_file(opath_in) && !force_in ==> !fs_in.present.contains(opath_in)"),
       ("no existing file is written to", "fs_out.over == fs_in.over"),
       ("nothing is removed, except the name itself with -force", "fs_out.removed == fs_in.removed || force_in && is_file(opath_in) && fs_out.removed == fs_in.removed.push(opath_in)"),
       ("only the name itself is opened", "fs_out.opened == (if threw == 0 && is_file(opath_in) { fs_in.opened.push(opath_in) } else { fs_in.opened })"),
       ("standard output takes no file", "!is_file(opath_in) ==> threw == 0 && fs_out == fs_in && ofs_out.len() == 0"),
       ("the output goes to the name", "threw == 0 && is_file(opath_in) ==> fs_out.to == opath_in && ofs_out.len() == 0"),
       ("nothing is written yet", "fs_out.done == fs_in.done")])
C("save::close_ofstream", "generate.cpp", [P("opath", STR)], modifies=["ofs", "fs"], throws=True, prop="C23",
  ens=[("without an error everything has been written", "threw == 0 ==> fs_out == fs_std(fs_done(fs_in, ofs_in))"),
       ("text", "threw == 0 ==> ofs_out == (if fs_in.to.len() == 0 { ofs_in } else { Seq::empty() })"),
       ("an error counts as not written", "threw != 0 ==> fs_out.done == fs_in.done"),
       ("nothing is opened or removed", "fs_out.over == fs_in.over && fs_out.opened == fs_in.opened && fs_out.removed == fs_in.removed", "C17")])
C("save_to_file", "data.cpp", [P("path", STR), P("filename", CSTR), P("list", TPTR)], modifies=["cout", "fs"], throws=True, prop="C16", req=["wf(list_in)"],
  hide=["wf", "esc_nl", "dump_text"],
  ghost=[("b", "Seq<Template>", "dump_body(list_in)"), ("f0", "Fs", "fs_in")],
  hints={"entry": ["dump_wf(list); dump_next(b, 0);"]},
  loops={0: dict(before=["f0 = fs; wf_at(b, 0); assert(list == b); assert(list =~= b.skip(0)); assert($ofs =~= Seq::<int>::empty());"],
                 inv=["1 <= list.len() <= b.len()", "list == b.skip(b.len() - list.len())", "$ofs == dump_text(b, b.len() - list.len())", "fs == f0", "f0.done == fs_in.done", "f0.to == to_of(sep_added(path_in) + filename_in)"], dec="list.len()",
                 begin=["let n = b.len() - list.len(); wf_at(b, n); assert(list[0] == b[n]); dump_next(b, n); assert(list.skip(1) =~= b.skip(n + 1));"],
                 end=["let n = b.len() - list.len(); assert($ofs =~= dump_text(b, n) + dump_line(b[n]));"],
                 after=["let n = b.len() - list.len(); wf_at(b, n); assert(list[0] == b[n]);"]),
         1: dict(before=["esc_next(list[0].data, 0); assert($ofs + Seq::<int>::empty() =~= $ofs);"], inv=["fs == f0", "$ofs == dump_text(b, b.len() - list.len()) + esc_nl(list[0].data, $i)"],
                 end=["esc_next(list[0].data, $i);"], begin=["esc_next(list[0].data, $i);"])},
  ens=[("without an error the whole template has been written to the file", "threw == 0 ==> fs_out.done == fs_in.done.push((to_of(sep_added(path_in) + filename_in), dump(list_in)))")])
