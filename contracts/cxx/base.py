# utils.cpp / utils.hpp
C("utils::count_linefeed", "utils.cpp", [P("str", STR)], ret=INT,
  ens=[("the number of line feeds is counted", "ret == count_of(str_in, 10int)", "C15")],
  loops={0: dict(inv=["$n == count_of(str.subrange(0, $i), 10int)"],
                 end=["assert(str.subrange(0, $i + 1) =~= str.subrange(0, $i).push(str[$i])); count_push(str.subrange(0, $i), str[$i], 10int);"],
                 after=["assert(str.subrange(0, str.len() as int) =~= str);"])})

def case(name, spec, us):
    C("utils::" + name, "utils.cpp", [P("str", STR), P("underscores", BOOL, default="true")], ret=STR, req=["chars(str_in)"],
      ens=[("characters are converted one by one", "ret == (if underscores_in { %s(str_in) } else { %s(str_in) })" % (us, spec), "C20"),
           ("the result consists of characters", "chars(ret)", "C20")],
      loops={k: dict(inv=["$out == %s(str.subrange(0, $i))" % s], end=["assert(-128 <= str[$i] < 128); assert(%s(str.subrange(0, $i + 1)) =~= %s(str.subrange(0, $i)).push(%s(str)[$i]));" % (s, s, s)],
                     after=["assert(str.subrange(0, str.len() as int) =~= str);"]) for k, s in enumerate((us, spec))})


case("to_upper", "upper", "up_us")
case("to_lower", "lower", "low_us")

C("utils::is_prefixed", "utils.cpp", [P("s", STR), P("list", STRV)], ret=BOOL,
  ens=[("true exactly if some prefix in the list matches", "ret == prefixed(s_in, list_in)", "C11")],
  loops={0: dict(inv=["forall|j: int| 0 <= j < $i ==> !starts_with(s, #[trigger] list[j])"], **{"return": ["assert(starts_with(s, list[$i]));"]})})

C("utils::strip_spaces", "utils.cpp", [P("s", STR, inout=True)],
  ens=[("white space is removed from both ends and nothing else", "s_out == strip(s_in)", "C13")],
  loops={0: dict(inv=["rstrip(s) == rstrip(s_in)"], dec="s.len()"),
         1: dict(inv=["lstrip(s) == lstrip(rstrip(s_in))"], dec="s.len()",
                 begin=["assert(str_erase(s, 0, 1) =~= s.skip(1));"])})

C("utils::replace", "utils.cpp", [P("from", STR), P("to", STR), P("str", STR, inout=True)],
  req=["from_in.len() > 0"],
  ens=[("every occurrence is replaced, from left to right, and nothing else is changed", "str_out == repl(from_in, to_in, str_in, 0)", "C14")],
  ghost=[("k", "int", "0"), ("q", "int", "0")],
  hints={"entry": ["repl_begin(from, to, str_in);"]},
  loops={0: dict(inv=["$pos == q", "rinv(from, to, str_in, str, q, k)"], exit_only=["str == repl(from, to, str_in, 0)"], dec="str_in.len() - k",
                 cond_break=["repl_end(from, to, str_in, str, q, k);"], begin=["repl_next(from, to, str_in, str, q, k);"],
                 end=["k = str_find(str_in, from, k) + from.len(); q = $pos;"])})

C("utils::append_missing_separator", "utils.cpp", [P("path", STR, inout=True)],
  ens=[("a separator is appended unless there is one or the path is empty",
        "path_out == (if path_in.len() == 0 || path_in.last() == 47 { path_in } else { path_in.push(47int) })", "C16")])
C("utils::sort_dedup", "parse.cpp", [P("list", STRV, inout=True)], axiom=True, note="only used for the text of an error message")
C("print_tokens", "parse.cpp", [P("v", STRV)], axiom=True, note="prints the tokens to standard error")
