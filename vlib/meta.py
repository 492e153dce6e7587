"""The properties and the manifest in one place.  `python3 -m vlib.meta' writes
properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CB = "goto-instrument --dfcc function contracts on the code gendlopen generates, discharged by CBMC (SAT)"
VX = "Verus contracts on the C++ functions, translated mechanically from clang's AST on every run, discharged by Z3"


class P:
    def __init__(self, pid, title, statement, over, quant, why, files, mech, technique=None, level_note="", na=None, state=(), observe=()):
        self.__dict__.update(locals())


PROPS = []


def prop(*a, **k):
    PROPS.append(P(*a, **k))


T = "src/templates/"
prop("C01", "Generated C API: the library life cycle is exact",
     "In the C API that gendlopen generates (POSIX), the library handle is set exactly while the library opened through it is open: a load call opens the named library at most once, with the given (or default) flags and namespace, fails without any effect when a library is already loaded or the name is NULL or empty, and succeeds exactly when the library is open afterwards. "
     "Freeing closes an open library exactly once and resets the handle, the path and every symbol pointer; a failed close leaves everything as it was, while the forced free always resets. "
     "Automatic release registers the release function at most once and is never unregistered.",
     ["histories", "inputs", "fault_sequences"], "every sequence of API calls, every argument, every outcome of dlopen/dlclose/atexit",
     "the tests run one fixed sequence of calls against one library that behaves well",
     [T + "c.c", T + "c.h", T + "common.c", T + "common.h"],
     [("gdo_load_lib_args", T + "c.c"), ("gdo_free_lib", T + "c.c"), ("gdo_force_free_lib", T + "c.c"), ("gdo_enable_autorelease", T + "c.c"), ("_gdo_call_dlopen", T + "common.c")],
     CB, "Every function is proved against its contract for every state that satisfies the API's invariant (which every call re-establishes), every argument and every outcome of the dl* calls, so for every call history; per representative symbol list. The native history run is bounded.")
prop("C02", "Generated C API: symbol loading is exact",
     "Every symbol pointer of the generated C API is NULL or the address that the open library has for exactly that listed name. "
     "Loading all symbols succeeds exactly when every symbol is resolved; loading one symbol by number or by name resolves exactly the selected symbol, leaves every other pointer alone, and fails with an error for unknown numbers, unknown, empty or NULL names, or when no library is open. "
     "The all/no/any-loaded queries agree with the pointers, and every symbol has its own number.",
     ["histories", "inputs", "fault_sequences"], "every sequence of API calls, every number and name (of any length), every set of symbols the library lacks",
     "the tests load a complete library and a few names",
     [T + "c.c", T + "c.h"], [("gdo_load_all_symbols", T + "c.c"), ("gdo_load_symbol", T + "c.c"), ("gdo_load_symbol_name", T + "c.c"), ("%%symbol%% expansion", "src/substitute.cpp")],
     CB, "As C01. Names of unbounded length; symbol lists are representative (mixed kinds, common prefixes, names that are prefixes of others).")
prop("C03", "Generated C API: errors are reported, buffers never overflow",
     "Every failing call of the generated C API leaves a non-empty error message, and the last-error query never returns an empty string and keeps an existing message. "
     "The library-path query returns NULL or the non-empty path of the open library. "
     "Whatever the length of file names, symbol names, system error messages and library paths, no call reads or writes outside its buffers and the error and path buffers stay NUL-terminated.",
     ["inputs", "histories", "fault_sequences"], "every call history, strings of any length, every failure of the dl* calls",
     "the tests use short names and one library path",
     [T + "c.c", T + "common.c"], [("_gdo_save_to_errbuf", T + "c.c"), ("gdo_library_path", T + "c.c"), ("_gdo_libpath_dlinfo", T + "c.c"), ("_gdo_fullpath_procmap", T + "common.c")],
     CB, "Memory safety and the message contracts are proved for strings of any length (below 2^40); snprintf, strlen, memcpy, dlinfo, dladdr and PROCMAP_QUERY are contracts in stubs.h.")
prop("C04", "Generated C API: wrappers and automatic loading",
     "Calling a wrapped function calls the real function of that name exactly once, with the same arguments, and returns its result; it never calls through an unresolved pointer. "
     "With automatic loading the library and the symbol (all symbols, or in lazy mode only that one) are loaded first if needed, an open library is not opened again and resolved pointers are not lost; if that fails, a message is printed, the library is released and the process exits with a failure status. Without automatic loading an unresolved symbol is reported and the process aborts.",
     ["inputs", "histories", "fault_sequences"], "every argument value, every load state before the call, every failing load step",
     "the tests call wrappers whose library and symbols exist",
     [T + "c.h", T + "c.c"], [("_gdo_wrap_check_loaded", T + "c.c"), ("GDO_WRAP_<symbol>", T + "c.h")],
     CB, "As C01, in the three modes GDO_WRAP_FUNCTIONS, GDO_ENABLE_AUTOLOAD and GDO_ENABLE_AUTOLOAD_LAZY.")
prop("C05", "Minimal C header: all or nothing",
     "In the generated minimal C header, loading returns NULL exactly when the library is open and every listed symbol is resolved to its own address; otherwise it returns a non-empty message, everything it opened is closed again and the handle and every pointer are NULL. "
     "A NULL or empty file name opens nothing, a valid one is opened at most once, and freeing closes an open library exactly once and resets handle and pointers.",
     ["inputs", "histories", "fault_sequences"], "every load/free history (load only while nothing is loaded), every failing dlopen/dlsym/dlclose",
     "the tests load one library that has every symbol",
     [T + "minimal.h"], [("gdo_load_library_and_symbols", T + "minimal.h"), ("gdo_free_library", T + "minimal.h")],
     CB, "As C01; precondition of the load call: nothing is loaded yet (the header documents one load).")
prop("C06", "Plugin loader: one entry per file",
     "The generated plugin loader returns NULL exactly when there is nothing to load or memory runs out (and then has opened nothing); otherwise it returns one entry per given file, in order: an entry of a NULL or empty name stays empty, any other holds a copy of the name, the handle of the library opened exactly once by that name (or NULL) and, for every listed symbol, that library's address or NULL. "
     "Releasing closes every open library exactly once and frees every name, the list and the structure exactly once; releasing NULL does nothing.",
     ["inputs", "fault_sequences"], "any number of files, every failing dlopen/dlsym/malloc",
     "the test loads two plugins that exist",
     [T + "plugin.c", T + "plugin.h"], [("gdo_load_plugins", T + "plugin.c"), ("gdo_release_plugins", T + "plugin.c")],
     CB + " with loop contracts", "Loop invariants over any number of files; the contracts speak about one arbitrary entry.")
prop("C07", "Option parser: options, values and errors",
     "For every command line, the option parser visits each argument once and in order, accepts -name and --name (a single-letter option that takes a value only with one dash) and takes an option's value from the text after `=', from the next argument or, for one-letter options, from the text directly behind it; the next argument is consumed exactly when it is the value. "
     "A missing or empty value is reported exactly once, naming the option as it was given, and nothing else is reported. It never reads beyond an argument or beyond the argument vector.",
     ["inputs"], "every argument vector and option name",
     "the tests pass well-formed command lines",
     ["src/opt_parser.h", "src/opt_parser++.hpp"], [("opt_iterate", "src/opt_parser.h"), ("opt_arg_eq", "src/opt_parser.h"), ("opt_get_arg", "src/opt_parser.h")],
     CB.replace("the code gendlopen generates", "src/opt_parser.h as it is"), "Arguments of any length; option names of up to 16 bytes; POSIX configuration.")

BB = "; a random black-box run of the tool against an independent oracle stands in for what is not under contract (bounded)"
GEN = "Functions under contract are proved for all inputs; the path from the tool's input to those functions (tokenizer, streams, options) is covered by the bounded black-box runs only as far as the evidence says."

prop("C08", "Declarations: every symbol is read exactly, anything else is an error",
     "Every statement of the input that declares one function, function pointer, array or other object yields exactly one symbol with that name, kind, type and parameter text, in the order of the input. "
     "Comments, preprocessor lines, line continuations, empty statements, struct/union/enum definitions without a declarator and typedefs yield nothing. "
     "A statement with fewer than two tokens, that does not begin with an identifier, that has no symbol name, an initialiser, a body or a character no declaration can hold makes the tool fail with a message and without output.",
     ["inputs"], "every input text",
     "the tests use a handful of headers in one style",
     ["src/tokenize.cpp", "src/parse.cpp", "src/check_pattern.cpp", "src/lex.l"],
     [("tokenize::*", "src/tokenize.cpp"), ("check_prototype", "src/parse.cpp"), ("gendlopen::parse", "src/parse.cpp")], VX + BB, GEN)
prop("C09", "Parameters: split, named and checked exactly",
     "The parameter text of every function is kept unchanged and the list of parameter names has exactly one name per parameter, in order: with -param=read the declared names (also of array, function and function pointer parameters and of the last parameter of a variadic function), with -param=create the generated names a, b, c ..., inserted where the declarator's name belongs, with -param=skip none. "
     "Parameters `void' and none give an empty list; with read and create a parameter that is empty or has no type, and with read one that has no name, make the tool fail; `...' is never listed as a name.",
     ["inputs"], "every parameter list of every declaration",
     "the tests use a few parameter lists",
     ["src/parse.cpp", "src/parameter_names.cpp"], [("get_parameter_names", "src/parameter_names.cpp"), ("create_parameter_names", "src/parameter_names.cpp"), ("copy_parameters", "src/parse.cpp")], VX + BB, GEN)
prop("C10", "Redundant parentheses are removed, all others are kept",
     "In a declaration, a pair of matching parentheses that directly encloses a text which begins with `(' and ends with the matching `)' is dropped, and nothing else is: every other token stays, in order, so the declared name, type and parameters keep their meaning.",
     ["inputs"], "every balanced token sequence, nested to any depth",
     "the tests have two such declarations",
     ["src/tokenize.cpp"], [("remove_superfluous_parentheses", "src/tokenize.cpp")], VX + BB, GEN)
prop("C11", "Selection: exactly the requested symbols",
     "Without -P and -S all symbols are selected. Otherwise exactly the symbols that begin with one of the -P prefixes or are listed with -S are, each once: first the prefixed ones, then the listed ones, each group in the order of the input. "
     "A listed symbol the input does not declare, and a selection without any symbol, make the tool fail with a message (that names the symbol) and without output.",
     ["inputs"], "every set of declarations, prefixes and lists",
     "the tests filter one header",
     ["src/parse.cpp", "src/utils.cpp"], [("gendlopen::parse", "src/parse.cpp"), ("is_prefixed", "src/utils.cpp")], VX + BB, GEN)
prop("C12", "Two declarations of one symbol are rejected",
     "If any two declarations of the input declare the same symbol name - whatever their kinds, positions and types, and whether they are selected or not - the tool fails with a message that names the symbol and writes nothing; if all names differ it does not.",
     ["inputs"], "every list of declarations",
     "the tests have one duplicate",
     ["src/parse.cpp"], [("multiple_definitions", "src/parse.cpp")], VX + BB, GEN)
prop("C13", "Typedefs for array and function pointer objects; formatting changes only spaces",
     "Every array and every function pointer object gets one typedef, `typedef <declaration with the name PREFIX_SYMBOL__t in the symbol's place>;', listed in the order of the objects, and the object has that type; no other symbol gets one. "
     "Formatting types, parameters and typedefs for the output changes only white space.",
     ["inputs"], "every declaration, every prefix",
     "the tests have a few such objects",
     ["src/tokenize.cpp", "src/generate.cpp"], [("gendlopen::create_typedefs", "src/tokenize.cpp")], VX + BB, GEN)
prop("C14", "Templates: every placeholder is replaced exactly",
     "An entry of a template (a line, joined with the next by a trailing @) is written once if it has no placeholder, once per function for %%return%%, %%type%%, %%func_symbol%%, %%func_symbol_pad%%, %%args%%, %%param_names%%, once per object for %%obj_type%%, %%obj_symbol%%, %%obj_symbol_pad%%, and once per symbol (functions first) for %%sym_type%%, %%symbol%%; mixing these groups in one entry is an error. "
     "Every placeholder is replaced by that symbol's text (%%return%% and the space behind it vanish for functions of type void, pointer types take no space, padded names are filled up with spaces to the longest), all other text is kept, and lines between PARAM_SKIP keywords are kept or dropped as -param says.",
     ["inputs"], "every template and symbol list",
     "the tests expand the built-in templates for a few headers",
     ["src/substitute.cpp", "src/utils.cpp"], [("substitute", "src/substitute.cpp"), ("replace", "src/utils.cpp")], VX + BB, GEN)
prop("C15", "-line: #line directives name the right line",
     "With -line, every #line directive in the output gives exactly the number of a line and the file it belongs to: text that comes from a template is numbered as in that template file (joined lines and dropped lines counted), text that gendlopen writes is numbered as in the output file.",
     ["inputs"], "every symbol list, format, output mode and -param mode",
     "no test looks at line numbers",
     ["src/generate.cpp", "src/substitute.cpp"], [("substitute_line", "src/substitute.cpp"), ("gendlopen::substitute", "src/generate.cpp"), ("count_linefeed", "src/utils.cpp")], VX + BB, GEN)
prop("C16", "Template files: joining and the dump/load round trip",
     "A template file is read as its lines, where a line that ends with @ (before the newline) is joined with the next one; lines, bytes and the end of the file are otherwise kept as they are. "
     "-dump-templates writes the built-in templates such that loading them with -templates-path gives, for every input and option, the same output as the built-in ones; a file changed there takes effect and only that one.",
     ["inputs"], "every template text; every input and format for the round trip",
     "no test loads dumped templates",
     ["src/data.cpp", "src/utils.cpp"], [("data::load_template", "src/data.cpp"), ("data::save_to_file", "src/data.cpp")], VX + BB, GEN)
prop("C17", "Output files: nothing is overwritten without -force",
     "With -out, an output path that exists (a file, link, dangling link or directory) makes the run fail and leaves it and everything else as it was, unless -force is given; with -force the path itself (not the target of a link) is replaced by a regular file that holds exactly the output. "
     "No other path is created, changed or removed, and a run that fails for a reason in its input or options changes nothing.",
     ["inputs", "fault_sequences"], "every state of the output paths, with and without -force and -separate",
     "the tests write to fresh paths",
     ["src/generate.cpp", "src/cio_ofstream.cpp"], [("open_ofstream", "src/generate.cpp")], VX + BB, GEN)
prop("C18", "-library: the default library is defined as documented",
     "-library=NAME defines the default library macro and its wide variant as the quoted name, `nq:NAME' as NAME unquoted, `ext:NAME' as the quoted name with the LIBEXT macro, `api:NUM:NAME' as the LIBNAME macro of name and number; modes are recognised in any letter case and only with their colon, quoted names are not quoted again, and without -library no default library is defined.",
     ["inputs"], "every library string",
     "the tests use two forms",
     ["src/generate.cpp"], [("save::default_lib", "src/generate.cpp")], VX + BB, GEN)
prop("C19", "-D and -include: exactly the given lines, in order",
     "For every -D NAME[=VALUE], in order, the output has a definition of NAME as VALUE (verbatim) guarded by #ifndef NAME; definitions without a name are left out. For every -include FILE, in order, it has an #include of FILE: unchanged in quotes or angle brackets, text behind `nq:' unquoted, quoted otherwise, behind the standard headers.",
     ["inputs"], "every list of definitions and files",
     "the tests use one of each",
     ["src/gendlopen.cpp", "src/generate.cpp"], [("add_def", "src/gendlopen.cpp"), ("add_inc", "src/gendlopen.cpp")], VX + BB, GEN)
prop("C20", "-prefix: every generated name and only generated names",
     "With -prefix=P (that begins with a letter or underscore) the output is the one without it, with every word GDO_x, _GDO_x, gdo_x, _gdo_x and gdo renamed to P (upper or lower case, other characters as _), and nothing else changed. "
     "The header guard is named after prefix and file name, and opens and closes the header; it is replaced by #pragma once unless -no-pragma-once is given.",
     ["inputs"], "every prefix, template, file name and symbol list",
     "the tests use one prefix",
     ["src/substitute.cpp", "src/generate.cpp", "src/utils.cpp"], [("to_upper/to_lower", "src/utils.cpp"), ("header_guard_begin", "src/generate.cpp")], VX + BB, GEN)
prop("C21", "Common prefix and variable arguments are detected exactly",
     "The generated common-prefix macro holds the longest common prefix of all selected symbols (empty if there is none or one symbol only), and a HAS_VA_ARGS_<function> macro is defined for exactly the selected functions that take variable arguments themselves.",
     ["inputs"], "every symbol list",
     "the tests have two lists",
     ["src/generate.cpp", "src/gendlopen.cpp"], [("get_common_prefix", "src/generate.cpp")], VX + BB, GEN)
prop("C22", "Clang AST input: the selected declarations, exactly",
     "Given a Clang AST dump, exactly the functions and extern variables selected by -P, -S or -ast-all-symbols are read, once each, with their name, type, parameters and `...'; without any of these options it is an error.",
     ["inputs"], "every AST dump (lines below 10 kB; no parameters of pointer to function pointer type, no functions that return function pointers, no redeclarations)",
     "the tests read one dump",
     ["src/clang_ast.cpp"], [("clang_ast", "src/clang_ast.cpp")], VX + BB, GEN)
prop("C23", "A failed write is reported",
     "If writing the output (to standard output or to files, also of -dump-templates) fails at any point, the tool exits with a failure status and a message; exit status 0 means that the complete output was written.",
     ["inputs", "fault_sequences"], "every output size and every point of failure",
     "no test makes a write fail",
     ["src/generate.cpp", "src/cio_ofstream.cpp", "src/data.cpp"], [("close_ofstream", "src/generate.cpp")], VX + BB, GEN)
prop("C24", "The embedded template data is the template files",
     "For every content of the template files without NUL bytes, the C++ source that the template generator writes compiles to exactly those lines: the bytes of every entry, its number of physical lines and whether it may hold a placeholder.",
     ["inputs"], "every byte sequence in the template files that does not end with @",
     "the build embeds one set of files",
     ["src/gen_templates_data.c"], [("dump", "src/gen_templates_data.c")], "contract with loop invariant on dump(), discharged by CBMC" + BB, "Unbounded: Hoare rule for the only loop of dump(), from the source as it is; template names are those of list.h. Stand-ins replace stdio.")
prop("C25", "Every input is handled: no memory error, no hang, no crash",
     "Whatever the input, templates and options are, gendlopen neither reads nor writes outside its data, dereferences no invalid iterator, and ends with status 0, or with 1 and a message.",
     ["inputs"], "every input of moderate size (lines below 10 kB)",
     "tests use well-formed inputs",
     ["src/tokenize.cpp", "src/parse.cpp", "src/substitute.cpp", "src/utils.cpp", "src/clang_ast.cpp"], [("all functions under contract", "src")], VX + BB,
     "Index, iterator, subtraction and termination obligations of every function under contract; the rest is covered by sanitizer runs (bounded).")
prop("C26", "Options in the input equal options on the command line",
     "An %option line of the input has the same effect as the command line option of that name, -ignore-options makes the tool ignore them, and unknown options, missing values, unknown values of -format and -param (letter case does not matter) and a missing input file are errors, with a message and without output.",
     ["inputs"], "every set of options",
     "the tests use one option line",
     ["src/options.cpp", "src/gendlopen.cpp"], [("parse_options", "src/options.cpp"), ("gendlopen::format", "src/gendlopen.cpp")], VX + BB, GEN)

prop("C27", "Output composition: every format consists of exactly its parts",
     "The output of a format (no custom template) is exactly this sequence and nothing else: notice (dated unless -no-date), licence, #pragma once or include guard, extern \"C\" begin (c, minimal and plugin only), file name macros, "
     "extra defines (those of -D, then with separate files the SEPARATE macro, then default library, common prefix, variable-argument macros), standard and extra includes, typedefs (if any), the expanded templates, and the ends of extern \"C\" and guard. "
     "The templates are common header, common body, header and body of the format; the minimal formats have a single one. "
     "With -separate (which has no effect on standard output and the minimal formats) the common header and the header go into OUT.h or OUT.hpp, and OUT.c or OUT.cpp holds notice, licence, the INCLUDED_IN_BODY macro, an #include of the header, common body and body. "
     "Where the output goes changes only the header name (on standard output prefix plus .h or .hpp), and -line adds only #line lines.",
     ["inputs"], "every symbol list, format, option combination and output path",
     "the tests compile a few outputs and compare none",
     ["src/generate.cpp", "src/data.cpp"], [("gendlopen::generate", "src/generate.cpp"), ("gendlopen::create_template_lists", "src/data.cpp"), ("gendlopen::save_data", "src/generate.cpp")], VX + BB, GEN)

CLAIMED = {"C27", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"}

TODO = "not claimed yet: the contracts on this part are under construction"


def main():
    from .props import PROPS as impl
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p.pid, "title": p.title, "statement": p.statement, "quantifier": {"over": p.over, "text": p.quant},
                 "why_tests_cant": p.why,
                 "anchors": {"files": p.files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in p.state],
                             "mechanism": [dict(name=a, where=b) for a, b in p.mech], "observe_at": list(p.observe), "hook_needed": None}}
            assert len(p.title) <= 80, p.title
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q vlib", "checks": [], "not_applicable": [],
         "notes": "All checks share vlib/runner.py: proof obligations first, then bounded stand-ins (labelled so). See DESIGN.md."}
    for p in PROPS:
        if p.pid in impl and not p.na and (p.pid < "C08" or p.pid in CLAIMED):
            m["checks"].append({"property": p.pid, "quick_cmd": "./check %s quick" % p.pid, "thorough_cmd": "./check %s thorough" % p.pid,
                                "evidence_file": "evidence/%s.json" % p.pid, "technique": p.technique, "level": impl[p.pid].level, "level_note": p.level_note})
        else:
            m["not_applicable"].append({"property": p.pid, "reason": p.na or TODO})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
