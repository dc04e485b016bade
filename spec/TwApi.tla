------------------------------- MODULE TwApi --------------------------------
(* The browser interface: modules are parsed into objects, options are made  *)
(* by constructors and changed by setters, reports are JSON strings.  What   *)
(* the interface offers, and the command line that asks for the same.        *)
EXTENDS TwOpts

(* Diff options have no constructor and garbage has no report there.         *)
ApiCommands == {"top", "dominators", "paths", "monos"}

ApiSetters(c) ==
    CASE c = "top" -> {<<"max_items", "num">>, <<"retaining_paths", "flag">>, <<"retained", "flag">>}
      [] c = "dominators" -> {<<"max_depth", "num">>, <<"max_rows", "num">>, <<"regex", "flag">>}
      [] c = "paths" -> {<<"add_function", "str">>, <<"max_depth", "num">>, <<"max_paths", "num">>,
                         <<"descending", "flag">>, <<"regex", "flag">>}
      [] c = "monos" -> {<<"only_generics", "flag">>, <<"max_generics", "num">>,
                         <<"max_monos", "num">>}

If(c, ws) == IF c THEN ws ELSE <<>>
(* A command line that asks for the options o, for the file in.wasm.         *)
Words(o) ==
    CASE o.cmd = "top" ->
           <<"top", "-n", o.max_items, "in.wasm">> \o If(o.retaining_paths, <<"-r">>)
           \o If(o.retained, <<"--retained">>)
      [] o.cmd = "dominators" ->
           <<"dominators", "in.wasm", "-d", o.max_depth, "-r", o.max_rows>>
           \o If(o.regex, <<"--regex">>)
      [] o.cmd = "paths" ->
           <<"paths", "-r", o.max_paths, "-d", o.max_depth>> \o If(o.descending, <<"--descending">>)
           \o If(o.regex, <<"--regex">>) \o <<"--", "in.wasm">> \o o.items
      [] o.cmd = "monos" ->
           <<"monos", "in.wasm", "-m", o.max_generics, "-n", o.max_monos>>
           \o If(o.only_generics, <<"-g">>)

(* What a report depends on besides the module.                              *)
Meaning(o) == [k \in DOMAIN Effective(o.cmd, <<>>) \union {"cmd", "items"} |-> o[k]]
=============================================================================
