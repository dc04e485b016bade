------------------------------- MODULE MCOpts -------------------------------
(* Every command line of up to MaxFlags flags for every command: each flag   *)
(* in each of its spellings, in every order, the positional arguments before *)
(* or behind.  Checked: order does not matter, a flag changes what it is     *)
(* about and nothing else, setters do the same.  Each line is printed, to be *)
(* replayed against the implementation.                                      *)
EXTENDS TwOpts, Json

CONSTANT MaxFlags

Sample(kind) == CASE kind = "num" -> "7" [] kind = "mode" -> "wasm" [] kind = "fmt" -> "csv"
                  [] kind = "dest" -> "out"

(* The ways to write flag f: sequences of words.                             *)
Ways(f) == UNION {IF f.kind = "flag" THEN {<<nm>>}
                  ELSE {<<nm, Sample(f.kind)>>, <<nm \o "=" \o Sample(f.kind)>>}
                       \union (IF Len(nm) = 2 THEN {<<nm \o Sample(f.kind)>>} ELSE {})
                  : nm \in f.names}

VARIABLES cmd, flags, behind
vars == <<cmd, flags, behind>>
(* flags: sequence of <<flag, words>>                                        *)

Init == /\ cmd \in Commands /\ flags = <<>> /\ behind \in BOOLEAN
Add == /\ Len(flags) < MaxFlags
       /\ \E f \in Flags(cmd) : /\ \A i \in DOMAIN flags : flags[i][1] # f
                                /\ \E w \in Ways(f) : flags' = Append(flags, <<f, w>>)
       /\ UNCHANGED <<cmd, behind>>
Next == Add
Spec == Init /\ [][Next]_vars

Positional == <<"in.wasm">> \o (IF cmd = "diff" THEN <<"new.wasm">> ELSE <<>>)
              \o (IF Selects(cmd) THEN <<"x">> ELSE <<>>)
Line(fs) == LET ws == FlattenSeq([i \in DOMAIN fs |-> fs[i][2]])
            IN IF behind THEN <<cmd>> \o ws \o Positional ELSE <<cmd>> \o Positional \o ws

Res(fs) == ParseCommand(Line(fs))

(* What a flag is about.                                                     *)
Affects(key) == CASE key = "all" -> {"max_items", "max_generics", "max_monos"}
                  [] key = "all_generics" -> {"max_generics"}
                  [] key = "all_monos" -> {"max_monos"}
                  [] OTHER -> {key}

Accepted == ~ Res(flags).err
Unordered == flags # <<>> => Res(flags) = Res(Reverse(flags))
Local == flags # <<>> =>
    LET a == Res(SubSeq(flags, 1, Len(flags) - 1))
        b == Res(flags)
        f == flags[Len(flags)][1]
    IN \A k \in DOMAIN a : k \notin Affects(f.key) => a[k] = b[k]
Effect == \A i \in DOMAIN flags :
    LET f == flags[i][1]
        o == Res(flags)
        alls == \E j \in DOMAIN flags : /\ flags[j][1].key \in {"all", "all_generics", "all_monos"}
                                        /\ f.key \in Affects(flags[j][1].key)
    IN CASE f.key \in {"all", "all_generics", "all_monos"} ->
              \A k \in Affects(f.key) \intersect DOMAIN o : o[k] = NumMax
         [] f.kind = "flag" -> o[f.key] = TRUE
         [] OTHER -> o[f.key] = IF alls THEN NumMax ELSE ValueOf(f.kind, Sample(f.kind))
(* A flag given by setter ends in the same options.                          *)
SetterSame == flags # <<>> =>
    LET f == flags[Len(flags)][1]
        a == Res(SubSeq(flags, 1, Len(flags) - 1))
        b == Res(flags)
        alls == \E j \in DOMAIN flags : flags[j][1].key \in {"all", "all_generics", "all_monos"}
    IN f.kind \in {"num", "flag"} /\ f.key \in DOMAIN a /\ ~ alls
       => SetOpt(a, f.key, IF f.kind = "num" THEN "7" ELSE TRUE) = b

Emit == PrintT(<<"EMIT", ToJson(Line(flags))>>)
=============================================================================
