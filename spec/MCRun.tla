------------------------------- MODULE MCRun --------------------------------
(* Every run of the command that meets some combination of faults. Each      *)
(* combination is printed and realised with the real command.                *)
EXTENDS TwRun, Json

CONSTANT L      \* length of the report, in pieces

X == <<120, 46>>                \* x.
Good == { [there |-> TRUE,  name |-> X \o WasmExt, head |-> Magic, wasm |-> TRUE,  object |-> FALSE],
          [there |-> TRUE,  name |-> X \o <<111>>, head |-> <<127, 69, 76, 70>>, wasm |-> FALSE, object |-> TRUE] }
Bad  == { [there |-> FALSE, name |-> X \o WasmExt, head |-> Magic, wasm |-> TRUE,  object |-> FALSE],
          [there |-> TRUE,  name |-> X \o WasmExt, head |-> Magic, wasm |-> FALSE, object |-> FALSE],
          [there |-> TRUE,  name |-> X \o WasmExt, head |-> <<127, 69, 76, 70>>, wasm |-> FALSE, object |-> TRUE] }
One == {<<i>> : i \in Good \union Bad}
Two == {<<i, j>> : i, j \in Good \union Bad}

Dests == { [dest |-> "stdout", place |-> p, opens |-> TRUE, caps |-> c] :
             <<p, c>> \in { <<"pipe", {-1}>>, <<"closed", {0}>>, <<"full", {0}>>,
                            <<"file", {-1, 0, 1, L - 1, L}>> } }
         \union
         { [dest |-> "path", place |-> p, opens |-> TRUE, caps |-> c] :
             <<p, c>> \in { <<"new", {-1, 0, 1, L - 1, L}>>, <<"old", {-1, 0, 1, L - 1, L}>>,
                            <<"longer", {-1, L - 1}>>, <<"link", {-1, 1}>>, <<"input", {-1}>>,
                            <<"full", {0}>> } }
         \union
         { [dest |-> "path", place |-> p, opens |-> FALSE, caps |-> {-1}] :
             p \in {"nodir", "isdir", "denied", "under-file"} }

Configs ==
    UNION { { [opts |-> o, mode |-> m, ins |-> i, ana |-> a, dest |-> d.dest, place |-> d.place,
               opens |-> d.opens, cap |-> c, len |-> L] :
              o \in {"good", "bad", "help"}, m \in {"auto", "wasm", "dwarf", "WASM"},
              i \in One \union Two, a \in {"good", "bad"}, c \in d.caps } : d \in Dests }

(* Whether a help text arrives is not looked at by the option parser.        *)
Init == RunInit({c \in Configs : c.opts = "help" /\ c.dest = "stdout" => c.cap = -1})
Next == RunStep \/ \E n \in 1 .. L : Write(n)
Step == Next
Spec == Init /\ [][Step]_rvars /\ WF_rvars(Step)
Ends == <>Ended

(* One fault at a time, and pairs with the destination.                      *)
Faults == (IF cfg.opts # "good" THEN 1 ELSE 0) + (IF cfg.ana # "good" THEN 1 ELSE 0)
          + (IF cfg.mode # "auto" THEN 1 ELSE 0)
          + Cardinality({i \in DOMAIN cfg.ins : cfg.ins[i] \in Bad})
Emit == pc # "options" \/ Faults > 1 \/ PrintT(<<"EMIT", ToJson(cfg)>>)
=============================================================================
