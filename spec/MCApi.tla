------------------------------- MODULE MCApi --------------------------------
(* Every short history of one options object of the browser interface, and   *)
(* the command line that asks for the same; replayed against both.           *)
EXTENDS TwApi, Json

CONSTANT Depth

Sample(kind) == CASE kind = "num" -> {"0", "1", "3", "4294967295"}
                  [] kind = "flag" -> BOOLEAN
                  [] OTHER -> {"f", "a|b"}

VARIABLES acts, o
vars == <<acts, o>>

Init == \E c \in ApiCommands : acts = <<>> /\ o = NewOpts(c)
Set(key, v) == /\ acts' = Append(acts, [key |-> key, v |-> v])
               /\ o' = SetOpt(o, key, v)
Next == /\ Len(acts) < Depth
        /\ \E s \in ApiSetters(o.cmd) : \E v \in Sample(s[2]) : Set(s[1], v)
Spec == Init /\ [][Next]_vars

(* The command line means the same.                                          *)
Same == LET p == ParseCommand(Words(o)) IN ~ p.err /\ Meaning(p) = Meaning(o)
(* Each option holds what it was set to last, or its default.                *)
LastOf(key) == {i \in DOMAIN acts : acts[i].key = key
                  /\ \A j \in (i + 1) .. Len(acts) : acts[j].key # key}
HoldsLast == \A k \in DOMAIN Effective(o.cmd, <<>>) :
            IF LastOf(k) = {} THEN o[k] = Default(o.cmd, k)
            ELSE \A i \in LastOf(k) : o[k] = acts[i].v
ItemsInOrder == o.items = [i \in DOMAIN SelectSeq(acts, LAMBDA a : a.key = "add_function") |->
                       SelectSeq(acts, LAMBDA a : a.key = "add_function")[i].v]

Emit == PrintT(<<"EMIT", ToJson([cmd |-> o.cmd, acts |-> acts, words |-> Words(o)])>>)
=============================================================================
