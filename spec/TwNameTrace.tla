----------------------------- MODULE TwNameTrace -----------------------------
(* Judges the names and generics that the real code derives from symbols.    *)
EXTENDS TwName, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TW_TRACE)

VARIABLES tid, ei, known          \* known: names that the specification determined
vars == <<tid, ei, known>>

S == Sessions[tid]
E == S.ev[ei]

Init == tid \in DOMAIN Sessions /\ ei = 1 /\ known = 0

Verdict(want) ==
    IF E.err # "" THEN "name." \o E.err
    ELSE Chk(E.sym = <<>> \/ E.name # <<>>, "name.empty",
         Chk(want.known => E.name = want.name, "name." \o want.kind,
         Chk(E.gen = GenericOf(E.name), "name.generic", OK)))

Judge == /\ ei <= Len(S.ev)
         /\ LET want == TLCEval(Shown(E.sym))
                v == Verdict(want)
            IN /\ known' = known + (IF want.known THEN 1 ELSE 0)
               /\ IF v = OK THEN TRUE ELSE PrintT(<<"MISMATCH", tid, ei, v>>)
         /\ ei' = ei + 1
         /\ UNCHANGED tid
End == /\ ei = Len(S.ev) + 1
       /\ PrintT(<<"JUDGED", tid, known>>)
       /\ ei' = ei + 1
       /\ UNCHANGED <<tid, known>>
Next == Judge \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
