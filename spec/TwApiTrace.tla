----------------------------- MODULE TwApiTrace ------------------------------
(* Histories over objects of the browser interface and runs of the command:  *)
(* the specification carries the options of every object as its state, and   *)
(* the reports given so far.  Whoever asks and however, the same request to  *)
(* the same module has the same answer.                                      *)
EXTENDS TwApi, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TW_TRACE)

VARIABLES tid, l, slots, answers, met
vars == <<tid, l, slots, answers, met>>
(* met: reports of the interface and of the command that could be compared   *)

S == Sessions[tid]
E == S.ev[l]

Init == tid \in DOMAIN Sessions /\ l = 1 /\ slots = <<>> /\ answers = <<>> /\ met = 0

After ==
    CASE E.op = "new" -> NewOpts(E.kind)
      [] E.op = "set" -> SetOpt(slots[E.slot], E.key, E.v)
      [] E.op = "run" -> slots[E.slot]
      [] E.op = "cli" -> ParseCommand(E.words)

IsRun == E.op \in {"run", "cli"}
Key(o) == ToString(<<E.mod, Meaning(o)>>)

(* A report of the interface has to be what the command printed; one that    *)
(* fails there fails here.                                                   *)
RunVerdict(o) ==
    IF o.err THEN Chk(E.val = "error", "browser.command-line", OK)
    ELSE IF Key(o) \in DOMAIN answers
         THEN Chk(answers[Key(o)] = E.val, "browser." \o o.cmd, OK) ELSE OK
Verdict(o) == IF IsRun THEN RunVerdict(o)
              ELSE Chk(Agrees(o, E.obs @@ [items |-> o.items]), "browser.option", OK)

Step == /\ l \in DOMAIN S.ev
        /\ LET o == TLCEval(After)
               v == Verdict(o)
           IN /\ IF v = OK THEN TRUE ELSE PrintT(<<"MISMATCH", tid, l, v>>)
              /\ slots' = IF IsRun THEN slots
                          ELSE [x \in DOMAIN slots \union {E.slot} |->
                                  IF x = E.slot THEN o ELSE slots[x]]
              /\ answers' = IF IsRun /\ ~ o.err THEN
                               IF Key(o) \in DOMAIN answers THEN answers
                               ELSE answers @@ (Key(o) :> E.val)
                            ELSE answers
              /\ met' = IF IsRun /\ ~ o.err THEN
                           IF Key(o) \in DOMAIN answers THEN met + 1 ELSE met
                        ELSE met
        /\ l' = l + 1
        /\ UNCHANGED tid
End == /\ l = Len(S.ev) + 1
       /\ PrintT(<<"JUDGED", tid, met>>)
       /\ l' = l + 1
       /\ UNCHANGED <<tid, slots, answers, met>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
