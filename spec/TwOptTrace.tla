----------------------------- MODULE TwOptTrace -----------------------------
(* Trace validation of histories in which options are made from command      *)
(* lines or by setters, looked at, and used for requests.  The specification *)
(* carries the options of every slot as its state: an event changes the slot *)
(* it names and nothing else, and a request with the options of a slot has   *)
(* to be answered according to what that slot holds by now.                  *)
EXTENDS TwTrace, TwOpts

VARIABLE slots
allvars == <<tid, l, der, memo, slots>>

OptOps == {"optparse", "optload", "optset", "optrun"}

(* The options an event is about, after it.                                  *)
OptsAfter(ev) ==
    CASE ev.op \in {"optparse", "optload"} -> ParseCommand(ev.words)
      [] ev.op = "optset" -> IF ev.key = "new" \/ ev.slot \notin DOMAIN slots THEN
                                LET n == NewOpts(ev.kind)
                                IN IF ev.key = "new" THEN n ELSE SetOpt(n, ev.key, ev.v)
                             ELSE SetOpt(slots[ev.slot], ev.key, ev.v)
      [] ev.op = "optrun" -> slots[ev.slot]

RunEvent(ev, o) == Asks(o, ev.pats) @@ [ev EXCEPT !.op = o.cmd]

OptVerdict(ev) ==
    LET o == TLCEval(OptsAfter(ev))
    IN IF ev.op = "optrun" THEN EventVerdict(TLCEval(RunEvent(ev, o)))
       ELSE IF ev.err = "PANIC" THEN "options.panic"
       ELSE IF o.err THEN Chk(ev.err # "", "options.accepted", OK)
       ELSE Chk(ev.err = "", "options.rejected",
            Chk(Agrees(o, ev.obs), IF ev.op = "optset" THEN "options.setter" ELSE "options.values", OK))

OptInit == Init /\ slots = <<>>
OptOpen == Open /\ UNCHANGED slots

OptConsume ==
    /\ l \in DOMAIN S.ev
    /\ Ev.op \in OptOps
    /\ Report(OptVerdict(Ev))
    /\ l' = l + 1
    /\ slots' = IF Ev.op \in {"optload", "optset"}
                THEN LET o == TLCEval(OptsAfter(Ev))
                     IN IF o.err THEN slots
                        ELSE [s \in DOMAIN slots \union {Ev.slot} |->
                                IF s = Ev.slot THEN o ELSE slots[s]]
                ELSE slots
    /\ UNCHANGED <<tid, der, memo>>

Plain == Ev.op \notin OptOps /\ Consume /\ UNCHANGED slots

OptNext == OptOpen \/ OptConsume \/ (l \in DOMAIN S.ev /\ Plain)
OptSpec == OptInit /\ [][OptNext]_allvars
=============================================================================
