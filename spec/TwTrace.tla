------------------------------ MODULE TwTrace -------------------------------
(* Trace validation.  A session is one recorded history of the real code: the *)
(* graphs it worked on and, in order, the requests that were made with what   *)
(* was observed.  Every event has to be one the specification allows.  The    *)
(* state carries the tables derived from each graph, computed when the        *)
(* session opens: whatever the code caches, its answers may depend on nothing *)
(* but the graph and the request.                                             *)
EXTENDS TwTop, TwGarbage, TwDominators, TwPaths, TwMonos, TwDiff, TwIRQuery, TwFormats, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TW_TRACE)

VARIABLES tid, l, der, memo
vars == <<tid, l, der, memo>>

S  == Sessions[tid]
Ev == S.ev[l]

Init == /\ tid \in DOMAIN Sessions
        /\ l = 0
        /\ der = <<>>
        /\ memo = <<>>

Open == /\ l = 0
        /\ l' = 1
        /\ der' = [i \in DOMAIN S.graphs |-> Derive(S.graphs[i])]
        /\ UNCHANGED <<tid, memo>>

(* The answer to a request is a function of the request alone: a request     *)
(* seen before in this session has to be answered as before.                 *)
SameVerdict(ev) ==
    IF ev.key \in DOMAIN memo
    THEN Chk(memo[ev.key] = ev.val, "history." \o ev.what, OK) ELSE OK

EventVerdict(ev) ==
    LET nm == S.names
        g  == S.graphs[ev.g]
        d  == der[ev.g]
    IN IF ev.bad # "" THEN "unreadable-output." \o ev.bad
       ELSE IF ev.op \in {"dominators", "paths", "monos", "diff"} /\ ev.sel.bad
            THEN Chk(ev.err \notin {"", "PANIC"}, ev.op \o ".invalid-pattern-accepted", OK)
       ELSE CASE ev.op = "top"        -> TopVerdict(g, d, nm, ev)
              [] ev.op = "garbage"    -> GarbageVerdict(g, d, nm, ev)
              [] ev.op = "dominators" -> DominatorsVerdict(g, d, nm, ev)
              [] ev.op = "paths"      -> PathsVerdict(g, d, nm, ev)
              [] ev.op = "monos"      -> MonosVerdict(g, d, nm, ev)
              [] ev.op = "diff"       -> DiffVerdict(g, S.graphs[ev.g2], nm, ev)
              [] ev.op = "dump"       -> DumpVerdict(g, nm, ev)
              [] ev.op = "retained"   -> RetainedVerdict(g, d, ev)
              [] ev.op = "idoms"      -> IdomVerdict(g, d, ev)
              [] ev.op = "domtree"    -> TreeVerdict(g, d, ev)
              [] ev.op = "preds"      -> PredVerdict(g, d, ev)
              [] ev.op = "byname"     -> ByNameVerdict(g, nm, ev)
              [] ev.op = "formats"    -> FormatsVerdict(nm, ev)
              [] ev.op = "same"       -> SameVerdict(ev)

Report(v) == IF v = OK THEN TRUE ELSE PrintT(<<"MISMATCH", tid, l, v>>)

Consume == /\ l \in DOMAIN S.ev
           /\ Report(EventVerdict(Ev))
           /\ l' = l + 1
           /\ memo' = IF Ev.op = "same" /\ Ev.key \notin DOMAIN memo
                      THEN memo @@ (Ev.key :> Ev.val) ELSE memo
           /\ UNCHANGED <<tid, der>>

Next == Open \/ Consume
Spec == Init /\ [][Next]_vars

(* The derived tables satisfy what every dominator tree satisfies.           *)
DerivedOK == l = 1 => \A i \in DOMAIN S.graphs : DerivedSane(S.graphs[i])
=============================================================================
