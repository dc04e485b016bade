----------------------------- MODULE MCHistory ------------------------------
(* Every schedule of requests on one loaded binary.  The binary carries      *)
(* tables that are made when first needed (predecessors, dominators, the     *)
(* dominator tree, retained sizes); a request needs some of them and, in     *)
(* this model, answers with what the tables say.  However the tables came to *)
(* be there, the answer is the one a fresh binary gives.  Each schedule is   *)
(* printed and replayed against the implementation.                          *)
EXTENDS TwGraph, Json

CONSTANT Depth

Requests == {"top", "top-retained", "dominators", "dominators-item", "paths", "paths-desc",
             "garbage", "monos", "retained", "idoms", "domtree", "preds"}

(* One small graph with a cycle, an unreachable part and a diamond.          *)
G == [n |-> 7, size |-> 40, name |-> [i \in 1 .. 7 |-> i],
      sz |-> <<5, 3, 8, 2, 7, 4, 0>>, kind |-> [i \in 1 .. 7 |-> "code"], gen |-> [i \in 1 .. 7 |-> 0],
      succ |-> << <<2, 3>>, <<4>>, <<4>>, <<2>>, <<6>>, <<5>>, <<1>> >>]
Fresh == Derive(G)

Needs(r) == CASE r \in {"top", "garbage", "monos", "paths-desc"} -> {}
              [] r \in {"paths", "preds"} -> {"pred"}
              [] r = "idoms" -> {"idom"}
              [] r \in {"domtree"} -> {"idom", "kids"}
              [] r \in {"top-retained", "retained", "dominators", "dominators-item"} -> {"idom", "kids", "ret"}

VARIABLES done, tab
vars == <<done, tab>>

Init == done = <<>> /\ tab = <<>>
Ask(r) == /\ Len(done) < Depth
          /\ done' = Append(done, r)
          /\ tab' = [t \in DOMAIN tab \union Needs(r) |-> IF t \in DOMAIN tab THEN tab[t] ELSE Fresh[t]]
Next == \E r \in Requests : Ask(r)
Spec == Init /\ [][Next]_vars

(* A request makes the tables it needs and changes none that is there.       *)
Unspoiled == \A t \in DOMAIN tab : tab[t] = Fresh[t]
Present   == done # <<>> => Needs(done[Len(done)]) \subseteq DOMAIN tab
Grows     == [][\A t \in DOMAIN tab : t \in DOMAIN tab' /\ tab'[t] = tab[t]]_vars

Emit == Len(done) < Depth \/ PrintT(<<"EMIT", ToJson(done)>>)
=============================================================================
