------------------------------ MODULE TwGraph -------------------------------
(* The reference graph of a binary: reachability, dominators and retained    *)
(* sizes, stated by definition ("what becomes unreachable when this item is  *)
(* taken away"), never by the algorithm the code uses.                       *)
(*                                                                           *)
(* A graph g is a record [n, size, name, sz, kind, gen, succ]: items are the *)
(* positions 1..n in identifier order, the last one is the meta root; succ   *)
(* is a sequence of sequences of positions in identifier order.              *)
EXTENDS TwUtil

Nodes(g)    == 1 .. g.n
Meta(g)     == g.n
Real(g)     == 1 .. (g.n - 1)
SuccSets(g) == [v \in Nodes(g) |-> Elems(g.succ[v])]
PredSets(S) == [v \in DOMAIN S |-> {u \in DOMAIN S : v \in S[u]}]

RECURSIVE Grow(_, _, _, _)
Grow(S, front, seen, avoid) ==
    IF front = {} THEN seen
    ELSE LET nf == TLCEval((UNION {S[v] : v \in front}) \ (seen \union avoid))
         IN Grow(S, nf, TLCEval(seen \union nf), avoid)

ReachFrom(S, r)     == Grow(S, {r}, {r}, {})
ReachWithout(S, r, v) == IF v = r THEN {} ELSE Grow(S, {r}, {r}, {v})

(* Everything the analyses need, computed once per graph.                    *)
(*   reach   items reachable from the meta root                              *)
(*   dom[v]  items every path to which goes through v (v included)           *)
(*   idom[w] the closest strict dominator of w (0: none)                     *)
(*   ret[v]  size that would become unreachable if v were removed; an item   *)
(*           that is already unreachable retains only itself                 *)
Derive(g) ==
    LET S     == TLCEval(SuccSets(g))
        R     == TLCEval(ReachFrom(S, Meta(g)))
        dom   == TLCEval([v \in Nodes(g) |-> IF v \in R THEN R \ ReachWithout(S, Meta(g), v) ELSE {v}])
        card  == TLCEval([v \in Nodes(g) |-> Cardinality(dom[v])])
        sdoms == TLCEval([w \in Nodes(g) |-> IF w \in R THEN {v \in R : v # w /\ w \in dom[v]} ELSE {}])
        idom  == TLCEval([w \in Nodes(g) |->
                    IF sdoms[w] = {} THEN 0
                    ELSE CHOOSE v \in sdoms[w] : \A u \in sdoms[w] : card[v] <= card[u]])
    IN [succ |-> S, pred |-> PredSets(S), reach |-> R, dom |-> dom, idom |-> idom,
        kids |-> [v \in Nodes(g) |-> {w \in Nodes(g) : idom[w] = v}],
        ret  |-> [v \in Nodes(g) |-> SumOver(g.sz, dom[v])]]

NoGraph == [succ |-> <<>>, pred |-> <<>>, reach |-> {}, dom |-> <<>>, idom |-> <<>>,
            kids |-> <<>>, ret |-> <<>>]

(* Facts about Derive that hold of every graph; checked as invariants.       *)
DerivedSane(g) ==
    LET d == Derive(g)
        R == d.reach
    IN /\ d.ret[Meta(g)] = SumOver(g.sz, R)
       /\ \A v \in R : d.ret[v] = g.sz[v] + SumOver(d.ret, d.kids[v])
       /\ \A w \in R \ {Meta(g)} : d.idom[w] \in R /\ w \in d.dom[d.idom[w]]
       /\ \A v \in R : \A u \in R :
             \/ d.dom[u] \subseteq d.dom[v] \/ d.dom[v] \subseteq d.dom[u]
             \/ d.dom[u] \intersect d.dom[v] = {}
       /\ \A v \in Nodes(g) \ R : d.kids[v] = {} /\ d.ret[v] = g.sz[v]
=============================================================================
