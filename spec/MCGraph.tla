------------------------------- MODULE MCGraph ------------------------------
(* Every item graph over a few items, as the builder makes them: starting    *)
(* from items alone, references and roots are added one at a time, in every  *)
(* order.  Checked on every one of them is that the definitions the reports  *)
(* are judged by belong together, and on every step what one more reference  *)
(* can change.  Every graph is printed and replayed against the              *)
(* implementation.                                                           *)
EXTENDS TwPaths, Json

CONSTANTS N,            \* items besides the meta root
          Loops         \* whether an item may refer to itself

Item  == 1 .. N
Sizes == <<5, 3, 0, 7, 1>>
VARIABLES ref, root
gvars == <<ref, root>>

Ord(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
GraphOf(r, t) ==
    [n |-> N + 1, size |-> 20, name |-> [i \in 1 .. (N + 1) |-> i],
     sz |-> [i \in 1 .. (N + 1) |-> IF i > N THEN 0 ELSE Sizes[i]],
     kind |-> [i \in 1 .. (N + 1) |-> IF i % 2 = 0 THEN "data" ELSE "code"],
     gen |-> [i \in 1 .. (N + 1) |-> 0],
     succ |-> [i \in 1 .. (N + 1) |-> IF i > N THEN Ord(t) ELSE Ord(r[i])]]
G == TLCEval(GraphOf(ref, root))
D == TLCEval(Derive(G))

GInit == /\ ref = [i \in Item |-> {}]
         /\ root = {}
AddEdge(a, b) == /\ b \notin ref[a]
                 /\ a # b \/ Loops
                 /\ ref' = [ref EXCEPT ![a] = @ \union {b}]
                 /\ UNCHANGED root
AddRoot(a) == /\ a \notin root
              /\ root' = root \union {a}
              /\ UNCHANGED ref
GNext == \/ \E a, b \in Item : AddEdge(a, b)
         \/ \E a \in Item : AddRoot(a)
GSpec == GInit /\ [][GNext]_gvars

----------------------------------------------------------------------------
(* Dominators once more, as the greatest solution of the usual equations:    *)
(* an item is dominated by itself and by what dominates all that refer to it. *)
RECURSIVE Solve(_, _, _)
Solve(g, d, dom) ==
    LET nxt == TLCEval([w \in d.reach |->
                 IF w = Meta(g) THEN {w}
                 ELSE {w} \union {v \in d.reach : \A p \in d.pred[w] \intersect d.reach : v \in dom[p]}])
    IN IF nxt = dom THEN dom ELSE Solve(g, d, nxt)
Equations == LET s == TLCEval(Solve(G, D, [w \in D.reach |-> D.reach]))
             IN \A w \in D.reach : s[w] = {v \in D.reach : w \in D.dom[v]}

(* Taking an item away makes unreachable just what it retains.               *)
Removal == \A v \in D.reach \ {Meta(G)} :
    LET without == [g2 \in {1} |-> GraphOf([i \in Item |-> IF i = v THEN {} ELSE ref[i] \ {v}], root \ {v})][1]
        left    == TLCEval(ReachFrom(SuccSets(without), Meta(without)))
    IN D.ret[v] = SumOver(G.sz, D.reach) - SumOver(G.sz, left)

(* The dominator tree holds every reachable item once, and no other.         *)
RECURSIVE Below(_, _)
Below(d, v) == {v} \union UNION {Below(d, w) : w \in d.kids[v]}
Tree == /\ Below(D, Meta(G)) = D.reach
        /\ \A v \in D.reach : Below(D, v) = D.dom[v]
        /\ \A v, w \in D.reach : v # w => D.kids[v] \intersect D.kids[w] = {}

(* What is garbage is exactly what no root leads to, and what is not garbage *)
(* is shown by descending from the roots.                                    *)
NoSel  == [regex |-> FALSE, bad |-> FALSE, args |-> <<>>]
Unlim(desc) == [desc |-> desc, d |-> N + 1, r |-> N + 1, sel |-> NoSel]
RowsFrom(desc, v) == PathRows(G, D, Unlim(desc), v, {}, 0)
Shown2(desc, S) == UNION {{x.v : x \in Elems(RowsFrom(desc, v))} : v \in S}
Descending == Shown2(TRUE, root) = D.reach \ {Meta(G)}

(* Upwards, every item's tree holds exactly the items it can be reached from. *)
Ascending == \A v \in Item :
    {x.v : x \in Elems(RowsFrom(FALSE, v))}
       = {u \in Item : v \in ReachFrom(D.succ, u)}

(* No branch is deeper than there are items, or goes through one twice; a    *)
(* row one deeper than the one before is one of its branches.                *)
Simple == \A desc \in BOOLEAN : \A v \in Item :
    LET rs == TLCEval(RowsFrom(desc, v))
    IN \A i \in DOMAIN rs :
         /\ rs[i].d < N
         /\ i > 1 => LET up == CHOOSE j \in 1 .. (i - 1) : rs[j].d = rs[i].d - 1 /\
                                   \A k \in (j + 1) .. (i - 1) : rs[k].d >= rs[i].d
                     IN rs[i].v \in (IF desc THEN D.succ[rs[up].v] ELSE D.pred[rs[up].v]) \ {rs[up].v}

Sane == DerivedSane(G)

(* One more reference never makes anything unreachable or retain less than   *)
(* it did because of it, other than by giving up what gained another way in. *)
Monotone == [][LET d2 == Derive(GraphOf(ref', root'))
               IN /\ D.reach \subseteq d2.reach
                  /\ \A v, w \in D.reach : w \in d2.dom[v] => w \in D.dom[v]
                  /\ SumOver(G.sz, D.reach) <= SumOver(G.sz, d2.reach)]_gvars

Emit == PrintT(<<"EMIT", ToJson([ref |-> [i \in Item |-> Ord(ref[i])], root |-> Ord(root)])>>)
=============================================================================
