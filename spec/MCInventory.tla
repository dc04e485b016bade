---------------------------- MODULE MCInventory -----------------------------
(* Two binaries as inventories of named, sized items, growing item by item.  *)
(* Checked on all of them is what comparing and grouping inventories means:  *)
(* differences are antisymmetric, add up along a third inventory and to the  *)
(* totals; instantiations are shared out among the generics, nothing counted *)
(* twice; limits move things into the remainder and lose nothing.            *)
(* Every state is printed and replayed against the implementation.           *)
EXTENDS TwMonos, TwDiff, Json

CONSTANTS MaxOld, MaxNew

nm == <<"a", "b", "c", "g">>
Kinds == {<<n, s>> : n \in 1 .. 3, s \in {0, 1, 3}}
VARIABLES old, new
ivars == <<old, new>>

(* Inventories in canonical order: only what is in them matters.             *)
Key(k) == k[1] * 10 + k[2]
Added(inv, k) == IF inv = <<>> THEN TRUE ELSE Key(inv[Len(inv)]) <= Key(k)

(* The graph of an inventory: every item on its own. Items called a are      *)
(* instantiations of the generic b, items called b of c, others of none.     *)
G(inv) == [n |-> Len(inv) + 1, size |-> SumSeq([i \in DOMAIN inv |-> inv[i][2]]),
           name |-> [i \in 1 .. (Len(inv) + 1) |-> IF i > Len(inv) THEN 4 ELSE inv[i][1]],
           sz |-> [i \in 1 .. (Len(inv) + 1) |-> IF i > Len(inv) THEN 0 ELSE inv[i][2]],
           kind |-> [i \in 1 .. (Len(inv) + 1) |-> "code"],
           gen |-> [i \in 1 .. (Len(inv) + 1) |->
                      IF i > Len(inv) \/ inv[i][1] = 3 THEN 0 ELSE inv[i][1] + 1],
           succ |-> [i \in 1 .. (Len(inv) + 1) |-> <<>>]]

IInit == old = <<>> /\ new = <<>>
INext == \E k \in Kinds :
            \/ Len(old) < MaxOld /\ Added(old, k) /\ old' = Append(old, k) /\ UNCHANGED new
            \/ Len(new) < MaxNew /\ Added(new, k) /\ new' = Append(new, k) /\ UNCHANGED old
ISpec == IInit /\ [][INext]_ivars

----------------------------------------------------------------------------
NoSel == [regex |-> FALSE, bad |-> FALSE, args |-> <<>>]
D(g, h) == DiffDeltas(g, h, nm, [sel |-> NoSel])
Rows(g, h, k) == DiffExpected(g, h, nm, [sel |-> NoSel, n |-> k])
Total(s) == SumSeq([i \in DOMAIN s |-> s[i].v])
Val(s, x) == SumSeq([i \in DOMAIN s |-> IF s[i].n = x THEN s[i].v ELSE 0])

Anti == LET a == TLCEval(D(G(old), G(new)))  b == TLCEval(D(G(new), G(old)))
        IN a = [i \in DOMAIN b |-> [b[i] EXCEPT !.v = -b[i].v]]
Nothing == (old = new) => D(G(old), G(new)) = <<>>
Unchanged == D(G(old), G(new)) = <<>> =>
               \A x \in 1 .. 3 : SizeOf(G(old), x) = SizeOf(G(new), x)
Sum == Total(D(G(old), G(new))) = G(new).size - G(old).size
Mids == {<<>>, << <<1, 1>> >>, << <<1, 3>>, <<2, 1>>, <<3, 0>> >>}
Chain == \A m \in Mids : \A x \in 1 .. 3 :
           Val(D(G(old), G(new)), nm[x]) = Val(D(G(old), G(m)), nm[x]) + Val(D(G(m), G(new)), nm[x])
(* Whatever the limit, rows and remainder together are the total.            *)
DiffLimits == \A k \in 0 .. 4 :
    LET r == TLCEval(Rows(G(old), G(new), k))
    IN /\ Total(Prefix(r, Len(r) - 1)) = r[Len(r)].v
       /\ Len(r) <= k + 2

E(ev) == MonoEntries(G(new), nm, ev)
MonoSane ==
    LET g == TLCEval(G(new))
        e == TLCEval(E([sel |-> NoSel, only |-> FALSE, mg |-> 9, mm |-> 9]))
    IN /\ SumSeq([i \in DOMAIN e |-> e[i].s]) = SumOver(g.sz, {v \in Nodes(g) : g.gen[v] # 0})
       /\ \A i \in DOMAIN e : /\ 0 <= e[i].b /\ e[i].b <= e[i].s
                              /\ Len(e[i].l) = 1 => e[i].b = 0
                              /\ SumSeq([j \in DOMAIN e[i].l |-> e[i].l[j][2]]) = e[i].s
                              /\ \A j \in DOMAIN e[i].l : j > 1 => e[i].l[j][2] <= e[i].l[j - 1][2]
MonoLimits ==
    LET e == TLCEval(E([sel |-> NoSel, only |-> FALSE, mg |-> 9, mm |-> 9]))
    IN \A k \in 0 .. 3 :
         LET f == TLCEval(E([sel |-> NoSel, only |-> FALSE, mg |-> 9, mm |-> k]))
         IN \A i \in DOMAIN e : \E j \in DOMAIN f :
              /\ f[j].n = e[i].n /\ f[j].s = e[i].s /\ f[j].b = e[i].b
              /\ SumSeq([q \in DOMAIN f[j].l |-> f[j].l[q][2]]) = e[i].s

Emit == PrintT(<<"EMIT", ToJson([old |-> old, new |-> new])>>)
=============================================================================
