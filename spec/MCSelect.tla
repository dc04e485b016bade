------------------------------ MODULE MCSelect ------------------------------
(* Patterns, atom by atom, with and without anchors. Checked on every short  *)
(* word: the machine of TwSelect, which moves a set of positions along,      *)
(* decides exactly whether some part of the word is in the language of the   *)
(* pattern, defined by splitting. The patterns are replayed.                 *)
EXTENDS TwSelect, Json

CONSTANT MaxAtoms

VARIABLES atoms, l, r
vars == <<atoms, l, r>>

Sets == { [t |-> "lit", s |-> "a"], [t |-> "lit", s |-> "b"], [t |-> "lit", s |-> "."],
          [t |-> "any", s |-> ""], [t |-> "cls", s |-> "ab"], [t |-> "ncls", s |-> "a"] }
Quants == {"1", "?", "*", "+"}

Init == atoms = <<>> /\ l \in BOOLEAN /\ r \in BOOLEAN
Next == /\ Len(atoms) < MaxAtoms
        /\ \E c \in Sets : \E q \in Quants : atoms' = Append(atoms, [t |-> c.t, s |-> c.s, q |-> q])
        /\ UNCHANGED <<l, r>>
Spec == Init /\ [][Next]_vars

P == [l |-> l, r |-> r, a |-> atoms]

Letters == {"a", "b", ".", "\n"}
Words == {""} \union Letters \union { x \o y : x, y \in Letters }
         \union { x \o y \o z : x, y, z \in Letters }
Shorter == {""} \union Letters \union { x \o y : x, y \in Letters }

Part(s, i, j) == SubSeq(s, i, j)
Hits(a, w) == \A i \in 1 .. Len(w) : AtomHits(a, SubSeq(w, i, i))
Times(q) == CASE q = "1" -> {1} [] q = "?" -> {0, 1} [] q = "*" -> 0 .. 9 [] q = "+" -> 1 .. 9
RECURSIVE In(_, _)
In(as, w) == IF as = <<>> THEN w = ""
             ELSE \E k \in Times(Head(as).q) \cap 0 .. Len(w) :
                     Hits(Head(as), Part(w, 1, k)) /\ In(Tail(as), Part(w, k + 1, Len(w)))
Declared(w) == \E i \in 1 .. (Len(w) + 1) : \E j \in (i - 1) .. Len(w) :
                  /\ (l => i = 1) /\ (r => j = Len(w))
                  /\ In(atoms, Part(w, i, j))

Agrees == \A w \in (IF Len(atoms) < 3 THEN Words ELSE Shorter) : PatMatches(P, w) = Declared(w)

(* An anchor only takes names away.                                          *)
Anchors == \A w \in Shorter : PatMatches(P, w) => PatMatches([P EXCEPT !.l = FALSE, !.r = FALSE], w)
(* A choice selects what its parts select, as do several patterns.           *)
Choice == \A w \in Shorter :
            LET q == [l |-> TRUE, r |-> FALSE, a |-> << [t |-> "lit", s |-> "b", q |-> "1"] >>]
            IN /\ PatMatches([alt |-> <<P, q>>], w) = (PatMatches(P, w) \/ PatMatches(q, w))
               /\ Selected([regex |-> TRUE, args |-> <<P, q>>], w) = (PatMatches(P, w) \/ PatMatches(q, w))
(* Without --regex, only the same name.                                      *)
Plain == \A w, x \in Shorter : Selected([regex |-> FALSE, args |-> <<x>>], w) = (x = w)

Emit == PrintT(<<"EMIT", ToJson(P)>>)
=============================================================================
