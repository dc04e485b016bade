------------------------------ MODULE TwSelect ------------------------------
(* Which names the positional arguments of a command select.  Without        *)
(* --regex an argument selects the items whose name is exactly that string;  *)
(* with --regex it selects every name in which the pattern occurs.           *)
(*                                                                           *)
(* Patterns come from a small regular language: optional anchors around a    *)
(* sequence of atoms, an atom being a set of characters and a quantifier.    *)
EXTENDS TwUtil

AtomHits(a, ch) == CASE a.t = "lit"  -> ch = a.s
                     [] a.t = "any"  -> ch # "\n"
                     [] a.t = "cls"  -> HasSub(a.s, ch)
                     [] a.t = "ncls" -> ~ HasSub(a.s, ch)

Step(a, s, P) == {p + 1 : p \in {q \in P : q <= Len(s) /\ AtomHits(a, SubSeq(s, q, q))}}

RECURSIVE Star(_, _, _)
Star(a, s, P) == LET Q == TLCEval(P \union Step(a, s, P)) IN IF Q = P THEN P ELSE Star(a, s, Q)

AtomStep(a, s, P) == CASE a.q = "1" -> Step(a, s, P)
                       [] a.q = "?" -> P \union Step(a, s, P)
                       [] a.q = "*" -> Star(a, s, P)
                       [] a.q = "+" -> Star(a, s, TLCEval(Step(a, s, P)))

RECURSIVE Run(_, _, _, _)
Run(atoms, k, s, P) == IF k > Len(atoms) \/ P = {} THEN P
                       ELSE Run(atoms, k + 1, s, TLCEval(AtomStep(atoms[k], s, P)))

(* Positions are 1 .. Len(s)+1: "before character i".                        *)
OneMatches(p, s) ==
    LET start == IF p.l THEN {1} ELSE 1 .. (Len(s) + 1)
        final == Run(p.a, 1, s, start)
    IN IF p.r THEN Len(s) + 1 \in final ELSE final # {}

(* A pattern may also be a choice of several.                                *)
PatMatches(p, s) == IF "alt" \in DOMAIN p THEN \E i \in DOMAIN p.alt : OneMatches(p.alt[i], s)
                    ELSE OneMatches(p, s)

(* sel: [regex |-> BOOLEAN, args |-> sequence of strings or patterns]        *)
NoSelection(sel) == sel.args = <<>>
Selected(sel, s) == \E i \in DOMAIN sel.args :
                       IF sel.regex THEN PatMatches(sel.args[i], s) ELSE sel.args[i] = s
=============================================================================
