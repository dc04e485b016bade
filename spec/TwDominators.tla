---------------------------- MODULE TwDominators ----------------------------
(* `twiggy dominators`: the dominator tree, walked in preorder, children of  *)
(* an item in decreasing order of retained size.                             *)
(*                                                                           *)
(* The walk is a state machine: its state is a stack of frames, a frame      *)
(* being a depth and the siblings still to be visited there; each step shows *)
(* one of the siblings that retain the most and descends into its children.  *)
(* The observed rows resolve which of several equal siblings comes first.    *)
EXTENDS TwGraph, TwSelect

(* A frame is [d |-> depth, left |-> set of items].                          *)
RECURSIVE PopEmpty(_)
PopEmpty(st) == IF st = <<>> THEN st
                ELSE IF st[1].left = {} THEN PopEmpty(Tail(st)) ELSE st

MaxRet(d, S)  == FoldFunctionOnSet(Max2, 0, d.ret, S)
BestOf(d, S)  == LET m == TLCEval(MaxRet(d, S)) IN {v \in S : d.ret[v] = m}
Least(S)      == CHOOSE v \in S : \A u \in S : v <= u

(* Where the walk starts: the children of the meta root at depth 1 (the meta *)
(* root itself is at depth 0), or the selected items at depth 1 each with    *)
(* its own subtree: named ones in argument order, pattern matches by         *)
(* decreasing retained size.                                                 *)
RECURSIVE NamedFrames(_, _, _, _)
NamedFrames(g, nm, args, k) ==
    IF k > Len(args) THEN <<>>
    ELSE LET hit == {v \in Nodes(g) : nm[g.name[v]] = args[k]}
         IN (IF hit = {} THEN <<>> ELSE << [d |-> 1, left |-> {Least(hit)}] >>)
            \o NamedFrames(g, nm, args, k + 1)

StartFrames(g, d, nm, sel) ==
    IF NoSelection(sel) THEN << [d |-> 1, left |-> {Meta(g)}] >>
    ELSE IF sel.regex
         THEN << [d |-> 1, left |-> TLCEval({v \in Nodes(g) : Selected(sel, nm[g.name[v]])})] >>
         ELSE NamedFrames(g, nm, sel.args, 1)

(* Subtrees that no report can tell apart.                                   *)
RECURSIVE Alike(_, _, _, _)
Alike(g, d, a, b) ==
    \/ a = b
    \/ /\ g.name[a] = g.name[b] /\ g.sz[a] = g.sz[b] /\ d.ret[a] = d.ret[b]
       /\ Cardinality(d.kids[a]) = Cardinality(d.kids[b])
       /\ \A x \in d.kids[a] : Cardinality({y \in d.kids[a] : Alike(g, d, x, y)})
                             = Cardinality({y \in d.kids[b] : Alike(g, d, x, y)})

(* One step: which item is visited next.  Row(c) tells whether the row that  *)
(* is to be explained can be the item c; an item with a hidden row (the meta *)
(* root in the text table) needs none.                                       *)
RECURSIVE Walk(_, _, _, _, _, _, _)
(* Walk(g, d, st, i, n, maxd, W): rows i..n remain to be explained.          *)
(*   W.rows[i].fit       the items row i can show                           *)
(*   W.deep              rows carry their depth                              *)
(*   W.hides             the meta root has no row                            *)
(*   W.cut               the walk may stop once n rows have been shown       *)
Walk(g, d, stack, i, n, maxd, W) ==
    LET st == TLCEval(PopEmpty(stack)) IN
    IF st = <<>> THEN IF i > n THEN OK ELSE "extra-row"
    ELSE
    LET best  == TLCEval(BestOf(d, st[1].left))
        dep   == st[1].d
        hid   == W.hides /\ Meta(g) \in best
        fit   == TLCEval(IF i <= n THEN {c \in best \ (IF W.hides THEN {Meta(g)} ELSE {}) :
                                   /\ c \in W.rows[i].fit
                                   /\ W.deep => W.rows[i].d = IF c = Meta(g) THEN 0 ELSE dep}
                 ELSE {})
        \* Alike: it does not matter which of them it is.
        leaf  == {c \in fit : d.kids[c] = {}}
        some  == TLCEval((fit \ leaf) \union (IF leaf = {} THEN {} ELSE {Least(leaf)}))
        pick  == TLCEval(IF Cardinality(some) <= 1 THEN some
                         ELSE {c \in some : \A b \in some : b < c => ~ Alike(g, d, b, c)})
        Visit(c) == LET kdep == IF c = Meta(g) THEN 1 ELSE dep + 1
                    IN (IF kdep <= maxd THEN << [d |-> kdep, left |-> d.kids[c]] >> ELSE <<>>)
                       \o << [d |-> dep, left |-> TLCEval(st[1].left \ {c})] >> \o Tail(st)
        Go(c) == Walk(g, d, TLCEval(Visit(c)), TLCEval(i + 1), n, maxd, W)
    IN IF hid /\ Walk(g, d, TLCEval(Visit(Meta(g))), i, n, maxd, W) = OK THEN OK
       ELSE IF i > n THEN IF W.cut THEN OK ELSE "missing-row"
       ELSE IF fit = {} THEN "wrong-row"
       ELSE IF Cardinality(pick) = 1 THEN Go(Least(pick))
       ELSE IF \E c \in pick : Go(c) = OK THEN OK
       ELSE Go(Least(pick))

(* With maxd = 0 nothing below the meta root is visited, and a named item    *)
(* (depth 1) is not visited either.                                          *)
Starts(g, d, nm, ev, maxd) ==
    LET fr == StartFrames(g, d, nm, ev.sel)
    IN IF maxd >= 1 THEN fr
       ELSE [i \in DOMAIN fr |-> [fr[i] EXCEPT !.left = TLCEval(fr[i].left \intersect {Meta(g)})]]

HasSummary(g, d, ev) ==
    /\ NoSelection(ev.sel)
    /\ SumOver(g.sz, Nodes(g) \ d.reach) > 0
Dead(g, d) == Nodes(g) \ d.reach
SummaryName(g, d) == "[" \o ToString(Cardinality(Dead(g, d))) \o " Unreachable Items]"

DomText(g, d, nm, ev) ==
    LET all  == ev.text.rows
        sum  == HasSummary(g, d, ev)
        n    == Len(all) - (IF sum THEN 1 ELSE 0)
        rows == Prefix(all, n)
        W    == TLCEval([rows |-> [i \in DOMAIN rows |->
                    [d |-> rows[i].d,
                     fit |-> {c \in Nodes(g) : rows[i].n = g.name[c] /\ rows[i].v = d.ret[c]}]],
                 deep |-> TRUE, hides |-> TRUE, cut |-> n = ev.r])
        w    == Walk(g, d, Starts(g, d, nm, ev, ev.d), 1, n, ev.d, W)
        last == all[Len(all)]
    IN Chk(ev.text.hdr = <<"Retained Bytes", "Retained %", "Dominator Tree">>, "dominators.text.header",
       Chk(n >= 0 /\ n <= ev.r, "dominators.text.row-limit",
       Chk(w = OK, "dominators.text." \o w,
       Chk(sum => /\ nm[last.n] = SummaryName(g, d)
                  /\ last.d = 1
                  /\ last.v = SumOver(g.sz, Dead(g, d)), "dominators.text.summary",
       Chk(\A i \in DOMAIN all : PctCents(all[i].p, all[i].v, g.size), "dominators.text.percent",
       OK)))))

Unlimited == 1000000000

DomJson(g, d, nm, ev) ==
    LET rows == ev.json.rows
        n    == Len(rows)
        sum  == HasSummary(g, d, ev)
        W    == TLCEval([rows |-> [i \in DOMAIN rows |->
                    [d |-> rows[i].d,
                     fit |-> {c \in Nodes(g) : /\ rows[i].n = g.name[c]
                                                 /\ rows[i].r = d.ret[c]
                                                 /\ rows[i].s = g.sz[c]
                                                 /\ rows[i].c = (d.kids[c] # {})}]],
                 deep |-> TRUE, hides |-> FALSE, cut |-> FALSE])
        \* Rows are nested here, each tree of its own.
        fr   == StartFrames(g, d, nm, ev.sel)
        w    == Walk(g, d, TLCEval([i \in DOMAIN fr |-> [fr[i] EXCEPT !.d = 0]]), 1, n, Unlimited, W)
    IN Chk(w = OK, "dominators.json." \o w,
       Chk(\A i \in DOMAIN rows : PctFull(rows[i].sp, rows[i].s, g.size) /\ PctFull(rows[i].rp, rows[i].r, g.size),
           "dominators.json.percent",
       Chk(IF sum THEN /\ Len(ev.json.sum) = 1
                       /\ nm[ev.json.sum[1].n] = SummaryName(g, d)
                       /\ ev.json.sum[1].r = SumOver(g.sz, Dead(g, d))
                       /\ PctFull(ev.json.sum[1].rp, ev.json.sum[1].r, g.size)
                  ELSE ev.json.sum = <<>>, "dominators.json.summary", OK)))

DomCsv(g, d, nm, ev) ==
    LET all  == ev.csv
        sum  == HasSummary(g, d, ev)
        n    == Len(all) - (IF sum THEN 1 ELSE 0)
        rows == Prefix(all, n)
        W    == TLCEval([rows |-> [i \in DOMAIN rows |->
                    [d |-> 0,
                     fit |-> {c \in Nodes(g) : /\ rows[i].id = c
                                                 /\ rows[i].n = g.name[c]
                                                 /\ rows[i].r = d.ret[c]
                                                 /\ rows[i].s = g.sz[c]
                                                 /\ rows[i].idom = IF d.idom[c] = 0 THEN c ELSE d.idom[c]}]],
                 deep |-> FALSE, hides |-> FALSE, cut |-> FALSE])
        w    == Walk(g, d, StartFrames(g, d, nm, ev.sel), 1, n, Unlimited, W)
        last == all[Len(all)]
    IN Chk(n >= 0, "dominators.csv.count",
       Chk(w = OK, "dominators.csv." \o w,
       Chk(sum => /\ nm[last.n] = SummaryName(g, d)
                  /\ last.id = -1 /\ last.idom = -1
                  /\ last.r = SumOver(g.sz, Dead(g, d)) /\ last.s = last.r,
           "dominators.csv.summary",
       Chk(\A i \in DOMAIN all : PctFull(all[i].sp, all[i].s, g.size) /\ PctFull(all[i].rp, all[i].r, g.size),
           "dominators.csv.percent", OK))))

DominatorsVerdict(g, d, nm, ev) ==
    Chk(ev.err = "", "dominators.error",
    LET t == DomText(g, d, nm, ev)
        j == DomJson(g, d, nm, ev)
        c == DomCsv(g, d, nm, ev)
    IN IF t # OK THEN t ELSE IF j # OK THEN j ELSE c)
=============================================================================
