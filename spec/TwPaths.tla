------------------------------ MODULE TwPaths -------------------------------
(* `twiggy paths`: for every starting item, the tree of items that lead to   *)
(* it (or, descending, that it leads to).  A branch never repeats an item    *)
(* and never shows the meta root; below every item at most -r branches are   *)
(* shown, in identifier order, and nothing is deeper than -d.                *)
(*                                                                           *)
(* text and json rows carry their depth .d; csv rows carry the Path column.  *)
EXTENDS TwGraph, TwSelect

SortedIds(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* Branches below v when the items in seen are already on the path.          *)
Branches(g, d, desc, v, seen) ==
    SortedIds((IF desc THEN d.succ[v] ELSE d.pred[v]) \ (seen \union {v, Meta(g)}))

(* One shown row: depth, item and (for the CSV) its branches.                *)
RECURSIVE PathRows(_, _, _, _, _, _)
PathRows(g, d, ev, v, seen, depth) ==
    LET br  == TLCEval(Branches(g, d, ev.desc, v, seen))
        nxt == TLCEval(IF depth < ev.d THEN Prefix(br, ev.r) ELSE <<>>)
        on  == TLCEval(seen \union {v})
        arr == IF depth = 0 THEN "" ELSE IF ev.desc THEN "↳" ELSE "⬑"
    IN << [d |-> depth, v |-> v, br |-> br, a |-> arr] >>
       \o FlattenSeq(TLCEval([i \in DOMAIN nxt |->
              PathRows(g, d, ev, TLCEval(nxt[i]), on, TLCEval(depth + 1))]))

RECURSIVE NamedStarts(_, _, _, _)
NamedStarts(g, nm, args, k) ==
    IF k > Len(args) THEN <<>>
    ELSE LET hit == {v \in Nodes(g) : nm[g.name[v]] = args[k]}
         IN (IF hit = {} THEN <<>> ELSE << {CHOOSE v \in hit : \A u \in hit : v <= u} >>)
            \o NamedStarts(g, nm, args, k + 1)

(* The starting items, as groups: the groups in order, and inside a group    *)
(* bigger items before smaller ones.                                         *)
PathStarts(g, d, nm, ev) ==
    IF NoSelection(ev.sel)
    THEN << IF ev.desc THEN d.succ[Meta(g)] ELSE Real(g) >>
    ELSE IF ev.sel.regex
         THEN LET ids == SortedIds({v \in Nodes(g) : Selected(ev.sel, nm[g.name[v]])})
              IN [i \in DOMAIN ids |-> {ids[i]}]
         ELSE NamedStarts(g, nm, ev.sel.args, 1)

RECURSIVE JoinNames(_, _, _)
JoinNames(g, nm, ids) ==
    IF ids = <<>> THEN "" ELSE nm[g.name[ids[1]]] \o " -> " \o JoinNames(g, nm, Tail(ids))

PathColumn(g, nm, x) ==
    IF x.br = <<>> THEN "" ELSE JoinNames(g, nm, x.br) \o nm[g.name[x.v]]

(* Whether the observed row r can be the expected row x, per format.         *)
RowFits(g, nm, fmt, r, x) ==
    /\ r.n = g.name[x.v]
    /\ CASE fmt = "text" -> /\ r.d = x.d /\ r.a = x.a
                            /\ IF x.d = 0 THEN r.v = g.sz[x.v] /\ PctCents(r.p, r.v, g.size)
                               ELSE r.v = -1 /\ r.p = -1
         [] fmt = "json" -> /\ r.d = x.d
                            /\ r.s = g.sz[x.v] /\ PctFull(r.sp, r.s, g.size)
         [] fmt = "csv"  -> /\ r.s = g.sz[x.v] /\ PctFull(r.sp, r.s, g.size)
                            /\ nm[r.path] = PathColumn(g, nm, x)

(* Match the observed rows i.. against the groups.                           *)
RECURSIVE PathMatch(_, _, _, _, _, _, _)
PathMatch(g, nm, X, fmt, rows, i, groups) ==
    IF groups = <<>> THEN i = Len(rows) + 1
    ELSE IF groups[1] = {} THEN PathMatch(g, nm, X, fmt, rows, i, Tail(groups))
    ELSE LET big  == {v \in groups[1] : \A u \in groups[1] : g.sz[u] <= g.sz[v]}
         IN \E v \in big :
              /\ i + Len(X[v]) - 1 <= Len(rows)
              /\ \A k \in 1 .. Len(X[v]) : RowFits(g, nm, fmt, rows[i + k - 1], X[v][k])
              /\ PathMatch(g, nm, X, fmt, rows, i + Len(X[v]),
                           << groups[1] \ {v} >> \o Tail(groups))

PathsVerdict(g, d, nm, ev) ==
    IF ev.err # "" THEN "paths.error" ELSE
    LET st == PathStarts(g, d, nm, ev)
        X  == TLCEval([v \in UNION Elems(st) |-> PathRows(g, d, ev, v, {}, 0)])
    IN Chk(PathMatch(g, nm, X, "text", ev.text.rows, 1, st), "paths.text.rows",
       Chk(PathMatch(g, nm, X, "json", ev.json, 1, st), "paths.json.rows",
       Chk(PathMatch(g, nm, X, "csv", ev.csv, 1, st), "paths.csv.rows",
       Chk(ev.text.hdr = <<"Shallow Bytes", "Shallow %", "Retaining Paths">>, "paths.text.header",
       OK))))
=============================================================================
