------------------------------- MODULE TwDiff -------------------------------
(* `twiggy diff`: by name, how the sizes of two binaries differ.  Items that *)
(* share a name are taken together; unchanged names are not listed; the      *)
(* biggest change comes first, equally big ones by name.                     *)
(* Rows are [v, n] in every format.                                          *)
EXTENDS TwGraph, TwSelect, TwRank

SizeOf(g, x) == SumOver(g.sz, {v \in Nodes(g) : g.name[v] = x})

DiffDeltas(g, h, nm, ev) ==
    LET names == TLCEval({x \in Elems(g.name) \union Elems(h.name) :
                    NoSelection(ev.sel) \/ Selected(ev.sel, nm[x])})
        dl    == TLCEval([x \in names |-> SizeOf(h, x) - SizeOf(g, x)])
        ids   == SetToSortSeq({x \in names : dl[x] # 0},
                   LAMBDA a, b : \/ Abs(dl[a]) > Abs(dl[b])
                                 \/ Abs(dl[a]) = Abs(dl[b]) /\ a < b)
    IN [i \in DOMAIN ids |-> [n |-> nm[ids[i]], v |-> dl[ids[i]]]]

DiffExpected(g, h, nm, ev) ==
    LET all == TLCEval(DiffDeltas(g, h, nm, ev))
        k   == Min2(ev.n, Len(all))
        sum(s) == SumSeq([i \in DOMAIN s |-> s[i].v])
    IN Prefix(all, k)
       \o (IF Len(all) > k
           THEN << [n |-> "... and " \o ToString(Len(all) - k) \o " more.", v |-> sum(Suffix(all, k))] >>
           ELSE <<>>)
       \o << [n |-> "Σ [" \o ToString(Len(all)) \o " Total Rows]",
              v |-> IF NoSelection(ev.sel) THEN h.size - g.size ELSE sum(all)] >>

DiffVerdict(g, h, nm, ev) ==
    Chk(ev.err = "", "diff.error",
    LET X == TLCEval(DiffExpected(g, h, nm, ev))
        P(rows) == [i \in DOMAIN rows |-> [n |-> nm[rows[i].n], v |-> rows[i].v]]
    IN Chk(P(ev.text.rows) = X, "diff.text.rows",
       Chk(P(ev.json) = X, "diff.json.rows",
       Chk(P(ev.csv) = X, "diff.csv.rows",
       Chk(ev.text.hdr = <<"Delta Bytes", "Item">>, "diff.text.header", OK)))))
=============================================================================
