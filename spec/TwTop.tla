------------------------------- MODULE TwTop --------------------------------
(* `twiggy top`: every item of the binary, biggest first.                    *)
(*                                                                           *)
(* ev.n is the -n limit, ev.ret whether --retained was given, ev.rp whether  *)
(* -r was; text rows are [v, p, n] (-1 for "..."), json and csv rows are     *)
(* [n, s, sp, r, rp] (r = -1 when absent).                                   *)
EXTENDS TwGraph, TwRank

TopItems(g) == [i \in 1 .. (g.n - 1) |-> i]
TopKey(g, d, ev, v) == IF ev.ret THEN d.ret[v] ELSE g.sz[v]

TopText(g, d, nm, ev) ==
    LET its  == TLCEval([i \in 1 .. (g.n - 1) |-> <<TopKey(g, d, ev, i), g.name[i]>>])
        N    == Len(its)
        k    == Min2(ev.n, N)
        rows == ev.text.rows
        more == N > k
        cnt  == k + (IF more THEN 1 ELSE 0) + 1
        pr   == TLCEval([i \in 1 .. k |-> <<rows[i].v, rows[i].n>>])
        tot  == SumSeq([i \in 1 .. N |-> its[i][1]])
    IN Chk(Len(rows) = cnt, "top.text.count",
       Chk(RankedBySize(pr, its, k), "top.text.ranking",
       Chk(\A i \in 1 .. k : PctCents(rows[i].p, rows[i].v, g.size), "top.text.percent",
       Chk(more => /\ nm[rows[k + 1].n] = "... and " \o ToString(N - k) \o " more."
                   /\ rows[k + 1].v = IF ev.ret THEN -1 ELSE Rest(pr, tot)
                   /\ IF ev.ret THEN rows[k + 1].p = -1
                      ELSE PctCents(rows[k + 1].p, Rest(pr, tot), g.size), "top.text.remainder",
       Chk(/\ nm[rows[cnt].n] = "Σ [" \o ToString(N) \o " Total Rows]"
           /\ rows[cnt].v = IF ev.ret THEN -1 ELSE tot
           /\ IF ev.ret THEN rows[cnt].p = -1 ELSE PctCents(rows[cnt].p, tot, g.size),
           "top.text.total",
       Chk(ev.text.hdr = (IF ev.ret THEN <<"Retained Bytes", "Retained %", "Item">>
                          ELSE <<"Shallow Bytes", "Shallow %", "Item">>), "top.text.header",
       OK))))))

TopRecords(g, d, ev, rows, what) ==
    LET its  == TLCEval([i \in 1 .. (g.n - 1) |->
                   <<TopKey(g, d, ev, i), <<g.name[i], g.sz[i], IF ev.ret THEN d.ret[i] ELSE -1>>>>])
        k    == Min2(ev.n, Len(its))
        pr   == TLCEval([i \in DOMAIN rows |->
                   <<IF ev.ret THEN rows[i].r ELSE rows[i].s, <<rows[i].n, rows[i].s, rows[i].r>>>>])
    IN Chk(Len(rows) = k, what \o ".count",
       Chk(RankedBySize(pr, its, k), what \o ".ranking",
       Chk(\A i \in DOMAIN rows : PctFull(rows[i].sp, rows[i].s, g.size), what \o ".shallow-percent",
       Chk(\A i \in DOMAIN rows : ev.ret => PctFull(rows[i].rp, rows[i].r, g.size),
           what \o ".retained-percent", OK))))

TopVerdict(g, d, nm, ev) ==
    IF ev.rp THEN Chk(ev.err \notin {"", "PANIC"}, "top.retaining-paths-not-implemented", OK)
    ELSE Chk(ev.err = "", "top.error",
         LET t == TopText(g, d, nm, ev)
             j == TopRecords(g, d, ev, ev.json, "top.json")
             c == TopRecords(g, d, ev, ev.csv, "top.csv")
         IN IF t # OK THEN t ELSE IF j # OK THEN j ELSE c)
=============================================================================
