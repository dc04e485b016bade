----------------------------- MODULE TwGarbage ------------------------------
(* `twiggy garbage`: the items that no root reaches.  Unless                 *)
(* --show-data-segments is given, data items are only summarized.            *)
(* Rows are [n, v, p] in every format.                                       *)
EXTENDS TwGraph, TwRank

GarbageRows(g, d, nm, ev, rows, what, Pct(_, _, _)) ==
    LET dead == TLCEval({v \in Real(g) : v \notin d.reach})
        data == IF ev.show THEN {} ELSE {v \in dead : g.kind[v] = "data"}
        list == TLCEval(SetToSeq(dead \ data))
        its  == TLCEval([i \in DOMAIN list |-> <<g.sz[list[i]], g.name[list[i]]>>])
        N    == Len(list)
        k    == Min2(ev.n, N)
        more == N > k
        iT   == k + (IF more THEN 1 ELSE 0) + 1
        cnt  == iT + (IF data # {} THEN 1 ELSE 0)
        pr   == TLCEval([i \in 1 .. k |-> <<rows[i].v, rows[i].n>>])
        tot  == SumOver(g.sz, dead \ data)
    IN Chk(Len(rows) = cnt, what \o ".count",
       Chk(RankedBySize(pr, its, k), what \o ".ranking",
       Chk(more => /\ nm[rows[k + 1].n] = "... and " \o ToString(N - k) \o " more"
                   /\ rows[k + 1].v = Rest(pr, tot), what \o ".remainder",
       Chk(/\ nm[rows[iT].n] = "Σ [" \o ToString(N) \o " Total Rows]"
           /\ rows[iT].v = tot, what \o ".total",
       Chk(data # {} => /\ nm[rows[cnt].n] = ToString(Cardinality(data))
                              \o " potential false-positive data segments"
                        /\ rows[cnt].v = SumOver(g.sz, data), what \o ".data-summary",
       Chk(\A i \in DOMAIN rows : Pct(rows[i].p, rows[i].v, g.size), what \o ".percent", OK))))))

GarbageVerdict(g, d, nm, ev) ==
    Chk(ev.err = "", "garbage.error",
    LET t == GarbageRows(g, d, nm, ev, ev.text.rows, "garbage.text", PctCents)
        j == GarbageRows(g, d, nm, ev, ev.json, "garbage.json", PctFull)
        c == GarbageRows(g, d, nm, ev, ev.csv, "garbage.csv", PctFull)
    IN IF t # OK THEN t ELSE IF j # OK THEN j ELSE IF c # OK THEN c
       ELSE Chk(ev.text.hdr = <<"Bytes", "Size %", "Garbage Item">>, "garbage.text.header", OK))
=============================================================================
