------------------------------ MODULE TwMonos -------------------------------
(* `twiggy monos`: generic functions, each with its instantiations and an    *)
(* estimate of what could be saved by not instantiating it so often.         *)
(*                                                                           *)
(* ev: only (-g), mg (generics limit), mm (instantiations limit), sel.       *)
(* An observed entry is [n, b, bp, s, sp, insts], insts of [n, s, sp].       *)
EXTENDS TwGraph, TwSelect, TwRank

(* Items that have a generic, grouped by it.  g.gen[v] = 0: none.            *)
Generics(g, nm, ev) ==
    {x \in {g.gen[v] : v \in Nodes(g)} \ {0} : NoSelection(ev.sel) \/ Selected(ev.sel, nm[x])}

(* Biggest first, then by name (names are numbered in byte order).           *)
InstsOf(g, x) ==
    LET ids == SetToSortSeq({v \in Nodes(g) : g.gen[v] = x},
                  LAMBDA a, b : \/ g.sz[a] > g.sz[b]
                                \/ g.sz[a] = g.sz[b] /\ g.name[a] < g.name[b]
                                \/ g.sz[a] = g.sz[b] /\ g.name[a] = g.name[b] /\ a < b)
    IN [i \in DOMAIN ids |-> [s |-> g.sz[ids[i]], n |-> g.name[ids[i]]]]

(* The estimate: everything but the biggest instantiation, or all but one of *)
(* the average size, whichever is less.                                      *)
Bloat(in) ==
    LET t == SumSeq([i \in DOMAIN in |-> in[i].s])
        m == MaxSeq([i \in DOMAIN in |-> in[i].s])
    IN Min2((t \div Len(in)) * (Len(in) - 1), t - m)

(* What is listed below a generic: names as strings, the last one possibly   *)
(* standing for the instantiations that are not listed.                      *)
Listed(nm, ev, in) ==
    IF ev.only THEN <<>>
    ELSE LET rest == Suffix(in, ev.mm)
         IN [i \in 1 .. Min2(ev.mm, Len(in)) |-> <<nm[in[i].n], in[i].s>>]
            \o (IF rest = <<>> THEN <<>>
                ELSE << <<"... and " \o ToString(Len(rest)) \o " more.",
                          SumSeq([i \in DOMAIN rest |-> rest[i].s])>> >>)

MonoEntries(g, nm, ev) ==
    LET gs == SetToSeq(Generics(g, nm, ev))
        E(x) == LET in == TLCEval(InstsOf(g, x))
                IN [n |-> nm[x], s |-> SumSeq([i \in DOMAIN in |-> in[i].s]),
                    b |-> Bloat(in), l |-> Listed(nm, ev, in)]
    IN [i \in DOMAIN gs |-> E(gs[i])]

MonoRows(e) == 1 + Len(e.l)

(* Rows obs against the expected entries; Seen(o) projects an observed row   *)
(* to [n, s, b, l], leaving out l where a format does not show sizes.        *)
MonosReport(g, E, obs, mg, what) ==
    LET its  == TLCEval([i \in DOMAIN E |-> << <<E[i].b, E[i].s>>, E[i] >>])
        N    == Len(E)
        k    == Min2(mg, N)
        more == N > k
        cnt  == k + (IF more THEN 1 ELSE 0) + 1
        pr   == TLCEval([i \in 1 .. k |-> << <<obs[i].b, obs[i].s>>, obs[i] >>])
        AllS == SumSeq([i \in DOMAIN E |-> E[i].s])
        AllB == SumSeq([i \in DOMAIN E |-> E[i].b])
        AllC == SumSeq([i \in DOMAIN E |-> MonoRows(E[i])])
        TopS == SumSeq([i \in 1 .. k |-> obs[i].s])
        TopB == SumSeq([i \in 1 .. k |-> obs[i].b])
        TopC == SumSeq([i \in 1 .. k |-> MonoRows(obs[i])])
    IN Chk(Len(obs) = cnt, what \o ".count",
       Chk(\A i \in 1 .. k : \E j \in DOMAIN E : E[j] = obs[i], what \o ".entry",
       Chk(Ranked(pr, its, k, Bigger2), what \o ".ranking",
       Chk(more => obs[k + 1] = [n |-> "... and " \o ToString(AllC - TopC) \o " more.",
                                 s |-> AllS - TopS, b |-> AllB - TopB, l |-> <<>>], what \o ".remainder",
       Chk(obs[cnt] = [n |-> "Σ [" \o ToString(AllC) \o " Total Rows]",
                       s |-> AllS, b |-> AllB, l |-> <<>>], what \o ".total", OK)))))

MonosPercents(g, obs, Pct(_, _, _)) ==
    \A i \in DOMAIN obs :
       /\ Pct(obs[i].bp, obs[i].b, g.size)
       /\ Pct(obs[i].sp, obs[i].s, g.size)
       /\ \A j \in DOMAIN obs[i].insts : Pct(obs[i].insts[j].sp, obs[i].insts[j].s, g.size)

Shown(nm, obs) == TLCEval([i \in DOMAIN obs |->
    [n |-> nm[obs[i].n], s |-> obs[i].s, b |-> obs[i].b,
     l |-> [j \in DOMAIN obs[i].insts |-> <<nm[obs[i].insts[j].n], obs[i].insts[j].s>>]]])

RECURSIVE JoinComma(_)
JoinComma(l) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1][1]
                ELSE l[1][1] \o ", " \o JoinComma(Tail(l))

MonosVerdict(g, d, nm, ev) ==
    Chk(ev.err = "", "monos.error",
    LET E == TLCEval(MonoEntries(g, nm, ev))
        t == MonosReport(g, E, Shown(nm, ev.text.rows), ev.mg, "monos.text")
        j == MonosReport(g, E, Shown(nm, ev.json), ev.mg, "monos.json")
        \* The CSV has the same rows as the JSON, with the names joined.
        c == /\ Len(ev.csv) = Len(ev.json)
             /\ \A i \in DOMAIN ev.csv :
                   /\ ev.csv[i].n = ev.json[i].n
                   /\ ev.csv[i].s = ev.json[i].s /\ ev.csv[i].b = ev.json[i].b
                   /\ PctFull(ev.csv[i].bp, ev.csv[i].b, g.size)
                   /\ PctFull(ev.csv[i].sp, ev.csv[i].s, g.size)
                   /\ nm[ev.csv[i].m] = JoinComma(Shown(nm, ev.json)[i].l)
    IN IF t # OK THEN t ELSE IF j # OK THEN j
       ELSE Chk(MonosPercents(g, ev.text.rows, PctCents), "monos.text.percent",
            Chk(MonosPercents(g, ev.json, PctFull), "monos.json.percent",
            Chk(c, "monos.csv.rows",
            Chk(ev.text.hdr = <<"Apprx. Bloat Bytes", "Apprx. Bloat %", "Bytes", "%",
                                "Monomorphizations">>, "monos.text.header", OK)))))
=============================================================================
