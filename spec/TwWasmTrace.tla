---------------------------- MODULE TwWasmTrace -----------------------------
(* Reads each recorded module section by section, then judges what the code  *)
(* under test made of the same bytes.  A session holds the bytes, what was   *)
(* observed, and which properties are to be judged (focus).                  *)
EXTENDS TwWasm, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TW_TRACE)

VARIABLES tid, pc, pos, secs
vars == <<tid, pc, pos, secs>>

S == Sessions[tid]
B == S.bytes
O == S.obs

Init == /\ tid \in DOMAIN Sessions
        /\ pc = "magic" /\ pos = 1 /\ secs = <<>>

ReadMagic == /\ pc = "magic"
             /\ IF IsMagic(B) THEN /\ secs' = <<Magic(B)>> /\ pos' = 9 /\ pc' = "section"
                ELSE /\ secs' = <<>> /\ pos' = pos /\ pc' = "broken"
             /\ UNCHANGED tid

ReadOne == /\ pc = "section" /\ pos <= Len(B)
           /\ LET s == ReadSection(B, pos)
              IN /\ secs' = Append(secs, s)
                 /\ pos' = IF s.cls = 3 THEN pos ELSE s.to
                 /\ pc' = IF s.cls = 3 THEN "broken" ELSE "section"
           /\ UNCHANGED tid

Finish == /\ pc = "section" /\ pos = Len(B) + 1
          /\ pc' = "whole"
          /\ UNCHANGED <<tid, pos, secs>>

(* Every byte read so far belongs to exactly one section.                    *)
Contiguous == \A i \in DOMAIN secs :
                 secs[i].to # Bad => secs[i].from = (IF i = 1 THEN 1 ELSE secs[i - 1].to)

SecCls == FoldSeq(LAMBDA s, a : Max2(s.cls, a), 0, secs)
Tidy   == InOrder(secs)

Reading == IF pc = "broken" THEN [cls |-> 3]
           ELSE IF SecCls >= 2 \/ ~ Tidy THEN [cls |-> 2]
           ELSE LET r == Build(secs) IN IF r.cls < SecCls THEN [r EXCEPT !.cls = SecCls] ELSE r

---------------------------------------------------------------------------
(* Judging.  O.err is "" or what the parser said; O.sz, O.nm (bytes), O.kind *)
(* and O.succ list the items it made in its own order, the meta root last.   *)

Total == SumSeq(O.sz)
RootsOf(r) == {i \in 1 .. (r.n - 1) : r.items[i].root}
Mangled(nm) == \E q \in {Bs("_Z"), Bs("__Z"), Bs("ZN"), Bs("_R"), Bs("R"), Bs("__R"), Bs("_GLOBAL_")} :
                  BytesStart(nm, q)

SizesVerdict(r) ==
    Chk(Total = Len(B), "size.file-total",
    Chk(O.size = Len(B), "size.file-size",
    IF r.cls >= 2 \/ Len(O.sz) # r.n THEN OK
    ELSE Chk(\A i \in 1 .. (r.n - 1) : O.sz[i] = r.items[i].sz, "size.item", OK)))

(* The name of an undemangled symbol is judged elsewhere.                    *)
NameOk(it, nm) == \/ it.nm = AnyName \/ nm = it.nm
                  \/ it.kind = "code" /\ Mangled(it.nm)

ItemsVerdict(r) ==
    IF r.cls >= 2 THEN OK
    ELSE Chk(Len(O.sz) = r.n, "items.count",
         Chk(\A i \in 1 .. (r.n - 1) : NameOk(r.items[i], O.nm[i]), "items.name",
         Chk(\A i \in 1 .. (r.n - 1) : O.kind[i] = r.items[i].kind, "items.kind",
         Chk(Elems(O.succ[r.n]) = RootsOf(r), "items.roots", OK))))

EdgesVerdict(r) ==
    IF r.cls >= 2 \/ Len(O.sz) # r.n THEN OK
    ELSE LET real  == {<<i, t>> \in (1 .. (r.n - 1)) \X (1 .. r.n) : t \in Elems(O.succ[i])}
             todat == {x \in real : x[2] \in r.data /\ O.kind[x[1]] = "code"}
             DataOf(v) == {x[2] : x \in {y \in todat : y[1] = v}}
             Ideal(l) == /\ DataOf(l.v) \subseteq UNION l.hold
                         /\ \A h \in l.hold : h # {} => h \intersect DataOf(l.v) # {}
         IN Chk(real \ todat = r.edges, IF r.edges \subseteq real THEN "edges.extra" ELSE "edges.missing",
            Chk(\A i \in DOMAIN r.loads : Ideal(r.loads[i]) \/ DataOf(r.loads[i].v) = r.loads[i].dev,
                "edges.data",
            Chk(\A i \in DOMAIN r.loads : Ideal(r.loads[i]), "KF:F1", OK)))

Wants(x) == \E i \in DOMAIN S.focus : S.focus[i] = x

Verdict(r) ==
    IF O.err = "PANIC" THEN "broken.panic"
    ELSE IF O.err # "" THEN
         IF r.cls = 0 THEN "rejected" ELSE OK
    ELSE IF r.cls = 3 THEN IF Wants("broken") THEN "broken.accepted" ELSE OK
    ELSE LET a == IF Wants("size") THEN SizesVerdict(r) ELSE OK
             b == IF Wants("items") THEN ItemsVerdict(r) ELSE OK
             c == IF Wants("edges") THEN EdgesVerdict(r) ELSE OK
         IN IF a # OK THEN a ELSE IF b # OK THEN b ELSE c

Report(r, v) == /\ PrintT(<<"JUDGED", tid, r.cls>>)
                /\ IF v = OK THEN TRUE ELSE PrintT(<<"MISMATCH", tid, 1, v>>)

Judge == /\ pc \in {"whole", "broken"}
         /\ LET r == TLCEval(Reading) IN Report(r, Verdict(r))
         /\ pc' = "done"
         /\ UNCHANGED <<tid, pos, secs>>

Next == ReadMagic \/ ReadOne \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars

(* The specification's own reading accounts for every byte.                  *)
Accounted ==
    pc = "whole" => LET r == Reading
                    IN r.cls < 2 => SumSeq([i \in DOMAIN r.items |-> r.items[i].sz]) = Len(B)
=============================================================================
