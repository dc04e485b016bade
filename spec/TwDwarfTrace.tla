---------------------------- MODULE TwDwarfTrace ----------------------------
(* Walks the debug information of each recorded object file entry by entry,  *)
(* collecting its items, then judges what the code under test made of it.    *)
EXTENDS TwDwarf, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TW_TRACE)

VARIABLES tid, pc, un, en, items, total
vars == <<tid, pc, un, en, items, total>>

S == Sessions[tid]
O == S.obs
U == S.units[un + 1]

Init == /\ tid \in DOMAIN Sessions
        /\ pc = (IF S.file = "" THEN "unit" ELSE "file")
        /\ un = 0 /\ en = 0 /\ items = <<>> /\ total = Zero

(* Files that are broken as such, or changed at random ("any"); "headers" are *)
(* files whose header claims an impossible number of sections.               *)
BrokenFile == /\ pc = "file"
              /\ pc' = "broken"
              /\ UNCHANGED <<tid, un, en, items, total>>

OpenUnit == /\ pc = "unit" /\ un < Len(S.units)
            /\ pc' = (IF UnitBroken(U) THEN "broken" ELSE "die")
            /\ en' = 0
            /\ UNCHANGED <<tid, un, items, total>>

ReadDie == /\ pc = "die" /\ en < Len(U.dies)
           /\ LET it == TLCEval(ItemOf(U, U.dies[en + 1], un, en, total))
              IN IF it = Broken THEN pc' = "broken" /\ UNCHANGED <<items, total>>
                 ELSE IF it = None THEN UNCHANGED <<pc, items, total>>
                 ELSE /\ items' = Append(items, [id |-> <<un, en>>, nm |-> it[1], sz |-> it[2]])
                      /\ total' = Add64(total, it[2])
                      /\ UNCHANGED pc
           /\ en' = en + 1
           /\ UNCHANGED <<tid, un>>

CloseUnit == /\ pc = "die" /\ en = Len(U.dies)
             /\ pc' = "unit" /\ un' = un + 1
             /\ UNCHANGED <<tid, en, items, total>>

Finish == /\ pc = "unit" /\ un = Len(S.units)
          /\ pc' = "whole"
          /\ UNCHANGED <<tid, un, en, items, total>>

---------------------------------------------------------------------------

Same(i) == Chk(O.id[i] = items[i].id, "object.identity",
           Chk(O.nm[i] = items[i].nm, "object.name",
           Chk(O.sz[i] = items[i].sz, "object.size",
           Chk(O.kind[i] = "code", "object.kind", OK))))

(* The two places in the dependencies that are known to give up.             *)
KnownPanic ==
    CASE S.file \in {"any", "headers"} /\ O.site = "headers" -> "KF:F3"
      [] S.file = "any" /\ O.site = "object-0.17.0/src/read/elf.rs:381" -> "KF:F4"
      [] OTHER -> "broken.panic"

Verdict ==
    IF O.err = "PANIC" THEN KnownPanic
    ELSE IF S.file = "any" THEN OK
    ELSE IF pc = "broken" THEN IF O.err = "" THEN "broken.accepted" ELSE OK
    ELSE IF O.err # "" THEN "object.rejected"
    ELSE Chk(O.size = S.size, "object.file-size",
         Chk(Len(O.id) = Len(items), "object.count",
         Chk(O.edges = 0, "object.edges",
         FirstBad(Same, 1, Len(items)))))

Judge == /\ pc \in {"whole", "broken"}
         /\ PrintT(<<"JUDGED", tid, IF pc = "broken" THEN 1 ELSE 0>>)
         /\ LET v == Verdict IN IF v = OK THEN TRUE ELSE PrintT(<<"MISMATCH", tid, 1, v>>)
         /\ pc' = "done"
         /\ UNCHANGED <<tid, un, en, items, total>>

Next == BrokenFile \/ OpenUnit \/ ReadDie \/ CloseUnit \/ Finish \/ Judge
Spec == Init /\ [][Next]_vars

(* Items of different units never clash, and their sizes add up in 32 bits.  *)
Distinct == \A i, j \in DOMAIN items : i # j => items[i].id # items[j].id
SumFits  == Fits32(total)
=============================================================================
