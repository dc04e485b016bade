------------------------------- MODULE TwWasm -------------------------------
(* What a WebAssembly binary contains: its items with the bytes that encode  *)
(* each of them, their names, and the references between them.  This is a    *)
(* reading of the binary format, section by section; it shares nothing with  *)
(* the code under test.                                                      *)
(*                                                                           *)
(* A reading carries a class: 0 well formed, 1 lenient (may be rejected, but *)
(* if accepted exactly as read), 2 unspecified (may be rejected; if accepted *)
(* every byte must still be accounted for), 3 broken (must be rejected).     *)
EXTENDS TwBytes

ValTypes == {127, 126, 125, 124, 123, 112, 111}
RefTypes == {112, 111}
TypeName(t) == CASE t = 127 -> Bs("i32") [] t = 126 -> Bs("i64") [] t = 125 -> Bs("f32")
                 [] t = 124 -> Bs("f64") [] t = 123 -> Bs("v128") [] t = 112 -> Bs("funcref")
                 [] t = 111 -> Bs("externref")

---------------------------------------------------------------------------
(* Instructions.  Op reads one at p: <<next, what, value>> with what one of  *)
(* "open" (a block starts), "end", "call" (refers to function value), "glob",*)
(* "const" (i32.const: address pair), "const64", "load" (offset pair),       *)
(* "null", "" (nothing of interest).                                         *)

Plain(p) == <<p, "", 0>>
Lebs(b, p, e, k) ==          \* skip k numbers
    LET q1 == U32(b, p, e)[2]
    IN IF k = 0 THEN p ELSE IF q1 = Bad \/ k = 1 THEN q1
       ELSE LET q2 == U32(b, q1, e)[2]
            IN IF q2 = Bad \/ k = 2 THEN q2 ELSE U32(b, q2, e)[2]
SkipB(p, e, k) == IF p + k <= e THEN p + k ELSE Bad
MemArg(b, p, e) ==           \* <<next, offset pair>>
    LET a == U32(b, p, e)
    IN IF a[2] = Bad THEN <<Bad, <<0, 0>>>>
       ELSE IF a[1] >= 64 THEN <<Unk, <<0, 0>>>>
       ELSE LET o == U32Pair(b, a[2], e) IN <<o[2], o[1]>>
BlockType(b, p, e) ==
    IF p >= e THEN Bad
    ELSE IF b[p] = 64 \/ b[p] \in ValTypes THEN p + 1
    ELSE LET n == LebLen(b, p, e)
         IN IF n = 0 \/ n > 5 THEN Bad
            ELSE IF (b[p + n - 1] % 128) >= 64 \/ n = 5 THEN Unk ELSE p + n

RECURSIVE SkipLebs(_, _, _, _)
SkipLebs(b, p, e, k) ==
    IF k = 0 THEN p ELSE LET q == U32(b, p, e)[2] IN IF q = Bad THEN Bad ELSE SkipLebs(b, q, e, k - 1)

OpFC(b, p, e) ==
    LET c == U32(b, p, e)
    IN IF c[2] = Bad THEN <<Bad, "", 0>>
       ELSE LET k == CASE c[1] \in 0 .. 7 -> 0 [] c[1] \in {9, 11, 13, 15, 16, 17} -> 1
                       [] c[1] \in {8, 10, 12, 14} -> 2 [] OTHER -> 9
            IN IF k = 9 THEN <<Unk, "", 0>> ELSE Plain(Lebs(b, c[2], e, k))
OpFD(b, p, e) ==
    LET c == U32(b, p, e)
    IN IF c[2] = Bad THEN <<Bad, "", 0>>
       ELSE CASE c[1] \in (0 .. 11) \union {92, 93} -> Plain(MemArg(b, c[2], e)[1])
              [] c[1] = 12 -> Plain(SkipB(c[2], e, 16))
              [] c[1] \in 84 .. 91 ->
                   LET m == MemArg(b, c[2], e)[1] IN Plain(IF m < 1 THEN m ELSE SkipB(m, e, 1))
              [] c[1] \in 21 .. 34 -> Plain(SkipB(c[2], e, 1))
              [] c[1] \in {14, 15, 16, 17, 18, 19, 20, 35, 65, 77, 78, 110, 174} -> Plain(c[2])
              [] OTHER -> <<Unk, "", 0>>

Op(b, p, e) ==
    IF p >= e THEN <<Bad, "", 0>>
    ELSE LET c == b[p]  q == p + 1
    IN CASE c = 11 -> <<q, "end", 0>>
         [] c \in {2, 3, 4, 6} -> <<BlockType(b, q, e), "open", 0>>
         [] c = 16 \/ c = 18 \/ c = 210 ->
               LET u == U32(b, q, e) IN <<u[2], "call", u[1]>>
         [] c = 35 \/ c = 36 -> LET u == U32(b, q, e) IN <<u[2], "glob", u[1]>>
         [] c \in 40 .. 53 -> LET m == MemArg(b, q, e) IN <<m[1], "load", m[2]>>
         [] c \in 54 .. 62 -> Plain(MemArg(b, q, e)[1])
         [] c = 65 -> LET s == S32Pair(b, q, e) IN <<s[2], "const", s[1]>>
         [] c = 66 -> LET s == S64Pair(b, q, e) IN <<s[2], "const64", s[1]>>
         [] c = 67 -> Plain(SkipB(q, e, 4))
         [] c = 68 -> Plain(SkipB(q, e, 8))
         [] c \in {0, 1, 5, 15, 25, 26, 27, 209} \union (69 .. 196) -> Plain(q)
         [] c \in {7, 8, 9, 12, 13, 32, 33, 34, 37, 38, 63, 64} -> Plain(Lebs(b, q, e, 1))
         [] c = 24 -> <<Lebs(b, q, e, 1), "end", 0>>          \* delegate closes its block
         [] c \in {17, 19} -> Plain(Lebs(b, q, e, 2))
         [] c = 14 -> LET n == U32(b, q, e)
                      IN IF n[2] = Bad THEN Plain(Bad)
                         ELSE IF n[1] > e THEN Plain(Bad)
                         ELSE Plain(SkipLebs(b, n[2], e, n[1] + 1))
         [] c = 28 -> IF q + 1 < e /\ b[q] = 1 /\ b[q + 1] \in ValTypes THEN Plain(q + 2)
                      ELSE IF q + 1 >= e THEN Plain(Bad) ELSE Plain(Unk)
         [] c = 208 -> IF q >= e THEN Plain(Bad)
                       ELSE IF b[q] \in RefTypes THEN <<q + 1, "null", 0>> ELSE Plain(Unk)
         [] c = 252 -> OpFC(b, q, e)
         [] c = 253 -> OpFD(b, q, e)
         [] OTHER -> Plain(Unk)

(* A function body's instructions.  prev: the address the instruction before *)
(* pushed, or <<>>.  refs: <<"f", n>>, <<"g", n>> and <<"d", address>>.       *)
RECURSIVE Ops(_, _, _, _, _, _, _)
Ops(b, p, e, depth, prev, refs, cls) ==
    IF p = e THEN [cls |-> IF depth = 0 THEN cls ELSE Max2(cls, 1), refs |-> refs]
    ELSE LET o == TLCEval(Op(b, p, e))
         IN IF o[1] = Bad THEN [cls |-> 3, refs |-> refs]
            ELSE IF o[1] = Unk THEN [cls |-> 2, refs |-> refs]
            ELSE Ops(b, o[1], e,
                     CASE o[2] = "open" -> depth + 1 [] o[2] = "end" -> depth - 1 [] OTHER -> depth,
                     TLCEval(IF o[2] = "const" THEN o[3] ELSE <<>>),
                     TLCEval(CASE o[2] = "call" -> Append(refs, <<"f", o[3]>>)
                               [] o[2] = "glob" -> Append(refs, <<"g", o[3]>>)
                               [] o[2] = "load" /\ prev # <<>> ->
                                     Append(refs, <<"d", AddPair(prev, o[3])>>)
                               [] OTHER -> refs),
                     IF depth < 1 THEN Max2(cls, 1) ELSE cls)

(* A constant expression: [p, first: address pair or <<>>, fn: the function  *)
(* if it is a single ref.func, else -1, one: exactly one instruction].       *)
RECURSIVE InitTail(_, _, _)
InitTail(b, p, e) == LET o == Op(b, p, e)
                     IN IF o[1] < 1 THEN o[1] ELSE IF b[p] = 11 THEN o[1]
                        ELSE InitTail(b, o[1], e)
Init1(b, p, e) ==
    LET o == Op(b, p, e)
    IN IF o[1] < 1 THEN [p |-> o[1], first |-> <<>>, fn |-> -1, one |-> FALSE]
       ELSE IF b[p] = 11 THEN [p |-> o[1], first |-> <<>>, fn |-> -1, one |-> FALSE]
       ELSE [p |-> InitTail(b, o[1], e),
             first |-> IF o[2] \in {"const", "const64"} THEN o[3] ELSE <<>>,
             fn |-> IF o[2] = "call" /\ b[p] = 210 THEN o[3] ELSE -1,
             one |-> o[1] < e /\ b[o[1]] = 11 /\ o[2] # "open"]

---------------------------------------------------------------------------
(* Entries.  Each is [p, nm, k, refs, seg]: next position, name bytes, kind  *)
(* (of imports and exports), references, and for data the address and length *)
(* it initialises.                                                           *)

Ent(p, nm, k, refs, seg) == [p |-> p, nm |-> nm, k |-> k, refs |-> refs, seg |-> seg, cls |-> 0]
NoEnt(p) == Ent(p, <<>>, -1, <<>>, <<>>)

RECURSIVE ValVec(_, _, _, _, _, _)
ValVec(b, p, e, n, first, acc) ==
    IF n = 0 THEN <<p, acc>>
    ELSE IF p >= e THEN <<Bad, acc>>
    ELSE IF b[p] \notin ValTypes THEN <<Unk, acc>>
    ELSE ValVec(b, p + 1, e, n - 1, FALSE,
                TLCEval(IF first THEN TypeName(b[p]) ELSE acc \o Bs(", ") \o TypeName(b[p])))

TypeEnt(b, i, p, e) ==
    IF p >= e THEN NoEnt(Bad)
    ELSE IF b[p] # 96 THEN NoEnt(Unk)
    ELSE LET n1 == U32(b, p + 1, e)
         IN IF n1[2] = Bad THEN NoEnt(Bad) ELSE IF n1[1] > 1000 THEN NoEnt(Unk)
            ELSE LET ps == ValVec(b, n1[2], e, n1[1], TRUE, <<>>)
                 IN IF ps[1] < 1 THEN NoEnt(ps[1])
                    ELSE LET n2 == U32(b, ps[1], e)
                         IN IF n2[2] = Bad THEN NoEnt(Bad) ELSE IF n2[1] > 1000 THEN NoEnt(Unk)
                            ELSE LET rs == ValVec(b, n2[2], e, n2[1], TRUE, <<>>)
                                     nm == Bs("type[") \o Num(i) \o Bs("]: (") \o ps[2]
                                           \o Bs(") -> ")
                                           \o CASE n2[1] = 0 -> Bs("nil")
                                                [] n2[1] = 1 -> rs[2]
                                                [] OTHER -> Bs("(") \o rs[2] \o Bs(")")
                                 IN IF rs[1] < 1 THEN NoEnt(rs[1])
                                    ELSE Ent(rs[1], nm, -1, <<>>, <<>>)

Limits(b, p, e, mx) ==
    IF p >= e THEN Bad
    ELSE IF b[p] > mx THEN Unk
    ELSE LET q == U32(b, p + 1, e)[2]
         IN IF q = Bad THEN Bad ELSE IF b[p] % 2 = 1 THEN U32(b, q, e)[2] ELSE q
TableType(b, p, e) == IF p >= e THEN Bad
                      ELSE IF b[p] \notin RefTypes THEN Unk ELSE Limits(b, p + 1, e, 1)
MemType(b, p, e)   == Limits(b, p, e, 3)
GlobalType(b, p, e) == IF p + 1 >= e THEN Bad
                       ELSE IF b[p] \notin ValTypes \/ b[p + 1] > 1 THEN Unk ELSE p + 2

ImportEnt(b, i, p, e) ==
    LET m == Str(b, p, e)
    IN IF m[2] < 1 THEN NoEnt(m[2])
       ELSE LET f == Str(b, m[2], e)
            IN IF f[2] < 1 THEN NoEnt(f[2])
               ELSE IF f[2] >= e THEN NoEnt(Bad)
               ELSE LET k == b[f[2]]
                        q == CASE k = 0 -> U32(b, f[2] + 1, e)[2]
                               [] k = 1 -> TableType(b, f[2] + 1, e)
                               [] k = 2 -> MemType(b, f[2] + 1, e)
                               [] k = 3 -> GlobalType(b, f[2] + 1, e)
                               [] k = 4 -> IF f[2] + 1 >= e THEN Bad
                                           ELSE IF b[f[2] + 1] # 0 THEN Unk
                                           ELSE U32(b, f[2] + 2, e)[2]
                               [] OTHER -> Unk
                    IN Ent(q, Bs("import ") \o m[1] \o Bs("::") \o f[1], k, <<>>, <<>>)

Indexed(what, i) == Bs(what) \o Bs("[") \o Num(i) \o Bs("]")

GlobalEnt(b, i, p, e) ==
    LET q == GlobalType(b, p, e)
    IN IF q < 1 THEN NoEnt(q)
       ELSE Ent(Init1(b, q, e).p, Indexed("global", i), -1, <<>>, <<>>)

Spaces == <<"f", "t", "m", "g">>
ExportEnt(b, i, p, e) ==
    LET n == Str(b, p, e)
    IN IF n[2] < 1 THEN NoEnt(n[2])
       ELSE IF n[2] >= e THEN NoEnt(Bad)
       ELSE LET k == b[n[2]]
                u == U32(b, n[2] + 1, e)
            IN IF k > 4 THEN NoEnt(Unk)
               ELSE Ent(u[2], Bs("export \"") \o n[1] \o Bs("\""), k,
                        IF k = 4 THEN <<>> ELSE <<<<Spaces[k + 1], u[1]>>>>, <<>>)

RECURSIVE ElemIdx(_, _, _, _, _)
ElemIdx(b, p, e, n, acc) ==
    IF n = 0 THEN <<p, acc>>
    ELSE LET u == U32(b, p, e)
         IN IF u[2] = Bad THEN <<Bad, acc>>
            ELSE ElemIdx(b, u[2], e, n - 1, TLCEval(Append(acc, <<"f", u[1]>>)))
RECURSIVE ElemExpr(_, _, _, _, _)
ElemExpr(b, p, e, n, acc) ==
    IF n = 0 THEN <<p, acc>>
    ELSE LET x == TLCEval(Init1(b, p, e))
         IN IF x.p < 1 THEN <<x.p, acc>>
            ELSE IF ~ x.one \/ (x.fn = -1 /\ b[p] # 208) THEN <<Unk, acc>>
            ELSE ElemExpr(b, x.p, e, n - 1,
                          TLCEval(IF x.fn = -1 THEN acc ELSE Append(acc, <<"f", x.fn>>)))

ElemEnt(b, i, p, e) ==
    LET fl  == U32(b, p, e)
        act == fl[1] % 2 = 0
        tb  == IF act /\ fl[1] \in {2, 6} THEN U32(b, fl[2], e) ELSE <<0, fl[2]>>
    IN IF fl[2] = Bad THEN NoEnt(Bad)
       ELSE IF fl[1] > 7 THEN NoEnt(Unk)
       ELSE IF tb[2] = Bad THEN NoEnt(Bad)
       ELSE LET q1 == IF act THEN Init1(b, tb[2], e).p ELSE tb[2]
            IN IF q1 < 1 THEN NoEnt(q1)
               ELSE LET q2 == IF fl[1] \in {0, 4} THEN q1
                              ELSE IF q1 >= e THEN Bad
                              ELSE IF fl[1] < 4 THEN (IF b[q1] = 0 THEN q1 + 1 ELSE Unk)
                              ELSE IF b[q1] \in RefTypes THEN q1 + 1 ELSE Unk
                    IN IF q2 < 1 THEN NoEnt(q2)
                       ELSE LET n == U32(b, q2, e)
                            IN IF n[2] = Bad THEN NoEnt(Bad)
                               ELSE LET r == IF fl[1] < 4 THEN ElemIdx(b, n[2], e, n[1], <<>>)
                                             ELSE ElemExpr(b, n[2], e, n[1], <<>>)
                                    IN IF r[1] < 1 THEN NoEnt(r[1])
                                       ELSE Ent(r[1], Indexed("elem", i), -1,
                                                IF act THEN <<<<"T", tb[1]>>>> \o r[2] ELSE r[2],
                                                <<>>)

DataEnt(b, i, p, e) ==
    LET fl == U32(b, p, e)
    IN IF fl[2] = Bad THEN NoEnt(Bad)
       ELSE IF fl[1] > 2 THEN NoEnt(Unk)
       ELSE LET q1 == IF fl[1] = 2 THEN U32(b, fl[2], e)[2] ELSE fl[2]
            IN IF q1 = Bad THEN NoEnt(Bad)
               ELSE LET x == IF fl[1] = 1 THEN [p |-> q1, first |-> <<>>] ELSE Init1(b, q1, e)
                    IN IF x.p < 1 THEN NoEnt(x.p)
                       ELSE LET n == U32(b, x.p, e)
                            IN IF n[2] = Bad \/ n[1] > e - n[2] THEN NoEnt(Bad)
                               ELSE Ent(n[2] + n[1], Indexed("data", i), -1, <<>>,
                                        IF fl[1] = 1 \/ x.first = <<>> THEN <<>>
                                        ELSE <<x.first, n[1]>>)

RECURSIVE Locals(_, _, _, _)
Locals(b, p, e, n) ==
    IF n = 0 THEN p
    ELSE LET q == U32(b, p, e)[2]
         IN IF q = Bad /\ LebLen(b, p, e) = 5 THEN Unk        \* too many locals
            ELSE IF q = Bad \/ q >= e THEN Bad
            ELSE IF b[q] \notin ValTypes THEN Unk ELSE Locals(b, q + 1, e, n - 1)

CodeEnt(b, i, p, e) ==
    LET n == U32(b, p, e)
    IN IF n[2] = Bad \/ n[1] > e - n[2] THEN NoEnt(Bad)
       ELSE LET be == n[2] + n[1]
                k  == U32(b, n[2], be)
            IN IF k[2] = Bad THEN NoEnt(Bad)
               ELSE LET q == Locals(b, k[2], be, k[1])
                    IN IF q = Bad THEN NoEnt(Bad)
                       ELSE LET o == IF q = Unk THEN [cls |-> 2, refs |-> <<>>]
                                     ELSE Ops(b, q, be, 1, <<>>, <<>>, 0)
                            IN [Ent(be, Indexed("code", i), -1, o.refs, <<>>) EXCEPT !.cls = o.cls]

EntryOf(id, b, i, p, e) ==
    CASE id = 1  -> TypeEnt(b, i, p, e)
      [] id = 2  -> ImportEnt(b, i, p, e)
      [] id = 3  -> LET u == U32(b, p, e) IN Ent(u[2], <<>>, u[1], <<>>, <<>>)
      [] id = 4  -> Ent(TableType(b, p, e), Indexed("table", i), -1, <<>>, <<>>)
      [] id = 5  -> Ent(MemType(b, p, e), Indexed("memory", i), -1, <<>>, <<>>)
      [] id = 6  -> GlobalEnt(b, i, p, e)
      [] id = 7  -> ExportEnt(b, i, p, e)
      [] id = 9  -> ElemEnt(b, i, p, e)
      [] id = 10 -> CodeEnt(b, i, p, e)
      [] id = 11 -> DataEnt(b, i, p, e)

RECURSIVE Entries(_, _, _, _, _, _, _, _)
Entries(id, b, p, e, i, n, acc, cls) ==
    IF i = n THEN [ents |-> acc, cls |-> IF p = e THEN cls ELSE 3]
    ELSE LET r == TLCEval(EntryOf(id, b, i, p, e))
         IN IF r.p = Bad THEN [ents |-> acc, cls |-> 3]
            ELSE IF r.p = Unk THEN [ents |-> acc, cls |-> Max2(cls, 2)]
            ELSE Entries(id, b, r.p, e, i + 1, n,
                         TLCEval(Append(acc, [sz |-> r.p - p, nm |-> r.nm, k |-> r.k,
                                              refs |-> r.refs, seg |-> r.seg])),
                         Max2(cls, r.cls))

---------------------------------------------------------------------------
(* The name section: its subsections and the names of functions and data.    *)

RECURSIVE NameMap(_, _, _, _, _, _)
NameMap(b, p, e, n, m, acc) ==
    IF n = 0 THEN [ok |-> p = e, map |-> acc]
    ELSE LET i == U32(b, p, e)
         IN IF i[2] = Bad THEN [ok |-> FALSE, map |-> acc]
            ELSE LET s == Str(b, i[2], e)
                 IN IF s[2] < 1 THEN [ok |-> FALSE, map |-> acc]
                    ELSE NameMap(b, s[2], e, n - 1, m, TLCEval((i[1] :> s[1]) @@ acc))

SubName(id) ==
    LET w == CASE id = 0 -> "module name" [] id = 1 -> "function names" [] id = 2 -> "local names"
               [] id = 3 -> "label names" [] id = 4 -> "type names" [] id = 5 -> "table names"
               [] id = 6 -> "memory names" [] id = 7 -> "global names" [] id = 8 -> "element names"
               [] id = 9 -> "data names" [] OTHER -> "unknown name"
    IN Bs("\"") \o Bs(w) \o Bs("\" subsection")

RECURSIVE Subsections(_, _, _, _)
Subsections(b, p, e, st) ==
    IF p = e THEN st
    ELSE LET len == IF p + 1 < e THEN U32(b, p + 1, e) ELSE <<0, Bad>>
         IN IF b[p] > 127 \/ len[2] = Bad \/ len[1] > e - len[2]
            THEN [st EXCEPT !.cls = 2]
            ELSE LET q  == len[2] + len[1]
                     c  == U32(b, len[2], q)
                     mp == IF b[p] \notin {1, 9} THEN [ok |-> TRUE, map |-> <<>>]
                           ELSE IF c[2] = Bad THEN [ok |-> FALSE, map |-> <<>>]
                           ELSE NameMap(b, c[2], q, c[1], 0, <<>>)
                 IN Subsections(b, q, e, TLCEval(
                      [ents |-> Append(st.ents, [sz |-> q - p, nm |-> SubName(b[p]), k |-> b[p],
                                                 refs |-> <<>>, seg |-> <<>>]),
                       cls  |-> IF mp.ok THEN st.cls ELSE 2,
                       fn   |-> IF b[p] = 1 THEN mp.map @@ st.fn ELSE st.fn,
                       dn   |-> IF b[p] = 9 THEN mp.map @@ st.dn ELSE st.dn]))

---------------------------------------------------------------------------
(* Sections: [id, nm, from, to, ents, cls, fn, dn, idx]                      *)

Sec(id, nm, from, to, ents, cls) ==
    [id |-> id, nm |-> nm, from |-> from, to |-> to, ents |-> ents, cls |-> cls,
     fn |-> <<>>, dn |-> <<>>, idx |-> -1]

IsMagic(b) == Len(b) >= 8 /\ SubSeq(b, 1, 4) = <<0, 97, 115, 109>>
Magic(b) == Sec(-1, <<>>, 1, 9, <<>>, IF SubSeq(b, 5, 8) = <<1, 0, 0, 0>> THEN 0 ELSE 2)

SingleU32(id, b, from, p, e) ==
    LET u == U32(b, p, e)
    IN IF u[2] # e THEN Sec(id, <<>>, from, e, <<>>, 3)
       ELSE [Sec(id, <<>>, from, e, <<>>, 0) EXCEPT !.idx = u[1]]

Custom(b, from, p, e) ==
    LET s == Str(b, p, e)
    IN IF s[2] = Bad THEN Sec(0, <<>>, from, e, <<>>, 3)
       ELSE IF s[1] = Bs("name")
            THEN LET r == Subsections(b, s[2], e, [ents |-> <<>>, cls |-> 0, fn |-> <<>>, dn |-> <<>>])
                 IN [Sec(0, s[1], from, e, r.ents, r.cls) EXCEPT !.fn = r.fn, !.dn = r.dn]
            ELSE Sec(0, s[1], from, e,
                     <<[sz |-> e - s[2], nm |-> Bs("custom section '") \o s[1] \o Bs("'"), k |-> -1,
                        refs |-> <<>>, seg |-> <<>>]>>, 0)

(* The section at p; a broken header or size gives class 3 and to = Bad.     *)
ReadSection(b, p) ==
    LET e0 == Len(b) + 1
        n  == IF p + 1 < e0 THEN U32(b, p + 1, e0) ELSE <<0, Bad>>
    IN IF b[p] > 127 \/ n[2] = Bad \/ n[1] > e0 - n[2] THEN Sec(b[p], <<>>, p, Bad, <<>>, 3)
       ELSE LET q == n[2]
                e == n[2] + n[1]
                id == b[p]
            IN CASE id = 0 -> Custom(b, p, q, e)
                 [] id \in (1 .. 7) \union (9 .. 11) ->
                      LET c == U32(b, q, e)
                      IN IF c[2] = Bad THEN Sec(id, <<>>, p, e, <<>>, 3)
                         ELSE LET r == Entries(id, b, c[2], e, 0, c[1], <<>>, 0)
                              IN Sec(id, <<>>, p, e, r.ents, r.cls)
                 [] id \in {8, 12} -> SingleU32(id, b, p, q, e)
                 [] id = 13 -> Sec(id, <<>>, p, e, <<>>, 1)
                 [] OTHER -> Sec(id, <<>>, p, e, <<>>, 2)

(* Where a section has to stand among the others.                            *)
Order(id) == CASE id \in 1 .. 5 -> id [] id = 13 -> 6 [] id = 6 -> 7 [] id = 7 -> 8 [] id = 8 -> 9
               [] id = 9 -> 10 [] id = 12 -> 11 [] id = 10 -> 12 [] id = 11 -> 13 [] OTHER -> 0
InOrder(ss) == \A i \in DOMAIN ss : \A j \in DOMAIN ss :
                  i < j /\ Order(ss[i].id) > 0 /\ Order(ss[j].id) > 0
                     => Order(ss[i].id) < Order(ss[j].id)

---------------------------------------------------------------------------
(* The module as a whole.                                                    *)

AnyName == <<-1>>
HeaderName(s) ==
    CASE s.id = -1 -> Bs("wasm magic bytes")
      [] s.id = 0 -> Bs("custom section '") \o s.nm \o Bs("' headers")
      [] s.id = 1 -> Bs("type section headers") [] s.id = 2 -> Bs("import section headers")
      [] s.id = 4 -> Bs("table section headers") [] s.id = 5 -> Bs("memory section headers")
      [] s.id = 6 -> Bs("global section headers") [] s.id = 7 -> Bs("export section headers")
      [] s.id = 8 -> Bs("start section headers") [] s.id = 9 -> Bs("element section headers")
      [] s.id = 10 -> Bs("code section headers") [] s.id = 11 -> Bs("data section headers")
      [] s.id = 12 -> Bs("data count section headers")
      [] OTHER -> AnyName

EntKind(s) == CASE s.id = 10 -> "code" [] s.id \in {6, 11} -> "data"
                [] s.id = 0 /\ s.nm = Bs("name") -> "debug" [] OTHER -> "misc"
EntRoot(s) == s.id \in {4, 7} \/ (s.id = 0 /\ s.nm = Bs("name"))

Listed(s) == IF s.id = 3 THEN 0 ELSE Len(s.ents) + 1          \* items a section makes
RECURSIVE Bases(_, _, _)
Bases(ss, i, at) == IF i > Len(ss) THEN <<>>
                    ELSE <<at>> \o Bases(ss, i + 1, at + Listed(ss[i]))

Having(ss, id) == {i \in DOMAIN ss : ss[i].id = id}
One(ss, id) == LET h == Having(ss, id) IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
EntSum(s) == SumSeq([i \in DOMAIN s.ents |-> s.ents[i].sz])

(* Later names replace earlier ones.                                         *)
RECURSIVE AllNames(_, _, _)
AllNames(ss, i, acc) == IF i > Len(ss) THEN acc
                        ELSE AllNames(ss, i + 1, TLCEval(
                               [f |-> ss[i].fn @@ acc.f, d |-> ss[i].dn @@ acc.d]))

(* The index space sp: item positions, imports first.                        *)
Space(ss, base, k, id) ==
    LET im == One(ss, 2)
        df == One(ss, id)
        a  == IF im = 0 THEN <<>>
              ELSE LET idx == SetToSortSeq({i \in DOMAIN ss[im].ents : ss[im].ents[i].k = k},
                                           LAMBDA x, y : x < y)
                   IN [j \in DOMAIN idx |-> base[im] + idx[j]]
        d  == IF df = 0 THEN <<>> ELSE [i \in DOMAIN ss[df].ents |-> base[df] + i]
    IN a \o d

(* Everything there is to say about sections ss (the magic first), in order  *)
(* and none twice.                                                           *)
Build(ss) ==
    LET base == TLCEval(Bases(ss, 1, 0))
        n    == base[Len(ss)] + Listed(ss[Len(ss)]) + 1          \* with the meta root
        fs   == One(ss, 3)
        cs   == One(ss, 10)
        ts   == One(ss, 1)
        nm   == TLCEval(AllNames(ss, 1, [f |-> <<>>, d |-> <<>>]))
        sp   == TLCEval([f |-> Space(ss, base, 0, 10), t |-> Space(ss, base, 1, 4),
                         m |-> Space(ss, base, 2, 5), g |-> Space(ss, base, 3, 6)])
        nimp == Len(sp.f) - (IF cs = 0 THEN 0 ELSE Len(ss[cs].ents))
        SpOf(r) == IF r[1] = "T" THEN sp.t ELSE sp[r[1]]
        InSp(r) == r[1] = "d" \/ r[2] < Len(SpOf(r))
        ents == TLCEval(UNION {{<<i, j>> : j \in DOMAIN ss[i].ents} : i \in (DOMAIN ss) \ {fs}})
        EntName(i, j) ==
            CASE ss[i].id = 10 -> IF (nimp + j - 1) \in DOMAIN nm.f THEN nm.f[nimp + j - 1]
                                  ELSE ss[i].ents[j].nm
              [] ss[i].id = 11 -> IF (j - 1) \in DOMAIN nm.d
                                  THEN Bs("data segment \"") \o nm.d[j - 1] \o Bs("\"")
                                  ELSE ss[i].ents[j].nm
              [] OTHER -> ss[i].ents[j].nm
        EntSize(i, j) == ss[i].ents[j].sz + (IF ss[i].id = 10 THEN ss[fs].ents[j].sz ELSE 0)
        SecItems(i) ==
            IF ss[i].id = 3 THEN <<>>
            ELSE [j \in 1 .. Len(ss[i].ents) |->
                    [nm |-> EntName(i, j), sz |-> EntSize(i, j), kind |-> EntKind(ss[i]),
                     root |-> EntRoot(ss[i])]]
                 \o <<[nm |-> HeaderName(ss[i]), kind |-> "misc", root |-> TRUE,
                       sz |-> ss[i].to - ss[i].from - EntSum(ss[i])
                              + (IF ss[i].id = 10
                                 THEN ss[fs].to - ss[fs].from - EntSum(ss[fs]) ELSE 0)]>>
        items == TLCEval(FoldLeft(LAMBDA acc, i : acc \o SecItems(i), <<>>, [i \in DOMAIN ss |-> i]))
        oob  == \/ \E x \in ents : \E r \in Elems(ss[x[1]].ents[x[2]].refs) : ~ InSp(r)
                \/ \E i \in Having(ss, 8) : ss[i].idx >= Len(sp.f)
                \/ /\ fs # 0 /\ ts # 0
                   /\ \E j \in DOMAIN ss[fs].ents : ss[fs].ents[j].k >= Len(ss[ts].ents)
        cls  == IF fs = 0 \/ cs = 0 THEN 2
                ELSE IF Len(ss[fs].ents) # Len(ss[cs].ents) THEN 3
                ELSE IF oob THEN 3
                ELSE IF ts = 0 /\ ss[fs].ents # <<>> THEN 2 ELSE 0
        \* Direct references, without those to data.
        At(i, j) == base[i] + j
        E1 == UNION {{<<At(x[1], x[2]), SpOf(r)[r[2] + 1]>> :
                         r \in {q \in Elems(ss[x[1]].ents[x[2]].refs) : q[1] \notin {"d", "T"}}} :
                     x \in ents}
        E2 == UNION {{<<SpOf(r)[r[2] + 1], At(x[1], x[2])>> :
                         r \in {q \in Elems(ss[x[1]].ents[x[2]].refs) : q[1] = "T"}} : x \in ents}
        E3 == {<<At(i, 1), sp.f[ss[i].idx + 1]>> : i \in Having(ss, 8)}
        E4 == IF ts = 0 THEN {}
              ELSE {<<At(cs, j), At(ts, ss[fs].ents[j].k + 1)>> : j \in DOMAIN ss[fs].ents}
        \* Data segments by address; of several at one address the last counts.
        ds   == One(ss, 11)
        segs == IF ds = 0 THEN {}
                ELSE {[v |-> At(ds, j), a |-> ss[ds].ents[j].seg[1], j |-> j,
                       z |-> AddPair(ss[ds].ents[j].seg[1], IntPair(ss[ds].ents[j].seg[2]))] :
                        j \in {k \in DOMAIN ss[ds].ents : ss[ds].ents[k].seg # <<>>}}
        linked == {s \in segs : ~ LessPair(Top32, s.z)}
        uniq == {s \in linked : ~ \E t \in linked : t.a = s.a /\ t.j > s.j}
        Holding(a) == {s.v : s \in {t \in linked : ~ LessPair(a, t.a) /\ LessPair(a, t.z)}}
        \* The deviation F1: the first segment at or behind the address.
        Behind(a) == LET c == {s \in uniq : ~ LessPair(s.a, a)}
                     IN {s.v : s \in {t \in c : /\ \A u \in c : ~ LessPair(u.a, t.a)
                                               /\ LessPair(a, t.z)}}
        loads == IF cs = 0 THEN <<>>
                 ELSE [j \in DOMAIN ss[cs].ents |->
                         {r[2] : r \in {q \in Elems(ss[cs].ents[j].refs) : q[1] = "d"}}]
    IN IF cls >= 2 THEN [cls |-> cls, n |-> n]
       ELSE [cls   |-> cls, n |-> n, items |-> items,
             edges |-> TLCEval(E1 \union E2 \union E3 \union E4),
             loads |-> TLCEval([j \in DOMAIN loads |->
                         [v |-> At(cs, j),
                          hold |-> {Holding(a) : a \in loads[j]},
                          dev  |-> UNION {Behind(a) : a \in loads[j]}]]),
             data  |-> {s.v : s \in segs}]
=============================================================================
