------------------------------ MODULE TwBytes -------------------------------
(* Byte sequences: LEB128 integers, UTF-8, and numbers up to 2^33 as pairs.  *)
(* A sequence b holds bytes 0..255; positions start at 1; a range is p .. e-1.*)
(* Readers return the value and the position behind it, which is Bad if the  *)
(* encoding is broken.                                                       *)
EXTENDS TwUtil

Bad == 0        \* malformed: nothing can be read here
Unk == -1       \* not covered by this specification
Huge == 2147483647

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1 .. Len(Ascii)} |->
              31 + (CHOOSE i \in 1 .. Len(Ascii) : SubSeq(Ascii, i, i) = c)]
Bs(s)  == [i \in 1 .. Len(s) |-> CodeOf[SubSeq(s, i, i)]]
Num(n) == Bs(ToString(n))

RECURSIVE LebN(_, _, _, _)
(* Length of the LEB128 number at p, 0 if the range ends inside it.          *)
LebN(b, p, e, n) == IF p >= e THEN 0
                    ELSE IF b[p] < 128 \/ n > 10 THEN n ELSE LebN(b, p + 1, e, n + 1)
LebLen(b, p, e) == LebN(b, p, e, 1)

G(b, p, n, i) == IF i < n THEN b[p + i] % 128 ELSE 0

U32Len(b, p, e) == LET n == LebLen(b, p, e)
                   IN IF n > 5 \/ (n = 5 /\ b[p + 4] > 15) THEN 0 ELSE n

(* <<value, next>>; values above 2^31-1 read as Huge.                        *)
U32(b, p, e) ==
    LET n == U32Len(b, p, e)
    IN IF n = 0 THEN <<0, Bad>>
       ELSE IF n = 1 THEN <<b[p], p + 1>>
       ELSE IF n = 5 /\ b[p + 4] > 7 THEN <<Huge, p + 5>>
       ELSE <<G(b, p, n, 0) + 128 * G(b, p, n, 1) + 16384 * G(b, p, n, 2)
              + 2097152 * G(b, p, n, 3) + 268435456 * G(b, p, n, 4), p + n>>

(* Pairs <<h, l>> stand for h * 2^16 + l.                                    *)
PairOf(g0, g1, g2, g3, g4) ==
    <<(g2 \div 4) + 32 * g3 + 4096 * g4, g0 + 128 * g1 + 16384 * (g2 % 4)>>
U32Pair(b, p, e) ==
    LET n == U32Len(b, p, e)
    IN IF n = 0 THEN <<<<0, 0>>, Bad>>
       ELSE <<PairOf(G(b, p, n, 0), G(b, p, n, 1), G(b, p, n, 2), G(b, p, n, 3), G(b, p, n, 4)),
              p + n>>
(* A signed 32 bit number read as an unsigned address.                       *)
S32Pair(b, p, e) ==
    LET n == LebLen(b, p, e)
        s == n > 0 /\ (b[p + n - 1] % 128) >= 64
        D(i) == IF i < n THEN b[p + i] % 128 ELSE IF s THEN 127 ELSE 0
    IN IF n = 0 \/ n > 5 \/ (n = 5 /\ (b[p + 4] % 128) \notin (0 .. 7) \union (120 .. 127))
       THEN <<<<0, 0>>, Bad>>
       ELSE <<PairOf(D(0), D(1), D(2), D(3), D(4) % 16), p + n>>
(* A signed 64 bit number: a pair if it is an address below 2^32, else <<>>. *)
S64Pair(b, p, e) ==
    LET n == LebLen(b, p, e)
        s == n > 0 /\ (b[p + n - 1] % 128) >= 64
        D(i) == IF i < n THEN b[p + i] % 128 ELSE IF s THEN 127 ELSE 0
    IN IF n = 0 \/ n > 10 \/ (n = 10 /\ b[p + 9] \notin {0, 127}) THEN <<<<>>, Bad>>
       ELSE IF D(4) > 15 \/ \E i \in 5 .. 9 : D(i) # 0 THEN <<<<>>, p + n>>
       ELSE <<PairOf(D(0), D(1), D(2), D(3), D(4)), p + n>>

AddPair(x, y) == LET l == x[2] + y[2] IN <<x[1] + y[1] + l \div 65536, l % 65536>>
IntPair(n)    == <<n \div 65536, n % 65536>>
LessPair(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Top32 == <<65536, 0>>                                   \* 2^32

Cont(b, p) == b[p] >= 128 /\ b[p] < 192

RECURSIVE Utf8(_, _, _)
Utf8(b, p, e) ==
    IF p >= e THEN TRUE
    ELSE LET c == b[p]
         IN IF c < 128 THEN Utf8(b, p + 1, e)
            ELSE IF c \in 194 .. 223
                 THEN p + 1 < e /\ Cont(b, p + 1) /\ Utf8(b, p + 2, e)
            ELSE IF c \in 224 .. 239
                 THEN /\ p + 2 < e /\ Cont(b, p + 1) /\ Cont(b, p + 2)
                      /\ (c = 224 => b[p + 1] >= 160) /\ (c = 237 => b[p + 1] < 160)
                      /\ Utf8(b, p + 3, e)
            ELSE IF c \in 240 .. 244
                 THEN /\ p + 3 < e /\ Cont(b, p + 1) /\ Cont(b, p + 2) /\ Cont(b, p + 3)
                      /\ (c = 240 => b[p + 1] >= 144) /\ (c = 244 => b[p + 1] < 144)
                      /\ Utf8(b, p + 4, e)
            ELSE FALSE

(* A length-prefixed UTF-8 string: <<bytes, next>>.                          *)
Str(b, p, e) ==
    LET n == U32(b, p, e)
    IN IF n[2] = Bad \/ n[1] > e - n[2] THEN <<<<>>, Bad>>
       ELSE IF ~ Utf8(b, n[2], n[2] + n[1]) THEN <<<<>>, Bad>>
       ELSE <<SubSeq(b, n[2], n[2] + n[1] - 1), n[2] + n[1]>>

SumRun(b, p, e) == e - p
BytesStart(s, q) == Len(q) <= Len(s) /\ SubSeq(s, 1, Len(q)) = q
RECURSIVE IsInfix(_, _, _)
IsInfix(s, q, i) == IF i + Len(q) - 1 > Len(s) THEN 0
                    ELSE IF SubSeq(s, i, i + Len(q) - 1) = q THEN i ELSE IsInfix(s, q, i + 1)
(* Position of the first q in s, 0 if there is none; of the last one.        *)
FirstAt(s, q) == IsInfix(s, q, 1)
RECURSIVE LastAtFrom(_, _, _)
LastAtFrom(s, q, i) == IF i < 1 THEN 0
                       ELSE IF SubSeq(s, i, i + Len(q) - 1) = q THEN i ELSE LastAtFrom(s, q, i - 1)
LastAt(s, q) == LastAtFrom(s, q, Len(s) - Len(q) + 1)
=============================================================================
