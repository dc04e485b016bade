------------------------------- MODULE TwUtil -------------------------------
(* Small vocabulary shared by every module of the twiggy specification.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a)     == IF a >= 0 THEN a ELSE -a

SumSeq(s)      == FoldSeq(LAMBDA e, acc : e + acc, 0, s)
SumOver(f, S)  == FoldFunctionOnSet(LAMBDA e, acc : e + acc, 0, f, S)
MaxSeq(s)      == FoldSeq(Max2, 0, s)
Elems(s)       == {s[i] : i \in DOMAIN s}
Prefix(s, k)   == SubSeq(s, 1, Min2(k, Len(s)))
Suffix(s, k)   == SubSeq(s, k + 1, Len(s))          \* what Prefix(s, k) drops
Count(s, x)    == Cardinality({i \in DOMAIN s : s[i] = x})
MapSeq(s, Op(_)) == [i \in DOMAIN s |-> Op(s[i])]
SelectIdx(s, T(_)) == {i \in DOMAIN s : T(s[i])}

(* A verdict chain: the name of the first clause that does not hold.  TLC    *)
(* evaluates the arguments lazily, so later clauses may rely on earlier ones. *)
Chk(cond, name, rest) == IF cond THEN rest ELSE name
OK == "ok"

RECURSIVE FirstBad(_, _, _)
(* First non-"ok" verdict among V(i), i = k .. n.                            *)
FirstBad(V(_), k, n) ==
    IF k > n THEN OK
    ELSE LET v == V(k) IN IF v = OK THEN FirstBad(V, k + 1, n) ELSE v

(* Strings (TLC can take Len and SubSeq of strings).                         *)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasSub(s, p)     == \E i \in 1 .. (Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
RECURSIVE Repeat(_, _)
Repeat(s, k) == IF k <= 0 THEN "" ELSE s \o Repeat(s, k - 1)

(* Number of bytes of the minimal unsigned LEB128 encoding of n.             *)
Leb(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2
          ELSE IF n < 2097152 THEN 3 ELSE IF n < 268435456 THEN 4 ELSE 5
(* Number of bytes of the minimal signed LEB128 encoding of n.               *)
SLeb(n) == LET m == IF n >= 0 THEN n ELSE -(n + 1)
           IN IF m < 64 THEN 1 ELSE IF m < 8192 THEN 2
              ELSE IF m < 1048576 THEN 3 ELSE IF m < 134217728 THEN 4 ELSE 5

(* Percentages.  h is a percentage with two decimals, in hundredths, as the  *)
(* tables print it; it has to be s/t rounded to nearest.                     *)
PctCents(h, s, t) ==
    IF t > 200000 \/ s > 200000 THEN TRUE
    ELSE 2 * Abs(h * t - s * 10000) <= t

(* A full precision percentage: p = <<integer part, first nine decimals>>.   *)
(* The expected digits come from long division; one unit of slack in the     *)
(* ninth decimal allows for binary rounding.                                 *)
PctFull(p, s, t) ==
    LET i0 == (s * 100) \div t
        r0 == (s * 100) % t
        a  == (r0 * 1000) \div t   r1 == (r0 * 1000) % t
        b  == (r1 * 1000) \div t   r2 == (r1 * 1000) % t
        c  == (r2 * 1000) \div t
        f0 == a * 1000000 + b * 1000 + c
    IN IF t > 2000000 \/ s > 20000000 THEN TRUE
       ELSE \/ p[1] = i0 /\ Abs(p[2] - f0) <= 1
            \/ p[1] + 1 = i0 /\ f0 = 0 /\ p[2] = 999999999
            \/ p[1] = i0 + 1 /\ p[2] = 0 /\ f0 = 999999999
=============================================================================
