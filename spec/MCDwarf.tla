------------------------------- MODULE MCDwarf ------------------------------
(* Small units of debug information, growing one attribute at a time.        *)
(* Checked: what TwDwarf reads from an entry agrees with a second account of *)
(* it, declarative and in plain integers. Every unit is printed, encoded in  *)
(* whatever forms come up, and replayed against the real reader.             *)
EXTENDS TwDwarf, Json

CONSTANTS Depth, Many

VARIABLES v, asz, low, dies, steps
vars == <<v, asz, low, dies, steps>>

(* Addresses: <<"abs", n>>, <<"idx", i>> into the unit's table (from 0),     *)
(* <<"tomb", 0>>, the mark of removed code.                                  *)
Table == <<4096, 4112, 0>>
NoDie == [d |-> 1, t |-> "subprogram", l |-> <<>>, n |-> <<>>, lo |-> <<>>, hi |-> <<>>, r |-> <<>>]

Addrs == { <<"abs", 4096>>, <<"abs", 0>>, <<"tomb", 0>> }
         \union (IF v >= 4 THEN { <<"idx", 0>>, <<"idx", 2>>, <<"idx", 9>> } ELSE {})
Highs == { <<"off", 0>>, <<"off", 16>>, <<"abs", 4128>>, <<"abs", 4095>> }
         \union (IF v >= 4 THEN { <<"idx", 1>> } ELSE {})
Bases == { <<"abs", 8192>>, <<"tomb", 0>> } \union (IF v >= 5 THEN { <<"idx", 1>> } ELSE {})
Entries == { <<"pair", 0, 0>>, <<"pair", 0, 3>>, <<"pair", 4, 9>>, <<"pair", 5, 5>>, <<"pair", 9, 4>> }
           \union { <<"base", a>> : a \in Bases }
           \union (IF v >= 5
                   THEN { <<"bounds", <<"abs", 16>>, <<"abs", 48>> >>, <<"bounds", <<"idx", 0>>, <<"idx", 1>> >>,
                          <<"bounds", <<"idx", 1>>, <<"idx", 0>> >>, <<"bounds", <<"idx", 1>>, <<"idx", 7>> >>,
                          <<"length", <<"abs", 64>>, 6>>, <<"length", <<"idx", 2>>, 7>>,
                          <<"length", <<"idx", 8>>, 7>>, <<"length", <<"tomb", 0>>, 5>> }
                   ELSE {})

Cur == dies[Len(dies)]
Set(d) == dies' = [dies EXCEPT ![Len(dies)] = d]

Init == /\ v \in (IF Many THEN 2 .. 5 ELSE {2, 4, 5})
        /\ asz \in (IF Many THEN {4, 8} ELSE IF v = 2 THEN {4} ELSE {8})
        /\ low \in {<<>>, << <<"abs", 256>> >>}
                   \union (IF v >= 4 /\ Many THEN {<< <<"idx", 0>> >>, << <<"idx", 5>> >>, << <<"tomb", 0>> >>} ELSE {})
        /\ dies = <<NoDie>>
        /\ steps = 0

Grow ==
    \/ Cur.l = <<>> /\ \E s \in {"link", "missing", "bad"} : Set([Cur EXCEPT !.l = <<s>>])
    \/ Cur.n = <<>> /\ \E s \in {"name", "bad"} : Set([Cur EXCEPT !.n = <<s>>])
    \/ Cur.lo = <<>> /\ \E a \in Addrs : Set([Cur EXCEPT !.lo = <<a>>])
    \/ Cur.hi = <<>> /\ \E h \in Highs : Set([Cur EXCEPT !.hi = <<h>>])
    \/ Cur.r = <<>> /\ Set([Cur EXCEPT !.r = << <<>> >>])
    \/ Cur.r # <<>> /\ Len(Cur.r[1]) < 3 /\ \E e \in Entries : Set([Cur EXCEPT !.r = << Append(Cur.r[1], e) >>])
    \/ Cur.t = "subprogram" /\ \E t \in {"inlined_subroutine", "variable"} : Set([Cur EXCEPT !.t = t])
    \/ Len(dies) < 2 /\ \E deep \in {1, 2} : dies' = Append(dies, [NoDie EXCEPT !.d = deep])
Next == /\ steps < Depth
        /\ Grow
        /\ steps' = steps + 1
        /\ UNCHANGED <<v, asz, low>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* As TwDwarf reads it.                                                      *)
Limbs(k) == <<0, 0, k \div 65536, k % 65536>>
A(a) == CASE a[1] = "abs" -> [k |-> "abs", v |-> Limbs(a[2]), i |-> 0]
          [] a[1] = "off" -> [k |-> "off", v |-> Limbs(a[2]), i |-> 0]
          [] a[1] = "idx" -> [k |-> "idx", v |-> Zero, i |-> a[2] + 1]
          [] a[1] = "tomb" -> [k |-> "abs", v |-> Tomb(v, asz), i |-> 0]
R(e) == CASE e[1] = "base"   -> [k |-> "base", b |-> A(e[2]), e |-> Zero]
          [] e[1] = "pair"   -> [k |-> "pair", b |-> Limbs(e[2]), e |-> Limbs(e[3])]
          [] e[1] = "bounds" -> [k |-> "bounds", b |-> A(e[2]), e |-> A(e[3])]
          [] e[1] = "length" -> [k |-> "length", b |-> A(e[2]), e |-> Limbs(e[3])]
NameOf(s) == CASE s = "link" -> [k |-> "str", b |-> <<108>>] [] s = "name" -> [k |-> "str", b |-> <<110>>]
            [] s = "bad" -> [k |-> "str", b |-> <<255>>] [] s = "missing" -> [k |-> "missing", b |-> <<>>]
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Rs(l) == [k |-> "list", l |-> Map(R, l)]
D(d) == [t |-> d.t, l |-> Map(NameOf, d.l), n |-> Map(NameOf, d.n), lo |-> Map(A, d.lo),
         hi |-> Map(A, d.hi), r |-> Map(Rs, d.r)]
U == [v |-> v, asz |-> asz, low |-> Map(A, low), addrs |-> IF v >= 4 THEN Map(Limbs, Table) ELSE <<>>,
      dies |-> Map(D, dies)]

---------------------------------------------------------------------------
(* The second account. T stands above every other address, X for one that    *)
(* cannot be found.                                                          *)
T == 1000000
X == -1
Num1(a) == CASE a[1] = "abs" -> a[2] [] a[1] = "tomb" -> T
             [] a[1] = "idx" -> IF a[2] < Len(Table) THEN Table[a[2] + 1] ELSE X
Low0 == IF low = <<>> THEN 0 ELSE Num1(low[1])

IsEnd(e) == v <= 4 /\ e = <<"pair", 0, 0>>
Used(l) == { i \in DOMAIN l : \A j \in 1 .. i : ~ IsEnd(l[j]) }
BaseAt(l, i) == LET bs == { j \in 1 .. (i - 1) : l[j][1] = "base" }
                IN IF bs = {} THEN Low0
                   ELSE Num1(l[CHOOSE j \in bs : \A k \in bs : k <= j][2])
From(l, i) == IF l[i][1] = "pair" THEN BaseAt(l, i) ELSE Num1(l[i][2])
Wrong(l, i) == CASE l[i][1] = "base" -> Num1(l[i][2]) = X
                 [] l[i][1] = "pair" -> BaseAt(l, i) # T /\ l[i][3] < l[i][2]
                 [] l[i][1] = "length" -> Num1(l[i][2]) = X
                 [] l[i][1] = "bounds" -> LET b == Num1(l[i][2]) e == Num1(l[i][3])
                                          IN b = X \/ e = X \/ (b # T /\ e < b)
Part(l, i) == IF l[i][1] = "base" \/ From(l, i) = T THEN 0
              ELSE CASE l[i][1] = "pair" -> l[i][3] - l[i][2]
                     [] l[i][1] = "length" -> l[i][3]
                     [] l[i][1] = "bounds" -> Num1(l[i][3]) - Num1(l[i][2])
RECURSIVE Sum(_, _)
Sum(l, s) == IF s = {} THEN 0 ELSE LET i == CHOOSE i \in s : TRUE IN Part(l, i) + Sum(l, s \ {i})

(* X: broken; -2: no code.                                                   *)
Expected(d) ==
    IF d.lo # <<>> /\ Num1(d.lo[1]) = X THEN X
    ELSE IF d.lo # <<>> /\ d.hi # <<>>
         THEN IF d.hi[1][1] = "off" THEN d.hi[1][2]
              ELSE LET s == Num1(d.hi[1]) - Num1(d.lo[1]) IN IF s < 0 THEN X ELSE s
    ELSE IF d.r = <<>> THEN -2
    ELSE IF \E i \in Used(d.r[1]) : Wrong(d.r[1], i) THEN X
    ELSE Sum(d.r[1], Used(d.r[1]))

Read(i) == LET z == TLCEval(Size(U, U.dies[i])) IN IF z = None THEN -2 ELSE IF z = Broken THEN X
                                                   ELSE z[3] * 65536 + z[4]
LowFound == low = <<>> \/ Num1(low[1]) # X
SizeAgrees == LowFound => \A i \in DOMAIN dies : Read(i) = Expected(dies[i])
UnitAgrees == UnitBroken(U) = (~ LowFound)

ItemAgrees == LowFound => \A i \in DOMAIN dies :
    LET it == TLCEval(ItemOf(U, U.dies[i], 3, i, Zero))
        d == dies[i]
        s == IF d.l # <<>> THEN d.l[1] ELSE IF d.n # <<>> THEN d.n[1] ELSE "none"
    IN CASE d.t # "subprogram" \/ Expected(d) = -2 -> it = None
         [] d.t = "subprogram" /\ Expected(d) # -2 /\ (Expected(d) = X \/ s \in {"bad", "missing"}) -> it = Broken
         [] OTHER -> it = << CASE s = "link" -> <<108>> [] s = "name" -> <<110>>
                               [] s = "none" -> Bs("Subroutine[3][") \o Num(i) \o Bs("]"),
                             Limbs(Expected(d)) >>

Emit == PrintT(<<"EMIT", ToJson([v |-> v, asz |-> asz, low |-> low, addrs |-> Table, dies |-> dies])>>)
=============================================================================
