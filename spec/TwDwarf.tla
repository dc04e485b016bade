------------------------------ MODULE TwDwarf -------------------------------
(* Items of an object file, from its debug information.                      *)
(*                                                                           *)
(* A file is a sequence of units in file order.  A unit u has                *)
(*   v      DWARF version, 2 .. 5                                            *)
(*   asz    size of an address in bytes, 4 or 8                              *)
(*   low    <<>> or <<base address>>                                         *)
(*   addrs  its part of the address table                                    *)
(*   dies   its entries below the unit's own, depth first                    *)
(* A die has a tag t and, as empty or one element sequences, a linkage name  *)
(* l, a name n, low and high addresses lo and hi, and ranges r.              *)
(*                                                                           *)
(* Numbers have 64 bits: <<d1, d2, d3, d4>>, 16 bits each, highest first.    *)
EXTENDS TwBytes

Zero == <<0, 0, 0, 0>>
RECURSIVE AddFrom(_, _, _, _)
AddFrom(x, y, i, c) ==                      \* digits 1 .. i, modulo 2^64
    IF i = 0 THEN <<>>
    ELSE LET s == x[i] + y[i] + c
         IN Append(AddFrom(x, y, i - 1, s \div 65536), s % 65536)
Add64(x, y) == AddFrom(x, y, 4, 0)
RECURSIVE CarryAt(_, _, _)
CarryAt(x, y, i) == IF i = 5 THEN 0 ELSE (x[i] + y[i] + CarryAt(x, y, i + 1)) \div 65536
Overflows(x, y) == CarryAt(x, y, 1) = 1
RECURSIVE SubFrom(_, _, _, _)
SubFrom(x, y, i, c) ==
    IF i = 0 THEN <<>>
    ELSE LET s == x[i] - y[i] - c
         IN Append(SubFrom(x, y, i - 1, IF s < 0 THEN 1 ELSE 0), s % 65536)
Sub64(x, y) == SubFrom(x, y, 4, 0)
RECURSIVE LessFrom(_, _, _)
LessFrom(x, y, i) == IF i = 5 THEN FALSE
                     ELSE x[i] < y[i] \/ (x[i] = y[i] /\ LessFrom(x, y, i + 1))
Less64(x, y) == LessFrom(x, y, 1)
Mask(x, asz) == IF asz = 8 THEN x ELSE <<0, 0, x[3], x[4]>>
Top(asz) == Mask(<<65535, 65535, 65535, 65535>>, asz)
(* An address that marks code the linker removed.                            *)
Tomb(v, asz) == IF v <= 4 THEN Sub64(Top(asz), <<0, 0, 0, 1>>) ELSE Top(asz)
Fits32(x) == x[1] = 0 /\ x[2] = 0

(* What cannot be read, and what describes no code.                          *)
Broken == <<-1>>
None   == <<>>

(* An address is given as such, or by its place in the address table.        *)
Addr(u, a) == CASE a.k = "abs" -> a.v
                [] a.k = "idx" /\ a.i \in DOMAIN u.addrs -> u.addrs[a.i]
                [] OTHER -> Broken

---------------------------------------------------------------------------
(* Range lists.                                                              *)

Entry(u, r, base) ==       \* <<begin, end>>, <<>> for an entry to be skipped
    LET raw == CASE r.k = "pair"   -> <<Mask(Add64(r.b, base), u.asz), Mask(Add64(r.e, base), u.asz)>>
                 [] r.k = "bounds" -> <<Addr(u, r.b), Addr(u, r.e)>>
                 [] r.k = "length" -> LET b == Addr(u, r.b)
                                      IN IF b = Broken THEN <<b, b>>
                                         ELSE <<b, Mask(Add64(b, r.e), u.asz)>>
    IN IF r.k = "pair" /\ base = Tomb(u.v, u.asz) THEN <<>>
       ELSE IF raw[1] = Broken \/ raw[2] = Broken THEN Broken
       ELSE IF raw[1] = Tomb(u.v, u.asz) THEN <<>>
       ELSE IF Less64(raw[2], raw[1]) THEN Broken
       ELSE raw

RECURSIVE RangeSum(_, _, _, _, _)
RangeSum(u, rs, i, base, acc) ==
    IF i > Len(rs) THEN acc
    ELSE IF rs[i].k = "base"
         THEN LET b == Addr(u, rs[i].b)
              IN IF b = Broken THEN Broken ELSE RangeSum(u, rs, i + 1, b, acc)
    ELSE IF rs[i].k = "pair" /\ u.v <= 4 /\ rs[i].b = Zero /\ rs[i].e = Zero
         THEN acc                                     \* the end of the list
    ELSE LET e == TLCEval(Entry(u, rs[i], base))
         IN IF e = Broken THEN Broken
            ELSE IF e = <<>> THEN RangeSum(u, rs, i + 1, base, acc)
            ELSE LET n == TLCEval(Sub64(e[2], e[1]))
                 IN IF Overflows(acc, n) THEN Broken
                    ELSE RangeSum(u, rs, i + 1, base, TLCEval(Add64(acc, n)))

UnitBase(u) == IF u.low = <<>> THEN Zero ELSE Addr(u, u.low[1])

---------------------------------------------------------------------------
(* The size of the code an entry describes: None if it has no code here.     *)

Size(u, d) ==
    LET lo == IF d.lo = <<>> THEN None ELSE Addr(u, d.lo[1])
    IN IF lo = Broken THEN Broken
       ELSE IF lo # None /\ d.hi # <<>>
            THEN LET h == d.hi[1]
                 IN IF h.k = "off" THEN h.v
                    ELSE LET a == Addr(u, h)
                         IN IF a = Broken \/ Less64(a, lo) THEN Broken ELSE Sub64(a, lo)
       ELSE IF d.r = <<>> THEN None
       ELSE IF d.r[1].k # "list" THEN Broken
       ELSE RangeSum(u, d.r[1].l, 1, UnitBase(u), Zero)

(* The linkage name, else the source name, else one made from the position.  *)
Name(d, un, en) ==
    LET s == IF d.l # <<>> THEN d.l[1] ELSE IF d.n # <<>> THEN d.n[1] ELSE [k |-> "none"]
    IN CASE s.k = "none" -> Bs("Subroutine[") \o Num(un) \o Bs("][") \o Num(en) \o Bs("]")
         [] s.k = "str"  -> IF Utf8(s.b, 1, Len(s.b) + 1) THEN s.b ELSE Broken
         [] OTHER        -> Broken

(* The name and size of the item a die stands for; None or Broken.            *)
ItemOf(u, d, un, en, total) ==
    IF d.t # "subprogram" THEN None
    ELSE LET sz == TLCEval(Size(u, d))
         IN IF sz = None \/ sz = Broken THEN sz
            ELSE IF ~ Fits32(sz) \/ ~ Fits32(Add64(total, sz)) THEN Broken
            ELSE LET nm == TLCEval(Name(d, un, en))
                 IN IF nm = Broken THEN Broken ELSE <<nm, sz>>

UnitBroken(u) == \/ u.asz \notin {1, 2, 4, 8}
                 \/ u.low # <<>> /\ u.low[1].k = "idx" /\ Addr(u, u.low[1]) = Broken
=============================================================================
