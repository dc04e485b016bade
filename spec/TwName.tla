------------------------------- MODULE TwName -------------------------------
(* Names of functions.  Shown(s) is the name shown for the symbol s, and     *)
(* GenericOf(n) the generic that the function shown as n instantiates.  All  *)
(* names are sequences of bytes (UTF-8).                                     *)
(*                                                                           *)
(* A symbol is a mangled Rust name of the older kind (_ZN3foo3bar17h...E),   *)
(* or one of the newer kind (_RNvC3foo3bar), or a mangled C++ name (_Z3fooi);*)
(* everything else is shown as it is.  Each kind is read by a recursive      *)
(* descent below.  A reading ends in one of three ways: "ok"; "bad", the     *)
(* symbol is not of that kind; "unk", it uses something this specification   *)
(* does not describe.                                                        *)
EXTENDS TwBytes

Dig(c)   == c >= 48 /\ c <= 57
Up(c)    == c >= 65 /\ c <= 90
Low(c)   == c >= 97 /\ c <= 122
HexLow(c) == Dig(c) \/ (c >= 97 /\ c <= 102)
HexAny(c) == HexLow(c) \/ (c >= 65 /\ c <= 70)
HexVal(c) == IF Dig(c) THEN c - 48 ELSE IF Low(c) THEN c - 87 ELSE c - 55
AsciiFrom(s, p) == \A i \in p .. Len(s) : s[i] < 128
From(s, p) == SubSeq(s, p, Len(s))
At(s, p) == IF p <= Len(s) THEN s[p] ELSE -1
Ch(c) == CodeOf[c]
Two(s, p) == IF p < Len(s) THEN SubSeq(s, p, p + 1) ELSE <<>>
Graphic(c) == c > 32 /\ c < 127

R3(st, p, o) == [st |-> st, p |-> p, o |-> o]
BadR == R3("bad", 1, <<>>)
UnkR == R3("unk", 1, <<>>)

RECURSIVE DigEnd(_, _)
DigEnd(s, p) == IF p <= Len(s) /\ Dig(s[p]) THEN DigEnd(s, p + 1) ELSE p
RECURSIVE DecVal(_, _, _, _)
DecVal(s, p, e, v) == IF p >= e THEN v
                      ELSE IF v > 9999999 THEN Huge
                      ELSE DecVal(s, p + 1, e, v * 10 + (s[p] - 48))
DecAt(s, p) == LET e == TLCEval(DigEnd(s, p)) IN <<DecVal(s, p, e, 0), e>>

(* Suffixes that LLVM adds: ".llvm.", then digits, capital A-F and "@".      *)
LlvmTail(c) == Dig(c) \/ (c >= 65 /\ c <= 70) \/ c = 64
DropLlvm(s) == LET i == TLCEval(FirstAt(s, Bs(".llvm.")))
               IN IF i > 0 /\ \A k \in (i + 6) .. Len(s) : LlvmTail(s[k])
                  THEN SubSeq(s, 1, i - 1) ELSE s
GoodTail(s, p) == p > Len(s) \/ (s[p] = 46 /\ \A k \in p .. Len(s) : Graphic(s[k]))

Utf8Of(c) == IF c < 128 THEN <<c>>
             ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
             ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
                    128 + ((c \div 64) % 64), 128 + (c % 64)>>

---------------------------------------------------------------------------
(* Rust, older kind: prefix, elements (length, bytes), "E", tail.            *)

RECURSIVE OldElems(_, _, _)
(* acc: the elements so far; result [st, p, o] with p behind the "E".        *)
OldElems(s, p, acc) ==
    IF p > Len(s) THEN BadR
    ELSE IF s[p] = 69 THEN R3("ok", p + 1, acc)
    ELSE IF ~ Dig(s[p]) THEN BadR
    ELSE LET d == TLCEval(DecAt(s, p))
         IN IF d[1] > Len(s) - d[2] THEN BadR        \* needs a byte behind it
            ELSE OldElems(s, d[2] + d[1],
                          Append(acc, SubSeq(s, d[2], d[2] + d[1] - 1)))

RECURSIVE HexNum(_, _, _)
HexNum(h, i, v) == IF i > Len(h) THEN v
                   ELSE IF v > 1114111 THEN Huge
                   ELSE HexNum(h, i + 1, v * 16 + HexVal(h[i]))
(* The character an escape stands for, <<>> if it is none.                   *)
Escape(e) ==
    CASE e = Bs("SP") -> Bs("@")
      [] e = Bs("BP") -> Bs("*")
      [] e = Bs("RF") -> Bs("&")
      [] e = Bs("LT") -> Bs("<")
      [] e = Bs("GT") -> Bs(">")
      [] e = Bs("LP") -> Bs("(")
      [] e = Bs("RP") -> Bs(")")
      [] e = Bs("C") -> Bs(",")
      [] Len(e) > 1 /\ e[1] = 117 /\ \A i \in 2 .. Len(e) : HexLow(e[i]) ->
            LET v == HexNum(e, 2, 0)
            IN IF v > 1114111 \/ (v >= 55296 /\ v <= 57343) \/ v < 32 \/ (v >= 127 /\ v <= 159)
               THEN <<>> ELSE Utf8Of(v)
      [] OTHER -> <<>>

RECURSIVE Unescape(_, _, _)
Unescape(e, p, acc) ==
    IF p > Len(e) THEN acc
    ELSE IF e[p] = 46 THEN IF At(e, p + 1) = 46 THEN Unescape(e, p + 2, acc \o Bs("::"))
                           ELSE Unescape(e, p + 1, Append(acc, 46))
    ELSE IF e[p] # 36 THEN Unescape(e, p + 1, Append(acc, e[p]))
    ELSE LET q == TLCEval(IsInfix(e, <<36>>, p + 1))
             c == TLCEval(IF q = 0 THEN <<>> ELSE Escape(SubSeq(e, p + 1, q - 1)))
         IN IF c = <<>> THEN acc \o From(e, p) ELSE Unescape(e, q + 1, acc \o c)
OldElem(e) == IF BytesStart(e, Bs("_$")) THEN Unescape(e, 2, <<>>) ELSE Unescape(e, 1, <<>>)

RECURSIVE JoinBy(_, _, _)
JoinBy(es, sep, i) == IF i > Len(es) THEN <<>>
                      ELSE (IF i = 1 THEN es[1] ELSE sep \o es[i]) \o JoinBy(es, sep, i + 1)

OldPrefix(s) == IF BytesStart(s, Bs("_ZN")) THEN 4 ELSE IF BytesStart(s, Bs("ZN")) THEN 3
                ELSE IF BytesStart(s, Bs("__ZN")) THEN 5 ELSE 0
OldRust(s0) ==
    LET s == TLCEval(DropLlvm(s0))
        p == OldPrefix(s)
        r == TLCEval(OldElems(s, p, <<>>))
    IN IF p = 0 THEN BadR
       ELSE IF ~ AsciiFrom(s, p) THEN BadR
       ELSE IF r.st # "ok" THEN BadR
       ELSE IF ~ GoodTail(s, r.p) THEN R3("bad", 0, <<>>)       \* and not of the newer kind
       ELSE R3("ok", r.p, JoinBy(MapSeq(r.o, OldElem), Bs("::"), 1) \o From(s, r.p))

---------------------------------------------------------------------------
(* Rust, newer kind.  Numbers may have 64 bits: <<d1, ..>> are the digits of *)
(* a number in some base, lowest first.                                      *)

RECURSIVE MulAdd(_, _, _, _, _)
MulAdd(n, m, a, base, i) ==
    IF i > Len(n) THEN IF a = 0 THEN n
                       ELSE MulAdd(Append(n, a % base), 1, a \div base, base, i + 1)
    ELSE LET v == n[i] * m + a
         IN MulAdd([n EXCEPT ![i] = v % base], m, v \div base, base, i + 1)
Digits(n) == IF n = <<>> THEN <<48>>
             ELSE [i \in 1 .. Len(n) |-> LET d == n[Len(n) + 1 - i]
                                         IN IF d < 10 THEN 48 + d ELSE 87 + d]
Val62(c) == IF Dig(c) THEN c - 48 ELSE IF Low(c) THEN 10 + c - 97
            ELSE IF Up(c) THEN 36 + c - 65 ELSE -1

RECURSIVE Run62(_, _, _, _)
Run62(s, p, n, base) ==
    IF p > Len(s) THEN BadR
    ELSE IF s[p] = 95 THEN R3("ok", p + 1, n)
    ELSE IF Val62(s[p]) < 0 THEN BadR
    ELSE Run62(s, p + 1, TLCEval(MulAdd(n, 62, Val62(s[p]), base, 1)), base)
(* A number in base 62: "_" is 0, "0_" is 1, and so on; more than ten digits *)
(* are left alone, they may not fit.                                         *)
Int62(s, p, base) ==
    IF At(s, p) = 95 THEN R3("ok", p + 1, <<>>)
    ELSE LET r == TLCEval(Run62(s, p, <<>>, base))
         IN IF r.st # "ok" THEN r
            ELSE IF r.p - p > 11 THEN UnkR
            ELSE R3("ok", r.p, MulAdd(r.o, 1, 1, base, 1))
OptInt62(s, p, tag, base) ==
    IF At(s, p) # tag THEN R3("ok", p, <<>>)
    ELSE LET r == TLCEval(Int62(s, p + 1, base))
         IN IF r.st = "ok" THEN R3("ok", r.p, MulAdd(r.o, 1, 1, base, 1)) ELSE r
RECURSIVE Small(_, _)
Small(n, i) == IF i > Len(n) THEN 0
               ELSE IF Len(n) > 6 THEN Huge ELSE n[i] + 10 * Small(n, i + 1)

(* An identifier.                                                            *)
Ident(s, p) ==
    IF At(s, p) = 117 THEN UnkR                              \* punycode
    ELSE IF ~ Dig(At(s, p)) THEN BadR
    ELSE LET d == TLCEval(IF s[p] = 48 THEN <<0, p + 1>> ELSE DecAt(s, p))
             q == IF At(s, d[2]) = 95 THEN d[2] + 1 ELSE d[2]
         IN IF d[1] > Len(s) - q + 1 THEN BadR
            ELSE R3("ok", q + d[1], SubSeq(s, q, q + d[1] - 1))

Basic == [c \in {"b", "c", "e", "u", "a", "s", "l", "x", "n", "i", "h", "t", "m", "y", "o",
                 "j", "f", "d", "z", "p", "v"} |->
    CASE c = "b" -> "bool" [] c = "c" -> "char" [] c = "e" -> "str" [] c = "u" -> "()"
      [] c = "a" -> "i8" [] c = "s" -> "i16" [] c = "l" -> "i32" [] c = "x" -> "i64"
      [] c = "n" -> "i128" [] c = "i" -> "isize" [] c = "h" -> "u8" [] c = "t" -> "u16"
      [] c = "m" -> "u32" [] c = "y" -> "u64" [] c = "o" -> "u128" [] c = "j" -> "usize"
      [] c = "f" -> "f32" [] c = "d" -> "f64" [] c = "z" -> "!" [] c = "p" -> "_"
      [] OTHER -> "..."]
BasicOf == [x \in {CodeOf[c] : c \in DOMAIN Basic} |->
               Bs(Basic[CHOOSE c \in DOMAIN Basic : CodeOf[c] = x])]
UnsignedTags == {Ch("h"), Ch("t"), Ch("m"), Ch("y"), Ch("o"), Ch("j")}
SignedTags == {Ch("a"), Ch("s"), Ch("l"), Ch("x"), Ch("n"), Ch("i")}

(* Put text around a successful reading.                                     *)
Wrap(r, a, b) == IF r.st = "ok" THEN R3("ok", r.p, a \o r.o \o b) ELSE r

RECURSIVE HexEnd(_, _)
HexEnd(s, p) == IF p <= Len(s) /\ HexLow(s[p]) THEN HexEnd(s, p + 1) ELSE p
RECURSIVE HexDec(_, _, _, _)
HexDec(s, p, e, n) == IF p >= e THEN n
                      ELSE HexDec(s, p + 1, e, TLCEval(MulAdd(n, 16, HexVal(s[p]), 10, 1)))
RECURSIVE SkipZeros(_, _, _)
SkipZeros(s, p, e) == IF p < e /\ s[p] = 48 THEN SkipZeros(s, p + 1, e) ELSE p
(* Nibbles up to "_": a decimal number.                                      *)
Nibbles(s, p) ==
    LET e == TLCEval(HexEnd(s, p))
    IN IF At(s, e) # 95 THEN BadR
       ELSE IF e - SkipZeros(s, p, e) > 16 THEN UnkR
       ELSE R3("ok", e + 1, Digits(HexDec(s, p, e, <<>>)))

RECURSIVE Path(_, _, _, _, _), Type(_, _, _, _), Args(_, _, _, _, _, _, _),
          GArg(_, _, _, _), Const(_, _, _), Dyn(_, _, _, _, _), Assoc(_, _, _, _, _, _)

(* s: the symbol without its prefix, p: position, v: as an expression (with  *)
(* turbofish), q: quiet, whose output is not used and whose back references  *)
(* are not followed, k: nesting depth.                                       *)
BackTo(s, p) ==                  \* p: position of the "B"; 0-based in symbols
    LET r == TLCEval(Int62(s, p + 1, 10))
        t == IF r.st = "ok" THEN Small(r.o, 1) ELSE 0
    IN IF r.st # "ok" THEN r
       ELSE IF t >= p - 1 THEN BadR
       ELSE R3("ok", r.p, t + 1)

Path(s, p, v, q, k) ==
    IF k > 60 THEN UnkR
    ELSE IF p > Len(s) THEN BadR
    ELSE LET t == s[p] IN
    IF t = Ch("C") THEN
        LET d == TLCEval(OptInt62(s, p + 1, Ch("s"), 16))
            n == TLCEval(Ident(s, d.p))
        IN IF d.st # "ok" THEN d ELSE IF n.st # "ok" THEN n
           ELSE R3("ok", n.p, n.o \o Bs("[") \o Digits(d.o) \o Bs("]"))
    ELSE IF t = Ch("N") THEN
        LET ns == At(s, p + 1)
            b == TLCEval(Path(s, p + 2, v, q, k + 1))
            d == TLCEval(OptInt62(s, b.p, Ch("s"), 10))
            n == TLCEval(Ident(s, d.p))
        IN IF ~ (Up(ns) \/ Low(ns)) THEN BadR
           ELSE IF b.st # "ok" THEN b ELSE IF d.st # "ok" THEN d ELSE IF n.st # "ok" THEN n
           ELSE IF Low(ns)
                THEN R3("ok", n.p, IF n.o = <<>> THEN b.o ELSE b.o \o Bs("::") \o n.o)
           ELSE R3("ok", n.p,
                   b.o \o Bs("::{")
                   \o (IF ns = Ch("C") THEN Bs("closure") ELSE IF ns = Ch("S") THEN Bs("shim")
                       ELSE <<ns>>)
                   \o (IF n.o = <<>> THEN <<>> ELSE Bs(":") \o n.o)
                   \o Bs("#") \o Digits(d.o) \o Bs("}"))
    ELSE IF t \in {Ch("M"), Ch("X"), Ch("Y")} THEN
        LET d == TLCEval(IF t = Ch("Y") THEN R3("ok", p + 1, <<>>)
                         ELSE OptInt62(s, p + 1, Ch("s"), 10))
            i == TLCEval(IF t = Ch("Y") THEN d ELSE Path(s, d.p, FALSE, TRUE, k + 1))
            y == TLCEval(Type(s, i.p, q, k + 1))
            a == TLCEval(IF t = Ch("M") THEN R3("ok", y.p, <<>>)
                         ELSE Wrap(Path(s, y.p, FALSE, q, k + 1), Bs(" as "), <<>>))
        IN IF d.st # "ok" THEN d ELSE IF i.st # "ok" THEN i ELSE IF y.st # "ok" THEN y
           ELSE IF a.st # "ok" THEN a
           ELSE R3("ok", a.p, Bs("<") \o y.o \o a.o \o Bs(">"))
    ELSE IF t = Ch("I") THEN
        LET b == TLCEval(Path(s, p + 1, v, q, k + 1))
            a == TLCEval(Args(s, b.p, "g", q, k + 1, 0, <<>>))
        IN IF b.st # "ok" THEN b ELSE IF a.st # "ok" THEN a
           ELSE R3("ok", a.p, b.o \o (IF v THEN Bs("::<") ELSE Bs("<")) \o a.o \o Bs(">"))
    ELSE IF t = Ch("B") THEN
        LET b == TLCEval(BackTo(s, p))
            r == TLCEval(Path(s, b.o, v, q, k + 1))
        IN IF b.st # "ok" THEN b
           ELSE IF q THEN R3("ok", b.p, <<>>)
           ELSE IF r.st # "ok" THEN UnkR          \* an error shown within the name
           ELSE R3("ok", b.p, r.o)
    ELSE BadR

(* A list up to "E", of generic arguments ("g"), types ("t") or trait bounds *)
(* ("d"); one type alone is a tuple and gets a comma.                        *)
Args(s, p, kind, q, k, n, acc) ==
    IF At(s, p) = 69 THEN R3("ok", p + 1, IF n = 1 /\ kind = "u" THEN Append(acc, 44) ELSE acc)
    ELSE LET r == TLCEval(CASE kind = "g" -> GArg(s, p, q, k)
                            [] kind = "d" -> Dyn(s, p, q, k, FALSE)
                            [] OTHER -> Type(s, p, q, k))
         IN IF r.st # "ok" THEN r
            ELSE Args(s, r.p, kind, q, k, n + 1,
                      IF n = 0 THEN r.o
                      ELSE acc \o (IF kind = "d" THEN Bs(" + ") ELSE Bs(", ")) \o r.o)

(* Only the lifetime '_ is described.                                        *)
GArg(s, p, q, k) ==
    IF At(s, p) = Ch("L") THEN IF At(s, p + 1) = 95 THEN R3("ok", p + 2, Bs("'_")) ELSE UnkR
    ELSE IF At(s, p) = Ch("K") THEN Const(s, p + 1, q)
    ELSE Type(s, p, q, k)

(* Constants: integers and booleans.                                         *)
Const(s, p, q) ==
    LET t == At(s, p) IN
    IF t = Ch("p") THEN R3("ok", p + 1, Bs("_"))
    ELSE IF t \in UnsignedTags THEN Wrap(Nibbles(s, p + 1), <<>>, BasicOf[t])
    ELSE IF t \in SignedTags
         THEN IF At(s, p + 1) = Ch("n") THEN Wrap(Nibbles(s, p + 2), Bs("-"), BasicOf[t])
              ELSE Wrap(Nibbles(s, p + 1), <<>>, BasicOf[t])
    ELSE IF t = Ch("b")
         THEN LET r == TLCEval(Nibbles(s, p + 1))
              IN IF r.st # "ok" THEN r
                 ELSE IF r.o = Bs("0") THEN R3("ok", r.p, Bs("false"))
                 ELSE IF r.o = Bs("1") THEN R3("ok", r.p, Bs("true")) ELSE BadR
    ELSE UnkR

Type(s, p, q, k) ==
    IF k > 60 THEN UnkR
    ELSE IF p > Len(s) THEN BadR
    ELSE LET t == s[p] IN
    IF t \in DOMAIN BasicOf THEN R3("ok", p + 1, BasicOf[t])
    ELSE IF t \in {Ch("R"), Ch("Q")} THEN
        LET m == IF t = Ch("Q") THEN Bs("mut ") ELSE <<>>
        IN IF At(s, p + 1) = Ch("L")
           THEN IF At(s, p + 2) = 95 THEN Wrap(Type(s, p + 3, q, k + 1), Bs("&") \o m, <<>>)
                ELSE UnkR
           ELSE Wrap(Type(s, p + 1, q, k + 1), Bs("&") \o m, <<>>)
    ELSE IF t = Ch("P") THEN Wrap(Type(s, p + 1, q, k + 1), Bs("*const "), <<>>)
    ELSE IF t = Ch("O") THEN Wrap(Type(s, p + 1, q, k + 1), Bs("*mut "), <<>>)
    ELSE IF t = Ch("S") THEN Wrap(Type(s, p + 1, q, k + 1), Bs("["), Bs("]"))
    ELSE IF t = Ch("A") THEN
        LET y == TLCEval(Type(s, p + 1, q, k + 1))
            c == TLCEval(Const(s, y.p, q))
        IN IF y.st # "ok" THEN y ELSE IF c.st # "ok" THEN c
           ELSE R3("ok", c.p, Bs("[") \o y.o \o Bs("; ") \o c.o \o Bs("]"))
    ELSE IF t = Ch("T") THEN Wrap(Args(s, p + 1, "u", q, k + 1, 0, <<>>), Bs("("), Bs(")"))
    ELSE IF t = Ch("F") THEN
        LET u == IF At(s, p + 1) = Ch("U") THEN p + 2 ELSE p + 1
            c == IF At(s, u) = Ch("K") THEN u + 2 ELSE u
            h == (IF u = p + 2 THEN Bs("unsafe ") ELSE <<>>)
                 \o (IF c # u THEN Bs("extern \"C\" ") ELSE <<>>)
            a == TLCEval(Args(s, c, "t", q, k + 1, 0, <<>>))
            r == TLCEval(IF At(s, a.p) = Ch("u") THEN R3("ok", a.p + 1, <<>>)
                         ELSE Wrap(Type(s, a.p, q, k + 1), Bs(" -> "), <<>>))
        IN IF At(s, p + 1) = Ch("G") \/ (c # u /\ At(s, u + 1) # Ch("C")) THEN UnkR
           ELSE IF a.st # "ok" THEN a ELSE IF r.st # "ok" THEN r
           ELSE R3("ok", r.p, h \o Bs("fn(") \o a.o \o Bs(")") \o r.o)
    ELSE IF t = Ch("D") THEN
        LET a == TLCEval(Args(s, p + 1, "d", q, k + 1, 0, <<>>))
        IN IF At(s, p + 1) = Ch("G") THEN UnkR
           ELSE IF a.st # "ok" THEN a
           ELSE IF At(s, a.p) # Ch("L") THEN BadR
           ELSE IF At(s, a.p + 1) # 95 THEN UnkR
           ELSE R3("ok", a.p + 2, Bs("dyn ") \o a.o)
    ELSE IF t = Ch("B") THEN
        LET b == TLCEval(BackTo(s, p))
            r == TLCEval(Type(s, b.o, q, k + 1))
        IN IF b.st # "ok" THEN b
           ELSE IF q THEN R3("ok", b.p, <<>>)
           ELSE IF r.st # "ok" THEN UnkR
           ELSE R3("ok", b.p, r.o)
    ELSE Path(s, p, FALSE, q, k + 1)

(* A bound: its path, whose argument list stays open for "Name = Type".      *)
Dyn(s, p, q, k, x) ==
    IF At(s, p) = Ch("B") THEN UnkR
    ELSE IF At(s, p) = Ch("I") THEN
        LET b == TLCEval(Path(s, p + 1, FALSE, q, k + 1))
            a == TLCEval(Args(s, b.p, "g", q, k + 1, 0, <<>>))
        IN IF b.st # "ok" THEN b ELSE IF a.st # "ok" THEN a
           ELSE Assoc(s, a.p, q, k, b.o \o Bs("<") \o a.o, TRUE)
    ELSE LET b == TLCEval(Path(s, p, FALSE, q, k + 1))
         IN IF b.st # "ok" THEN b ELSE Assoc(s, b.p, q, k, b.o, FALSE)
Assoc(s, p, q, k, acc, open) ==
    IF At(s, p) # Ch("p") THEN R3("ok", p, IF open THEN acc \o Bs(">") ELSE acc)
    ELSE LET n == TLCEval(Ident(s, p + 1))
             y == TLCEval(Type(s, n.p, q, k + 1))
         IN IF n.st # "ok" THEN n ELSE IF y.st # "ok" THEN y
            ELSE Assoc(s, y.p, q, k,
                       acc \o (IF open THEN Bs(", ") ELSE Bs("<")) \o n.o \o Bs(" = ") \o y.o, TRUE)

NewPrefix(s) == IF Len(s) > 2 /\ BytesStart(s, Bs("_R")) THEN 3
                ELSE IF Len(s) > 1 /\ s[1] = Ch("R") THEN 2
                ELSE IF Len(s) > 3 /\ BytesStart(s, Bs("__R")) THEN 4 ELSE 0
NewRust(s0) ==
    LET s1 == TLCEval(DropLlvm(s0))
        p == NewPrefix(s1)
        s == TLCEval(From(s1, p))
        r == TLCEval(Path(s, 1, TRUE, FALSE, 0))
        c == TLCEval(IF Up(At(s, r.p)) THEN Path(s, r.p, FALSE, TRUE, 0) ELSE r)
    IN IF p = 0 THEN BadR
       ELSE IF ~ Up(s[1]) \/ ~ AsciiFrom(s, 1) THEN BadR
       ELSE IF r.st # "ok" THEN r
       ELSE IF c.st # "ok" THEN c
       ELSE IF ~ GoodTail(s, c.p) THEN BadR
       ELSE IF Len(r.o) > 100000 THEN UnkR
       ELSE R3("ok", c.p, r.o \o From(s, c.p))

---------------------------------------------------------------------------
(* C++ (Itanium).  Readings carry the substitutions seen so far, sub; last,  *)
(* the name that constructors repeat; tmpl, whether the name ends in         *)
(* template arguments; and targ, the arguments.                              *)

C(st, p, o, sub) == [st |-> st, p |-> p, o |-> o, sub |-> sub, last |-> <<>>,
                     tmpl |-> FALSE, targ |-> <<>>]
UnkC == C("unk", 1, <<>>, <<>>)

Builtin == [c \in {"v", "w", "b", "c", "a", "h", "s", "t", "i", "j", "l", "m", "x", "y",
                   "f", "d", "z"} |->
    CASE c = "v" -> "void" [] c = "w" -> "wchar_t" [] c = "b" -> "bool" [] c = "c" -> "char"
      [] c = "a" -> "signed char" [] c = "h" -> "unsigned char" [] c = "s" -> "short"
      [] c = "t" -> "unsigned short" [] c = "i" -> "int" [] c = "j" -> "unsigned int"
      [] c = "l" -> "long" [] c = "m" -> "unsigned long" [] c = "x" -> "long long"
      [] c = "y" -> "unsigned long long" [] c = "f" -> "float" [] c = "d" -> "double"
      [] OTHER -> "..."]
BuiltinOf == [x \in {CodeOf[c] : c \in DOMAIN Builtin} |->
                 Bs(Builtin[CHOOSE c \in DOMAIN Builtin : CodeOf[c] = x])]
OperStr == [c \in {"pl", "mi", "ml", "dv", "eq", "ne", "lt", "gt", "le", "ge", "aS", "pL",
                   "ls", "rs", "ix", "cl", "pt", "nt", "pp", "mm", "aa", "oo"} |->
    CASE c = "pl" -> "+" [] c = "mi" -> "-" [] c = "ml" -> "*" [] c = "dv" -> "/"
      [] c = "eq" -> "==" [] c = "ne" -> "!=" [] c = "lt" -> "<" [] c = "gt" -> ">"
      [] c = "le" -> "<=" [] c = "ge" -> ">=" [] c = "aS" -> "=" [] c = "pL" -> "+="
      [] c = "ls" -> "<<" [] c = "rs" -> ">>" [] c = "ix" -> "[]" [] c = "cl" -> "()"
      [] c = "pt" -> "->" [] c = "nt" -> "!" [] c = "pp" -> "++" [] c = "mm" -> "--"
      [] c = "aa" -> "&&" [] OTHER -> "||"]
Operators == [x \in {Bs(c) : c \in DOMAIN OperStr} |->
                 Bs("operator") \o Bs(OperStr[CHOOSE c \in DOMAIN OperStr : Bs(c) = x])]

CPath(a, b) == IF a = <<>> THEN b ELSE a \o Bs("::") \o b

Source(s, p) ==
    IF ~ Dig(At(s, p)) \/ s[p] = 48 THEN R3("unk", 1, <<>>)
    ELSE LET d == TLCEval(DecAt(s, p))
             n == SubSeq(s, d[2], d[2] + d[1] - 1)
         IN IF d[1] > Len(s) - d[2] + 1 THEN R3("unk", 1, <<>>)
            ELSE IF ~ \A i \in DOMAIN n : n[i] < 128 /\ (Dig(n[i]) \/ Low(n[i]) \/ Up(n[i]) \/ n[i] = 95)
                 THEN R3("unk", 1, <<>>)
            ELSE IF BytesStart(n, Bs("_GLOBAL_")) THEN
                 IF n = Bs("_GLOBAL__N_1") THEN R3("ok", d[2] + d[1], Bs("(anonymous namespace)"))
                 ELSE R3("unk", 1, <<>>)
            ELSE R3("ok", d[2] + d[1], n)

(* S_, S0_, .. S9_: [st, p, o]; only the first eleven are described.         *)
SubAt(s, p, sub) ==
    LET n == IF At(s, p + 1) = 95 THEN 1
             ELSE IF Dig(At(s, p + 1)) /\ At(s, p + 2) = 95 THEN s[p + 1] - 46 ELSE 0
    IN IF n = 0 \/ n > Len(sub) THEN R3("unk", 1, <<>>)
       ELSE R3("ok", IF n = 1 THEN p + 2 ELSE p + 3, sub[n])

CloseArgs(a) == IF a # <<>> /\ a[Len(a)] = 62 THEN Bs(" >") ELSE Bs(">")

RECURSIVE CArgs(_, _, _, _, _), CType(_, _, _, _), CNest(_, _, _, _, _), CParams(_, _, _, _, _),
          LastOf(_, _)

(* The last component of a rendered class name without its arguments.        *)
LastOf(o, i) == IF i < 2 THEN o
                ELSE IF o[i] = 58 /\ o[i - 1] = 58 THEN From(o, i + 1) ELSE LastOf(o, i - 1)

(* Template arguments up to "E", p behind the "I"; acc: the arguments.       *)
CArgs(s, p, sub, targ, acc) ==
    IF At(s, p) = 69 /\ acc # <<>>
    THEN LET j == JoinBy(acc, Bs(", "), 1)
         IN [C("ok", p + 1, Bs("<") \o j \o CloseArgs(j), sub) EXCEPT !.targ = acc]
    ELSE IF At(s, p) = Ch("L") THEN
        LET t == At(s, p + 1)
            n == At(s, p + 2) = Ch("n")
            a == IF n THEN p + 3 ELSE p + 2
            e == DigEnd(s, a)
            v == SubSeq(s, a, e - 1)
        IN IF e = a \/ At(s, e) # 69 THEN UnkC
           ELSE IF t = Ch("i") THEN CArgs(s, e + 1, sub, targ,
                                         Append(acc, IF n THEN Bs("-") \o v ELSE v))
           ELSE IF t = Ch("b") /\ v \in {Bs("0"), Bs("1")} /\ ~ n
                THEN CArgs(s, e + 1, sub, targ,
                           Append(acc, IF v = Bs("0") THEN Bs("false") ELSE Bs("true")))
           ELSE UnkC
    ELSE LET r == TLCEval(CType(s, p, sub, targ))
         IN IF r.st # "ok" \/ r.o \in {Bs("..."), Bs("void")} THEN UnkC
            ELSE CArgs(s, r.p, r.sub, targ, Append(acc, r.o))

(* The rest of a nested name, p behind "N" and the qualifiers.               *)
CNest(s, p, sub, targ, x) ==         \* x: what has been read so far
    LET c == At(s, p)
        Step(r, o, last, tmpl, a) ==
            [st |-> "ok", p |-> r, o |-> o, last |-> last, tmpl |-> tmpl, targ |-> a,
             sub |-> IF At(s, r) = 69 THEN x.sub ELSE Append(x.sub, o)]
    IN
    IF c = 69 THEN IF FirstAt(x.o, Bs("::")) = 0 /\ ~ x.tmpl THEN UnkC ELSE [x EXCEPT !.p = p + 1]
    ELSE IF c = Ch("S") /\ x.o = <<>> THEN
        IF At(s, p + 1) = Ch("t") THEN CNest(s, p + 2, sub, targ, [x EXCEPT !.o = Bs("std")])
        ELSE LET r == TLCEval(SubAt(s, p, x.sub))
             IN IF r.st # "ok" THEN UnkC
                ELSE IF \E i \in DOMAIN r.o : r.o[i] \in {32, 38, 42, 60} THEN UnkC
                ELSE CNest(s, r.p, sub, targ,
                           [x EXCEPT !.o = r.o, !.last = LastOf(r.o, Len(r.o))])
    ELSE IF Dig(c) THEN
        LET r == TLCEval(Source(s, p))
        IN IF r.st # "ok" THEN UnkC
           ELSE CNest(s, r.p, sub, targ, TLCEval(Step(r.p, CPath(x.o, r.o), r.o, FALSE, <<>>)))
    ELSE IF c = Ch("I") /\ x.last # <<>> /\ ~ x.tmpl THEN
        LET r == TLCEval(CArgs(s, p + 1, x.sub, targ, <<>>))
            y == [x EXCEPT !.sub = r.sub]
        IN IF r.st # "ok" THEN UnkC
           ELSE CNest(s, r.p, sub, targ,
                      TLCEval([st |-> "ok", p |-> r.p, o |-> x.o \o r.o, last |-> x.last,
                               tmpl |-> TRUE, targ |-> r.targ,
                               sub |-> IF At(s, r.p) = 69 THEN y.sub
                                       ELSE Append(y.sub, x.o \o r.o)]))
    ELSE IF c = Ch("C") /\ At(s, p + 1) \in 49 .. 51 /\ x.last # <<>> /\ At(s, p + 2) = 69 THEN
        CNest(s, p + 2, sub, targ, [x EXCEPT !.o = CPath(x.o, x.last), !.tmpl = FALSE])
    ELSE IF c = Ch("D") /\ At(s, p + 1) \in 48 .. 50 /\ x.last # <<>> /\ At(s, p + 2) = 69 THEN
        CNest(s, p + 2, sub, targ,
              [x EXCEPT !.o = CPath(x.o, Bs("~") \o x.last), !.tmpl = FALSE])
    ELSE IF x.o # <<>> /\ Two(s, p) \in DOMAIN Operators /\ At(s, p + 2) = 69 THEN
        CNest(s, p + 2, sub, targ,
              [x EXCEPT !.o = CPath(x.o, Operators[Two(s, p)]), !.tmpl = FALSE])
    ELSE UnkC

(* A name: nested, plain or in std; whether used as a type or not, the whole *)
(* of it is not among the substitutions yet.                                 *)
CName(s, p, sub, targ) ==
    IF At(s, p) = Ch("N")
    THEN LET k == IF At(s, p + 1) = Ch("K") THEN p + 2 ELSE p + 1
             r == TLCEval(CNest(s, k, sub, targ, C("ok", k, <<>>, sub)))
         IN r
    ELSE LET std == At(s, p) = Ch("S") /\ At(s, p + 1) = Ch("t")
             r == TLCEval(Source(s, IF std THEN p + 2 ELSE p))
             n == IF std THEN Bs("std::") \o r.o ELSE r.o
             a == TLCEval(CArgs(s, r.p + 1, Append(sub, n), targ, <<>>))
         IN IF r.st # "ok" THEN UnkC
            ELSE IF At(s, r.p) # Ch("I") THEN [C("ok", r.p, n, sub) EXCEPT !.last = r.o]
            ELSE IF a.st # "ok" THEN UnkC
            ELSE [a EXCEPT !.o = n \o a.o, !.last = r.o, !.tmpl = TRUE]

Ends(o, c) == o # <<>> /\ o[Len(o)] = c

CType(s, p, sub, targ) ==
    LET c == At(s, p)
        Sfx(t) == LET r == TLCEval(CType(s, p + 1, sub, targ))
                      o == r.o \o Bs(t)
                  IN IF r.st # "ok" THEN UnkC
                     ELSE IF (t \in {"&", "&&", "*"}) /\ Ends(r.o, 38) THEN UnkC
                     ELSE IF t = " const" /\ (Ends(r.o, 38) \/ Ends(r.o, 116)) THEN UnkC
                     ELSE IF r.o = Bs("...") THEN UnkC
                     ELSE [r EXCEPT !.o = o, !.sub = Append(r.sub, o)]
        Named(r) == IF r.st # "ok" THEN UnkC ELSE [r EXCEPT !.sub = Append(r.sub, r.o)]
        WithArgs(q, o, sb, isNew) ==      \* a substitution, perhaps with arguments
            IF At(s, q) # Ch("I") THEN C("ok", q, o, sb)
            ELSE LET a == TLCEval(CArgs(s, q + 1, sb, targ, <<>>))
                 IN IF a.st # "ok" \/ \E i \in DOMAIN o : o[i] \in {32, 38, 42, 60} THEN UnkC
                    ELSE C("ok", a.p, o \o a.o, Append(a.sub, o \o a.o))
    IN
    IF c \in DOMAIN BuiltinOf THEN C("ok", p + 1, BuiltinOf[c], sub)
    ELSE IF c = Ch("P") THEN Sfx("*")
    ELSE IF c = Ch("R") THEN Sfx("&")
    ELSE IF c = Ch("O") THEN Sfx("&&")
    ELSE IF c = Ch("K") THEN Sfx(" const")
    ELSE IF c = Ch("T") /\ At(s, p + 1) = 95 /\ Len(targ) >= 1
         THEN C("ok", p + 2, targ[1], Append(sub, targ[1]))
    ELSE IF c = Ch("T") /\ At(s, p + 1) = 48 /\ At(s, p + 2) = 95 /\ Len(targ) >= 2
         THEN C("ok", p + 3, targ[2], Append(sub, targ[2]))
    ELSE IF c = Ch("S") /\ At(s, p + 1) = Ch("a") THEN WithArgs(p + 2, Bs("std::allocator"), sub, TRUE)
    ELSE IF c = Ch("S") /\ At(s, p + 1) = Ch("s") THEN C("ok", p + 2, Bs("std::string"), sub)
    ELSE IF c = Ch("S") /\ At(s, p + 1) # Ch("t") THEN
         LET r == TLCEval(SubAt(s, p, sub))
         IN IF r.st # "ok" THEN UnkC ELSE WithArgs(r.p, r.o, sub, FALSE)
    ELSE IF c = Ch("N") /\ At(s, p + 1) = Ch("K") THEN UnkC
    ELSE IF c = Ch("N") \/ Dig(c) \/ c = Ch("S") THEN Named(TLCEval(CName(s, p, sub, targ)))
    ELSE UnkC

(* Parameters up to the end of the symbol or a suffix.                       *)
CParams(s, p, sub, targ, acc) ==
    IF p > Len(s) \/ s[p] = 46 THEN C("ok", p, JoinBy(acc, Bs(", "), 1), sub)
    ELSE LET r == TLCEval(CType(s, p, sub, targ))
         IN IF r.st # "ok" THEN UnkC
            ELSE IF r.o = Bs("void") /\ (acc # <<>> \/ ~ (r.p > Len(s) \/ s[r.p] = 46)) THEN UnkC
            ELSE IF r.o = Bs("...") /\ ~ (r.p > Len(s) \/ s[r.p] = 46) THEN UnkC
            ELSE CParams(s, r.p, r.sub, targ,
                         IF r.o = Bs("void") THEN <<<<>>>> ELSE Append(acc, r.o))

RECURSIVE CloneEnd(_, _), CloneWord(_, _)
CloneWord(s, p) == IF p <= Len(s) /\ (Low(s[p]) \/ s[p] = 95) THEN CloneWord(s, p + 1) ELSE p
CloneEnd(s, p) == IF At(s, p) = 46 /\ Dig(At(s, p + 1)) THEN CloneEnd(s, DigEnd(s, p + 1)) ELSE p
RECURSIVE Clones(_, _, _)
(* Suffixes of copies: ".name" and numbers.                                  *)
Clones(s, p, acc) ==
    IF p > Len(s) THEN R3("ok", p, acc)
    ELSE LET w == TLCEval(CloneWord(s, p + 1))
             e == TLCEval(CloneEnd(s, w))
         IN IF s[p] # 46 \/ w = p + 1 THEN R3("unk", 1, <<>>)
            ELSE Clones(s, e, acc \o Bs(" [clone ") \o SubSeq(s, p, e - 1) \o Bs("]"))

CppPrefix(s) == IF BytesStart(s, Bs("_Z")) THEN 3 ELSE IF BytesStart(s, Bs("__Z")) THEN 4 ELSE 0
LikeCpp(s) == CppPrefix(s) > 0 \/ BytesStart(s, Bs("_GLOBAL_"))

Special == [x \in {Bs("TV"), Bs("TI"), Bs("TS"), Bs("GV")} |->
              CASE x = Bs("TV") -> <<Bs("{vtable("), Bs(")}")>>
                [] x = Bs("TI") -> <<Bs("typeinfo for "), <<>>>>
                [] x = Bs("TS") -> <<Bs("typeinfo name for "), <<>>>>
                [] OTHER -> <<Bs("guard variable for "), <<>>>>]
Cpp(s) ==
    LET p == CppPrefix(s)
        h == Two(s, p)
        sp == TLCEval(CName(s, p + 2, <<>>, <<>>))
        n == TLCEval(CName(s, p, <<>>, <<>>))
        cv == At(s, p) = Ch("N") /\ At(s, p + 1) = Ch("K")
        t == TLCEval(IF n.tmpl THEN CType(s, n.p, n.sub, n.targ) ELSE n)
        a == TLCEval(CParams(s, t.p, t.sub, n.targ, <<>>))
        z == TLCEval(Clones(s, a.p, <<>>))
    IN IF p = 0 THEN UnkR
       ELSE IF p > Len(s) \/ ~ (Dig(s[p]) \/ Up(s[p]) \/ Low(s[p]) \/ s[p] = 95) THEN BadR
       ELSE IF ~ AsciiFrom(s, 1) THEN UnkR
       ELSE IF h \in DOMAIN Special THEN
            IF sp.st # "ok" \/ sp.p <= Len(s) \/ \E i \in DOMAIN sp.o : sp.o[i] \in {126, 111, 40}
            THEN UnkR
            ELSE R3("ok", sp.p, Special[h][1] \o sp.o \o Special[h][2])
       ELSE IF n.st # "ok" THEN UnkR
       ELSE IF n.p > Len(s) THEN IF n.tmpl \/ cv \/ At(s, n.p - 3) \in {67, 68} THEN UnkR ELSE R3("ok", n.p, n.o)
       ELSE IF s[n.p] = 46 THEN UnkR
       ELSE IF t.st # "ok" \/ a.st # "ok" THEN UnkR
       ELSE IF a.p = t.p THEN UnkR                   \* no parameters behind the result
       ELSE IF z.st # "ok" THEN UnkR
       ELSE R3("ok", z.p, (IF n.tmpl THEN t.o \o Bs(" ") ELSE <<>>)
                           \o n.o \o Bs("(") \o a.o \o Bs(")")
                           \o (IF cv THEN Bs(" const") ELSE <<>>) \o z.o)

---------------------------------------------------------------------------

Known(n, kind) == [known |-> TRUE, name |-> n, kind |-> kind]
Unknown == [known |-> FALSE, name |-> <<>>, kind |-> "open"]

(* The name shown for a symbol.                                              *)
Shown(s) ==
    LET o == TLCEval(OldRust(s))
        n == TLCEval(IF o.st = "bad" /\ o.p = 0 THEN BadR ELSE NewRust(s))
        c == TLCEval(Cpp(s))
    IN IF o.st = "ok" THEN IF o.o = <<>> THEN Known(s, "empty") ELSE Known(o.o, "rust-legacy")
       ELSE IF n.st = "ok" THEN IF n.o = <<>> THEN Known(s, "empty") ELSE Known(n.o, "rust-v0")
       ELSE IF n.st = "unk" THEN Unknown
       ELSE IF ~ LikeCpp(s) THEN Known(s, "plain")
       ELSE IF c.st = "ok" THEN Known(c.o, "cpp")
       ELSE IF c.st = "bad" THEN Known(s, "plain")
       ELSE Unknown

NoGeneric == <<-1>>

(* What a function with this name instantiates.                              *)
GenericOf(n) ==
    LET c == TLCEval(LastAt(n, Bs("::")))
        d == IF c = 0 THEN 0 ELSE IsInfix(n, <<46>>, c + 3)
        e == IF d = 0 THEN Len(n) ELSE d - 1
        hash == /\ c > 0 /\ At(n, c + 2) = Ch("h") /\ e >= c + 3
                /\ \A i \in (c + 3) .. e : HexAny(n[i])
        lt == TLCEval(FirstAt(n, <<60>>))
        gt == TLCEval(LastAt(n, <<62>>))
    IN IF hash THEN SubSeq(n, 1, c - 1)
       ELSE IF lt > 1 /\ gt > lt THEN SubSeq(n, 1, lt - 1)
       ELSE NoGeneric
=============================================================================
