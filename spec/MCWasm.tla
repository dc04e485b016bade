------------------------------- MODULE MCWasm -------------------------------
(* Small modules, growing one piece at a time from a few beginnings.  The    *)
(* model holds a module as what it consists of, writes it down as bytes, and *)
(* has TwWasm read those bytes: what is read has to be what was written.     *)
(* References may also point at what is not there; then the bytes are to be  *)
(* found broken.  Every module is printed and replayed.                      *)
EXTENDS TwWasm, Json

CONSTANTS Depth, Many       \* Many: all beginnings, not just a few

VARIABLES imps,     \* imports: 0 a function, 3 a global
          bodies,   \* bodies as sequences of operations
          globs,    \* number of globals
          tab,      \* whether there is a table
          exps,     \* exports <<kind, index>>
          elems,    \* element segments as sequences of function indices
          segs,     \* data segments <<address, length>>
          start,    \* start function or -1
          fnames, dnames, steps
wvars == <<imps, bodies, globs, tab, exps, elems, segs, start, fnames, dnames, steps>>

Opers == {<<"call", 0>>, <<"call", 1>>, <<"call", 2>>, <<"tail", 1>>, <<"ref", 0>>, <<"get", 0>>,
          <<"set", 1>>, <<"const", 8>>, <<"const", 12>>, <<"load", 0>>, <<"load", 4>>,
          <<"load8", 0>>, <<"nop", 0>>, <<"blk", 0>>}

(* One more piece.                                                           *)
Grow1 ==
    \/ /\ Len(imps) < 2
       /\ \E k \in {0, 3} : imps' = Append(imps, k)
       /\ UNCHANGED <<bodies, globs, tab, exps, elems, segs, start, fnames, dnames>>
    \/ /\ Len(bodies) < 3 /\ bodies' = Append(bodies, <<>>)
       /\ UNCHANGED <<imps, globs, tab, exps, elems, segs, start, fnames, dnames>>
    \/ /\ bodies # <<>>
       /\ \E o \in Opers : bodies' = [bodies EXCEPT ![Len(bodies)] = Append(@, o)]
       /\ UNCHANGED <<imps, globs, tab, exps, elems, segs, start, fnames, dnames>>
    \/ /\ globs < 2 /\ globs' = globs + 1
       /\ UNCHANGED <<imps, bodies, tab, exps, elems, segs, start, fnames, dnames>>
    \/ /\ ~ tab /\ tab' = TRUE
       /\ UNCHANGED <<imps, bodies, globs, exps, elems, segs, start, fnames, dnames>>
    \/ /\ Len(exps) < 2
       /\ \E x \in {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<3, 1>>} :
             exps' = Append(exps, x)
       /\ UNCHANGED <<imps, bodies, globs, tab, elems, segs, start, fnames, dnames>>
    \/ /\ Len(elems) < 2
       /\ \E x \in {<<>>, <<0>>, <<1>>, <<0, 1>>} : elems' = Append(elems, x)
       /\ UNCHANGED <<imps, bodies, globs, tab, exps, segs, start, fnames, dnames>>
    \/ /\ Len(segs) < 3
       /\ \E x \in {<<8, 4>>, <<12, 2>>, <<8, 0>>, <<0, 9>>} : segs' = Append(segs, x)
       /\ UNCHANGED <<imps, bodies, globs, tab, exps, elems, start, fnames, dnames>>
    \/ /\ start = -1 /\ \E x \in {0, 1} : start' = x
       /\ UNCHANGED <<imps, bodies, globs, tab, exps, elems, segs, fnames, dnames>>
    \/ /\ \E x \in 0 .. 2 : x \notin fnames /\ fnames' = fnames \union {x}
       /\ UNCHANGED <<imps, bodies, globs, tab, exps, elems, segs, start, dnames>>
    \/ /\ \E x \in 0 .. 1 : x \notin dnames /\ dnames' = dnames \union {x}
       /\ UNCHANGED <<imps, bodies, globs, tab, exps, elems, segs, start, fnames>>

WInit ==
    /\ imps \in IF Many THEN {<<>>, <<0>>, <<3, 0>>} ELSE {<<>>, <<3, 0>>}
    /\ bodies \in IF Many THEN {<<>>, << <<>> >>, << << <<"call", 0>> >>, << <<"const", 8>> >> >>}
                 ELSE {<< <<>>, << <<"const", 8>> >> >>}
    /\ \E x \in IF Many THEN {0, 1} ELSE {1} : globs = x /\ tab = (x = 1)
    /\ segs \in IF Many THEN {<<>>, << <<8, 4>> >>} ELSE {<< <<8, 4>> >>}
    /\ exps = <<>> /\ elems = <<>> /\ start = -1
    /\ fnames = {} /\ dnames = {} /\ steps = 0
WNext == steps < Depth /\ Grow1 /\ steps' = steps + 1
WSpec == WInit /\ [][WNext]_wvars

----------------------------------------------------------------------------
(* Writing.  All numbers here are below 64, so every one takes one byte.     *)
Section(id, body) == <<id, Len(body)>> \o body
Vector(s) == <<Len(s)>> \o FlattenSeq(s)
Map(s, Op2(_)) == [i \in DOMAIN s |-> Op2(s[i])]
Zeros(n) == [i \in 1 .. n |-> 0]
OrdS(s) == SetToSortSeq(s, LAMBDA a, b : a < b)

OpBytes(o) ==
    CASE o[1] = "call" -> <<16, o[2]>> [] o[1] = "tail" -> <<18, o[2]>>
      [] o[1] = "ref" -> <<210, o[2]>> [] o[1] = "get" -> <<35, o[2]>>
      [] o[1] = "set" -> <<36, o[2]>> [] o[1] = "const" -> <<65, o[2]>>
      [] o[1] = "load" -> <<40, 2, o[2]>> [] o[1] = "load8" -> <<45, 0, o[2]>>
      [] o[1] = "nop" -> <<1>> [] o[1] = "blk" -> <<2, 64, 11>>
BodyBytes(b) == LET c == <<0>> \o FlattenSeq(Map(b, OpBytes)) \o <<11>> IN <<Len(c)>> \o c
ImpBytes(k) == <<1, 109, 1, 110, k>> \o (IF k = 0 THEN <<0>> ELSE <<127, 1>>)
If(c, s) == IF c THEN s ELSE <<>>
(* Names are names even when they are empty.                                 *)
NameOf(k) == IF k = 0 THEN <<>> ELSE <<120, 97 + k>>
NamePart(id, ks) == LET c == Vector([i \in DOMAIN ks |-> <<ks[i], Len(NameOf(ks[i]))>> \o NameOf(ks[i])])
                    IN <<id, Len(c)>> \o c

Bytes ==
    <<0, 97, 115, 109, 1, 0, 0, 0>>
    \o Section(1, <<1, 96, 0, 0>>)
    \o If(imps # <<>>, Section(2, Vector(Map(imps, ImpBytes))))
    \o Section(3, Vector([i \in DOMAIN bodies |-> <<0>>]))
    \o If(tab, Section(4, <<1, 112, 0, 1>>))
    \o If(segs # <<>>, Section(5, <<1, 0, 1>>))
    \o If(globs > 0, Section(6, Vector([i \in 1 .. globs |-> <<127, 1, 65, i, 11>>])))
    \o If(exps # <<>>, Section(7, Vector([i \in DOMAIN exps |-> <<1, 96 + i>> \o exps[i]])))
    \o If(start # -1, Section(8, <<start>>))
    \o If(elems # <<>>, Section(9, Vector(Map(elems, LAMBDA f : <<0, 65, 0, 11>>
                                                 \o Vector([i \in DOMAIN f |-> <<f[i]>>])))))
    \o Section(10, Vector(Map(bodies, BodyBytes)))
    \o If(segs # <<>>, Section(11, Vector(Map(segs, LAMBDA s : <<0, 65, s[1], 11, s[2]>>
                                                     \o Zeros(s[2])))))
    \o If(fnames \union dnames # {},
          Section(0, <<4>> \o Bs("name") \o NamePart(1, OrdS(fnames)) \o NamePart(9, OrdS(dnames))))

----------------------------------------------------------------------------
(* What the module consists of, in the order in which it is written.         *)
Of(what, n) == [i \in 1 .. n |-> <<what, i - 1>>]
Hdr(x) == << <<"hdr", x>> >>
Part(c, what, n, id) == If(c, Of(what, n) \o Hdr(id))
Listing ==
    Hdr(-1) \o Part(TRUE, "type", 1, 1) \o Part(imps # <<>>, "imp", Len(imps), 2)
    \o Part(tab, "tab", 1, 4) \o Part(segs # <<>>, "mem", 1, 5)
    \o Part(globs > 0, "glob", globs, 6)
    \o Part(exps # <<>>, "exp", Len(exps), 7) \o If(start # -1, Hdr(8))
    \o Part(elems # <<>>, "elem", Len(elems), 9)
    \o Part(TRUE, "code", Len(bodies), 10) \o Part(segs # <<>>, "data", Len(segs), 11)
    \o Part(fnames \union dnames # {}, "sub", 2, 0)

ImpOf(k) == LET ix == OrdS({i \in DOMAIN imps : imps[i] = k})
            IN [j \in DOMAIN ix |-> <<"imp", ix[j] - 1>>]
Funcs   == ImpOf(0) \o Of("code", Len(bodies))
Globals == ImpOf(3) \o Of("glob", globs)
Tabs    == If(tab, Of("tab", 1))
Mems    == If(segs # <<>>, Of("mem", 1))
SpaceOf(k) == CASE k = 0 -> Funcs [] k = 1 -> Tabs [] k = 2 -> Mems [] k = 3 -> Globals

(* References: <<from, space, index>>.                                       *)
OpRefs(f, o) == CASE o[1] \in {"call", "tail", "ref"} -> {<<<<"code", f>>, 0, o[2]>>}
                  [] o[1] \in {"get", "set"} -> {<<<<"code", f>>, 3, o[2]>>}
                  [] OTHER -> {}
Refs == UNION {UNION {OpRefs(f - 1, o) : o \in Elems(bodies[f])} : f \in DOMAIN bodies}
        \union {<<<<"exp", i - 1>>, exps[i][1], exps[i][2]>> : i \in DOMAIN exps}
        \union UNION {{<<<<"elem", i - 1>>, 0, x>> : x \in Elems(elems[i])} : i \in DOMAIN elems}
        \union (IF start = -1 THEN {} ELSE {<<<<"hdr", 8>>, 0, start>>})
Dangling == \/ \E r \in Refs : r[3] >= Len(SpaceOf(r[2]))
            \/ elems # <<>> /\ ~ tab

Wanted == {<<r[1], SpaceOf(r[2])[r[3] + 1]>> : r \in Refs}
          \union {<<<<"tab", 0>>, <<"elem", i - 1>>>> : i \in DOMAIN elems}
          \union {<<<<"code", i - 1>>, <<"type", 0>>>> : i \in DOMAIN bodies}

(* Loads from a constant address refer to the segment that holds it.         *)
Loads == {<<f, b>> \in {<<f, b>> \in (1 .. 3) \X (2 .. 9) : f \in DOMAIN bodies /\ b \in DOMAIN bodies[f]} :
            bodies[f][b][1] \in {"load", "load8"} /\ bodies[f][b - 1][1] = "const"}
Address(x) == bodies[x[1]][x[2] - 1][2] + bodies[x[1]][x[2]][2]
HeldBy(a) == {i - 1 : i \in {j \in DOMAIN segs : segs[j][1] <= a /\ a < segs[j][1] + segs[j][2]}}

----------------------------------------------------------------------------
(* Reading it again.                                                         *)
RECURSIVE ReadAll(_, _, _)
ReadAll(b, p, acc) ==
    IF p = Len(b) + 1 THEN acc
    ELSE LET s == TLCEval(ReadSection(b, p))
         IN IF s.cls >= 2 \/ s.to < p THEN <<>> ELSE ReadAll(b, s.to, TLCEval(Append(acc, s)))
B == TLCEval(Bytes)
R == LET ss == TLCEval(ReadAll(B, 9, <<Magic(B)>>))
     IN IF ss = <<>> THEN [cls |-> 3] ELSE Build(ss)

Node(i) == Listing[i]
SizeOfPart(x) ==
    CASE x[1] = "code" -> Len(BodyBytes(bodies[x[2] + 1])) + 1       \* and its entry among the functions
      [] x[1] = "imp"  -> Len(ImpBytes(imps[x[2] + 1]))
      [] x[1] = "data" -> 5 + segs[x[2] + 1][2]
      [] x[1] = "exp"  -> 4
      [] x[1] = "elem" -> 5 + Len(elems[x[2] + 1])
      [] x[1] = "tab"  -> 3 [] x[1] = "mem" -> 2 [] x[1] = "glob" -> 5 [] x[1] = "type" -> 3
      [] OTHER -> -1
NameOfPart(x) ==
    CASE x[1] = "code" -> LET k == x[2] + Len(ImpOf(0))
                          IN IF k \in fnames THEN NameOf(k) ELSE Bs("code[" \o ToString(x[2]) \o "]")
      [] x[1] = "data" -> IF x[2] \in dnames THEN Bs("data segment \"") \o NameOf(x[2]) \o <<34>>
                          ELSE Bs("data[" \o ToString(x[2]) \o "]")
      [] x[1] = "imp"  -> Bs("import m::n")
      [] x[1] = "exp"  -> Bs("export \"") \o <<97 + x[2], 34>>
      [] x[1] = "type" -> Bs("type[0]: () -> nil")
      [] x[1] \in {"elem"} -> Bs("elem[" \o ToString(x[2]) \o "]")
      [] OTHER -> AnyName

RoundTrip ==
    LET r == TLCEval(R)
    IN IF Dangling THEN r.cls = 3
       ELSE /\ r.cls = 0
            /\ r.n = Len(Listing) + 1
            /\ SumSeq([i \in DOMAIN r.items |-> r.items[i].sz]) = Len(B)
            /\ \A i \in DOMAIN r.items :
                 /\ SizeOfPart(Node(i)) \in {-1, r.items[i].sz}
                 /\ NameOfPart(Node(i)) \in {AnyName, r.items[i].nm}
                 /\ r.items[i].root = (Node(i)[1] \in {"exp", "tab", "hdr", "sub"})
            /\ {<<Node(e[1]), Node(e[2])>> : e \in r.edges} = Wanted
            /\ UNION {l.hold : l \in {r.loads[i] : i \in DOMAIN r.loads}}
                 = {{CHOOSE k \in DOMAIN Listing : Listing[k] = <<"data", j>> : j \in HeldBy(Address(x))} : x \in Loads}

Emit == PrintT(<<"EMIT", ToJson(B)>>)
=============================================================================
