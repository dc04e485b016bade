------------------------------- MODULE MCName -------------------------------
(* All symbols of up to MaxPieces pieces of an alphabet: what must be true   *)
(* of the reading of any symbol. They are replayed into the real code.       *)
EXTENDS TwName, Json

CONSTANTS MaxPieces, Alphabet

Pieces ==
    CASE Alphabet = "generic" ->
           {Bs("::"), Bs("h"), Bs("1"), Bs("g"), Bs("<"), Bs(">"), Bs("a"), Bs("."), <<195, 169>>}
      [] Alphabet = "legacy" ->
           {Bs("_ZN"), Bs("2"), Bs("4"), Bs("a"), Bs("E"), Bs("$"), Bs("LT"), Bs("."), Bs("_"),
            Bs(".llvm."), Bs("2h1"), Bs("5_$GT$")}
      [] Alphabet = "v0" ->
           {Bs("_R"), Bs("Nv"), Bs("C1a"), Bs("1b"), Bs("I"), Bs("E"), Bs("j"), Bs("B_"), Bs("R"),
            Bs("Kj3_"), Bs("M"), Bs("s_"), Bs("T")}
      [] OTHER ->
           {Bs("_Z"), Bs("_"), Bs("N"), Bs("1a"), Bs("E"), Bs("I"), Bs("i"), Bs("v"), Bs("P"),
            Bs("S_"), Bs("C1"), Bs("T_"), Bs("K"), Bs("St")}

VARIABLES s, n
vars == <<s, n>>

Init == s = <<>> /\ n = 0
Next == /\ n < MaxPieces
        /\ \E p \in Pieces : s' = s \o p
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

Mangled(x) == \/ LikeCpp(x) \/ OldPrefix(x) > 0 \/ NewPrefix(x) > 0
View == TLCEval(Shown(s))

(* No name is emptied, and nothing but a mangled name is altered.            *)
NeverEmpty == s = <<>> \/ (View.known => View.name # <<>>)
PlainKept == Mangled(s) \/ (View.known /\ View.name = s)
(* The spellings of a prefix mean the same, and so do suffixes of LLVM.      *)
Spelling == View.kind = "rust-legacy" =>
              LET r == From(s, OldPrefix(s))
              IN \A p \in {"_ZN", "ZN", "__ZN"} : Shown(Bs(p) \o r).name = View.name
Llvm == /\ View.kind \in {"rust-legacy", "rust-v0"}
        /\ FirstAt(s, Bs(".llvm.")) = 0
        => Shown(s \o Bs(".llvm.17")) = View
(* A generic is a part of the name that ends right before "<" or a hash.     *)
Generic == LET g == GenericOf(s)
               k == Len(g)
           IN g = NoGeneric \/ /\ k < Len(s) /\ SubSeq(s, 1, k) = g
                               /\ \/ s[k + 1] = 60 /\ k > 0
                                  \/ SubSeq(s, k + 1, Min2(k + 3, Len(s))) = Bs("::h")
(* Brackets alone, and hashes alone, in words that do not look for the last. *)
Words == /\ (\E i \in 2 .. Len(s) : /\ s[i] = 60
                                     /\ \A j \in 1 .. (i - 1) : s[j] # 60
                                     /\ \E m \in (i + 1) .. Len(s) : s[m] = 62)
            => GenericOf(s) # NoGeneric
         /\ (\A i \in DOMAIN s : s[i] # 60) /\ FirstAt(s, Bs("::h")) = 0 => GenericOf(s) = NoGeneric

Emit == PrintT(<<"EMIT", ToJson(s)>>)
=============================================================================
