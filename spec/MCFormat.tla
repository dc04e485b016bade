------------------------------ MODULE MCFormat ------------------------------
(* Names of input files, piece by piece, and what they mean with each mode   *)
(* and beginning of the file. The names are replayed against the real reader. *)
EXTENDS TwFormat, Json

CONSTANT MaxPieces

Pieces == { <<119, 97, 115, 109>>, <<46>>, <<120>>, <<87, 65, 83, 77>>, <<195, 169>>, <<255>> }
Heads  == { <<>>, <<0>>, <<0, 97, 115, 109>>, <<0, 97, 115, 109, 1>>, <<127, 69, 76, 70>>, <<0, 97, 115>> }

VARIABLES name, n
vars == <<name, n>>

Init == name = <<>> /\ n = 0
Next == /\ n < MaxPieces
        /\ \E p \in Pieces : name' = name \o p
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

(* A forced mode is obeyed; otherwise the name or the magic number decides;  *)
(* other modes are rejected.                                                 *)
Forced == \A h \in Heads : /\ Reader("wasm", name, h) = "wasm"
                           /\ Reader("dwarf", name, h) = "object"
                           /\ Reader("Wasm", name, h) = "rejected"
(* In words independent of how Extension is defined: some nonempty name, a   *)
(* dot and "wasm" at the very end.                                           *)
ByName == LET s == <<46, 119, 97, 115, 109>>
              k == Len(name) - 5
          IN k >= 1 /\ SubSeq(name, k + 1, k + 5) = s
Auto == \A h \in Heads :
            Reader("auto", name, h) = (IF ByName \/ HasMagic(h) THEN "wasm" ELSE "object")
(* Directories do not matter.                                                *)
Dirs == \A h \in Heads : Reader("auto", <<120, 46, 119, 97, 115, 109, 47>> \o name, h)
                           = Reader("auto", name, h)

Emit == PrintT(<<"EMIT", ToJson(name)>>)
=============================================================================
