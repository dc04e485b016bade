--------------------------- MODULE TwFormatTrace ---------------------------
(* Each session is one sequence of bytes, what either reader makes of it     *)
(* (wasm, object), and what came of reading it under some names and modes.   *)
EXTENDS TwFormat, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TW_TRACE)

VARIABLES tid, l
vars == <<tid, l>>

S == Sessions[tid]
Init == tid \in DOMAIN Sessions /\ l = -1

Expected(e) == CASE Reader(e.mode, e.path, S.head) = "wasm"   -> S.wasm
                 [] Reader(e.mode, e.path, S.head) = "object" -> S.object
                 [] OTHER -> "rejected"

(* The two readers never agree, not even in how they refuse.                 *)
Contents == Chk(S.wasm # S.object, "format.readers-agree",
            Chk(S.isWasm => ~ StartsWith(S.wasm, "error"), "format.module-refused", OK))

Verdict(e) == Chk(e.val = Expected(e),
                  CASE e.mode = "auto" -> "format.automatic"
                    [] e.mode \in Modes -> "format.forced-" \o e.mode
                    [] OTHER -> "format.unknown-mode", OK)

Report(v) == IF v = OK THEN TRUE ELSE PrintT(<<"MISMATCH", tid, l + 1, v>>)
Next == /\ l < Len(S.ev)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ Report(IF l = -1 THEN Contents ELSE Verdict(S.ev[l + 1]))
Spec == Init /\ [][Next]_vars
=============================================================================
