----------------------------- MODULE TwRunTrace -----------------------------
(* Takes each recorded run of the real command through the machine, from the *)
(* faults it met to its end, and compares what was observed. The only choice *)
(* the machine has is how much is written before the destination is full:    *)
(* that is taken from the observation.                                       *)
EXTENDS TwRun, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TW_TRACE)

VARIABLE tid
vars == <<rvars, tid>>

S == Sessions[tid]
O == S.obs

Init == /\ tid \in DOMAIN Sessions
        /\ RunInit({Sessions[tid].cfg})

Amount == IF cfg.dest = "stdout" THEN O.out ELSE O.file
WriteAll == /\ pc = "write"
            /\ Written < (IF Room(cfg.len) THEN cfg.len ELSE Amount)
            /\ Write(IF Room(cfg.len) THEN cfg.len ELSE Amount)
Fails == WriteFails /\ Written >= Amount

Step == /\ pc # "judged"
        /\ \/ ReadOptions \/ Help \/ ReadInput \/ Analyse \/ Open
           \/ WriteAll \/ Fails \/ Finish
        /\ UNCHANGED tid

Deep == S.depth > 5000
(* A crash is a known finding only for graphs that are thousands of          *)
(* references deep.                                                          *)
Verdict ==
    IF O.status < 0 \/ O.status > 100
    THEN IF Deep THEN "KF:F2" ELSE IF cfg.opts = "help" /\ status # 0 THEN OK ELSE "run.crash"
    ELSE Chk((O.status = 0) = (status = 0), IF status = 0 THEN "run.failed" ELSE "run.status-0-after-failure",
         Chk(O.err = err, IF err THEN "run.no-message" ELSE "run.message-although-fine",
         Chk(O.out = out, "run.standard-output",
         Chk(O.file = IF cfg.dest = "path" /\ cfg.place = "full" THEN 0 ELSE file, IF file = -1 THEN "run.file-touched" ELSE "run.file-contents",
         Chk(O.others = 0, "run.other-files", OK)))))

(* Where the machine cannot follow the observation, it stops early.          *)
Stuck == pc = "write" /\ ~ ENABLED Step
Judge == /\ Ended \/ Stuck
         /\ PrintT(<<"JUDGED", tid, status>>)
         /\ LET v == IF Stuck THEN (IF O.status < 0 /\ Deep THEN "KF:F2" ELSE "run.written") ELSE Verdict
            IN IF v = OK THEN TRUE ELSE PrintT(<<"MISMATCH", tid, 1, v>>)
         /\ pc' = "judged"
         /\ UNCHANGED <<cfg, k, file, out, err, status, tid>>

Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
