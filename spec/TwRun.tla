------------------------------- MODULE TwRun --------------------------------
(* One run of the command, from its options to its exit: the options are     *)
(* read, then each input is read and parsed, the analysis is made, the       *)
(* destination is opened, the report is written piece by piece and the rest  *)
(* is flushed. Any step may fail, and then the run ends visibly.             *)
EXTENDS TwFormat

VARIABLES cfg,      \* what the run meets, see below
          pc,       \* the step to be made next
          k,        \* inputs that have been read
          file,     \* bytes of the report in the named file; -1: not touched
          out,      \* bytes of the report (or of the help) on standard output
          err,      \* there is a message on standard error
          status    \* exit status; -1: still running
rvars == <<cfg, pc, k, file, out, err, status>>

(* cfg.opts  good, bad, or help (a request for the help or version text)     *)
(* cfg.mode  the parse mode                                                  *)
(* cfg.ins   for each input: there (it can be read to its end), name, head,  *)
(*           wasm and object (whether either reader accepts the contents)    *)
(* cfg.ana   good, or bad: the request cannot be answered                    *)
(* cfg.dest  stdout or path; cfg.opens: the path can be opened for writing   *)
(* cfg.cap   bytes the destination takes; -1: any number                     *)
(* cfg.len   the size of the report                                          *)

RunInit(C) == /\ cfg \in C
              /\ pc = "options" /\ k = 0 /\ file = -1 /\ out = 0 /\ err = FALSE /\ status = -1

Fail == /\ pc' = "end" /\ err' = TRUE /\ status' = 1
        /\ UNCHANGED <<cfg, k, file, out>>
Goto(p) == pc' = p /\ UNCHANGED <<cfg, k, file, out, err, status>>

ReadOptions == /\ pc = "options"
               /\ CASE cfg.opts = "bad"  -> Fail
                    [] cfg.opts = "help" -> Goto("help")
                    [] OTHER -> IF cfg.mode \in Modes THEN Goto("input") ELSE Fail

Help == /\ pc = "help"
        /\ IF cfg.dest = "stdout" /\ cfg.cap # -1 /\ cfg.cap < cfg.len THEN Fail
           ELSE /\ pc' = "end" /\ status' = 0 /\ out' = cfg.len
                /\ UNCHANGED <<cfg, k, file, err>>

Readable(i) == /\ i.there
               /\ CASE Reader(cfg.mode, i.name, i.head) = "wasm"   -> i.wasm
                    [] Reader(cfg.mode, i.name, i.head) = "object" -> i.object
                    [] OTHER -> FALSE
ReadInput == /\ pc = "input" /\ k < Len(cfg.ins)
             /\ IF Readable(cfg.ins[k + 1])
                THEN k' = k + 1 /\ UNCHANGED <<cfg, pc, file, out, err, status>>
                ELSE Fail

Analyse == /\ pc = "input" /\ k = Len(cfg.ins)
           /\ IF cfg.ana = "good" THEN Goto("open") ELSE Fail

Open == /\ pc = "open"
        /\ IF cfg.dest = "stdout" THEN Goto("write")
           ELSE IF ~ cfg.opens THEN Fail
           ELSE /\ pc' = "write" /\ file' = 0
                /\ UNCHANGED <<cfg, k, out, err, status>>

Written == IF cfg.dest = "stdout" THEN out ELSE file
Room(n) == cfg.cap = -1 \/ n <= cfg.cap

(* The report goes out in pieces of any size.                                *)
Write(n) == /\ pc = "write" /\ Written < n /\ n <= cfg.len /\ Room(n)
            /\ IF cfg.dest = "stdout" THEN out' = n /\ UNCHANGED file
               ELSE file' = n /\ UNCHANGED out
            /\ UNCHANGED <<cfg, pc, k, err, status>>
WriteFails == /\ pc = "write" /\ cfg.cap # -1 /\ cfg.cap < cfg.len
              /\ Fail
Finish == /\ pc = "write" /\ Written = cfg.len
          /\ pc' = "end" /\ status' = 0
          /\ UNCHANGED <<cfg, k, file, out, err>>

RunStep == ReadOptions \/ Help \/ ReadInput \/ Analyse \/ Open \/ WriteFails \/ Finish

---------------------------------------------------------------------------
(* What a user relies on.                                                    *)

Ended == pc = "end"
(* Success means that the complete report is there, and nothing else.        *)
Complete == (Ended /\ status = 0 /\ cfg.opts # "help")
              => /\ Written = cfg.len
                 /\ IF cfg.dest = "stdout" THEN file = -1 ELSE out = 0
                 /\ ~ err
(* Failure is visible, and leaves no report on standard output unless that   *)
(* is where it failed to go.                                                 *)
Visible  == (Ended /\ status # 0) => err /\ (out > 0 => cfg.dest = "stdout" /\ cfg.cap # -1)
(* Nothing is touched before the report is ready.                            *)
Untouched == pc \in {"options", "help", "input", "open"} => file = -1
NotReady  == \/ cfg.opts # "good" \/ cfg.mode \notin Modes \/ cfg.ana # "good"
             \/ \E i \in DOMAIN cfg.ins : ~ Readable(cfg.ins[i])
Preserved == (Ended /\ NotReady) => file = -1 /\ (cfg.opts # "help" => out = 0 /\ status # 0)
OnlyWhole == (Ended /\ status = 0 /\ cfg.opts = "good") => (cfg.cap = -1 \/ cfg.cap >= cfg.len)
=============================================================================
