----------------------------- MODULE MCSurround -----------------------------
(* Where and how the command is run: its environment variables, what its     *)
(* standard streams are, the directory it is run in and the way the file is  *)
(* spelled. A run answers a request with what the request means for the      *)
(* contents of the file; nothing of the surroundings is among what the       *)
(* answer is made of. Surroundings are changed one aspect at a time from     *)
(* plain ones; each combination is printed and realised with the command.    *)
EXTENDS Naturals, TLC, FiniteSets, Json

CONSTANT Changes

Aspects == [env   |-> {"plain", "narrow", "wide", "colour", "dumb", "C", "turkish", "debug", "none", "ci", "home"},
            out   |-> {"pipe", "file", "tty", "append"},
            in    |-> {"null", "data", "closed", "tty"},
            err   |-> {"pipe", "null", "tty"},
            place |-> {"here", "there", "dot", "spaces", "link"}]
Plain   == [env |-> "plain", out |-> "pipe", in |-> "null", err |-> "pipe", place |-> "here"]

VARIABLES s,        \* the surroundings of the run that is made next
          known     \* what the request has been answered with so far
vars == <<s, known>>

(* What a run is given, and what it makes of it.                             *)
Given(x) == [contents |-> "module", request |-> "request", surroundings |-> x]
Answer(g) == <<g.request, g.contents>>

Changed(x) == {a \in DOMAIN Plain : x[a] # Plain[a]}

Init == s = Plain /\ known = {}
Change == \E a \in DOMAIN Plain : \E v \in Aspects[a] \ {Plain[a]} :
            /\ s[a] = Plain[a] /\ Cardinality(Changed(s)) < Changes
            /\ s' = [s EXCEPT ![a] = v]
            /\ known' = {Answer(Given(s))}
Next == Change
Spec == Init /\ [][Next]_vars

TypeOK == \A a \in DOMAIN Plain : s[a] \in Aspects[a]
One    == Cardinality(known \union {Answer(Given(s))}) = 1
Emit   == PrintT(<<"EMIT", ToJson(s)>>)
=============================================================================
