------------------------------- MODULE TwOpts -------------------------------
(* The options of every command: how a command line sets them, what a setter *)
(* of the programming interface changes, what is left alone, and what they   *)
(* mean.  Numbers are kept as decimal strings without leading zeros (they    *)
(* range up to 2^32 - 1).                                                    *)
EXTENDS TwUtil

Commands == {"top", "dominators", "paths", "monos", "diff", "garbage"}
Selects(c) == c \in {"dominators", "paths", "monos", "diff"}

NumMax == "4294967295"
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Ch(s, i) == SubSeq(s, i, i)
IsDigit(ch)  == \E k \in 1 .. 10 : Digits[k] = ch
DigitVal(ch) == (CHOOSE k \in 1 .. 10 : Digits[k] = ch) - 1
IsDigits(s)  == Len(s) > 0 /\ \A i \in 1 .. Len(s) : IsDigit(Ch(s, i))

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s

(* Of equally long digit strings.                                            *)
RECURSIVE DigitsLeq(_, _)
DigitsLeq(a, b) == IF a = "" THEN TRUE
                   ELSE IF Ch(a, 1) # Ch(b, 1) THEN DigitVal(Ch(a, 1)) < DigitVal(Ch(b, 1))
                   ELSE DigitsLeq(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))

Wrong == "wrong"
NumOf(s) == LET t == IF StartsWith(s, "+") THEN SubSeq(s, 2, Len(s)) ELSE s
            IN IF ~ IsDigits(t) THEN Wrong
               ELSE LET z == StripZeros(t)
                    IN IF Len(z) > 10 \/ (Len(z) = 10 /\ ~ DigitsLeq(z, NumMax)) THEN Wrong ELSE z

RECURSIVE IntOf(_, _)
IntOf(s, acc) == IF s = "" THEN acc
                 ELSE IntOf(SubSeq(s, 2, Len(s)), acc * 10 + DigitVal(Ch(s, 1)))
(* As a bound: anything of ten digits is beyond every count that occurs.     *)
Bound(s) == IF Len(s) > 9 THEN 1000000000 ELSE IntOf(s, 0)

ValueOf(kind, s) ==
    CASE kind = "num"  -> NumOf(s)
      [] kind = "mode" -> CASE s = "auto" -> "Auto" [] s = "wasm" -> "Wasm"
                            [] s = "dwarf" -> "Dwarf" [] OTHER -> Wrong
      [] kind = "fmt"  -> CASE s = "text" -> "Text" [] s = "json" -> "Json"
                            [] s = "csv" -> "Csv" [] OTHER -> Wrong
      [] kind = "dest" -> s

---------------------------------------------------------------------------
(* Flags: names, the option they set, the kind of their value.               *)
F(names, key, kind) == [names |-> names, key |-> key, kind |-> kind]

Flags(c) ==
    {F(IF c = "monos" THEN {"-d", "--mode"} ELSE {"--mode"}, "mode", "mode"),
     F({"-o"}, "dest", "dest"),
     F({"-f", "--format"}, "format", "fmt")}
    \union (IF Selects(c) THEN {F({"--regex"}, "regex", "flag")} ELSE {})
    \union CASE c = "top" ->
                  {F({"-n"}, "max_items", "num"),
                   F({"-r", "--retaining-paths"}, "retaining_paths", "flag"),
                   F({"--retained"}, "retained", "flag")}
             [] c = "dominators" ->
                  {F({"-d"}, "max_depth", "num"), F({"-r"}, "max_rows", "num")}
             [] c = "paths" ->
                  {F({"-d"}, "max_depth", "num"), F({"-r"}, "max_paths", "num"),
                   F({"--descending"}, "descending", "flag")}
             [] c = "monos" ->
                  {F({"-g", "--only-generics"}, "only_generics", "flag"),
                   F({"-m", "--max-generics"}, "max_generics", "num"),
                   F({"-n", "--max-monos"}, "max_monos", "num"),
                   F({"-a", "--all"}, "all", "flag"),
                   F({"--all-generics"}, "all_generics", "flag"),
                   F({"--all-monos"}, "all_monos", "flag")}
             [] c = "diff" ->
                  {F({"-n"}, "max_items", "num"), F({"-a", "--all"}, "all", "flag")}
             [] c = "garbage" ->
                  {F({"-n"}, "max_items", "num"), F({"-a", "--all"}, "all", "flag"),
                   F({"--show-data-segments"}, "show_data_segments", "flag")}

(* What an option is when nobody sets it.                                    *)
Default(c, key) ==
    CASE key = "mode" -> "Auto" [] key = "format" -> "Text" [] key = "dest" -> "-"
      [] key = "max_items" -> (CASE c = "top" -> NumMax [] c = "diff" -> "20" [] c = "garbage" -> "10")
      [] key = "max_depth" -> (CASE c = "paths" -> "10" [] c = "dominators" -> NumMax)
      [] key \in {"max_paths", "max_generics", "max_monos"} -> "10"
      [] key = "max_rows" -> NumMax
      [] OTHER -> FALSE

Inputs(c) == IF c = "diff" THEN 2 ELSE 1

---------------------------------------------------------------------------
(* Reading a command line: a scan over its words.                            *)
Start == [set |-> <<>>, pos |-> <<>>, only |-> FALSE, err |-> FALSE]
Fail(st) == [st EXCEPT !.err = TRUE]
Raise(st, key)  == IF key \in DOMAIN st.set THEN Fail(st)
                   ELSE [st EXCEPT !.set = st.set @@ (key :> TRUE)]
Put(st, key, v) == IF key \in DOMAIN st.set \/ v = Wrong THEN Fail(st)
                   ELSE [st EXCEPT !.set = st.set @@ (key :> v)]

Find(c, name) == {f \in Flags(c) : name \in f.names}
EqAt(s) == LET at == {i \in 1 .. Len(s) : Ch(s, i) = "="}
           IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
IsValue(w) == ~ StartsWith(w, "-") \/ w = "-"

RECURSIVE Scan(_, _, _, _)
RECURSIVE Cluster(_, _, _, _, _)

(* The letters k.. of the cluster of short flags w = words[i].               *)
Cluster(c, words, i, k, st) ==
    LET w == words[i] IN
    IF k > Len(w) THEN Scan(c, words, i + 1, st)
    ELSE LET fs == Find(c, "-" \o Ch(w, k)) IN
         IF fs = {} THEN Fail(st)
         ELSE LET f    == CHOOSE x \in fs : TRUE
                  rest == SubSeq(w, k + 1, Len(w))
                  val  == IF StartsWith(rest, "=") THEN SubSeq(rest, 2, Len(rest)) ELSE rest
              IN IF f.kind = "flag" THEN Cluster(c, words, i, k + 1, TLCEval(Raise(st, f.key)))
                 ELSE IF rest # "" THEN Scan(c, words, i + 1, TLCEval(Put(st, f.key, ValueOf(f.kind, val))))
                 ELSE IF i = Len(words) THEN Fail(st)
                 ELSE IF ~ IsValue(words[i + 1]) THEN Fail(st)
                 ELSE Scan(c, words, i + 2, TLCEval(Put(st, f.key, ValueOf(f.kind, words[i + 1]))))

Scan(c, words, i, st) ==
    IF st.err \/ i > Len(words) THEN st
    ELSE LET w == words[i] IN
    IF st.only \/ IsValue(w)
    THEN Scan(c, words, i + 1, TLCEval([st EXCEPT !.pos = Append(st.pos, w)]))
    ELSE IF w = "--" THEN Scan(c, words, i + 1, TLCEval([st EXCEPT !.only = TRUE]))
    ELSE IF StartsWith(w, "--")
    THEN LET eq   == EqAt(w)
             name == IF eq = 0 THEN w ELSE SubSeq(w, 1, eq - 1)
             fs   == Find(c, name)
         IN IF fs = {} THEN Fail(st)
            ELSE LET f == CHOOSE x \in fs : TRUE
                 IN IF f.kind = "flag" THEN Scan(c, words, i + 1, TLCEval(Raise(st, f.key)))
                    ELSE IF eq # 0
                    THEN Scan(c, words, i + 1, TLCEval(Put(st, f.key, ValueOf(f.kind, SubSeq(w, eq + 1, Len(w))))))
                    ELSE IF i = Len(words) THEN Fail(st)
                    ELSE IF ~ IsValue(words[i + 1]) THEN Fail(st)
                    ELSE Scan(c, words, i + 2, TLCEval(Put(st, f.key, ValueOf(f.kind, words[i + 1]))))
    ELSE Cluster(c, words, i, 2, st)

---------------------------------------------------------------------------
(* The options a program sees.  "All" stands for a limit nothing reaches.    *)
Effective(c, raw) ==
    LET V(key) == IF key \in DOMAIN raw THEN raw[key] ELSE Default(c, key)
        Lim(key, alls) == IF \E a \in alls : V(a) THEN NumMax ELSE V(key)
    IN CASE c = "top" -> [max_items |-> V("max_items"), retaining_paths |-> V("retaining_paths"),
                          retained |-> V("retained")]
         [] c = "dominators" -> [max_depth |-> V("max_depth"), max_rows |-> V("max_rows"),
                                 regex |-> V("regex")]
         [] c = "paths" -> [max_depth |-> V("max_depth"), max_paths |-> V("max_paths"),
                            descending |-> V("descending"), regex |-> V("regex")]
         [] c = "monos" -> [only_generics |-> V("only_generics"),
                            max_generics |-> Lim("max_generics", {"all", "all_generics"}),
                            max_monos |-> Lim("max_monos", {"all", "all_monos"}),
                            regex |-> V("regex")]
         [] c = "diff" -> [max_items |-> Lim("max_items", {"all"}), regex |-> V("regex")]
         [] c = "garbage" -> [max_items |-> Lim("max_items", {"all"}),
                              show_data_segments |-> V("show_data_segments")]

NoOpts == [err |-> TRUE]

(* words: the command line behind the name of the program.                   *)
ParseCommand(words) ==
    IF words = <<>> THEN NoOpts
    ELSE IF words[1] \notin Commands THEN NoOpts
    ELSE LET c  == words[1]
             st == Scan(c, words, 2, Start)
             V(key) == IF key \in DOMAIN st.set THEN st.set[key] ELSE Default(c, key)
         IN IF st.err \/ Len(st.pos) < Inputs(c) \/ (~ Selects(c) /\ Len(st.pos) > Inputs(c)) THEN NoOpts
            ELSE Effective(c, st.set)
                 @@ [err |-> FALSE, cmd |-> c, mode |-> V("mode"), format |-> V("format"),
                     dest |-> V("dest"), input |-> st.pos[1],
                     new_input |-> IF c = "diff" THEN st.pos[2] ELSE "",
                     items |-> Suffix(st.pos, Inputs(c))]

(* The programming interface: a new set of options, and one setter.          *)
NewOpts(c) == Effective(c, <<>>) @@ [err |-> FALSE, cmd |-> c, items |-> <<>>]
SetOpt(o, key, v) == IF key = "add_function" THEN [o EXCEPT !.items = Append(o.items, v)]
                     ELSE [o EXCEPT ![key] = v]

(* What was observed agrees with o, as far as it was observed, and all that  *)
(* Effective tells was observed.                                             *)
Agrees(o, obs) == /\ DOMAIN Effective(o.cmd, <<>>) \subseteq DOMAIN obs
                  /\ \A k \in DOMAIN obs : k \in DOMAIN o /\ obs[k] = o[k]

---------------------------------------------------------------------------
(* What a request with options o asks for, as the analyses put it.  pats     *)
(* lists how argument strings read as patterns: <<string, pattern>>, with    *)
(* the pattern FALSE when it is not well formed.                             *)
PatOf(pats, s) == LET hit == {i \in DOMAIN pats : pats[i].s = s}
                  IN pats[CHOOSE i \in hit : TRUE]
SelOf(o, pats) ==
    IF o.regex /\ o.items # <<>>
    THEN IF \E i \in DOMAIN o.items : PatOf(pats, o.items[i]).bad
         THEN [regex |-> TRUE, bad |-> TRUE, args |-> <<>>]
         ELSE [regex |-> TRUE, bad |-> FALSE,
               args |-> [i \in DOMAIN o.items |-> PatOf(pats, o.items[i]).p]]
    ELSE [regex |-> FALSE, bad |-> FALSE, args |-> o.items]

Asks(o, pats) ==
    CASE o.cmd = "top" -> [n |-> Bound(o.max_items), ret |-> o.retained, rp |-> o.retaining_paths]
      [] o.cmd = "garbage" -> [n |-> Bound(o.max_items), show |-> o.show_data_segments]
      [] o.cmd = "dominators" -> [sel |-> SelOf(o, pats), d |-> Bound(o.max_depth), r |-> Bound(o.max_rows)]
      [] o.cmd = "paths" -> [sel |-> SelOf(o, pats), d |-> Bound(o.max_depth),
                             r |-> Bound(o.max_paths), desc |-> o.descending]
      [] o.cmd = "monos" -> [sel |-> SelOf(o, pats), only |-> o.only_generics,
                             mg |-> Bound(o.max_generics), mm |-> Bound(o.max_monos)]
      [] o.cmd = "diff" -> [sel |-> SelOf(o, pats), n |-> Bound(o.max_items)]
=============================================================================
