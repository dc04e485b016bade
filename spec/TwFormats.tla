----------------------------- MODULE TwFormats ------------------------------
(* The three output formats as languages: a machine that reads JSON, one     *)
(* that reads CSV, and the layout of the text table.                         *)
EXTENDS TwUtil, Json

Chars == JsonDeserialize("chars.json")
At(s, i) == SubSeq(s, i, i)
Positions(s) == [i \in 1 .. Len(s) |-> i]
In(ch, s) == HasSub(s, ch)
Ctl == Elems(Chars.ctl)
HexDigits == "0123456789abcdef"
HexVal(ch) == LET k == CHOOSE i \in 1 .. 22 : At("0123456789abcdefABCDEF", i) = ch
              IN IF k <= 16 THEN k - 1 ELSE k - 7

---------------------------------------------------------------------------
(* JSON.  m: what is expected or being read; k: the open brackets; key: the  *)
(* member name the next value belongs to; cur: what has been read of it;     *)
(* out: the string values so far, with their keys.                           *)
JStart == [m |-> "value", k |-> <<>>, iskey |-> FALSE, key |-> "", cur |-> "", hex |-> 0, out |-> <<>>]
JBad(st) == [st EXCEPT !.m = "bad"]
Space(ch) == ch = " " \/ ch = "\n" \/ ch = "\t" \/ ch = "\r"

(* A value has just ended.                                                   *)
Done(st) == [st EXCEPT !.m = IF st.k = <<>> THEN "done" ELSE "after", !.cur = ""]
CloseWith(st, b) == IF st.k # <<>> /\ st.k[Len(st.k)] = b
                    THEN Done([st EXCEPT !.k = SubSeq(st.k, 1, Len(st.k) - 1)]) ELSE JBad(st)

IsNum(s) == LET t == IF StartsWith(s, "-") THEN SubSeq(s, 2, Len(s)) ELSE s
            IN /\ t # "" /\ In(At(t, 1), "0123456789") /\ In(At(t, Len(t)), "0123456789")
               /\ (At(t, 1) = "0" /\ Len(t) > 1) => In(At(t, 2), ".eE")

BeginValue(st, ch) ==
    CASE ch = "{"  -> [st EXCEPT !.m = "firstkey", !.k = Append(st.k, "{")]
      [] ch = "["  -> [st EXCEPT !.m = "first", !.k = Append(st.k, "[")]
      [] ch = "\"" -> [st EXCEPT !.m = "str", !.iskey = FALSE, !.cur = ""]
      [] In(ch, "-0123456789") -> [st EXCEPT !.m = "num", !.cur = ch]
      [] In(ch, "tfn") -> [st EXCEPT !.m = "word", !.cur = ch]
      [] OTHER -> JBad(st)

After(st, ch) ==
    CASE ch = "," -> IF st.k = <<>> THEN JBad(st)
                     ELSE [st EXCEPT !.m = IF st.k[Len(st.k)] = "{" THEN "key" ELSE "value"]
      [] ch = "}" -> CloseWith(st, "{")
      [] ch = "]" -> CloseWith(st, "[")
      [] Space(ch) -> st
      [] OTHER -> JBad(st)

Escaped(ch) == CASE ch = "\"" -> "\"" [] ch = "\\" -> "\\" [] ch = "/" -> "/" [] ch = "n" -> "\n"
                 [] ch = "r" -> "\r" [] ch = "t" -> "\t" [] ch = "f" -> "\f"
                 [] ch = "b" -> Chars.latin[9] [] OTHER -> ""

(* An escaped character beyond Latin-1 makes the string one we do not read.  *)
Unread == "\f\f\f unread"

EndString(st) == IF st.iskey THEN [st EXCEPT !.m = "colon", !.key = st.cur, !.cur = ""]
                 ELSE Done([st EXCEPT !.out = Append(st.out, <<st.key, st.cur>>)])

JStep(st, ch) ==
    CASE st.m = "bad"   -> st
      [] st.m = "value" -> IF Space(ch) THEN st ELSE BeginValue(st, ch)
      [] st.m = "first" -> IF Space(ch) THEN st
                           ELSE IF ch = "]" THEN CloseWith(st, "[") ELSE BeginValue(st, ch)
      [] st.m \in {"firstkey", "key"} ->
            IF Space(ch) THEN st
            ELSE IF ch = "\"" THEN [st EXCEPT !.m = "str", !.iskey = TRUE, !.cur = ""]
            ELSE IF ch = "}" /\ st.m = "firstkey" THEN CloseWith(st, "{") ELSE JBad(st)
      [] st.m = "colon" -> IF Space(ch) THEN st ELSE IF ch = ":" THEN [st EXCEPT !.m = "value"] ELSE JBad(st)
      [] st.m = "str"   -> CASE ch = "\"" -> EndString(st)
                             [] ch = "\\" -> [st EXCEPT !.m = "esc"]
                             [] ch \in Ctl -> JBad(st)
                             [] OTHER -> [st EXCEPT !.cur = st.cur \o ch]
      [] st.m = "esc"   -> IF ch = "u" THEN [st EXCEPT !.m = "hex4", !.hex = 0]
                           ELSE IF Escaped(ch) = "" THEN JBad(st)
                           ELSE [st EXCEPT !.m = "str", !.cur = st.cur \o Escaped(ch)]
      [] st.m \in {"hex4", "hex3", "hex2", "hex1"} ->
            IF ~ In(ch, "0123456789abcdefABCDEF") THEN JBad(st)
            ELSE LET h == st.hex * 16 + HexVal(ch)
                 IN IF st.m = "hex1"
                    THEN [st EXCEPT !.m = "str",
                                    !.cur = st.cur \o (IF h < 256 THEN Chars.latin[h + 1] ELSE Unread)]
                    ELSE [st EXCEPT !.hex = h,
                                    !.m = CASE st.m = "hex4" -> "hex3" [] st.m = "hex3" -> "hex2"
                                            [] st.m = "hex2" -> "hex1"]
      [] st.m = "num"   -> IF In(ch, "0123456789.eE+-") THEN [st EXCEPT !.cur = st.cur \o ch]
                           ELSE IF IsNum(st.cur) THEN After(Done(st), ch) ELSE JBad(st)
      [] st.m = "word"  -> IF In(ch, "rueals") THEN [st EXCEPT !.cur = st.cur \o ch]
                           ELSE IF st.cur \in {"true", "false", "null"} THEN After(Done(st), ch)
                           ELSE JBad(st)
      [] st.m = "after" -> After(st, ch)
      [] st.m = "done"  -> IF Space(ch) THEN st ELSE JBad(st)

ReadJson(s) == FoldLeft(LAMBDA st, i : JStep(st, At(s, i)), JStart, Positions(s))
JsonWhole(st) == st.m = "done"

---------------------------------------------------------------------------
(* CSV (RFC 4180): a field with a quote, a separator or a line break in it   *)
(* is quoted, and quotes in it are doubled.                                  *)
CStart == [m |-> "start", cur |-> "", rec |-> <<>>, recs |-> <<>>]
CBad(st) == [st EXCEPT !.m = "bad"]
EndField(st) == [st EXCEPT !.m = "start", !.cur = "", !.rec = Append(st.rec, st.cur)]
EndRecord(st) == [st EXCEPT !.m = "begin", !.cur = "", !.rec = <<>>,
                            !.recs = Append(st.recs, Append(st.rec, st.cur))]
CStep(st, ch) ==
    CASE st.m = "bad" -> st
      [] st.m \in {"start", "begin", "plain"} ->
            CASE ch = "," -> EndField(st)
              [] ch = "\n" -> EndRecord(st)
              [] ch = "\r" -> [st EXCEPT !.m = "cr"]
              [] ch = "\"" -> IF st.m = "plain" THEN CBad(st) ELSE [st EXCEPT !.m = "quoted"]
              [] OTHER -> [st EXCEPT !.m = "plain", !.cur = st.cur \o ch]
      [] st.m = "quoted" -> IF ch = "\"" THEN [st EXCEPT !.m = "quote"]
                            ELSE [st EXCEPT !.cur = st.cur \o ch]
      [] st.m = "quote" -> CASE ch = "\"" -> [st EXCEPT !.m = "quoted", !.cur = st.cur \o ch]
                             [] ch = "," -> EndField(st)
                             [] ch = "\n" -> EndRecord(st)
                             [] ch = "\r" -> [st EXCEPT !.m = "cr"]
                             [] OTHER -> CBad(st)
      [] st.m = "cr" -> IF ch = "\n" THEN EndRecord(st) ELSE CBad(st)

ReadCsv(s) == FoldLeft(LAMBDA st, i : CStep(st, At(s, i)), CStart, Positions(s))
CsvWhole(s, st) == s = "" \/ st.m = "begin"

---------------------------------------------------------------------------
(* The text table: every cell in full, columns as wide as their widest cell, *)
(* numbers to the right and the last column to the left.  The rule under the *)
(* last column is as long as it is drawn (lastw).                            *)
Width(cells, hdr, c) == FoldLeft(LAMBDA a, r : Max2(a, Len(r[c])), Len(hdr[c]), cells)
PadL(s, w) == Repeat(" ", w - Len(s)) \o s
PadR(s, w) == s \o Repeat(" ", w - Len(s))

RECURSIVE Join(_, _)
Join(parts, sep) == IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o sep \o Join(Tail(parts), sep)

Render(hdr, cells, lastw) ==
    LET n == Len(hdr)
        w == TLCEval([c \in 1 .. n |-> IF c = n THEN lastw ELSE Width(cells, hdr, c)])
        head == " " \o Join([c \in 1 .. n |-> IF c = n THEN hdr[c] ELSE PadR(hdr[c], w[c])], " │ ")
        rule == "─" \o Join([c \in 1 .. n |-> Repeat("─", w[c])], "─┼─")
        Line(r) == " " \o Join([c \in 1 .. n |-> IF c = n THEN r[c] ELSE PadL(r[c], w[c])], " ┊ ")
    IN head \o "\n" \o rule \o "\n"
       \o FoldLeft(LAMBDA a, r : a \o Line(r) \o "\n", "", cells)

---------------------------------------------------------------------------
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in Elems(a) : Count(a, x) = Count(b, x)

(* raw: the three outputs; cells, hdr, lastw: how the text table was read;   *)
(* jnames, cnames: the names that were read from JSON and CSV.               *)
FormatsVerdict(nm, ev) ==
    LET j == TLCEval(ReadJson(ev.raw.json))
        c == TLCEval(ReadCsv(ev.raw.csv))
        js == [i \in DOMAIN j.out |-> j.out[i][2]]
    IN Chk(JsonWhole(j), "formats.json.malformed",
       Chk(\A i \in DOMAIN j.out : j.out[i][1] \in {"name", "generic"}, "formats.json.members",
       Chk((\E i \in DOMAIN js : HasSub(js[i], Unread)) \/ SameBag(js, ev.jnames), "formats.json.names",
       Chk(CsvWhole(ev.raw.csv, c), "formats.csv.malformed",
       Chk(\A i \in DOMAIN c.recs : Len(c.recs[i]) = Len(c.recs[1]), "formats.csv.columns",
       Chk(ev.raw.csv # "" =>
             [i \in 1 .. (Len(c.recs) - 1) |-> c.recs[i + 1][ev.ncol]] = ev.cnames, "formats.csv.names",
       Chk(ev.raw.text = Render(ev.hdr, ev.cells, ev.lastw), "formats.text.layout",
       OK)))))))
=============================================================================
