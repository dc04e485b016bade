------------------------------ MODULE MCFormats -----------------------------
(* Names, character by character, over an alphabet of everything that has a  *)
(* meaning in JSON or CSV. Checked: whichever of its legal spellings a       *)
(* writer chooses for each character, the readers of TwFormats give back     *)
(* exactly the name and nothing else; and a name with a special character in *)
(* it never survives being pasted in as it is. The names are replayed        *)
(* through every report and format of the real code.                         *)
EXTENDS TwFormats

CONSTANT MaxLen

Ch(k) == Chars.latin[k + 1]
(* " \ , LF CR TAB SOH / n u space e-acute { : ]                             *)
Alphabet == { 34, 92, 44, 10, 13, 9, 1, 47, 110, 117, 32, 233, 123 }

VARIABLE name
Init == name = <<>>
Next == /\ Len(name) < MaxLen
        /\ \E k \in Alphabet : name' = Append(name, k)
Spec == Init /\ [][Next]_name

Text(s) == FoldLeft(LAMBDA a, k : a \o Ch(k), "", s)
Hex2(k) == At(HexDigits, k \div 16 + 1) \o At(HexDigits, (k % 16) + 1)
Short(k) == CASE k = 34 -> {"\\\""} [] k = 92 -> {"\\\\"} [] k = 10 -> {"\\n"} [] k = 13 -> {"\\r"}
              [] k = 9 -> {"\\t"} [] k = 47 -> {"\\/"} [] OTHER -> {}
Plain(k) == IF k < 32 \/ k = 34 \/ k = 92 THEN {} ELSE {Ch(k)}
Spellings(k) == Plain(k) \union Short(k) \union {"\\u00" \o Hex2(k)}

RECURSIVE Written(_)
Written(s) == IF s = <<>> THEN {""}
              ELSE LET rest == TLCEval(Written(Tail(s)))
                   IN { a \o b : a \in Spellings(Head(s)), b \in rest }

InList(w) == "[{\"name\":\"" \o w \o "\",\"size\":3},{\"name\":\"" \o w \o "\"}]\n"
Two(s) == << <<"name", Text(s)>>, <<"name", Text(s)>> >>
Json == \A w \in Written(name) :
            LET j == TLCEval(ReadJson(InList(w))) IN JsonWhole(j) /\ j.out = Two(name)

Special == {34, 92} \union 0 .. 31
Pasted == LET j == TLCEval(ReadJson(InList(Text(name))))
          IN (JsonWhole(j) /\ j.out = Two(name)) <=> (Elems(name) \cap Special = {})

(* Quoting is free where it is not needed.                                   *)
Doubled(s) == FoldLeft(LAMBDA a, k : a \o (IF k = 34 THEN "\"\"" ELSE Ch(k)), "", s)
Needs == Elems(name) \cap {34, 44, 10, 13} # {}
Quoted == "\"" \o Doubled(name) \o "\""
Fields == {Quoted} \union (IF Needs THEN {} ELSE {Text(name)})
Table(f, eol) == "Name,Size" \o eol \o f \o ",1" \o eol \o "x," \o f \o eol
Read(t, f) == LET c == TLCEval(ReadCsv(t))
              IN /\ CsvWhole(t, c)
                 /\ c.recs = << <<"Name", "Size">>, <<f, "1">>, <<"x", f>> >>
Csv == \A f \in Fields : \A eol \in {"\n", "\r\n"} : Read(Table(f, eol), Text(name))
PastedCsv == Read(Table(Text(name), "\n"), Text(name)) <=> ~ Needs

(* A row of the text table is found again in its layout, whatever it holds.  *)
Laid == LET t == TLCEval(Render(<<"Size", "Item">>, << <<"1", Text(name)>>, <<"22", "x">> >>,
                                Max2(4, Len(name))))
        IN HasSub(t, "    1 ┊ " \o Text(name) \o "\n   22 ┊ x\n")

Emit == PrintT(<<"EMIT", ToJson(name)>>)
=============================================================================
