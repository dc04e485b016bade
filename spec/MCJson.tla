------------------------------- MODULE MCJson -------------------------------
(* Every short sequence of JSON tokens. Checked: the reading machine of      *)
(* TwFormats accepts exactly the sequences the grammar of RFC 8259 derives,  *)
(* so that a report is called well formed if and only if it is.              *)
EXTENDS TwFormats

CONSTANT MaxTokens
Tokens == { "{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", "-0.5e3", "01" }

VARIABLES toks, st
vars == <<toks, st>>
Feed(s, t) == FoldLeft(LAMBDA a, i : JStep(a, At(t, i)), s, Positions(t))

(* One blank between two tokens keeps numbers and words apart.               *)
Init == toks = <<>> /\ st = JStart
Next == /\ Len(toks) < MaxTokens
        /\ st.m # "bad" \/ Len(toks) < 4
        /\ \E t \in Tokens : /\ toks' = Append(toks, t)
                             /\ st' = TLCEval(Feed(st, " " \o t \o " "))
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The grammar: is toks[i .. j] a value, a list of elements, of members?     *)
RECURSIVE Value(_, _, _), Elements(_, _, _), Members(_, _, _)
Value(s, i, j) ==
    IF i > j THEN FALSE
    ELSE IF i = j THEN s[i] \in {"\"a\"", "1", "null", "-0.5e3"}
    ELSE CASE s[i] = "[" /\ s[j] = "]" -> j = i + 1 \/ Elements(s, i + 1, j - 1)
           [] s[i] = "{" /\ s[j] = "}" -> j = i + 1 \/ Members(s, i + 1, j - 1)
           [] OTHER -> FALSE
Elements(s, i, j) == \/ Value(s, i, j)
                     \/ \E k \in i .. j : s[k] = "," /\ Value(s, i, k - 1) /\ Elements(s, k + 1, j)
Member(s, i, j) == j - i >= 2 /\ s[i] = "\"a\"" /\ s[i + 1] = ":" /\ Value(s, i + 2, j)
Members(s, i, j) == \/ Member(s, i, j)
                    \/ \E k \in i .. j : s[k] = "," /\ Member(s, i, k - 1) /\ Members(s, k + 1, j)

Accepts == JsonWhole(st) <=> Value(toks, 1, Len(toks))

(* The strings that are reported are the ones that are values, each with the *)
(* key it belongs to.                                                        *)
IsKey(s, i) == i < Len(s) /\ s[i + 1] = ":"
Strings == JsonWhole(st) =>
    /\ Len(st.out) = Cardinality({ i \in DOMAIN toks : toks[i] = "\"a\"" /\ ~ IsKey(toks, i) })
    /\ \A k \in DOMAIN st.out : st.out[k][2] = "a"
(* Once wrong, always wrong.                                                 *)
Final == [][st.m = "bad" => st'.m = "bad"]_vars
=============================================================================
