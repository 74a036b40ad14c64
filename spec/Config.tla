------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Configuration files and what they mean.                                 *)
(*                                                                         *)
(* A configuration is a sequence of lines; a line sets a key to a value,   *)
(* starts a table, or is malformed.  Meaning gives the width and           *)
(* indentation a run must use, or refuses the configuration.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

Keys == {"max_width", "indent_size"}
Defaults == [max_width |-> "80", indent_size |-> "2"]

Widths == {"0", "1", "20", "40", "79", "80", "120", "200", "250", "1000", "4294967295"}
Indents == {"1", "2", "3", "4", "5", "8", "13", "0"}
NotNumbers == {"neg", "big", "str", "float", "bool", "array"}

Values(k) == {<<"int", v>> : v \in (IF k = "max_width" THEN Widths ELSE Indents)} \cup {<<x, "">> : x \in NotNumbers}

Sets(k) == {<<"set", k, v[1], v[2]>> : v \in Values(k)}
Unknown == {<<"set", k, v[1], v[2]>> : k \in {"tab_width", "Max_Width", "max-width"}, v \in {<<"int", "20">>, <<"str", "">>}}
Others == {<<"table", "", "", "">>, <<"malformed", "", "", "">>, <<"comment", "", "", "">>}

(* Lines before the first table belong to the top level.                    *)
TableAt(c) == LET ts == {q \in 1 .. Len(c) : c[q][1] = "table"}
              IN IF ts = {} THEN Len(c) + 1 ELSE CHOOSE q \in ts : \A r \in ts : q <= r
Top(c) == SubSeq(c, 1, TableAt(c) - 1)
Nested(c) == SubSeq(c, TableAt(c) + 1, Len(c))

Twice(s) == \E a, b \in 1 .. Len(s) : a # b /\ s[a][1] = "set" /\ s[b][1] = "set" /\ s[a][2] = s[b][2]
Tables(c) == Cardinality({q \in 1 .. Len(c) : c[q][1] = "table"})

Value(c, k) ==
  LET at == {q \in 1 .. Len(Top(c)) : Top(c)[q][1] = "set" /\ Top(c)[q][2] = k}
  IN IF at = {} THEN <<"int", Defaults[k]>> ELSE LET q == CHOOSE x \in at : TRUE IN <<Top(c)[q][3], Top(c)[q][4]>>

WellFormed(c) ==
  /\ \A q \in 1 .. Len(c) : c[q][1] # "malformed"
  /\ ~Twice(Top(c)) /\ ~Twice(Nested(c)) /\ Tables(c) <= 1
  /\ \A k \in Keys : Value(c, k)[1] = "int"
  /\ Value(c, "indent_size")[2] # "0"

Meaning(c) == IF WellFormed(c) THEN <<"ok", Value(c, "max_width")[2], Value(c, "indent_size")[2]>> ELSE <<"refused", "", "">>
=============================================================================
