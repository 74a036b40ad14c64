------------------------------ MODULE SoqlGen ------------------------------
(***************************************************************************)
(* Conditions of queries, as a derivation machine over their grammar:      *)
(*    cond ::= opnd | opnd AND opnd ... | opnd OR opnd ... | NOT opnd      *)
(*    opnd ::= comparison | ( cond )                                       *)
(* Every condition within the bounds on comparisons, parentheses and NOTs. *)
(* "#" stands for a comparison.                                            *)
(***************************************************************************)
EXTENDS SoqlMeaning, TLC, Json

CONSTANTS MaxLeaves, MaxParens, MaxNots

Alts == [ cond |-> << <<"opnd">>, <<"opnd","and","opnd">>, <<"opnd","or","opnd">>, <<"not","opnd">>,
                      <<"opnd","and","opnd","and","opnd">>, <<"opnd","or","opnd","or","opnd">> >>,
          opnd |-> << <<"#">>, <<"(","cond",")">> >> ]

Count(s, x) == Cardinality({q \in 1 .. Len(s) : s[q] = x})

VARIABLES stk, out
gvars == <<stk, out>>

RECURSIVE Drain(_, _)
Drain(s, o) == IF s = << >> \/ Head(s) \in DOMAIN Alts THEN <<s, o>> ELSE Drain(Tail(s), Append(o, Head(s)))

GInit == stk = <<"cond">> /\ out = << >>
Derive(i) ==
  /\ stk # << >> /\ i \in 1 .. Len(Alts[Head(stk)])
  /\ LET d == Drain(Alts[Head(stk)][i] \o Tail(stk), out) IN
       /\ stk' = d[1] /\ out' = d[2]
       /\ Count(out', "#") + Count(stk', "opnd") + Count(stk', "cond") <= MaxLeaves
       /\ Count(out', "(") <= MaxParens /\ Count(out', "not") <= MaxNots
       /\ stk' = << >> => PrintT("COND " \o ToJson(out'))
GNext == \E i \in 1 .. 6 : Derive(i)
GSpec == GInit /\ [][GNext]_gvars

(* Sanity of the meaning: every derivable condition has one, no parentheses  *)
(* that are redundant by it change it, and the grouping of mixed operators   *)
(* is not redundant.                                                         *)
Index(s) == [q \in 1 .. Len(s) |-> Count(SubSeq(s, 1, q), "#")]
Defined == stk = << >> => WellFormed(out)
Wrapped == stk = << >> => Same(out, <<"(">> \o out \o <<")">>)
Twice   == stk = << >> => Same(out, <<"not", "(", "not", "(">> \o out \o <<")", ")">>)
=============================================================================
