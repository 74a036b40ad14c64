------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* Formatting as a token transducer.                                       *)
(*                                                                         *)
(* The machine reads the code tokens of the source and of the output side  *)
(* by side.  Formatting may only copy tokens; the few tokens it may drop,  *)
(* or regroup, have an action each.  A behaviour that gets stuck before    *)
(* both streams are used up is a program that formatting has changed.      *)
(***************************************************************************)
EXTENDS Apex

VARIABLES k,   \* case
          r,   \* run of the case
          i,   \* code tokens of the source used up
          j    \* code tokens of the output used up

vars == <<k, r, i, j>>

Runs(c) == {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok"}

In  == Cases[k].texts[Cases[k].runs[r].s].toks
Out == Cases[k].texts[Cases[k].runs[r].o].toks

Init == /\ k \in 1 .. NCases
        /\ r \in Runs(Cases[k])
        /\ i = 0 /\ j = 0

HasIn  == i < Len(In)
HasOut == j < Len(Out)
A == In[i + 1]
B == Out[j + 1]

(* Comments are the subject of module Comments.                             *)
SkipInComment  == HasIn /\ IsComment(A) /\ i' = i + 1 /\ UNCHANGED <<k, r, j>>
SkipOutComment == HasOut /\ IsComment(B) /\ ~(HasIn /\ IsComment(A)) /\ j' = j + 1 /\ UNCHANGED <<k, r, i>>

AtCode == ~(HasIn /\ IsComment(A)) /\ ~(HasOut /\ IsComment(B))

CanCopy == HasIn /\ HasOut /\ SameToken(A, B)
Copy == AtCode /\ CanCopy /\ i' = i + 1 /\ j' = j + 1 /\ UNCHANGED <<k, r>>

DropAliasAs == AtCode /\ HasIn /\ ~CanCopy /\ IsAliasAs(A) /\ i' = i + 1 /\ UNCHANGED <<k, r, j>>
DropStraySemi == AtCode /\ HasIn /\ ~CanCopy /\ IsStraySemi(A) /\ i' = i + 1 /\ UNCHANGED <<k, r, j>>

(* "@X()" may become "@X", but only as a pair. *)
DropEmptyArgs ==
  /\ AtCode /\ HasIn /\ ~CanCopy /\ IsAnnParen(A) /\ T(A) = "("
  /\ i + 2 <= Len(In) /\ IsAnnParen(In[i + 2]) /\ T(In[i + 2]) = ")"
  /\ i' = i + 2 /\ UNCHANGED <<k, r, j>>

RegroupIn  == AtCode /\ ~CanCopy /\ HasIn /\ IsGroupParen(A) /\ i' = i + 1 /\ UNCHANGED <<k, r, j>>
RegroupOut == /\ AtCode /\ ~CanCopy /\ HasOut /\ IsGroupParen(B) /\ ~(HasIn /\ IsGroupParen(A))
              /\ j' = j + 1 /\ UNCHANGED <<k, r, i>>

Move == SkipInComment \/ SkipOutComment \/ Copy \/ DropAliasAs \/ DropStraySemi \/ DropEmptyArgs \/ RegroupIn \/ RegroupOut

Done == ~HasIn /\ ~HasOut

Stuck == /\ ~Done /\ ~ENABLED Move
         /\ Report(Cases[k], {[run |-> Cases[k].runs[r].n,
                               in  |-> IF HasIn THEN <<K(A), T(A), P(A)>> ELSE <<"end of file", "", "">>,
                               out |-> IF HasOut THEN <<K(B), T(B), P(B)>> ELSE <<"end of file", "", "">>]})
         /\ UNCHANGED vars

Accept == Done /\ UNCHANGED vars

Next == Move \/ Stuck \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
