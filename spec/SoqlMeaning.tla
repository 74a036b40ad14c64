---------------------------- MODULE SoqlMeaning ----------------------------
(***************************************************************************)
(* The meaning of a condition: a truth value for every assignment of truth *)
(* values to its comparisons.  A condition is a sequence of "#" (the next  *)
(* comparison), "and", "or", "not", "(" and ")".                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Leaves(s) == Cardinality({q \in 1 .. Len(s) : s[q] = "#"})
LeafNo(s, q) == Cardinality({x \in 1 .. q : s[x] = "#"})

At(s, p) == IF p <= Len(s) THEN s[p] ELSE "end"
Fail == <<FALSE, 0>>   \* no meaning: position 0

(* Each takes a position and gives <<value, position behind>>.              *)
RECURSIVE Cond(_, _, _), Opnd(_, _, _), More(_, _, _, _)
Opnd(s, p, a) ==
  IF At(s, p) = "#" THEN <<a[LeafNo(s, p)], p + 1>>
  ELSE IF At(s, p) = "(" THEN LET r == Cond(s, p + 1, a) IN
                              IF r[2] # 0 /\ At(s, r[2]) = ")" THEN <<r[1], r[2] + 1>> ELSE Fail
  ELSE Fail
(* One operator only: "a AND b OR c" has no meaning without parentheses.    *)
More(s, op, l, a) ==
  IF l[2] = 0 \/ At(s, l[2]) # op THEN l
  ELSE LET r == Opnd(s, l[2] + 1, a) IN
       IF r[2] = 0 THEN Fail
       ELSE More(s, op, <<IF op = "and" THEN l[1] /\ r[1] ELSE l[1] \/ r[1], r[2]>>, a)
Cond(s, p, a) ==
  IF At(s, p) = "not" THEN LET r == Opnd(s, p + 1, a) IN IF r[2] = 0 THEN Fail ELSE <<~r[1], r[2]>>
  ELSE LET l == Opnd(s, p, a) IN
       IF l[2] # 0 /\ At(s, l[2]) \in {"and", "or"} THEN More(s, At(s, l[2]), l, a) ELSE l

Assignments(s) == [1 .. Leaves(s) -> BOOLEAN]
WellFormed(s) == Cond(s, 1, [q \in 1 .. Leaves(s) |-> TRUE])[2] = Len(s) + 1
Value(s, a) == Cond(s, 1, a)[1]
Same(s, t) == /\ Leaves(s) = Leaves(t)
              /\ \A a \in Assignments(s) : Value(s, a) = Value(t, a)
=============================================================================
