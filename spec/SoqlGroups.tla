----------------------------- MODULE SoqlGroups -----------------------------
(***************************************************************************)
(* Conditions of queries keep their meaning: whatever parentheses go or    *)
(* come, a condition of the output has the truth value of the source's for *)
(* every outcome of its comparisons.                                       *)
(***************************************************************************)
EXTENDS Apex, SoqlMeaning

CondKinds == {"where_clause", "having_clause"}

(* Conditions of a text: their first word, by position; path[Len] is the clause. *)
Begins(s) == {q \in 1 .. Len(s) : P(s[q]) \in CondKinds /\ LT(s[q]) \in {"where", "having"}}

RECURSIVE EndOf(_, _, _, _)
EndOf(c, s, q, k) ==
  IF q = Len(s) THEN q
  ELSE LET p == Path(c, s[q + 1]) IN
       IF Len(p) >= k /\ p[k] \in CondKinds /\ Top(s[q + 1]) >= k THEN EndOf(c, s, q + 1, k) ELSE q

(* What a token is for the condition of the clause at depth k.              *)
Role(c, t, k) ==
  LET p == Path(c, t) IN
  IF \A x \in k + 1 .. Len(p) : p[x] \in BoolNodes \ CondKinds THEN LT(t) ELSE "#"

RECURSIVE Squeeze(_)   \* a comparison is many tokens
Squeeze(s) == IF Len(s) < 2 THEN s
              ELSE IF s[1] = "#" /\ s[2] = "#" THEN Squeeze(Tail(s))
              ELSE <<s[1]>> \o Squeeze(Tail(s))

CondAt(c, s, q) ==
  LET k == Len(Path(c, s[q]))
      e == EndOf(c, s, q, k)
  IN Squeeze([x \in 1 .. e - q |-> Role(c, s[q + x], k)])

RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o InOrder(S \ {m})

Conds(c, x) == LET s == Code(x)
                   b == InOrder(Begins(s))
               IN [q \in 1 .. Len(b) |-> CondAt(c, s, b[q])]

BadRun(c, r) ==
  IF Source(c, r).err THEN {}
  ELSE IF Output(c, r).err THEN {<<r.n, "output is not valid">>}
  ELSE LET a == Conds(c, Source(c, r))
           b == Conds(c, Output(c, r))
       IN IF Len(a) # Len(b) THEN {<<r.n, "another number of conditions", Len(a), Len(b)>>}
          ELSE {<<r.n, "another meaning", a[q], b[q]>> : q \in {x \in 1 .. Len(a) :
                  a[x] # b[x] /\ ~(WellFormed(a[x]) /\ WellFormed(b[x]) /\ Same(a[x], b[x]))}}
               \cup {<<r.n, "not understood", a[q]>> : q \in {x \in 1 .. Len(a) : ~WellFormed(a[x])}}

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok"}}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
