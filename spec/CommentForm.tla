---------------------------- MODULE CommentForm ----------------------------
(***************************************************************************)
(* Comments are printed in their normal form: doc comments with one        *)
(* aligned star per line, other comments line by line, each line at the    *)
(* indentation of the comment, nothing at the ends of lines.               *)
(***************************************************************************)
EXTENDS CommentText

(* leading blanks of a line *)
RECURSIVE Lead(_)
Lead(l) == IF l # << >> /\ Head(l) = " " THEN 1 + Lead(Tail(l)) ELSE 0

(* The comment has its lines for itself, between the items of a body.       *)
Alone(x, q) == /\ P(x.toks[q]) \in CommentParents
               /\ FirstOnLine(x.toks, q)
               /\ q = Len(x.toks) \/ FirstOnLine(x.toks, q + 1)

Placed(x, k, q) ==
  LET ls == x.cm[k]
      t == x.toks[q]
  IN Alone(x, q) => \A m \in 2 .. Len(ls) :
               \/ Trim(ls[m]) = << >>
               \/ Lead(ls[m]) = Col(t) + (IF IsDoc(ls) THEN 1 ELSE 0)

BadRun(c, r) ==
  LET x == Source(c, r)
      y == Output(c, r)
  IN IF Len(x.cm) # Len(y.cm) THEN {}   \* module CommentOnce
     ELSE LET ix == CommentIx(y)
              sx == CommentIx(x)
              form(a, b) == Printed(b) = Normal(a)
          IN
          {<<r.n, "not in normal form", k>> : k \in {m \in 1 .. Len(x.cm) : ~Agrees(x, y, sx, m, form)}}
          \cup {<<r.n, "lines not aligned", k>> : k \in {m \in 1 .. Len(y.cm) : Alone(x, sx[m]) /\ ~Placed(y, m, ix[m])}}

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok" /\ ~Source(c, c.runs[x]).err}}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
