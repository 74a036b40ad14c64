---------------------------- MODULE CommentOnce ----------------------------
(***************************************************************************)
(* Every comment comes out exactly once, in the same order, with the same  *)
(* words; otherwise there is an error and no output.                       *)
(***************************************************************************)
EXTENDS CommentText

Same(a, b) == Words(a) = Words(b) /\ IsLine(a) = IsLine(b) /\ IsDoc(a) = IsDoc(b)

BadRun(c, r) ==
  LET x == Source(c, r)
      y == Output(c, r)
      ix == CommentIx(x)
  IN IF Len(x.cm) # Len(y.cm) THEN {<<r.n, "number of comments", Len(x.cm), Len(y.cm)>>}
     ELSE {<<r.n, "comment changed", q>> : q \in {k \in 1 .. Len(x.cm) : ~Agrees(x, y, ix, k, Same)}}

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok" /\ ~Source(c, c.runs[x]).err}}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
