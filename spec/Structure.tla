----------------------------- MODULE Structure -----------------------------
(***************************************************************************)
(* The output is valid and has the syntax tree of the source: every code   *)
(* token keeps its ancestors.                                              *)
(***************************************************************************)
EXTENDS Apex

BadRun(c, r) ==
  LET o == Output(c, r) IN
  IF o.err THEN {<<r.n, "output does not parse">>}
  ELSE LET a == Kept(Source(c, r))
           b == Kept(o)
       IN IF Len(a) # Len(b) THEN {<<r.n, "another number of tokens">>}
          ELSE {<<r.n, "moved in the tree", T(a[p]), P(a[p]), P(b[p])>> :
                  p \in {q \in 1 .. Len(a) : NormPath(Path(c, a[q])) # NormPath(Path(c, b[q]))}}

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok"}}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
