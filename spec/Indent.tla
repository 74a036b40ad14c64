------------------------------- MODULE Indent -------------------------------
(***************************************************************************)
(* Indentation shows nesting, in the configured unit.                      *)
(***************************************************************************)
EXTENDS Lines

(* Bodies of anonymous classes hang on an expression.                       *)
Anonymous(p) == \E q \in 1 .. Len(p) - 1 : p[q] = "object_creation_expression" /\ p[q + 1] = "class_body"

(* An item or a comment of the body at p[m] stands one unit deeper than the   *)
(* line on which the construct with that body begins.                        *)
Within(p, s, q, m, i) == Col(s[q]) = IF m = 1 THEN 0 ELSE LineCol(s, q - 1, OwnerOf(p, m)) + i

(* The first token of a statement that is the body of another one.           *)
IsUnbracedBody(p, t) == /\ Top(t) < Len(p)
                        /\ p[Top(t)] \in Unbraced
                        /\ p[Top(t) + 1] \in StatementKinds

BadTok(c, r, s, q) ==
  LET t == s[q]
      p == Path(c, t)
      i == r.i
  IN IF Anonymous(p) THEN {}
     ELSE IF IsComment(t)
     THEN IF FirstOnLine(s, q) /\ ~(Nested(p, Len(p), Col(t), i) /\ (P(t) \in BodyKinds => Within(p, s, q, Len(p), i)))
          THEN {<<r.n, "comment at the wrong depth", T(t), q, Col(t)>>} ELSE {}
     ELSE IF q > 1 /\ IsComment(s[q - 1]) /\ ~FirstOnLine(s, q) THEN {}  \* behind a block comment
     ELSE IF IsItemStart(c, t) \/ IsBlockItem(c, t)
     THEN (IF FirstOnLine(s, q) THEN {} ELSE {<<r.n, "item does not start its line", T(t), q>>})
          \cup (IF Nested(p, Top(t), Col(t), i) /\ Within(p, s, q, Top(t), i) THEN {} ELSE {<<r.n, "item at the wrong depth", T(t), q, Col(t)>>})
     ELSE IF IsBodyClose(t)
     THEN (IF FirstOnLine(s, q) THEN {} ELSE {<<r.n, "closing brace does not start its line", q>>})
          \cup (IF Nested(p, Len(p) - 1, Col(t), i) /\ Col(t) = LineCol(s, q, OwnerOf(p, Len(p))) THEN {} ELSE {<<r.n, "closing brace at the wrong depth", q, Col(t)>>})
     ELSE IF IsUnbracedBody(p, t) /\ FirstOnLine(s, q)
     THEN IF Col(t) = LineCol(s, q - 1, Top(t)) + i THEN {} ELSE {<<r.n, "unbraced body at the wrong depth", T(t), q, Col(t)>>}
     ELSE IF FirstOnLine(s, q) /\ Top(t) > 0
     THEN (IF Col(t) % i = 0 THEN {} ELSE {<<r.n, "line not at a multiple of the unit", T(t), q, Col(t)>>})
          \cup (IF Col(t) >= i * Depth(p, Top(t)) THEN {} ELSE {<<r.n, "line left of its statement", T(t), q, Col(t)>>})
     ELSE {}

Applies(x) == ~x.err /\ Ordinary(x)

BadRun(c, r) ==
  LET x == Output(c, r) IN
  IF ~Applies(x) \/ ~Ordinary(Source(c, r)) THEN {} ELSE UNION {BadTok(c, r, x.toks, q) : q \in 1 .. Len(x.toks)}

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok"}}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
