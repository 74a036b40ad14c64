------------------------------ MODULE Vertical ------------------------------
(***************************************************************************)
(* Line structure: every item starts a line, the author's blank lines      *)
(* between items are kept as one blank line, no others appear, lines have  *)
(* no trailing blanks and the file ends in exactly one newline.            *)
(***************************************************************************)
EXTENDS Lines

InComment(x, l) == \E q \in 1 .. Len(x.toks) : IsComment(x.toks[q]) /\ Row(x.toks[q]) + 1 <= l /\ l <= ERow(x.toks[q]) + 1

TextRules(r, x) ==
  (IF x.nl1 THEN {} ELSE {<<r.n, "file does not end in exactly one newline">>})
  \cup {<<r.n, "trailing white space on line", l>> : l \in {k \in 1 .. Len(x.lines) : LTrail(x.lines[k])}}
  \cup {<<r.n, "two blank lines", l>> : l \in {k \in 1 .. Len(x.lines) - 1 : LLen(x.lines[k]) = 0 /\ LLen(x.lines[k + 1]) = 0
                                                 /\ ~InComment(x, k)}}

Aligned(a, b) == Len(a) = Len(b) /\ \A q \in 1 .. Len(a) : K(a[q]) = K(b[q])

PairRules(c, r, a, b) ==
  UNION {
    LET g == Gap(b, q)
        want == Gap(a, q) >= 2 /\ MayBlank(c, b, q)
        free == \/ IsComment(b[q]) /\ P(b[q]) \in {"switch_block", "enum_body"}
                \/ IsComment(b[q - 1]) /\ ~FirstOnLine(b, q - 1) /\ Close(c, b[q])
    IN IF g > 2 THEN {<<r.n, "more than one blank line", q, T(b[q])>>}
       ELSE IF g = 2 /\ ~want THEN {<<r.n, "blank line out of nothing", q, T(b[q])>>}
       ELSE IF g < 2 /\ want /\ ~free THEN {<<r.n, "blank line lost", q, T(b[q])>>}
       ELSE {}
    : q \in 2 .. Len(b)}

BadRun(c, r) ==
  LET x == Source(c, r)
      y == Output(c, r)
  IN IF y.err THEN {}
     ELSE TextRules(r, y)
          \cup (IF y.toks # << >> /\ Row(y.toks[1]) # 0 THEN {<<r.n, "file starts with a blank line">>} ELSE {})
          \cup (IF ~Ordinary(x) \/ ~Ordinary(y) \/ HasStray(x) THEN {}
                ELSE LET a == KeptOf(x.toks)
                         b == KeptOf(y.toks)
                     IN IF Aligned(a, b) THEN PairRules(c, r, a, b) ELSE {})

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok"}}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
