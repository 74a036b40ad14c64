------------------------------- MODULE Width -------------------------------
(***************************************************************************)
(* The configured line width, judged on outputs of one program at several  *)
(* widths.  U is the layout without limit, N the one that breaks wherever  *)
(* a break is possible.                                                    *)
(*  - if every line of U fits, the layout at width w is U;                 *)
(*  - a line of U that fits and starts at the same column is not broken;   *)
(*  - a line that is too long has no break left to take.                   *)
(***************************************************************************)
EXTENDS Lines

Unlimited == 100000
Runs(c) == {r \in 1 .. Len(c.runs) : c.runs[r].st = "ok"}

(* Groups in which a modifier's annotation asks for its own line, and the    *)
(* bodies of anonymous classes, do not break as a whole.                    *)
Irregular(c, x) ==
  \E q \in 1 .. Len(x.toks) :
     LET p == Path(c, x.toks[q])
     IN \/ P(x.toks[q]) = "annotation" /\ \E m \in 1 .. Len(p) : p[m] \in {"formal_parameter", "accessor_declaration"}
        \/ \E m \in 1 .. Len(p) - 1 : p[m] = "object_creation_expression" /\ p[m + 1] = "class_body"

Joined(s, q) == ERow(s[q]) = Row(s[q + 1])

(* the last token on the line that starts with token q *)
RECURSIVE LineEnd(_, _)
LineEnd(s, q) == IF q < Len(s) /\ Joined(s, q) THEN LineEnd(s, q + 1) ELSE q

Fits(x, w) == \A l \in 1 .. Len(x.lines) : LLen(x.lines[l]) <= w

Judge(c, r, u, m) ==
  LET w == r.w
      x == Output(c, r)     s == x.toks
      ux == Output(c, u)    us == ux.toks
      ms == Output(c, m).toks
  IN (IF Fits(ux, w) /\ r.o # u.o THEN {<<r.n, w, "broken although every line fits">>} ELSE {})
     \cup (IF Len(s) # Len(us) \/ Len(s) # Len(ms) THEN {<<r.n, w, "other tokens at another width">>}
           ELSE IF Irregular(c, x) THEN {}
           ELSE {<<r.n, w, "line broken although it fits", Row(us[q]) + 1>> :
                    q \in {z \in 1 .. Len(us) :
                             /\ FirstOnLine(us, z)
                             /\ LLen(ux.lines[Row(us[z]) + 1]) <= w
                             /\ Col(us[z]) = Col(s[z])
                             /\ FirstOnLine(s, z)
                             /\ \E p \in z .. LineEnd(us, z) - 1 : ~Joined(s, p)}}
                \cup {<<r.n, w, "long line not broken", Row(s[q]) + 1>> :
                              q \in {z \in 1 .. Len(s) - 1 :
                                       /\ Joined(s, z)
                                       /\ ~Joined(ms, z)
                                       /\ LLen(x.lines[Row(s[z + 1]) + 1]) > w}})

Bad(c) ==
  LET us == {r \in Runs(c) : c.runs[r].w = Unlimited}
      ms == {r \in Runs(c) : c.runs[r].w = 1}
  IN IF us = {} \/ ms = {} \/ \E r \in Runs(c) : ~NoComments(Source(c, c.runs[r])) THEN {}
     ELSE UNION {Judge(c, c.runs[r], c.runs[CHOOSE u \in us : TRUE], c.runs[CHOOSE m \in ms : TRUE]) : r \in Runs(c)}
          \cup (IF Runs(c) # 1 .. Len(c.runs) THEN {<<"refused at some widths only">>} ELSE {})

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
