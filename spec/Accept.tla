------------------------------- MODULE Accept -------------------------------
(***************************************************************************)
(* Which inputs are taken: text with a syntax error is refused, valid code *)
(* of the supported language is formatted, and nothing crashes or hangs.   *)
(***************************************************************************)
EXTENDS Lines

CONSTANT Refusals   \* TRUE: judge what must be refused, FALSE: what must not

In(s, e) == \E p \in 1 .. Len(s) : s[p] = e
Pair(s, S1, S2) == \E p \in 1 .. Len(s) - 1 : s[p] \in S1 /\ s[p + 1] \in S2

TopKinds == {"class_declaration", "interface_declaration", "enum_declaration", "trigger_declaration"}

(* Paths of constructs that may be refused.                                 *)
MayRefusePath(p) ==
  \/ \E q \in 1 .. Len(p) : p[q] \in UnsupportedKinds
  \/ Pair(p, {"variable_declarator"}, {"array_initializer"})
  \/ Pair(p, {"with_type"}, {"with_record_visibility_expression", "with_data_cat_expression"})
  \/ Pair(p, StmtParents, DeclKinds)
  \/ Pair(p, {"geo_location_type"}, {"bound_apex_expression"})
  \/ (Len(p) >= 2 /\ p[2] \notin TopKinds)

MayRefuse(c, x) ==
  \E q \in 1 .. Len(x.toks) :
     LET t == x.toks[q] IN
     \/ K(t) \in UnsupportedKinds
     \/ MayRefusePath(Path(c, t))
     \/ (P(t) = "parser_output" /\ ~IsComment(t))

(* A comment may stand where the formatter cannot keep it; then it refuses  *)
(* the file rather than dropping the comment.                               *)
OddComments(x) == ~NoComments(x) /\ (~Ordinary(x) \/ HasStray(x))

BadRun(c, r) ==
  IF r.st \in {"abort", "hang"} THEN {<<r.n, "the formatter did not return", r.st>>}
  ELSE IF Source(c, r).err
  THEN IF Refusals /\ r.st = "ok" THEN {<<r.n, "syntax error accepted">>} ELSE {}
  ELSE IF ~Refusals /\ r.st = "err" /\ ~MayRefuse(c, Source(c, r)) /\ ~OddComments(Source(c, r))
  THEN {<<r.n, "valid code refused", r.msg>>}
  ELSE {}

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in 1 .. Len(c.runs)}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
