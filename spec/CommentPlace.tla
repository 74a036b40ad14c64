---------------------------- MODULE CommentPlace ----------------------------
(***************************************************************************)
(* Comments stay where they belong.                                        *)
(*                                                                         *)
(* Anywhere: a comment does not pass a name, a literal or the brace of a   *)
(* body.  Between the items of a body: it does not pass any token, a       *)
(* comment on a line of its own stays on one, and a comment behind code    *)
(* stays behind that code.                                                 *)
(***************************************************************************)
EXTENDS Lines

Landmark(t) == K(t) \in {"identifier", "type_identifier", "string_literal", "int", "decimal", "boolean", "null_literal", "hidden"}
               \/ IsBodyOpen(t) \/ IsBodyClose(t)

(* For every comment, the number of landmarks before it.                    *)
Places(s, M(_)) ==
  LET ix == SelectSeq([q \in 1 .. Len(s) |-> q], LAMBDA q : IsComment(s[q]))
  IN [k \in 1 .. Len(ix) |-> Cardinality({q \in 1 .. ix[k] : M(s[q])})]

OwnLine(s, q) == FirstOnLine(s, q)

Rules(r, a, b) ==
  UNION {
    IF ~IsComment(a[q]) THEN {}
    ELSE IF OwnLine(a, q) /\ ~OwnLine(b, q) THEN {<<r.n, "comment on its own line moved behind code", q, T(a[q])>>}
    ELSE IF ~OwnLine(a, q) /\ OwnLine(b, q) /\ ~IsBodyOpen(a[q - 1]) /\ ~IsComment(a[q - 1])
         /\ (Row(a[q]) = ERow(a[q]) \/ q = Len(a) \/ FirstOnLine(a, q + 1))
    THEN {<<r.n, "comment behind code moved to a line of its own", q, T(a[q])>>}
    ELSE {}
    : q \in 1 .. Len(a)}

BadRun(c, r) ==
  LET x == Source(c, r)
      y == Output(c, r)
  IN IF y.err \/ Len(Comments(x)) # Len(Comments(y)) \/ HasStray(x) THEN {}
     ELSE LET a == KeptOf(x.toks)
              b == KeptOf(y.toks)
          IN (IF Places(a, Landmark) # Places(b, Landmark) THEN {<<r.n, "comment passed a name, literal or brace">>} ELSE {})
             \cup (IF ~Ordinary(x) THEN {}
                   ELSE IF ~(Len(a) = Len(b) /\ \A q \in 1 .. Len(a) : IsComment(a[q]) = IsComment(b[q]))
                   THEN {<<r.n, "comment between items moved">>}
                   ELSE Rules(r, a, b))

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok" /\ ~Source(c, c.runs[x]).err}}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
