---------------------------- MODULE CommentText ----------------------------
(***************************************************************************)
(* The text of comments.  A comment is a sequence of lines, a line a       *)
(* sequence of characters.                                                 *)
(***************************************************************************)
EXTENDS Lines

Blanks == {" ", "\t", "\r", "\f"}

RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(l)  == IF l # << >> /\ Head(l) \in Blanks THEN TrimLeft(Tail(l)) ELSE l
TrimRight(l) == IF l # << >> /\ l[Len(l)] \in Blanks THEN TrimRight(SubSeq(l, 1, Len(l) - 1)) ELSE l
Trim(l) == TrimRight(TrimLeft(l))

StartsWith(l, p) == Len(l) >= Len(p) /\ SubSeq(l, 1, Len(p)) = p
EndsWith(l, p) == Len(l) >= Len(p) /\ SubSeq(l, Len(l) - Len(p) + 1, Len(l)) = p

IsLine(ls) == StartsWith(ls[1], <<"/", "/">>)
IsDoc(ls)  == StartsWith(ls[1], <<"/", "*", "*">>)

(* One star at the start of a line is decoration, not content.             *)
Undecorate(l) == LET t == TrimLeft(l) IN Trim(IF t # << >> /\ Head(t) = "*" THEN Tail(t) ELSE t)

(* Content lines of a doc comment: what is between the slashes.            *)
DocContent(ls) ==
  IF Len(ls) = 1
  THEN LET w == Trim(ls[1])
           inner == IF Len(w) >= 5 THEN SubSeq(w, 4, Len(w) - 2) ELSE << >>
           u == Undecorate(inner)
       IN IF u = << >> THEN << >> ELSE <<u>>
  ELSE LET first == Trim(SubSeq(ls[1], 4, Len(ls[1])))
           lastl == Trim(ls[Len(ls)])
           lastc == Undecorate(SubSeq(lastl, 1, Len(lastl) - 2))
       IN (IF first = << >> THEN << >> ELSE <<Undecorate(first)>>)
          \o [k \in 1 .. Len(ls) - 2 |-> Undecorate(ls[k + 1])]
          \o (IF lastc = << >> THEN << >> ELSE <<lastc>>)

(* The form in which the formatter prints a comment, line by line, without  *)
(* the indentation of the lines.                                            *)
Normal(ls) ==
  IF IsDoc(ls)
  THEN LET d == DocContent(ls)
       IN <<<<"/", "*", "*">>>>
          \o [k \in 1 .. Len(d) |-> IF d[k] = << >> THEN <<"*">> ELSE <<"*", " ">> \o d[k]]
          \o <<<<"*", "/">>>>
  ELSE [k \in 1 .. Len(ls) |-> Trim(ls[k])]

(* Comments right before a comma or a semicolon: block comments are printed *)
(* before it and line comments behind it, so the block comments come first. *)
CommentIx(x) == SelectSeq([q \in 1 .. Len(x.toks) |-> q], LAMBDA q : IsComment(x.toks[q]))


(* In front of the parenthesis of an empty header, "for (;", the semicolon    *)
(* is the next mark.                                                         *)
NextMark(x, q) == LET a == NextCode(x.toks, q)
                      b == IF a < Len(x.toks) THEN NextCode(x.toks, a + 1) ELSE a
                  IN IF T(x.toks[a]) = "(" /\ T(x.toks[b]) = ";" THEN b ELSE a

Group(x, ix, k) == {m \in 1 .. Len(ix) : NextMark(x, ix[m]) = NextMark(x, ix[k])}
AtPunctuation(x, ix, k) == T(x.toks[NextMark(x, ix[k])]) \in {",", ";"}

(* which comment of the source is the k-th when block comments come first   *)
BlocksFirst(x, ix, k) ==
  LET g == Group(x, ix, k)
      first == CHOOSE m \in g : \A o \in g : m <= o
      blocks == {m \in g : ~IsLine(x.cm[m])}
      before(m) == IF m \in blocks THEN Cardinality({o \in blocks : o < m})
                   ELSE Cardinality(blocks) + Cardinality({o \in g \ blocks : o < m})
  IN CHOOSE m \in g : first + before(m) = k

(* The k-th comment of y is the one of x that has to be there.              *)
Agrees(x, y, ix, k, Eq(_, _)) ==
  \/ Eq(x.cm[k], y.cm[k])
  \/ /\ AtPunctuation(x, ix, k)
     /\ \A m \in Group(x, ix, k) : Eq(x.cm[BlocksFirst(x, ix, m)], y.cm[m])

Printed(ls) == [k \in 1 .. Len(ls) |-> Trim(ls[k])]

(* What the author wrote, whatever its arrangement.                         *)
RECURSIVE Flat(_)
Flat(ls) == IF ls = << >> THEN << >> ELSE SelectSeq(Head(ls), LAMBDA ch : ch \notin Blanks) \o Flat(Tail(ls))
Words(ls) == Flat(IF IsDoc(ls) THEN DocContent(ls) ELSE ls)
=============================================================================
