------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* Where tokens stand: items (statements, members, declarations) of bodies *)
(* and their nesting depth.  Shared by the layout modules.                 *)
(***************************************************************************)
EXTENDS Apex

BodyKinds == {"class_body", "interface_body", "enum_body", "block", "constructor_body", "switch_block"}
ItemParents == BodyKinds \cup {"parser_output"}

(* Kinds whose direct child statement may stand without braces.             *)
Unbraced == {"if_statement", "for_statement", "enhanced_for_statement", "while_statement", "do_statement"}
StatementKinds == {"expression_statement", "return_statement", "throw_statement", "local_variable_declaration", "break_statement",
                   "continue_statement", "try_statement", "switch_expression", "run_as_statement", ";"} \cup Unbraced

(* Items: the first token of a child of a body.                             *)
IsItemStart(c, t) == Path(c, t)[Top(t)] \in ItemParents /\ T(t) \notin {"{", "}", ";", ","}
IsBlockItem(c, t) == T(t) = "{" /\ Path(c, t)[Top(t)] \in ItemParents /\ P(t) = "block"  \* a block as a statement
IsBodyClose(t) == T(t) = "}" /\ P(t) \in BodyKinds
IsBodyOpen(t)  == T(t) = "{" /\ P(t) \in BodyKinds

Count(p, n, S) == Cardinality({q \in 1 .. n : p[q] \in S})

(* Levels that are certainly there, and levels that may be there (an        *)
(* unbraced body, an accessor list broken over lines).                      *)
Depth(p, n) == Count(p, n, BodyKinds)
Extra(p, n) == Cardinality({q \in 1 .. n - 1 : p[q] \in Unbraced /\ p[q + 1] \in StatementKinds})
               + Count(p, n, {"accessor_list"})
Nested(p, n, x, i) == \E e \in 0 .. Extra(p, n) : x = i * (Depth(p, n) + e)

(* The construct a body belongs to, as an index into the path of something   *)
(* inside the body; path[m] is the body.                                     *)
OwnerOf(p, m) == IF p[m - 1] = "trigger_body" THEN m - 2
                 ELSE IF p[m] = "block" /\ p[m - 1] \in ItemParents THEN m
                 ELSE m - 1

(* The first token of the construct at depth k around the token at q.        *)
RECURSIVE StartOf(_, _, _)
StartOf(s, q, k) == IF Top(s[q]) < k \/ q = 1 THEN q ELSE StartOf(s, q - 1, k)

RECURSIVE LineStart(_, _)
LineStart(s, q) == IF q = 1 \/ ERow(s[q - 1]) < Row(s[q]) THEN q ELSE LineStart(s, q - 1)

(* The indentation of the line a construct begins on.                        *)
LineCol(s, q, k) == Col(s[LineStart(s, StartOf(s, q, k))])

FirstOnLine(s, q) == q = 1 \/ ERow(s[q - 1]) < Row(s[q])

Gap(s, q) == Row(s[q]) - ERow(s[q - 1])

(* Where the author's blank lines are kept: before an item or a comment of  *)
(* a body, unless right behind the opening brace; the rules of a switch and *)
(* the constants of an enum always follow each other closely.               *)
Close(c, t) == Path(c, t)[Top(t)] \in {"switch_block", "enum_body"}

MayBlank(c, s, q) ==
  /\ q > 1
  /\ ~IsBodyOpen(s[q - 1])
  /\ \/ (IsItemStart(c, s[q]) \/ IsBlockItem(c, s[q])) /\ (Close(c, s[q]) => IsComment(s[q - 1]))
     \/ IsComment(s[q])

HasStray(x) == \E q \in 1 .. Len(x.toks) : IsStraySemi(x.toks[q])

RECURSIVE NextCode(_, _)
NextCode(s, q) == IF q < Len(s) /\ IsComment(s[q]) THEN NextCode(s, q + 1) ELSE q

(* A comment in an ordinary place is a child of a body, between its items;  *)
(* the comma behind an enum constant belongs to the item.                   *)
CommentParents == ItemParents \cup {"trigger_body"}
Ordinary(x) == \A q \in 1 .. Len(x.toks) : IsComment(x.toks[q]) =>
                    P(x.toks[q]) \in CommentParents /\ T(x.toks[NextCode(x.toks, q)]) # ","
NoComments(x) == \A q \in 1 .. Len(x.toks) : ~IsComment(x.toks[q])
=============================================================================
