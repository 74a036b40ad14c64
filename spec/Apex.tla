-------------------------------- MODULE Apex --------------------------------
(***************************************************************************)
(* What the specification knows about Apex itself: which tokens carry the  *)
(* program, which spellings are equivalent and which constructs the        *)
(* formatter does not take.                                                *)
(***************************************************************************)
EXTENDS Obs

BoolNodes == {"where_clause", "and_expression", "or_expression", "not_expression", "having_clause"}

(* Parentheses that only group a SOQL condition; the grouping itself is the *)
(* subject of module SoqlGroups.                                            *)
IsGroupParen(t) == T(t) \in {"(", ")"} /\ P(t) \in BoolNodes

(* An empty statement or an empty member.                                   *)
IsStraySemi(t) == T(t) = ";" /\ P(t) \in {"block", "constructor_body", "class_body", "interface_body", "enum_body", "parser_output", "trigger_body"}

(* The optional word AS before an alias in FROM.                            *)
IsAliasAs(t) == LT(t) = "as" /\ P(t) = "storage_alias"

IsAnnParen(t) == T(t) \in {"(", ")"} /\ P(t) = "annotation_argument_list"

(* Tokens whose spelling is the user's own and must survive exactly.        *)
ExactKinds == {"identifier", "type_identifier", "string_literal", "int", "int_literal", "string_fragment"}

(* Everything else is a word or sign of the language: Apex ignores case.    *)
(* A parenthesized name is a cast or an expression, as the parser decides.   *)
KindClass(k) == IF k = "type_identifier" THEN "identifier" ELSE k

SameToken(a, b) ==
  /\ KindClass(K(a)) = KindClass(K(b))
  /\ P(a) = P(b) \/ (~IsGroupParen(a) /\ ~IsGroupParen(b))
  /\ IF K(a) \in ExactKinds THEN T(a) = T(b) ELSE LT(a) = LT(b)

(* The tokens without those that formatting may drop or regroup.            *)
KeptOf(s) ==
  LET Keep(p) == /\ ~IsGroupParen(s[p]) /\ ~IsAliasAs(s[p]) /\ ~IsStraySemi(s[p])
                 /\ ~(IsAnnParen(s[p]) /\ ((p < Len(s) /\ IsAnnParen(s[p + 1]) /\ T(s[p]) = "(")
                                           \/ (p > 1 /\ IsAnnParen(s[p - 1]) /\ T(s[p - 1]) = "(")))
      idx == SelectSeq([p \in 1 .. Len(s) |-> p], Keep)
  IN [p \in 1 .. Len(idx) |-> s[idx[p]]]
Kept(x) == KeptOf(Code(x))

(* Ancestors of a token, where directly nested AND in AND (OR in OR) counts *)
(* as one level: grouping with the same operator is associative.            *)
RECURSIVE Collapse(_)
Collapse(p) ==
  IF Len(p) < 2 THEN p
  ELSE IF p[1] = p[2] /\ p[1] \in {"and_expression", "or_expression"} THEN Collapse(Tail(p))
  ELSE <<p[1]>> \o Collapse(Tail(p))
NormPath(p) == IF \E i \in 1 .. Len(p) : p[i] \in {"and_expression", "or_expression"} THEN Collapse(p) ELSE p

(* Constructs the formatter is allowed to refuse (with an error).           *)
UnsupportedKinds == {"type_of_clause", "with_record_visibility_expression", "currency_literal", "date_time"}
DeclKinds == {"class_declaration", "interface_declaration", "enum_declaration", "method_declaration", "trigger_declaration"}
StmtParents == {"block", "if_statement", "for_statement", "enhanced_for_statement", "while_statement", "do_statement", "constructor_body", "trigger_body"}
=============================================================================
