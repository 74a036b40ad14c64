------------------------------ MODULE Spacing -------------------------------
(***************************************************************************)
(* The space between two tokens on a line: one or none, as the tokens and  *)
(* the constructs they belong to say.                                      *)
(***************************************************************************)
EXTENDS Lines

TypeMarks == {"type_arguments", "type_parameters"}

(* ++ and -- stand in front when the update expression begins with them.    *)
Prefix(c, t)  == P(t) = "update_operator" /\ Top(t) < Len(Path(c, t)) - 1
Postfix(c, t) == P(t) = "update_operator" /\ ~Prefix(c, t)

(* Marks that hold on to what follows them.                                 *)
Holds(c, a, b) ==
  \/ T(a) \in {"(", "[", "@", ".", "?."}
  \/ P(a) = "unary_expression" /\ (T(a) \in {"!", "~"} \/ (T(a) \in {"-", "+"} /\ T(b) \notin {T(a), T(a) \o T(a)}))   \* "- -x" is not "--x"
  \/ T(a) = ">" /\ P(a) \in TypeMarks /\ (P(b) = "method_invocation" \/ LT(b) \in {"this", "super"})
  \/ Prefix(c, a)
  \/ LT(a) = "java:"
  \/ T(a) = "<" /\ P(a) \in TypeMarks
  \/ T(a) = ":" /\ P(a) \in {"bound_apex_expression", "date_literal_with_param"}
  \/ T(a) = "=" /\ P(a) = "annotation_key_value"
  \/ K(a) = "term_separator_start" \/ P(a) = "term_separator_start"

(* Parentheses that hold on to the name before them.                        *)
CallParens == {"argument_list", "formal_parameters", "annotation_argument_list", "function_expression", "sobject_return", "trigger_declaration",
               "run_as_statement", "fields_expression", "count_expression", "geo_location_type",
               "with_snippet_expression"}

(* Marks that hold on to what precedes them.                                *)
Held(c, a, b) ==
  \/ T(b) \in {")", "]", ",", ";", ".", "?."}
  \/ Postfix(c, b)
  \/ T(b) \in {"<", ">"} /\ P(b) \in TypeMarks /\ ~(T(b) = "<" /\ P(b) = "type_parameters" /\ K(a) # "identifier")
  \/ T(b) = ":" /\ P(b) = "date_literal_with_param"
  \/ T(b) = "=" /\ P(b) = "annotation_key_value"
  \/ T(b) = "(" /\ (P(b) \in CallParens \/ P(a) = "run_as_statement")
  \/ T(b) = "[" /\ P(b) \in {"dimensions", "dimensions_expr", "array_access"} /\ ~(P(b) = "dimensions" /\ P(a) = "formal_parameter")
  \/ T(b) = "{" /\ P(b) \in {"array_initializer", "map_initializer"} /\ T(a) \in {"]", ">"}
  \/ T(b) = "{" /\ P(b) = "class_body" /\ P(a) = "argument_list"
  \/ T(b) = "}" /\ T(a) = "{"
  \/ K(b) = "term_separator_end" \/ P(b) = "term_separator_end"

Want(c, s, q) == IF Holds(c, s[q - 1], s[q]) \/ Held(c, s[q - 1], s[q]) THEN 0 ELSE 1

BadRun(c, r) ==
  IF Output(c, r).err \/ ~Ordinary(Source(c, r)) THEN {}
  ELSE LET s == Output(c, r).toks IN
       {<<r.n, "space", Want(c, s, q), "was", Col(s[q]) - ECol(s[q - 1]), T(s[q - 1]), P(s[q - 1]), T(s[q]), P(s[q]), Row(s[q])>> :
          q \in {x \in 2 .. Len(s) : /\ Row(s[x]) = ERow(s[x - 1]) /\ ~IsComment(s[x]) /\ ~IsComment(s[x - 1])
                                     /\ Col(s[x]) - ECol(s[x - 1]) # Want(c, s, x)}}

Bad(c) == UNION {BadRun(c, c.runs[r]) : r \in {x \in 1 .. Len(c.runs) : c.runs[x].st = "ok"}}

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
