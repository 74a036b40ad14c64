-------------------------------- MODULE Nest --------------------------------
(***************************************************************************)
(* Deep programs: a kind of construct nested in itself, through a cycle of *)
(* one or more contexts taken in turn.  A context is what stands before    *)
(* and behind its hole.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Depths,    \* how deep
          Period     \* up to how many contexts take turns

C(a, b) == <<a, b>>

Contexts ==
  [ expr |-> <<
      C(<<"(">>, <<")">>), C(<<"-">>, << >>), C(<<"!">>, << >>), C(<<"(", "Integer", ")">>, << >>),
      C(<< >>, <<"+", "v">>), C(<<"v", "-">>, << >>), C(<< >>, <<"&&", "v">>), C(<<"v", "||">>, << >>),
      C(<< >>, <<"==", "v">>), C(<< >>, <<"<", "v">>), C(<< >>, <<"*", "v">>), C(<<"v", "+", "(">>, <<")">>),
      C(<< >>, <<"?", "v", ":", "w">>), C(<<"v", "?">>, <<":", "w">>), C(<<"v", "?", "w", ":">>, << >>),
      C(<< >>, <<"??", "v">>), C(<<"v", "??">>, << >>),
      C(<<"f", "(">>, <<")">>), C(<<"f", "(", "v", ",">>, <<",", "w", ")">>), C(<<"v", ".", "f", "(">>, <<")">>),
      C(<< >>, <<".", "f", "(", ")">>), C(<< >>, <<"?.", "f", "(", "v", ")">>), C(<< >>, <<".", "g">>),
      C(<<"v", ".", "f", "(">>, <<")", ".", "g", "(", ")">>),
      C(<<"(">>, <<")", ".", "f", "(", ")">>),
      C(<< >>, <<"[", "v", "]">>), C(<<"v", "[">>, <<"]">>), C(<< >>, <<"instanceof", "C">>),
      C(<<"new", "C", "(">>, <<")">>), C(<<"new", "C", "(", "a", "=">>, <<",", "b", "=", "1", ")">>),
      C(<<"new", "List", "<", "C", ">", "{">>, <<"}">>), C(<<"new", "List", "<", "C", ">", "{", "v", ",">>, <<",", "w", "}">>),
      C(<<"new", "Map", "<", "C", ",", "D", ">", "{", "v", "=>">>, <<"}">>),
      C(<<"new", "C", "[", "]", "{">>, <<"}">>), C(<<"new", "C", "[">>, <<"]">>),
      C(<<"v", "=">>, << >>), C(<<"v", "+=">>, << >>),
      C(<<"[", "SELECT", "A", "FROM", "B", "WHERE", "C", "=", ":">>, <<"]">>),
      C(<<"[", "SELECT", "A", "FROM", "B", "WHERE", "C", "IN", ":">>, <<"LIMIT", "1", "]">>) >>,
    stmt |-> <<
      C(<<"{">>, <<"}">>), C(<<"if", "(", "c", ")">>, << >>), C(<<"if", "(", "c", ")", "{">>, <<"}">>),
      C(<<"if", "(", "c", ")", "f", "(", ")", ";", "else">>, << >>),
      C(<<"if", "(", "c", ")", "{", "}", "else">>, << >>), C(<<"if", "(", "c", ")", "{", "}", "else", "{">>, <<"}">>),
      C(<<"if", "(", "c", ")", "{">>, <<"}", "else", "{", "f", "(", ")", ";", "}">>),
      C(<<"for", "(", "Integer", "i", "=", "0", ";", "i", "<", "n", ";", "i", "++", ")">>, << >>),
      C(<<"for", "(", "Integer", "i", "=", "0", ";", "i", "<", "n", ";", "i", "++", ")", "{">>, <<"}">>),
      C(<<"for", "(", "C", "v", ":", "w", ")">>, << >>), C(<<"for", "(", "C", "v", ":", "w", ")", "{">>, <<"}">>),
      C(<<"while", "(", "c", ")">>, << >>), C(<<"while", "(", "c", ")", "{">>, <<"}">>),
      C(<<"do", "{">>, <<"}", "while", "(", "c", ")", ";">>),
      C(<<"try", "{">>, <<"}", "catch", "(", "E", "e", ")", "{", "f", "(", ")", ";", "}">>),
      C(<<"try", "{", "}", "catch", "(", "E", "e", ")", "{">>, <<"}">>),
      C(<<"try", "{", "f", "(", ")", ";", "}", "finally", "{">>, <<"}">>),
      C(<<"switch", "on", "v", "{", "when", "1", "{">>, <<"}", "}">>),
      C(<<"switch", "on", "v", "{", "when", "1", "{", "}", "when", "else", "{">>, <<"}", "}">>),
      C(<<"System.runAs", "(", "v", ")", "{">>, <<"}">>),
      C(<<"f", "(", ")", ";", "{">>, <<"g", "(", ")", ";", "}">>) >>,
    class |-> <<
      C(<<"class", "A", "{">>, <<"}">>), C(<<"public", "virtual", "class", "A", "{", "C", "f", ";">>, <<"C", "g", ";", "}">>),
      C(<<"@isTest", "class", "A", "extends", "B", "implements", "D", ",", "E", "{">>, <<"}">>),
      C(<<"class", "A", "<", "T", ">", "{">>, <<"enum", "B", "{", "D", "}", "}">>) >>,
    type |-> <<
      C(<<"List", "<">>, <<">">>), C(<<"Map", "<", "C", ",">>, <<">">>), C(<<"Map", "<">>, <<",", "C", ">">>), C(<<"D", "<">>, <<">">>),
      C(<<"A", ".", "B", "<">>, <<">">>) >>,
    cond |-> <<
      C(<<"(">>, <<")">>), C(<<"NOT", "(">>, <<")">>), C(<<"D", "=", "1", "AND", "(">>, <<")">>), C(<<"(">>, <<")", "OR", "D", "=", "1">>),
      C(<<"E", "IN", "(", "SELECT", "F", "FROM", "G", "WHERE">>, <<")">>) >>,
    query |-> <<
      C(<<"SELECT", "A", ",", "(">>, <<")", "FROM", "B">>), C(<<"SELECT", "(">>, <<")", ",", "A", "FROM", "B", "WHERE", "C", "=", "1", "LIMIT", "2">>),
      C(<<"SELECT", "A", "FROM", "B", "WHERE", "C", "IN", "(">>, <<")">>),
      C(<<"SELECT", "A", "FROM", "B", "WHERE", "C", "=", "1", "AND", "(", "D", "IN", "(">>, <<")", "OR", "E", "=", "2", ")">>) >> ]

Leaf ==
  [ expr |-> <<"z">>, stmt |-> <<"z", "(", ")", ";">>, class |-> <<"class", "Z", "{", "}">>, type |-> <<"Z">>,
    cond |-> <<"Z", "=", "1">>, query |-> <<"SELECT", "Z", "FROM", "Y">> ]

(* Where the nested construct stands.                                       *)
Method(a, b) == C(<<"class", "A", "{", "void", "m", "(", ")", "{">> \o a, b \o <<"}", "}">>)
Outer ==
  [ expr |-> << Method(<<"x", "=">>, <<";">>), Method(<<"return">>, <<";">>), Method(<<"if", "(">>, <<")", "{", "}">>),
                Method(<<"f", "(">>, <<")", ";">>), C(<<"class", "A", "{", "C", "f", "=">>, <<";", "}">>) >>,
    stmt |-> << Method(<< >>, << >>), C(<<"trigger", "A", "on", "B", "(", "before", "insert", ")", "{">>, <<"}">>) >>,
    class |-> << C(<< >>, << >>) >>,
    type |-> << C(<<"class", "A", "{">>, <<"f", ";", "}">>), Method(<< >>, <<"x", ";">>), Method(<<"x", "=", "new">>, <<"(", ")", ";">>),
                Method(<<"x", "=", "(">>, <<")", "y", ";">>) >>,
    cond |-> << Method(<<"x", "=", "[", "SELECT", "A", "FROM", "B", "WHERE">>, <<"]", ";">>) >>,
    query |-> << Method(<<"x", "=", "[">>, <<"]", ";">>) >> ]

VARIABLES kind, outer, cycle, depth
vars == <<kind, outer, cycle, depth>>

At(k) == Contexts[kind][cycle[(k % Len(cycle)) + 1]]

RECURSIVE Front(_), Back(_)
Front(k) == IF k = depth THEN << >> ELSE At(k)[1] \o Front(k + 1)
Back(k)  == IF k = depth THEN << >> ELSE Back(k + 1) \o At(k)[2]

Text == Outer[kind][outer][1] \o Front(0) \o Leaf[kind] \o Back(0) \o Outer[kind][outer][2]

Init == /\ kind \in DOMAIN Contexts
        /\ outer \in 1 .. Len(Outer[kind])
        /\ cycle = << >> /\ depth = 0

Turn == /\ depth = 0 /\ Len(cycle) < Period
        /\ \E c \in 1 .. Len(Contexts[kind]) : cycle' = Append(cycle, c)
        /\ UNCHANGED <<kind, outer, depth>>

Grow == /\ depth = 0 /\ cycle # << >>
        /\ depth' \in Depths
        /\ UNCHANGED <<kind, outer, cycle>>
        /\ PrintT("PROG " \o ToJson([t |-> Text']))

Next == Turn \/ Grow
Spec == Init /\ [][Next]_vars

(* What is nested is closed again: as many opening as closing marks.        *)
Count(s, S) == Len(SelectSeq(s, LAMBDA x : x \in S))
Balanced == depth > 0 => /\ Count(Text, {"("}) = Count(Text, {")"})
                         /\ Count(Text, {"["}) = Count(Text, {"]"})
                         /\ Count(Text, {"{"}) = Count(Text, {"}"})
=============================================================================
