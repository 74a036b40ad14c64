------------------------------- MODULE Trivia -------------------------------
(***************************************************************************)
(* What can stand between two tokens: comments of every kind, set apart by *)
(* spaces, line breaks and blank lines.  Every such sequence within the    *)
(* bound, in every place of the host programs.                             *)
(*                                                                         *)
(* Marks: s space, n line break, N blank line; l line comment, b block     *)
(* comment, m block comment of several lines, d doc comment.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxComments, Kinds, Places   \* Places: "body" or "odd"

Seps == {"s", "n", "N"}

M(b) == <<"class", "A", "{", "void", "f", "(", ")", "{">> \o b \o <<"}", "}">>

(* "%" is a place for comments                                             *)
BodyHosts == <<
  <<"%">>, <<"%", "class", "A", "{", "%", "}", "%">>, <<"class", "A", "{", "}", "%", "class", "B", "{", "}">>,
  <<"class", "A", "{", "%", "C", "f", ";", "%", "D", "g", ";", "%", "}">>,
  <<"class", "A", "{", "%", "void", "f", "(", ")", "{", "%", "}", "%", "void", "g", "(", ")", "{", "a", "(", ")", ";", "}", "%", "}">>,
  <<"class", "A", "{", "%", "A", "(", ")", "{", "this", "(", "b", ")", ";", "%", "}", "%", "A", "(", "B", "b", ")", "{", "super", "(", ")", ";", "%", "c", "(", ")", ";", "%", "}", "}">>,
  <<"class", "A", "{", "%", "static", "{", "%", "}", "%", "{", "%", "}", "%", "}">>,
  <<"class", "A", "{", "%", "class", "B", "{", "%", "}", "%", "enum", "C", "{", "D", "}", "%", "interface", "E", "{", "%", "}", "%", "}">>,
  <<"%", "interface", "A", "{", "%", "void", "f", "(", ")", ";", "%", "C", "g", "(", ")", ";", "%", "}", "%">>,
  <<"%", "trigger", "A", "on", "B", "(", "before", "insert", ")", "{", "%", "f", "(", ")", ";", "%", "}", "%">>,
  <<"trigger", "A", "on", "B", "(", "before", "insert", ")", "{", "%", "}">>,
  M(<<"%", "a", "(", ")", ";", "%", "b", "=", "c", ";", "%">>),
  M(<<"if", "(", "a", ")", "{", "%", "}", "else", "if", "(", "b", ")", "{", "%", "c", "(", ")", ";", "%", "}", "else", "{", "%", "}", "%">>),
  M(<<"%", "if", "(", "a", ")", "b", "(", ")", ";", "%", "return", ";", "%">>),
  M(<<"for", "(", "A", "a", ":", "b", ")", "{", "%", "}", "%", "for", "(", ";", ";", ")", "{", "%", "c", "(", ")", ";", "%", "}">>),
  M(<<"while", "(", "a", ")", "{", "%", "}", "do", "{", "%", "}", "while", "(", "a", ")", ";", "%">>),
  M(<<"%", "try", "{", "%", "}", "catch", "(", "E", "e", ")", "{", "%", "}", "finally", "{", "%", "}", "%">>),
  M(<<"switch", "on", "a", "{", "when", "1", "{", "%", "}", "when", "else", "{", "%", "b", "(", ")", ";", "%", "}", "}", "%">>),
  M(<<"%", "C", "v", ";", "%", "C", "w", "=", "[", "SELECT", "A", "FROM", "B", "]", ";", "%", "insert", "w", ";", "%">>),
  M(<<"{", "%", "}", "%", "System.runAs", "(", "u", ")", "{", "%", "}", "%">>) >>

OddHosts == <<
  <<"enum", "A", "{", "%", "}">>, <<"enum", "A", "{", "%", "B", "%", ",", "%", "C", "%", "}">>,
  <<"class", "A", "{", "C", "f", "%", "{", "%", "get", "%", ";", "%", "set", "%", "{", "%", "}", "%", "}", "}">>,
  <<"%", "@isTest", "%", "(", "%", "a", "%", "=", "%", "true", "%", ")", "%", "private", "%", "class", "%", "A", "%", "extends", "%", "B", "%", "implements", "%", "C", "%", ",", "%", "D", "%", "{", "}">>,
  <<"class", "A", "{", "public", "%", "static", "%", "List", "%", "<", "%", "B", "%", ">", "%", "f", "%", "(", "%", "C", "%", "d", "%", ",", "%", "E", "%", "g", "%", ")", "%", "{", "}", "}">>,
  <<"class", "A", "{", "B", "%", "c", "%", "=", "%", "d", "%", ",", "%", "e", "%", ";", "}">>,
  M(<<"f", "%", "(", "%", ")", "%", ";", "g", "(", "%", "a", "%", ",", "%", "b", "%", ")", "%", ";">>),
  M(<<"a", "%", ".", "%", "b", "%", "(", "%", ")", "%", ".", "%", "c", "(", ")", "?.", "%", "d", "%", ";">>),
  M(<<"a", "%", "=", "%", "b", "%", "?", "%", "c", "%", ":", "%", "d", "%", "+", "%", "e", "%", ";">>),
  M(<<"a", "=", "%", "new", "%", "List", "<", "B", ">", "%", "{", "%", "}", "%", ";", "a", "=", "new", "Map", "<", "B", ",", "C", ">", "{", "%", "d", "%", "=>", "%", "e", "%", "}", ";">>),
  M(<<"return", "%", ";">>), M(<<"return", "%", "a", "%", "[", "%", "0", "%", "]", "%", ";">>),
  M(<<"if", "%", "(", "%", "a", "%", ")", "%", "b", "(", ")", ";", "%", "else", "%", "c", "(", ")", ";">>),
  M(<<"if", "(", "a", ")", "{", "}", "%", "else", "%", "if", "%", "(", "b", ")", "{", "}", "%", "else", "%", "{", "}">>),
  M(<<"for", "%", "(", "%", "C", "i", "=", "0", "%", ";", "%", "i", "<", "1", "%", ";", "%", "i", "++", "%", ")", "%", "{", "}">>),
  M(<<"for", "(", "%", "C", "%", "c", "%", ":", "%", "d", "%", ")", "%", "e", "(", ")", ";">>),
  M(<<"do", "%", "{", "}", "%", "while", "%", "(", "%", "a", "%", ")", "%", ";", "while", "%", "(", "a", ")", "%", "{", "}">>),
  M(<<"try", "%", "{", "}", "%", "catch", "%", "(", "%", "E", "%", "e", "%", ")", "%", "{", "}", "%", "finally", "%", "{", "}">>),
  M(<<"switch", "%", "on", "%", "a", "%", "{", "%", "when", "%", "1", "%", ",", "%", "2", "%", "{", "}", "%", "when", "%", "else", "%", "{", "}", "%", "}">>),
  M(<<"a", "=", "%", "[", "%", "SELECT", "%", "A", "%", ",", "%", "B", "%", "FROM", "%", "C", "%", "WHERE", "%", "D", "%", "=", "%", "1", "%", "AND", "%", "E", "=", "2", "%", "ORDER BY", "%", "A", "%", "LIMIT", "%", "1", "%", "]", ";">>),
  M(<<"insert", "%", "a", "%", ";", "a", "%", "++", "%", ";", "%", "throw", "%", "b", "%", ";", "a", "=", "(", "%", "C", "%", ")", "%", "d", ";">>) >>

Hosts == IF Places = "body" THEN BodyHosts ELSE OddHosts
Holes(h) == {i \in 1 .. Len(h) : h[i] = "%"}
Code(h) == SelectSeq(h, LAMBDA t : t # "%")

VARIABLES seq, done
vars == <<seq, done>>

Comments(s) == Len(SelectSeq(s, LAMBDA m : m \in Kinds))
Ends(s) == s # << >> /\ s[Len(s)] \in Seps

Init == seq \in {<<s>> : s \in Seps} /\ done = FALSE

(* A comment, and what sets it apart from what follows.                    *)
More == /\ ~done /\ Comments(seq) < MaxComments
        /\ \E k \in Kinds : \E s \in Seps :
             /\ k = "l" => s # "s"
             /\ seq' = seq \o <<k, s>>
        /\ UNCHANGED done

RECURSIVE Join(_)
Join(s) == IF s = << >> THEN "" ELSE Head(s) \o Join(Tail(s))

Place == /\ ~done /\ Comments(seq) > 0
         /\ done' = TRUE
         /\ \A h \in 1 .. Len(Hosts) : \A i \in Holes(Hosts[h]) :
              PrintT("PROG " \o ToJson([t |-> Code(Hosts[h]),
                                        g |-> << <<Len(Code(SubSeq(Hosts[h], 1, i))), Join(seq)>> >>]))
         /\ UNCHANGED seq

Next == More \/ Place
Spec == Init /\ [][Next]_vars

(* A line comment never swallows code.                                     *)
Safe == \A p \in 1 .. Len(seq) : seq[p] = "l" => p < Len(seq) /\ seq[p + 1] \in {"n", "N"}
Set  == \A p \in 1 .. Len(seq) - 1 : ~(seq[p] \in Seps /\ seq[p + 1] \in Seps)
=============================================================================
