------------------------------- MODULE Canon -------------------------------
(***************************************************************************)
(* The formatter as a function of the program.                             *)
(*                                                                         *)
(* A machine watches calls of the formatter and remembers what it answered *)
(* for each program and configuration.  What counts as the same program is *)
(* Abs: the tokens and the blank lines between items, not the other white  *)
(* space.  The answer must not depend on anything else - not on the        *)
(* arrangement of the source, not on earlier or parallel calls - and an    *)
(* output is a program whose answer is itself.                             *)
(***************************************************************************)
EXTENDS Lines

CONSTANTS Fixpoint,   \* check that outputs are fixed points
          Layout      \* programs are compared up to white space

VARIABLES k,      \* case
          e,      \* events of the case used up
          memo,   \* answers seen: sequence of <<key, status, text>>
          hits    \* how many answers were compared

vars == <<k, e, memo, hits>>

(* Events of a case: <<name, source, width, indent, status, output, pass>>  *)
RECURSIVE EventsOf(_, _)
EventsOf(c, r) ==
  IF r > Len(c.runs) THEN << >>
  ELSE LET x == c.runs[r] IN
       <<<<x.n, x.s, x.w, x.i, x.st, x.o, 1>>>>
       \o (IF x.st = "ok" /\ "st2" \in DOMAIN x /\ x.st2 # "" THEN <<<<x.n, x.o, x.w, x.i, x.st2, x.o2, 2, x.s>>>> ELSE << >>)
       \o EventsOf(c, r + 1)

Blank(c, s, q) == MayBlank(c, s, q) /\ Gap(s, q) >= 2
Plain(x) == ~x.err /\ NoComments(x) /\ ~HasStray(x)

Abs(c, ix) ==
  LET x == c.texts[ix] IN
  IF Layout /\ Plain(x)
  THEN <<"program", [q \in 1 .. Len(x.toks) |-> <<T(x.toks[q]), Blank(c, x.toks, q)>>]>>
  ELSE <<"text", ix>>

(* Sources whose outputs must be fixed points.                              *)
Settled(x) == NoComments(x) \/ (Ordinary(x) /\ ~HasStray(x))

Same(m, ev) == m[2] = ev[5] /\ (ev[5] = "ok" => m[3] = ev[6])

Init == k = 1 /\ e = 0 /\ memo = << >> /\ hits = 0

C == Cases[k]
Events == EventsOf(C, 1)

Call ==
  /\ k <= NCases
  /\ e < Len(Events)
  /\ LET ev == Events[e + 1]
         key == <<Abs(C, ev[2]), ev[3], ev[4]>>
         old == {q \in 1 .. Len(memo) : memo[q][1] = key}
         bad1 == IF \E q \in old : ~Same(memo[q], ev) THEN {<<ev[1], "another answer for the same program", ev[7]>>} ELSE {}
         bad2 == IF ~Fixpoint \/ ev[7] = 1 \/ ~Settled(C.texts[ev[8]]) THEN {}
                 ELSE IF ev[5] # "ok" THEN {<<ev[1], "output is refused", ev[5]>>}
                 ELSE IF ev[6] # ev[2] THEN {<<ev[1], "output is not a fixed point">>}
                 ELSE {}
     IN /\ Report(C, bad1 \cup bad2)
        /\ memo' = IF old = {} THEN Append(memo, <<key, ev[5], ev[6]>>) ELSE memo
        /\ hits' = hits + (IF old # {} THEN 1 ELSE 0)
  /\ e' = e + 1
  /\ k' = k

Close_ ==
  /\ k <= NCases
  /\ e = Len(Events)
  /\ k' = k + 1 /\ e' = 0 /\ memo' = << >> /\ hits' = hits
  /\ (k = NCases => PrintT("HITS " \o ToString(hits)))

Next == Call \/ Close_
Spec == Init /\ [][Next]_vars
=============================================================================
