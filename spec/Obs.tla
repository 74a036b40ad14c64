-------------------------------- MODULE Obs --------------------------------
(***************************************************************************)
(* Observations of the real formatter, as the recorder wrote them.         *)
(*                                                                         *)
(* A case has runs (one call of the formatter each) over interned texts:   *)
(* run.s is the source, run.o the output, run.o2 the output of formatting  *)
(* the output again (indices into texts, 0 = none).  The recorder states   *)
(* facts only (token streams, line lengths); every judgement is made here. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)

(* token facts *)
K(t)  == t[1]    \* kind of the syntax node
T(t)  == t[2]    \* text
LT(t) == t[3]    \* text in lower case
P(t)  == t[4]    \* kind of the parent node
Row(t)  == t[5]
Col(t)  == t[6]
ERow(t) == t[7]
ECol(t) == t[8]
IsComment(t) == t[9] = 1
Path(c, t) == c.paths[t[10]]   \* kinds of all ancestors, outermost first
Top(t) == t[11]                \* how many of them start before the token (at least the root)

(* line facts *)
LLen(l)    == l[1]
LIndent(l) == l[2]
LTrail(l)  == l[3] = 1
LId(l)     == l[4]

Source(c, r) == c.texts[r.s]
Output(c, r) == c.texts[r.o]

Code(x) == SelectSeq(x.toks, LAMBDA t : ~IsComment(t))
Comments(x) == SelectSeq(x.toks, IsComment)

Report(c, bad) ==
  IF bad = {} THEN TRUE
  ELSE PrintT("REJECT " \o ToJson([id |-> c.id, why |-> bad]))
=============================================================================
