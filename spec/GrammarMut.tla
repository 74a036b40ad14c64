---------------------------- MODULE GrammarMut ----------------------------
(***************************************************************************)
(* Almost-programs: a derivation of module Grammar followed by up to       *)
(* MaxMut mutations of its token sequence.  Most results are not in the    *)
(* language; which ones are is for the parser to say.                      *)
(***************************************************************************)
EXTENDS Grammar

CONSTANTS MaxMut,   \* bound on mutations
          Ops,      \* mutations to use
          Junk      \* tokens to insert

VARIABLES mut   \* mutations made

mvars == <<vars, mut>>

MInit == Init /\ mut = << >>

Cut(q)     == SubSeq(toks, 1, q)
Drop(q)    == SubSeq(toks, 1, q - 1) \o SubSeq(toks, q + 1, Len(toks))
Dup(q)     == SubSeq(toks, 1, q) \o SubSeq(toks, q, Len(toks))
Swap(q)    == SubSeq(toks, 1, q - 1) \o <<toks[q + 1], toks[q]>> \o SubSeq(toks, q + 2, Len(toks))
Ins(q, j)  == SubSeq(toks, 1, q) \o <<j>> \o SubSeq(toks, q + 1, Len(toks))
Tail_(q)   == SubSeq(toks, q, Len(toks))

Mutate(op, q, j) ==
  /\ phase = "trivia"
  /\ Len(mut) < MaxMut
  /\ q \in 1 .. Len(toks)
  /\ op \in Ops
  /\ op = "swap" => q < Len(toks)
  /\ op = "tail" => q > 1
  /\ op # "ins" => j = CHOOSE x \in Junk : TRUE
  /\ toks' = CASE op = "drop" -> Drop(q)
               [] op = "dup"  -> Dup(q)
               [] op = "swap" -> Swap(q)
               [] op = "cut"  -> Cut(q - 1)
               [] op = "tail" -> Tail_(q)
               [] op = "ins"  -> Ins(q, j)
  /\ mut' = Append(mut, <<op, q>>)
  /\ UNCHANGED <<root, stk, nid, dev, phase, tri>>

MEmit ==
  /\ phase = "trivia"
  /\ mut # << >>
  /\ phase' = "done"
  /\ PrintT("PROG " \o ToJson([r |-> root, d |-> dev, t |-> toks, g |-> tri, m |-> mut]))
  /\ UNCHANGED <<root, stk, toks, nid, dev, tri, mut>>

MNext == \/ \E i \in 1 .. 40 : Expand(i) /\ UNCHANGED mut
         \/ Finish /\ UNCHANGED mut
         \/ \E q \in 1 .. MaxLen, j \in Junk, op \in Ops : Mutate(op, q, j)
         \/ MEmit
         \/ (phase = "done" /\ UNCHANGED mvars)

MSpec == MInit /\ [][MNext]_mvars

(* Simulation: one random mutation at a time, one program per behaviour.    *)
SimMutate == \E op \in {RandomElement(Ops)}, q \in {RandomElement(1 .. Len(toks))}, j \in {RandomElement(Junk)} :
                Mutate(op, q, IF op = "ins" THEN j ELSE CHOOSE x \in Junk : TRUE)
SimExpand == \E i \in {IF dev < MaxDev /\ RandomElement(1 .. 100) <= 25 THEN RandomElement(1 .. Len(AllRules[Head(stk)])) ELSE 1} :
                Expand(i) /\ UNCHANGED mut
MSimNext == (phase = "derive" /\ stk # << >> /\ SimExpand) \/ (Finish /\ UNCHANGED mut) \/ (toks # << >> /\ SimMutate) \/ MEmit
MSimSpec == MInit /\ [][MSimNext]_mvars
MTypeOK == Len(mut) <= MaxMut
===========================================================================
