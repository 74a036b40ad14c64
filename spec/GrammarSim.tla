---------------------------- MODULE GrammarSim ----------------------------
(***************************************************************************)
(* Random behaviours of the derivation machine: the same rules, used with  *)
(* tlc -simulate.  Deviations are spread over the derivation with a        *)
(* probability (in percent) drawn per program, identifiers get random      *)
(* lengths and any number of gaps gets random trivia.                      *)
(***************************************************************************)
EXTENDS Grammar

CONSTANTS Probs,      \* set of deviation probabilities (percent)
          Suffixes,   \* set of identifier suffixes
          TriPcts,    \* set of probabilities (per mille) that a gap has trivia
          GapsAfter   \* tokens after which a gap may have trivia ({} = any)

VARIABLES prob

svars == <<vars, prob>>

SInit == Init /\ prob \in Probs

Pick(n) == IF dev < MaxDev /\ RandomElement(1 .. 100) <= prob THEN RandomElement(1 .. n) ELSE 1

SExpand ==
  /\ phase = "derive" /\ stk # << >>
  (* binding by \E forces one evaluation: RandomElement must not be re-drawn *)
  /\ \E i \in {Pick(Len(AllRules[Head(stk)]))} :
       \E d \in {Drain(AllRules[Head(stk)][i] \o Tail(stk), toks, nid)} :
         /\ stk' = d.s /\ toks' = d.out /\ nid' = d.n
         /\ dev' = dev + (IF i = 1 THEN 0 ELSE 1)
  /\ Len(toks') <= MaxLen
  /\ UNCHANGED <<root, phase, tri, prob>>

SFinish == Finish /\ UNCHANGED prob

MayHaveTrivia(g) == GapsAfter = {} \/ g = 1 \/ toks[g - 1] \in GapsAfter
Gaps(p) == [g \in 1 .. Len(toks) + 1 |->
              IF MayHaveTrivia(g) /\ RandomElement(1 .. 1000) <= p THEN RandomElement(TriviaKinds) ELSE "none"]

SEmit ==
  /\ phase = "trivia"
  /\ phase' = "done"
  /\ \E pc \in {RandomElement(TriPcts)} :
     \E gs \in {Gaps(pc)}, xs \in {[k \in 1 .. nid |-> RandomElement(Suffixes)]} :
       PrintT("PROG " \o ToJson([r |-> root, d |-> dev, t |-> toks, k |-> gs, x |-> xs]))
  /\ UNCHANGED <<root, stk, toks, nid, dev, tri, prob>>

SNext == SExpand \/ SFinish \/ SEmit
SSpec == SInit /\ [][SNext]_svars
STypeOK == dev <= MaxDev /\ Len(toks) <= MaxLen
=============================================================================
