-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* Calls of the formatter that run at the same time or one after the other.*)
(*                                                                         *)
(* Every worker is a thread with a list of texts.  A batch starts one      *)
(* worker for each file; each reads its file, formats it and sends         *)
(* (number, result) through a channel; the main thread collects what is    *)
(* sent until no sender is left and puts it in the order of the files.     *)
(* A call parses, stores source and comments in thread-local variables,    *)
(* builds the output from them and checks that no comment was left; each   *)
(* of these steps may fail, and a failure is caught in the worker.  The    *)
(* variables keep what a failed call left in them.                         *)
(*                                                                         *)
(* Flaws switches on mistakes an implementation could make; the invariants *)
(* must fail for each of them (that is how we know they say something).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Workers,     \* number of workers
          MaxLen,      \* texts of a worker
          Classes,     \* classes of texts
          Batch,       \* TRUE: one text each, from a file, results through the channel
          Flaws,
          Emit

AllClasses == {"ok1", "ok2", "unreadable", "syntax", "odd", "lost"}
AllFlaws == {"shared", "stale", "unsorted", "uncaught", "lazy"}
ASSUME Classes \subseteq AllClasses /\ Flaws \subseteq AllFlaws

W == 1 .. Workers
Lists == UNION {[1 .. l -> Classes] : l \in (IF Batch THEN {1} ELSE 1 .. MaxLen)}

(* What a text gives in a process of its own.                               *)
Alone(t) == IF t \in {"ok1", "ok2"} THEN <<"ok", t>> ELSE <<"err", "">>

VARIABLES lists,   \* worker -> texts
          at,      \* worker -> number of the current text
          pc,      \* worker -> step of the current call
          store,   \* worker -> what its thread-local variables hold
          res,     \* worker -> results of its calls so far
          order,   \* workers in the order in which they read their files
          chan, main, out

vars == <<lists, at, pc, store, res, order, chan, main, out>>

Empty == [src |-> "none", cm |-> "none"]
Slot(w) == IF "shared" \in Flaws THEN 1 ELSE w
Text(w) == lists[w][at[w]]

Init ==
  /\ lists \in [W -> Lists]
  /\ at = [w \in W |-> 1]
  /\ pc = [w \in W |-> IF Batch THEN "new" ELSE "read"]
  /\ store = [w \in W |-> Empty]
  /\ res = [w \in W |-> << >>]
  /\ order = << >>
  /\ chan = << >>
  /\ main = IF Batch THEN "spawn" ELSE "wait"
  /\ out = << >>

Stay == UNCHANGED <<lists, chan, main, out>>

(* The main thread of a batch starts the workers in the order of the files. *)
Spawn ==
  /\ main = "spawn"
  /\ LET new == {w \in W : pc[w] = "new"} IN
     IF new = {} THEN main' = "collect" /\ UNCHANGED pc
     ELSE LET w == CHOOSE x \in new : \A y \in new : x <= y
          IN pc' = [pc EXCEPT ![w] = "read"] /\ UNCHANGED main
  /\ UNCHANGED <<lists, at, store, res, order, chan, out>>

Goto(w, p) == pc' = [pc EXCEPT ![w] = p]

(* A panic ends the call; it is caught where the worker was started.        *)
Fail(w) == Goto(w, IF "uncaught" \in Flaws THEN "gone" ELSE "failed")

Read(w) ==
  /\ pc[w] = "read"
  /\ IF Text(w) = "unreadable" THEN Fail(w) ELSE Goto(w, "parse")
  /\ order' = IF Batch THEN Append(order, w) ELSE order
  /\ UNCHANGED <<at, store, res>> /\ Stay

Parse(w) ==
  /\ pc[w] = "parse"
  /\ IF Text(w) = "syntax" THEN Fail(w) ELSE Goto(w, "setsrc")
  /\ UNCHANGED <<at, store, res, order>> /\ Stay

SetSrc(w) ==
  /\ pc[w] = "setsrc"
  /\ store' = IF "stale" \in Flaws /\ store[Slot(w)].src # "none" THEN store
              ELSE [store EXCEPT ![Slot(w)].src = Text(w)]
  /\ Goto(w, "setcm")
  /\ UNCHANGED <<at, res, order>> /\ Stay

SetCm(w) ==
  /\ pc[w] = "setcm"
  /\ store' = [store EXCEPT ![Slot(w)].cm =
                 IF "lazy" \in Flaws /\ Text(w) = "ok2" THEN @ ELSE Text(w)]
  /\ Goto(w, "build")
  /\ UNCHANGED <<at, res, order>> /\ Stay

(* The output is made of the source and the comments in the variables; what *)
(* it is right for is what both belong to.                                  *)
Made(w) == LET s == store[Slot(w)] IN
           IF s.src = Text(w) /\ s.cm = Text(w) THEN Text(w) ELSE "garbage"

Build(w) ==
  /\ pc[w] = "build"
  /\ IF Text(w) = "odd" THEN Fail(w) /\ UNCHANGED res
     ELSE /\ Goto(w, "check")
          /\ res' = [res EXCEPT ![w] = Append(@, <<"ok", Made(w)>>)]
  /\ UNCHANGED <<at, store, order>> /\ Stay

Check(w) ==
  /\ pc[w] = "check"
  /\ IF store[Slot(w)].cm = "lost"
     THEN /\ Fail(w)
          /\ res' = [res EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
     ELSE Goto(w, "over") /\ UNCHANGED res
  /\ UNCHANGED <<at, store, order>> /\ Stay

Caught(w) ==
  /\ pc[w] = "failed"
  /\ res' = [res EXCEPT ![w] = Append(@, <<"err", "">>)]
  /\ Goto(w, "over")
  /\ UNCHANGED <<at, store, order>> /\ Stay

(* The call is over: send its result, or go on with the next text.          *)
Over(w) ==
  /\ pc[w] = "over"
  /\ IF Batch
     THEN chan' = Append(chan, <<w, res[w][1]>>) /\ Goto(w, "gone") /\ UNCHANGED at
     ELSE IF at[w] < Len(lists[w])
     THEN at' = [at EXCEPT ![w] = @ + 1] /\ Goto(w, "read") /\ UNCHANGED chan
     ELSE Goto(w, "gone") /\ UNCHANGED <<at, chan>>
  /\ UNCHANGED <<lists, store, res, order, main, out>>

Collect ==
  /\ main = "collect"
  /\ chan # << >>
  /\ out' = Append(out, Head(chan))
  /\ chan' = Tail(chan)
  /\ UNCHANGED <<lists, at, pc, store, res, order, main>>

Sorted(s) == SortSeq(s, LAMBDA a, b : a[1] < b[1])

(* All senders are gone and the channel is empty.                           *)
Return ==
  /\ \/ main = "collect" /\ chan = << >>
     \/ main = "wait"
  /\ \A w \in W : pc[w] = "gone"
  /\ main' = "done"
  /\ out' = IF "unsorted" \in Flaws THEN out ELSE Sorted(out)
  /\ (Emit => PrintT("JOBS " \o ToJson([lists |-> lists, order |-> order])))
  /\ UNCHANGED <<lists, at, pc, store, res, order, chan>>

Next == \/ Spawn \/ Collect \/ Return
        \/ \E w \in W : \/ Read(w) \/ Parse(w) \/ SetSrc(w) \/ SetCm(w) \/ Build(w)
                        \/ Check(w) \/ Caught(w) \/ Over(w)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
TypeOK ==
  /\ main \in {"spawn", "collect", "wait", "done"}
  /\ pc \in [W -> {"new", "read", "parse", "setsrc", "setcm", "build", "check", "failed", "over", "gone"}]
  /\ \A w \in W : at[w] \in 1 .. Len(lists[w])

(* Every call answers what it would answer alone.                           *)
Isolated == \A w \in W : pc[w] \in {"read", "over", "gone"} =>
              \A q \in 1 .. Len(res[w]) : res[w][q] = Alone(lists[w][q])
AllAnswered == main = "done" => \A w \in W : Len(res[w]) = Len(lists[w])

(* A batch returns one result for each file, in the order of the files.     *)
InOrder == main = "done" /\ Batch =>
              /\ Len(out) = Workers
              /\ \A w \in W : out[w] = <<w, Alone(lists[w][1])>>

(* Nothing is sent twice.                                                   *)
OnceEach == \A a, b \in 1 .. Len(chan) + Len(out) :
              a # b => (out \o chan)[a][1] # (out \o chan)[b][1]

Ends == <>(main = "done")
=============================================================================
