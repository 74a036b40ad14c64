------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Judges recorded histories of the real command line.                     *)
(*                                                                         *)
(* A case has texts, a table ans of what the library answers for a text and *)
(* a configuration, and steps; each step carries what was observed: the    *)
(* file before and after, exit code, output, and the names of other files  *)
(* that changed.  The file must follow the transitions of Cli.tla.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)

VARIABLES n,      \* case
          s,      \* steps used up
          file    \* the file as the specification has it: kind, text, permission

TableFmt(t, conf) ==
  LET a == CHOOSE x \in {Cases[n].ans[q] : q \in 1 .. Len(Cases[n].ans)} : x[1] = t /\ x[2] = conf
  IN <<a[3], a[4]>>

C == INSTANCE Cli WITH Fmt <- TableFmt

Seen(o) == [kind |-> o[1], text |-> o[2], perm |-> o[3], link |-> o[4]]

BadRun(e, o) ==
  LET saw == Seen(e.after) IN
  UNION {
    IF e.code # o.code THEN {<<"exit code", e.code, "must be", o.code>>} ELSE {},
    IF saw # o.file THEN {<<"the file became", e.after, "must be", o.file>>} ELSE {},
    IF Len(e.others) # 0 THEN {<<"changed other files", e.others>>} ELSE {},
    IF o.shows[1] = "text" /\ e.out # o.shows[2] \o "\n" THEN {<<"printed", e.out, "must print", o.shows[2]>>} ELSE {},
    IF o.code = 0 /\ e.timed # e.asked THEN {<<"execution time shown", e.timed>>} ELSE {},
    IF o.code # 0 /\ e.err = "" THEN {<<"failed without a message">>} ELSE {}
  }

Report(c, bad) == IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> c.id, why |-> bad]))

Init == n = 1 /\ s = 0 /\ file = C!File("missing", "", "rw")

Step ==
  /\ n <= NCases
  /\ s < Len(Cases[n].steps)
  /\ LET c == Cases[n]
         e == c.steps[s + 1]
     IN IF e.act = "run"
        THEN LET o == C!Outcome(file, e.mode, e.conf) IN
             /\ Report(c, {<<"step", s + 1, e.mode, e.conf, b>> : b \in BadRun(e, o)})
             /\ file' = Seen(e.after)
        ELSE IF e.act = "fault"   \* the run could not finish writing
        THEN LET o == C!Outcome(file, e.mode, e.conf) IN
             /\ Report(c, IF Seen(e.after) \in {file, o.file} THEN {}
                          ELSE {<<"step", s + 1, "an interrupted write left neither the old nor the new text", e.after>>})
             /\ file' = Seen(e.after)
        ELSE IF e.act = "usage"
        THEN /\ Report(c, IF e.code = 2 /\ Seen(e.after) = file /\ Len(e.others) = 0 THEN {}
                          ELSE {<<"step", s + 1, "wrong use", e.code, e.after>>})
             /\ file' = Seen(e.after)
        ELSE file' = Seen(e.after)
  /\ s' = s + 1 /\ n' = n

NextCase ==
  /\ n <= NCases
  /\ s = Len(Cases[n].steps)
  /\ n' = n + 1 /\ s' = 0 /\ file' = C!File("missing", "", "rw")

Next == Step \/ NextCase
Spec == Init /\ [][Next]_<<n, s, file>>
=============================================================================
