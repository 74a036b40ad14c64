------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* Judges recorded batches and threads against what Jobs.tla establishes:  *)
(* whatever the schedule, a batch returns one result for each file in the  *)
(* order of the files, and every call answers what it answers alone.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)

Unreadable == {"missing", "dir", "bytes"}

(* What file q of the batch must give (Alone of Jobs.tla).                  *)
Answer(c, f) == IF f[1] \in Unreadable THEN [st |-> "err", o |-> 0] ELSE c.alone[f[2]]

BadBatch(c) ==
  IF Len(c.files) = 0 THEN {}
  ELSE IF Len(c.res) # Len(c.files) THEN {<<"results", Len(c.res), "files", Len(c.files)>>}
  ELSE {<<"file", q, c.files[q], "order", c.order, "gave", c.res[q], "must give", Answer(c, c.files[q])>> :
          q \in {x \in 1 .. Len(c.files) : c.res[x] # Answer(c, c.files[x])}}

BadThreads(c) ==
  IF Len(c.thr) # Len(c.threads) THEN {<<"threads", Len(c.thr)>>}
  ELSE UNION {
    {<<"thread", w, "call", q, "gave", c.thr[w][q], "must give", c.alone[c.threads[w][q]]>> :
       q \in {x \in 1 .. Len(c.threads[w]) : c.thr[w][x] # c.alone[c.threads[w][x]]}} : w \in 1 .. Len(c.threads)}

(* A session: the steps of Session.tla with what they answered.  Disk is the  *)
(* text of a file before step k (0: no file).                                *)
RECURSIVE Disk(_, _, _)
Disk(c, f, k) == IF k = 1 THEN 0
                 ELSE LET s == c.steps[k - 1]
                      IN IF s[1] = "edit" /\ s[2] = f THEN s[3] ELSE Disk(c, f, k - 1)

Must(c, k) ==
  LET s == c.steps[k]
      held(f) == Disk(c, f, k)
      conf == IF s[1] = "batch" THEN c.formatters[s[3]][1] ELSE s[4]
      files == IF s[1] = "batch" THEN c.formatters[s[3]][2] ELSE << >>
  IN CASE s[1] = "one"  -> <<c.table[s[3]][conf]>>
       [] s[1] = "edit" -> << >>
       [] OTHER -> [q \in 1 .. Len(files) |-> IF held(files[q]) = 0 THEN [st |-> "err", o |-> 0] ELSE c.table[held(files[q])][conf]]

BadSession(c) ==
  IF Len(c.answers) # Len(c.steps) THEN {<<"steps", Len(c.steps), "answers", Len(c.answers)>>}
  ELSE {<<"step", k, c.steps[k], "gave", c.answers[k], "must give", Must(c, k)>> :
          k \in {x \in 1 .. Len(c.steps) : c.answers[x] # Must(c, x)}}

Bad(c) ==
  IF c.st = "skip" THEN {}
  ELSE IF c.st # "done" THEN {<<"the calls did not return", c.st>>}
  ELSE BadBatch(c) \cup BadThreads(c) \cup BadSession(c)

Report(c, bad) == IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> c.id, why |-> bad]))

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], Bad(Cases[n + 1]))
Spec == Init /\ [][Next]_n
=============================================================================
