---------------------------- MODULE ConfigTrace -----------------------------
(* Judges runs of the real command line under configuration files: the      *)
(* result must be what the library answers for the meaning of the file.     *)
EXTENDS Config, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
NCases == Len(Cases)

Answers(c, w, i) == {c.ans[q] : q \in {x \in 1 .. Len(c.ans) : c.ans[x][1] = w /\ c.ans[x][2] = i}}

BadRun(c, m) ==
  IF m[1] = "refused" \/ c.absent
  THEN UNION {IF c.code # 1 THEN {<<"configuration must be refused, exit code", c.code>>} ELSE {},
              IF c.after # c.before THEN {<<"changed the file under a refused configuration">>} ELSE {},
              IF c.err = "" THEN {<<"refused without a message">>} ELSE {}}
  ELSE LET as == Answers(c, m[2], m[3]) IN
       IF as = {} THEN {<<"no answer recorded for", m>>}
       ELSE LET a == CHOOSE x \in as : TRUE IN
            IF a[3] # "ok" THEN (IF c.code = 1 THEN {} ELSE {<<"exit code", c.code>>})
            ELSE IF c.mode = "check"
            THEN UNION {IF (c.code = 0) # (a[4] = c.before) THEN {<<"checked against another layout than", m>>} ELSE {},
                        IF c.after # c.before THEN {<<"changed the file">>} ELSE {}}
            ELSE UNION {IF c.code # 0 THEN {<<"exit code", c.code, "for", m>>} ELSE {},
                        IF c.mode = "dry" /\ c.out # a[4] \o "\n" THEN {<<"not the layout of", m>>} ELSE {},
                        IF c.mode = "write" /\ c.after # a[4] THEN {<<"did not write the layout of", m>>} ELSE {},
                        IF c.mode = "dry" /\ c.after # c.before THEN {<<"changed the file">>} ELSE {}}

Report(c, bad) == IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([id |-> c.id, why |-> bad]))

VARIABLE n
Init == n = 0
Next == n < NCases /\ n' = n + 1 /\ Report(Cases[n + 1], BadRun(Cases[n + 1], Meaning(Cases[n + 1].conf)))
Spec == Init /\ [][Next]_n
=============================================================================
