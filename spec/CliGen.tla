------------------------------- MODULE CliGen -------------------------------
(***************************************************************************)
(* Histories of a file under its owner's edits and runs of afmt.           *)
(*                                                                         *)
(* The abstract formatter: "raw" is not formatted, "fmt" is its result with *)
(* the default configuration and "fmt2" with another one; "broken" has a   *)
(* syntax error, "odd" is refused for another reason; "empty" is empty.    *)
(* A write takes two steps, truncating the file and filling it; with       *)
(* Faults the second may not happen (no space left, killed).               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Confs, Faults, Emit

AbsFmt(t, conf) ==
  CASE t \in {"broken", "odd"} -> <<"err", "">>
    [] t = "cut" -> <<"err", "">>
    [] t \in {"raw", "fmt", "fmt2"} -> <<"ok", IF conf = "conf2" THEN "fmt2" ELSE "fmt">>
    [] t = "empty" -> <<"ok", "blank">>
    [] t = "blank" -> <<"ok", "blank">>

C == INSTANCE Cli WITH Fmt <- AbsFmt

Texts == {"raw", "fmt", "broken", "odd", "empty"}

VARIABLES file, hist, pend, last, lost

vars == <<file, hist, pend, last, lost>>

NoRun == [mode |-> "", conf |-> "", code |-> 0, before |-> C!File("missing", "", "rw")]

Init == /\ file = C!File("missing", "", "rw")
        /\ hist = << >> /\ pend = << >> /\ last = NoRun /\ lost = FALSE

Free == pend = << >> /\ Len(hist) < Depth

(* Edits that change nothing or follow an edit are left out.                *)
EditedLast == hist # << >> /\ hist[Len(hist)][1] \in {"edit", "make"}

Edit(t) == /\ Free /\ ~EditedLast
           /\ file' = C!File("text", t, "rw")
           /\ hist' = Append(hist, <<"edit", t>>)
           /\ last' = NoRun
           /\ UNCHANGED <<pend, lost>>

Make(k) == /\ Free /\ ~EditedLast
           /\ file' = C!File(k, "", "rw")
           /\ hist' = Append(hist, <<"make", k>>)
           /\ last' = NoRun
           /\ UNCHANGED <<pend, lost>>

Chmod(p) == /\ Free /\ file.kind = "text" /\ file.perm # p
            /\ hist # << >> /\ hist[Len(hist)][1] # "chmod"
            /\ file' = [file EXCEPT !.perm = p]
            /\ hist' = Append(hist, <<"chmod", p>>)
            /\ last' = NoRun
            /\ UNCHANGED <<pend, lost>>

Link(k) == /\ Free /\ file.kind = "text" /\ file.link = "none" /\ k # "none"
           /\ file' = [file EXCEPT !.link = k]
           /\ hist' = Append(hist, <<"link", k>>)
           /\ last' = NoRun
           /\ UNCHANGED <<pend, lost>>

Run(m, c) ==
  /\ Free
  /\ LET o == C!Outcome(file, m, c) IN
     /\ hist' = Append(hist, <<"run", m, c>>)
     /\ last' = [mode |-> m, conf |-> c, code |-> o.code, before |-> file]
     /\ IF Faults /\ o.file # file
        THEN pend' = <<o.file>> /\ file' = [file EXCEPT !.text = "cut"]
        ELSE pend' = << >> /\ file' = o.file
  /\ UNCHANGED lost

Fill == /\ pend # << >> /\ file' = pend[1] /\ pend' = << >> /\ UNCHANGED <<hist, last, lost>>

Fault == /\ pend # << >> /\ pend' = << >> /\ lost' = TRUE
         /\ last' = [last EXCEPT !.code = 1]
         /\ UNCHANGED <<file, hist>>

Next ==
  /\ \/ \E t \in Texts : Edit(t)
     \/ \E k \in {"bytes", "dir", "missing"} : Make(k)
     \/ \E p \in C!Perms : Chmod(p)
     \/ \E k \in C!Links : Link(k)
     \/ \E m \in C!Modes, c \in Confs : Run(m, c)
     \/ Fill
     \/ Fault
  /\ (Emit /\ Len(hist') = Depth /\ Len(hist') > Len(hist) => PrintT("HIST " \o ToJson(hist')))

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ran == last.mode # "" /\ pend = << >>

(* Only a run that writes and succeeds changes the file.                    *)
OnlyWriteChanges == Ran /\ file # last.before => last.mode = "write" /\ last.code = 0

(* Its name, permissions and links stay what they are.                      *)
SameFile == Ran => [file EXCEPT !.text = ""] = [last.before EXCEPT !.text = ""]

(* A run that says it checked or wrote the file speaks the truth: checking  *)
(* again with the same configuration succeeds.                              *)
Truth == Ran /\ last.code = 0 /\ last.mode \in {"write", "check"} =>
            C!Outcome([file EXCEPT !.perm = "rw"], "check", last.conf).code = 0

(* A dry run succeeds exactly when a write could.                           *)
Agree == Ran => (C!Outcome(file, "dry", last.conf).code = 0 <=>
                 C!Outcome([file EXCEPT !.perm = IF @ = "ro" THEN "rw" ELSE @], "write", last.conf).code = 0)

(* Whatever happens, the file has its old text or the new one.              *)
NeverCut == pend = << >> => file.text # "cut"
=============================================================================
