------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Histories of one process: calls of the formatter in its threads with    *)
(* texts and configurations, files that change, and batches of the same    *)
(* Formatter objects again and again.  Whatever went before, a call        *)
(* answers what its text and configuration answer alone, and a batch what  *)
(* the files hold at the time.                                             *)
(*                                                                         *)
(* "twin" is a text that differs from "a" in one letter.  Flaws are        *)
(* mistakes with memory an implementation could make; the invariant must   *)
(* fail for each.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth, Flaws, Emit

Texts == {"a", "twin", "bad", "lost"}
Good == {"a", "twin"}
Confs == {"c1", "c2"}
Threads == {1, 2}
Files == {"p", "q"}
Formatters == << [conf |-> "c1", files |-> <<"p", "q">>],
                 [conf |-> "c2", files |-> <<"q", "p", "p">>],
                 [conf |-> "c1", files |-> <<"none", "q">>] >>

VARIABLES hist,   \* what was done
          disk,   \* file -> text, "none" when there is no file
          mem,    \* what an implementation might remember
          ans     \* answers of the last step, and what they must be
vars == <<hist, disk, mem, ans>>

Alone(t, c) == IF t \in Good THEN <<"ok", t, c>> ELSE <<"err", "", "">>

Nothing == << >>
Fresh == [conf |-> "none", text |-> [t \in Texts |-> Nothing], path |-> [f \in Files |-> Nothing], failed |-> FALSE]

(* The answer of a call to which text t, read from path f, and configuration c are given. *)
Answer(m, t, f, c) ==
  LET conf == IF "sticky" \in Flaws /\ m.conf # "none" THEN m.conf ELSE c
      key  == IF "near" \in Flaws /\ t = "twin" THEN "a" ELSE t
  IN IF "poisoned" \in Flaws /\ m.failed THEN <<"err", "", "">>
     ELSE IF "bytext" \in Flaws \cup (IF "near" \in Flaws THEN {"bytext"} ELSE {}) /\ t \in Good /\ m.text[key] # Nothing
          THEN IF "near" \in Flaws THEN <<"ok", m.text[key][2], c>> ELSE m.text[key]
     ELSE IF "bypath" \in Flaws /\ f \in Files /\ m.path[f] # Nothing THEN m.path[f]
     ELSE Alone(t, conf)

After(m, t, f, c) ==
  [ conf |-> IF m.conf = "none" THEN c ELSE m.conf,
    text |-> [m.text EXCEPT ![IF "near" \in Flaws /\ t = "twin" THEN "a" ELSE t] = IF @ = Nothing THEN Alone(t, c) ELSE @],
    path |-> IF f \in Files THEN [m.path EXCEPT ![f] = Alone(t, c)] ELSE m.path,
    failed |-> t \notin Good ]

Init == hist = << >> /\ disk = [f \in Files |-> "none"] /\ mem = Fresh /\ ans = << >>

Do(s) == Len(hist) < Depth /\ hist' = Append(hist, s)

One(w, t, c) ==
  /\ Do(<<"one", w, t, c>>)
  /\ ans' = <<<<Answer(mem, t, "none", c), Alone(t, c)>>>>
  /\ mem' = After(mem, t, "none", c)
  /\ UNCHANGED disk

Edit(f, t) ==
  /\ Do(<<"edit", f, t>>)
  /\ disk[f] # t
  /\ disk' = [disk EXCEPT ![f] = t]
  /\ ans' = << >>
  /\ UNCHANGED mem

Held(f) == IF f \in Files THEN disk[f] ELSE "none"
Must(f, c) == IF Held(f) = "none" THEN <<"err", "", "">> ELSE Alone(Held(f), c)

RECURSIVE Known(_, _, _)
Known(m, fs, c) == IF fs = << >> THEN m
                   ELSE Known(IF Held(Head(fs)) = "none" THEN m ELSE After(m, Held(Head(fs)), Head(fs), c), Tail(fs), c)

Batch(k) ==
  LET x == Formatters[k] IN
  /\ Do(<<"batch", k>>)
  /\ ans' = [q \in 1 .. Len(x.files) |->
               <<IF Held(x.files[q]) = "none" THEN Must(x.files[q], x.conf) ELSE Answer(mem, Held(x.files[q]), x.files[q], x.conf),
                 Must(x.files[q], x.conf)>>]
  /\ mem' = Known(mem, x.files, x.conf)
  /\ UNCHANGED disk

Next == /\ \/ \E w \in Threads, t \in Texts, c \in Confs : One(w, t, c)
           \/ \E f \in Files, t \in Texts \cup {"none"} : Edit(f, t)
           \/ \E k \in 1 .. Len(Formatters) : Batch(k)
        /\ (Emit /\ Len(hist') = Depth => PrintT("SESSION " \o ToJson(hist')))
Spec == Init /\ [][Next]_vars

Right == \A q \in 1 .. Len(ans) : ans[q][1] = ans[q][2]
=============================================================================
