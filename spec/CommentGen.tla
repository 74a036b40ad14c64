----------------------------- MODULE CommentGen -----------------------------
(***************************************************************************)
(* Texts of comments: line, block and doc comments of up to MaxLines       *)
(* lines, each line being what stands in front of the words, the words and *)
(* what stands behind them.  Pieces other than the usual ones are          *)
(* deviations, of which there may be MaxDev.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS MaxLines, MaxDev

Leads == << " * ", "", " ", "\t", "*", "  **", "     ", "* * ", "*-", "*\t" >>
Words == << "w", "", "*", "w  x", "@param y  z", "'it''s", "\"q", "x // y", "{ a; }", "/", "-- ", "<b>&amp;</b>", "**bold**", "w *" >>
Tails == << "", "  ", "\t" >>
Ends  == << " ", "", "*", " w ", "  ** ", "w" >>   \* what stands in front of the closing mark
Opens == [ line |-> << "//", "///", "// ", "//\t" >>, block |-> << "/*", "/* ", "/*-" >>, doc |-> << "/**", "/***", "/** " >> ]

VARIABLES kind, lines, dev, done
vars == <<kind, lines, dev, done>>

Cost(i) == IF i = 1 THEN 0 ELSE 1

Init == kind \in DOMAIN Opens /\ lines = << >> /\ dev = 0 /\ done = FALSE

(* The first line follows the opening mark.                                *)
First == /\ lines = << >>
         /\ \E o \in 1 .. Len(Opens[kind]), w \in 1 .. Len(Words), t \in 1 .. Len(Tails) :
              LET d == Cost(o) + (IF kind = "line" \/ w > 2 THEN Cost(w) ELSE 0) + Cost(t) IN
              /\ d <= MaxDev
              /\ dev' = d
              /\ lines' = <<Opens[kind][o] \o Words[w] \o Tails[t]>>
         /\ UNCHANGED <<kind, done>>

More == /\ lines # << >> /\ ~done /\ kind # "line" /\ Len(lines) < MaxLines
        /\ \E l \in 1 .. Len(Leads), w \in 1 .. Len(Words), t \in 1 .. Len(Tails) :
             LET d == dev + Cost(l) + Cost(w) + Cost(t) IN
             /\ d <= MaxDev
             /\ dev' = d
             /\ lines' = Append(lines, Leads[l] \o Words[w] \o Tails[t])
        /\ UNCHANGED <<kind, done>>

(* The closing mark stands at the end of the last line, or on its own.     *)
Close == /\ lines # << >> /\ ~done
         /\ done' = TRUE
         /\ IF kind = "line" THEN dev' = dev /\ lines' = lines
            ELSE \E e \in 1 .. Len(Ends) : \E own \in BOOLEAN :
                   /\ dev + Cost(e) <= MaxDev
                   /\ dev' = dev + Cost(e)
                   /\ lines' = IF own THEN Append(lines, Ends[e] \o "*/")
                               ELSE [lines EXCEPT ![Len(lines)] = @ \o Ends[e] \o "*/"]
         /\ UNCHANGED kind
         /\ PrintT("COMMENT " \o ToJson([kind |-> kind, lines |-> lines']))

Next == First \/ More \/ Close
Spec == Init /\ [][Next]_vars
Bounded == dev <= MaxDev /\ Len(lines) <= MaxLines + 1
=============================================================================
