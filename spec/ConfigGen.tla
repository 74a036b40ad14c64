----------------------------- MODULE ConfigGen ------------------------------
(* Every configuration of up to MaxLines lines, of which at most MaxFull may *)
(* be of any kind (the others set a key to a number).                        *)
EXTENDS Config

CONSTANTS MaxLines, MaxOdd

Plain == {<<"set", "max_width", "int", v>> : v \in {"20", "40", "120"}} \cup {<<"set", "indent_size", "int", v>> : v \in {"3", "4"}}
All == Sets("max_width") \cup Sets("indent_size") \cup Unknown \cup Others

VARIABLES conf, odd
Init == conf = << >> /\ odd = 0 /\ PrintT("CONF " \o ToJson([c |-> << >>, m |-> Meaning(<< >>)]))
Next == /\ Len(conf) < MaxLines
        /\ \E l \in All :
             /\ conf' = Append(conf, l)
             /\ odd' = odd + (IF l \in Plain THEN 0 ELSE 1)
             /\ odd' <= MaxOdd
        /\ PrintT("CONF " \o ToJson([c |-> conf', m |-> Meaning(conf')]))
Spec == Init /\ [][Next]_<<conf, odd>>

(* The meaning is one of the values the file names or a default.            *)
Sane == LET m == Meaning(conf) IN
        m[1] = "ok" => /\ m[2] = "80" \/ \E q \in 1 .. Len(conf) : conf[q][2] = "max_width" /\ conf[q][4] = m[2]
                       /\ m[3] = "2" \/ \E q \in 1 .. Len(conf) : conf[q][2] = "indent_size" /\ conf[q][4] = m[3]
(* Lines that set neither key do not matter.                                *)
Idle == \A q \in 1 .. Len(conf) :
          (conf[q][1] = "comment") => Meaning(conf) = Meaning(SubSeq(conf, 1, q - 1) \o SubSeq(conf, q + 1, Len(conf)))
=============================================================================
