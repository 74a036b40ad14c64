-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line: one named file, changed by its owner and by runs of   *)
(* afmt.  Fmt(text, conf) is what the formatter answers; it is given by a  *)
(* small abstract table when histories are generated (CliGen) and by the   *)
(* recorded answers of the library when real histories are judged          *)
(* (CliTrace).                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANT Fmt(_, _)     \* <<"ok", text>> or <<"err", "">>

Modes == {"dry", "write", "check"}
BadConfs == {"badconf", "noconf"}     \* malformed, missing

(* The file: what is there, its text, what its owner may do with it, and    *)
(* whether the name is a symbolic link or one of two hard links.            *)
Kinds == {"text", "bytes", "missing", "dir"}
Perms == {"rw", "rwx", "ro", "none"}
Links == {"none", "sym", "hard"}

File(k, t, p) == [kind |-> k, text |-> t, perm |-> p, link |-> "none"]

Readable(f) == f.kind = "text" /\ f.perm # "none"
Writable(f) == f.perm \in {"rw", "rwx"}

Answer(f, conf) ==
  IF conf \in BadConfs \/ ~Readable(f) THEN <<"err", "">> ELSE Fmt(f.text, conf)

(* What a run does: its exit code, what it prints as the result, and the    *)
(* file it leaves.                                                          *)
Outcome(f, mode, conf) ==
  LET a == Answer(f, conf)
      fail == [code |-> 1, shows |-> <<"nothing", "">>, file |-> f]
      fine == [code |-> 0, shows |-> <<"nothing", "">>, file |-> f]
  IN IF a[1] # "ok" THEN fail
     ELSE CASE mode = "dry" -> [fine EXCEPT !.shows = <<"text", a[2]>>]
            [] mode = "check" -> IF a[2] = f.text THEN fine ELSE fail
            [] mode = "write" -> IF ~Writable(f) THEN fail
                                 ELSE [fine EXCEPT !.file = [f EXCEPT !.text = a[2]]]
=============================================================================
