----------------------------- MODULE ReaderTrace -----------------------------
(* Validates reads recorded from one process against ReaderHistory.  The     *)
(* meaning of a text is its outcome in a process of its own; step 0 judges   *)
(* those, step i the i-th read.  An outcome is a class and a number that     *)
(* stands for its full text.                                                  *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)[1]
VARIABLES l
Meaning(t) == Trace.fresh[t]
Say(t, ws) == IF ws = <<>> THEN TRUE
              ELSE PrintT("@BAD " \o ToJson([tid |-> 1, l |-> l, text |-> t, bad |-> ws]))
Init == l = 0
Fresh == /\ l = 0 /\ l' = 1
         /\ \A t \in DOMAIN Trace.fresh :
              Say(t, IF Meaning(t).c \in {"definition", "error"} THEN <<>> ELSE <<"C08 neither a definition nor an error">>)
Read == /\ l >= 1 /\ l <= Len(Trace.reads) /\ l' = l + 1
        /\ LET r == Trace.reads[l] IN
           Say(r.text, IF r.d = Meaning(r.text).d THEN <<>> ELSE <<"C08 outcome depends on what was read before">>)
Next == Fresh \/ Read
Spec == Init /\ [][Next]_l
=============================================================================
