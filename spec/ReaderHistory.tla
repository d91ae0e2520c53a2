---------------------------- MODULE ReaderHistory ----------------------------
(* A process reading definitions one after another.  Every text has one      *)
(* outcome, a definition or an error; a read yields it whatever was read     *)
(* before.  Leaky describes the faulty design in which nesting left open by  *)
(* one text is carried into the next.                                         *)
EXTENDS Naturals, Sequences
CONSTANTS Texts, Leaky, MaxReads
VARIABLES meaning, leaves, st, hist
vars == <<meaning, leaves, st, hist>>
Outcomes == {"definition1", "definition2", "error"}
Init == /\ meaning \in [Texts -> Outcomes]
        /\ leaves \in [Texts -> 0..1]       \* nesting left open at its end
        /\ st = 0 /\ hist = <<>>
Outcome(t) == IF st = 0 THEN meaning[t] ELSE "error"
Read(t) == /\ Len(hist) < MaxReads
           /\ hist' = Append(hist, [t |-> t, o |-> Outcome(t)])
           /\ st' = IF Leaky THEN leaves[t] ELSE 0
           /\ UNCHANGED <<meaning, leaves>>
Next == \E t \in Texts : Read(t)
Spec == Init /\ [][Next]_vars
Total == \A i \in DOMAIN hist : hist[i].o \in Outcomes
Isolated == \A i, j \in DOMAIN hist : hist[i].t = hist[j].t => hist[i].o = hist[j].o
=============================================================================
