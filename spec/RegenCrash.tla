----------------------------- MODULE RegenCrash -----------------------------
(* One run of the tool in terms of single file-system operations, with      *)
(* kills and write errors between and inside them, followed by further      *)
(* runs.  Refines Regen!RunOk / Regen!Rejected: a run reads the tree, and   *)
(* then replaces file after file in no particular order.  A replacement     *)
(* goes through a scratch file and a rename; Replace = "inplace" is the     *)
(* naive alternative and is rejected by NeverTorn (see RegenCrashBad.cfg).  *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Dev,      \* developer-owned files: handler and create-once files
          Own,      \* files baron owns
          MaxVer,   \* developer versions
          Replace   \* "rename" | "inplace"

Files == Dev \cup Own
VARIABLES
  disk,    \* [Files -> content]
  tmp,     \* [Files -> content]   scratch files
  phase,   \* "idle" | "run"
  goal,    \* [Files -> content] what the current run is to produce
  todo,    \* files still to be replaced
  cur,     \* file being replaced, or "none"
  before,  \* [Files -> content] the tree the last run started from
  out      \* "none" | "ok" | "failed" | "killed": how the last run ended
vars == <<disk, tmp, phase, goal, todo, cur, before, out>>

\* a developer file's content: absent, torn, or version v, regenerated or not
Absent == <<"absent", 0, "">>
Torn == <<"torn", 0, "">>
V(v, g) == <<"ver", v, g>>   \* developer version v brought in line with definition g
NoTmp == <<"none", 0, "">>
Part == <<"part", 0, "">>
Defs == {"d1", "d2"}
IsV(c) == c[1] = "ver"

(* what a run makes of a file under definition d *)
Result(f, c, d) == IF f \in Own THEN V(0, d)
                   ELSE IF c = Absent THEN V(0, d)
                   ELSE IF c = Torn THEN Torn
                   ELSE IF f = "handler" THEN V(c[2], d) ELSE c

Init ==
  /\ disk = [f \in Files |-> Absent] /\ tmp = [f \in Files |-> NoTmp]
  /\ phase = "idle" /\ goal = disk /\ todo = {} /\ cur = "none"
  /\ before = disk /\ out = "none"

Edit(f, v) ==
  /\ phase = "idle" /\ f \in Dev /\ IsV(disk[f]) /\ disk[f][2] # v
  /\ disk' = [disk EXCEPT ![f] = V(v, @[3])]
  /\ out' = "none" /\ before' = disk'
  /\ UNCHANGED <<tmp, phase, goal, todo, cur>>

Begin(d) ==
  /\ phase = "idle" /\ phase' = "run"
  /\ goal' = [f \in Files |-> Result(f, disk[f], d)]
  /\ todo' = Files /\ cur' = "none" /\ before' = disk /\ out' = "none"
  /\ UNCHANGED <<disk, tmp>>
\* a definition or handler file that is not acceptable
Reject ==
  /\ phase = "idle" /\ out' = "failed" /\ before' = disk
  /\ UNCHANGED <<disk, tmp, phase, goal, todo, cur>>

Open(f) ==
  /\ phase = "run" /\ cur = "none" /\ f \in todo /\ cur' = f
  /\ IF Replace = "rename" THEN tmp' = [tmp EXCEPT ![f] = Part] /\ UNCHANGED disk
     ELSE disk' = [disk EXCEPT ![f] = Torn] /\ UNCHANGED tmp
  /\ UNCHANGED <<phase, goal, todo, before, out>>
Write ==
  /\ phase = "run" /\ cur # "none"
  /\ IF Replace = "rename" THEN tmp[cur] = Part /\ tmp' = [tmp EXCEPT ![cur] = goal[cur]] /\ UNCHANGED <<disk, cur, todo>>
     ELSE /\ disk' = [disk EXCEPT ![cur] = goal[cur]] /\ cur' = "none" /\ todo' = todo \ {cur} /\ UNCHANGED tmp
  /\ UNCHANGED <<phase, goal, before, out>>
Rename ==
  /\ phase = "run" /\ Replace = "rename" /\ cur # "none" /\ tmp[cur] # Part
  /\ disk' = [disk EXCEPT ![cur] = tmp[cur]] /\ tmp' = [tmp EXCEPT ![cur] = NoTmp]
  /\ todo' = todo \ {cur} /\ cur' = "none"
  /\ UNCHANGED <<phase, goal, before, out>>
Finish ==
  /\ phase = "run" /\ cur = "none" /\ todo = {}
  /\ phase' = "idle" /\ out' = "ok"
  /\ UNCHANGED <<disk, tmp, goal, todo, cur, before>>
\* an operation fails: the run gives up
Fail ==
  /\ phase = "run" /\ todo # {}
  /\ phase' = "idle" /\ out' = "failed" /\ todo' = {} /\ cur' = "none"
  /\ tmp' = [f \in Files |-> IF f = cur THEN NoTmp ELSE tmp[f]]
  /\ UNCHANGED <<disk, goal, before>>
Kill ==
  /\ phase = "run" /\ phase' = "idle" /\ out' = "killed" /\ todo' = {} /\ cur' = "none"
  /\ UNCHANGED <<disk, tmp, goal, before>>

Next == \/ \E f \in Dev, v \in 1..MaxVer : Edit(f, v)
        \/ \E d \in Defs : Begin(d)
        \/ Reject
        \/ \E f \in Files : Open(f)
        \/ Write \/ Rename \/ Finish \/ Fail \/ Kill
Spec == Init /\ [][Next]_vars

TypeOK == phase \in {"idle", "run"} /\ cur \in Files \cup {"none"} /\ todo \subseteq Files
(* C06 *)
NeverTorn == \A f \in Dev : disk[f] # Torn
OldOrNew == (phase = "run" \/ out \in {"ok", "failed", "killed"}) =>
              \A f \in Dev : disk[f] = before[f] \/ (phase = "run" /\ disk[f] = goal[f]) \/ (phase = "idle" /\ disk[f] = goal[f])
NeverMissing == \A f \in Dev : before[f] # Absent => disk[f] # Absent
OkIsComplete == (out = "ok" /\ phase = "idle") => disk = goal
\* after any number of interrupted runs a complete one gives what it would
\* have given at once: the developer version is the one last edited
EditsKept == [][\A f \in Dev : IsV(disk[f]) => IsV(disk'[f])]_vars
VersionKept == [][phase = "run" => \A f \in Dev : IsV(disk[f]) => disk'[f][2] = disk[f][2]]_vars
=============================================================================
