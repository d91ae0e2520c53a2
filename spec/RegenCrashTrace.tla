-------------------------- MODULE RegenCrashTrace --------------------------
(* Judges recorded faulty runs of the real tool.  A record gives, for every *)
(* developer file, whether it existed before the run and what was found     *)
(* afterwards, how the run ended, and the same after one more run.  The     *)
(* record is adopted as the post-state of RegenCrash and must satisfy its   *)
(* invariants.                                                              *)
EXTENDS RegenCrash, Json, IOUtils, Sequences
Trials == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<vars, tid, l>>
R == Trials[tid]
F == DOMAIN R.files
Old(f) == IF R.had[f] THEN V(1, "d1") ELSE Absent
New(f) == V(IF R.had[f] THEN 1 ELSE 0, "d2")
Seen(f) == CASE R.files[f] = "old" -> Old(f)
             [] R.files[f] = "new" -> New(f)
             [] R.files[f] = "missing" -> Absent
             [] OTHER -> Torn
TInit ==
  /\ tid \in DOMAIN Trials /\ l = 1
  /\ disk = [f \in F |-> Old(f)] /\ before = disk
  /\ goal = [f \in F |-> New(f)]
  /\ tmp = [f \in F |-> NoTmp] /\ phase = "idle" /\ todo = {} /\ cur = "none" /\ out = "none"
Named(n, c) == IF c THEN {} ELSE {n}
Judge(bad) == IF bad = {} THEN TRUE ELSE PrintT("@BAD " \o ToJson([tid |-> tid, l |-> l, bad |-> bad])) /\ FALSE
TornAt(d) == \E f \in F : d[f] = Torn
TFault ==
  /\ l = 1 /\ l' = 2
  /\ disk' = [f \in F |-> Seen(f)]
  /\ out' = R.res
  /\ UNCHANGED <<tid, before, goal, tmp, phase, todo, cur>>
  /\ Judge(Named("C06 developer file torn", \A f \in F : disk'[f] # Torn)
     \cup Named("C06 developer file missing", \A f \in F : before[f] # Absent => disk'[f] # Absent)
     \cup Named("C06 developer file neither old nor new", \A f \in F : disk'[f] \in {before[f], goal[f], Torn, Absent})
     \cup Named("C06 other file damaged", R.stray = "")
     \cup Named("C06 run reports success without its result", out' = "ok" => R.whole))
TRecover ==
  /\ l = 2 /\ l' = 3
  /\ disk' = IF R.rec = "same" THEN goal ELSE disk
  /\ out' = IF R.recok THEN "ok" ELSE "failed"
  /\ UNCHANGED <<tid, before, goal, tmp, phase, todo, cur>>
  /\ Judge(Named("C06 run after an interrupted one fails", R.recok)
     \cup Named("C06 run after an interrupted one gives another result", disk' = goal))
TNext == TFault \/ TRecover
Progress == PrintT("@P " \o ToString(tid) \o " " \o ToString(l'))
TSpec == TInit /\ [][TNext /\ Progress]_tvars
=============================================================================
