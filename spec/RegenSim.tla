------------------------------ MODULE RegenSim ------------------------------
(* Random histories of Regen for replay: developer actions in bursts of up  *)
(* to MaxBurst, then a run.  Run with -simulate; every finished history is  *)
(* printed as one JSON line.                                                *)
EXTENDS Regen, Json, IOUtils
CONSTANTS MaxBurst, MaxRuns, MaxRpcs,
          BadShare, \* percentage of runs with unacceptable inputs
          Damage    \* how many more times of 100 the tree is damaged
(* as the tool lays out a new handler file *)
Layout == ndJsonDeserialize(IOEnv.LAYOUT)[1]
IsAbove == Layout.above
IsBelow == Layout.below
VARIABLES hist, burst, runs, ini
svars == <<vars, hist, burst, runs, ini>>

Pick(S) == RandomElement(S)
Chance(w, lo, hi) == w >= lo /\ w < hi

SimInit ==
  /\ def = <<[n |-> "A", q |-> "T1", r |-> "T1"]>>
  /\ opt = [t |-> "all", c |-> FALSE, s |-> "ab:a"]
  /\ hs = "absent" /\ h = <<>>
  /\ cf = [f \in Once |-> Absent] /\ of = [f \in Owned |-> Absent]
  /\ oth = [f \in Other |-> 0] /\ leg = {} /\ res = "none"
  /\ hist = <<>> /\ runs = 0 /\ burst = 0 /\ ini = <<>>

Start ==
  /\ \E m \in {Pick(1..3)} : \E ns \in {Pick({s \in [1..m -> Names] : \A i, j \in 1..m : i # j => s[i] # s[j]})} :
       \E qs \in {Pick([1..m -> QTypes])}, rs \in {Pick([1..m -> RTypes])} :
         def' = [i \in 1..m |-> [n |-> ns[i], q |-> qs[i], r |-> rs[i]]]
  /\ \E t \in {Pick(Transports)}, c \in {Pick(BOOLEAN)}, s \in {Pick(Splits)} : opt' = [t |-> t, c |-> c, s |-> s]
  /\ \E x \in {Pick(0..1)} : burst' = x
  /\ ini' = [def |-> def', opt |-> opt']
  /\ UNCHANGED <<hs, h, cf, of, oth, leg, res, hist, runs>>

Do(act, rec) == IF ENABLED act
                THEN act /\ hist' = Append(hist, rec)
                ELSE UNCHANGED <<vars, hist>>

Dev(w) ==
  \E i \in {Pick(1..(Len(def) + 1))}, j \in {Pick(1..(Len(h) + 1))},
     n \in {Pick(Names)}, q \in {Pick(QTypes)}, r \in {Pick(RTypes)}, b \in {Pick(1..MaxBody)},
     k \in {Pick(UserKinds)}, f \in {Pick(Once)}, g \in {Pick(Owned)}, x \in {Pick(Other)},
     l \in {Pick(Legacy)}, t \in {Pick(Transports)}, c \in {Pick(BOOLEAN)}, s \in {Pick(Splits)}, pl \in {Pick(Places)}, z \in {Pick(0..MaxBody)},
     un \in {Pick((Names \ RpcNames(def)) \cup {def[1].n})}, fr \in {Pick((Names \ Methods(h)) \cup {def[1].n})} :
    CASE Chance(w, 0, 13)  -> Do(Len(def) < MaxRpcs /\ AddRpc(i, un, q, r), [a |-> "AddRpc", i |-> i, n |-> un, q |-> q, r |-> r])
      [] Chance(w, 13, 16) -> Do(SetSplit(s), [a |-> "SetSplit", s |-> s])
      [] Chance(w, 16, 24) -> Do(DropRpc(i), [a |-> "DropRpc", i |-> i])
      [] Chance(w, 24, 30) -> Do(MoveRpc(i), [a |-> "MoveRpc", i |-> i])
      [] Chance(w, 30, 38) -> Do(RetypeRpc(i, q, r), [a |-> "RetypeRpc", i |-> i, q |-> q, r |-> r])
      [] Chance(w, 38, 41) -> Do(SetOpt(t, c), [a |-> "SetOpt", t |-> t, c |-> c])
      [] Chance(w, 41, 43) -> Do(Relink(pl), [a |-> "Relink", f |-> pl])
      [] Chance(w, 43, 56) -> Do(AddDecl(j, Plain(k, b)), [a |-> "AddDecl", i |-> j, d |-> Plain(k, b)])
      [] Chance(w, 56, 58) -> Do(AddDecl(j, Plain("ctor", b)), [a |-> "AddDecl", i |-> j, d |-> Plain("ctor", b)])
      [] Chance(w, 58, 64) -> Do(AddDecl(j, Meth(fr, q, r, b)), [a |-> "AddDecl", i |-> j, d |-> Meth(fr, q, r, b)])
      [] Chance(w, 64, 78) -> Do(EditDecl(j, b), [a |-> "EditDecl", i |-> j, b |-> b])
      [] Chance(w, 78, 81) -> Do(DelDecl(j), [a |-> "DelDecl", i |-> j])
      [] Chance(w, 81, 84) -> Do(SwapDecl(j), [a |-> "SwapDecl", i |-> j])
      [] Chance(w, 84, 85) -> Do(BreakHandler, [a |-> "BreakHandler"])
      [] Chance(w, 85, 88) -> IF hs = "broken" THEN Do(MendHandler, [a |-> "MendHandler"])
                              ELSE IF w = 85 THEN Do(DelHandler, [a |-> "DelHandler"])
                              ELSE UNCHANGED <<vars, hist>>
      [] Chance(w, 88, 91) -> Do(EditOnce(f, b), [a |-> "EditOnce", f |-> f, id |-> b])
      [] Chance(w, 91, 92) -> Do(DelOnce(f), [a |-> "DelOnce", f |-> f])
      [] Chance(w, 92, 95) -> Do(Tamper(g, b), [a |-> "Tamper", f |-> g, id |-> b])
      [] Chance(w, 95, 96) -> Do(DelOwned(g), [a |-> "DelOwned", f |-> g])
      [] Chance(w, 98, 99) -> Do(Clutter(b), [a |-> "Clutter", id |-> b])
      [] Chance(w, 96, 98) -> Do(PutOther(x, z), [a |-> "PutOther", f |-> x, id |-> z])
      [] OTHER             -> Do(PutLegacy(l), [a |-> "PutLegacy", f |-> l])

Damages == <<84, 91, 95, 99, 98>>
DevStep == \E w \in {Pick(0..(99 + Damage))} : Dev(IF w < 100 THEN w ELSE Damages[(w % 5) + 1])
RunStep(w) ==
  IF hs = "broken" THEN of' = of /\ RunBroken /\ hist' = Append(hist, [a |-> "RunBroken"])
  ELSE IF w < BadShare THEN \E k \in {Pick(BadDefs)} :
         of' = of /\ RunBadDef(k)
         /\ hist' = Append(hist, [a |-> "RunBadDef", kind |-> k])
  ELSE RunOk /\ hist' = Append(hist, [a |-> "RunOk"])

SimNext ==
  /\ runs < MaxRuns
  /\ IF ini = <<>> THEN Start
     ELSE IF burst > 0
     THEN DevStep /\ burst' = burst - 1 /\ UNCHANGED <<runs, ini>>
     ELSE /\ \E w \in {Pick(0..99)} : RunStep(w)
          /\ \E x \in {Pick(0..MaxBurst)} : burst' = x
          /\ runs' = runs + 1
          /\ UNCHANGED ini
          /\ IF runs' = MaxRuns
             THEN PrintT("@@" \o ToJson([init |-> ini, steps |-> hist']))
             ELSE TRUE
SimSpec == SimInit /\ [][SimNext]_svars
=============================================================================
