------------------------------ MODULE RegenMC ------------------------------
(* Exhaustive exploration of Regen with small constants, in two slices: the *)
(* handler file under changing definitions, and all other files under       *)
(* changing options.  The slices share RunOk, so every run still acts on    *)
(* the whole tree.                                                          *)
EXTENDS Regen
HandlerNext == DevelopDef \/ DevelopHandler \/ Runs
\* without rejected runs, which the files slice covers
HandlerQuickNext == DevelopDef \/ EditHandler \/ DelHandler \/ RunOk
FilesNext == \/ DevelopFiles \/ BreakHandler \/ MendHandler \/ DelHandler \/ Runs
            \/ \E i \in DOMAIN def, q \in QTypes, r \in RTypes : RetypeRpc(i, q, r)
HandlerInit == Init /\ opt.t = "all" /\ ~opt.c
FilesInit == Init
\* every kind of rejected run leads to one of the same two states
TwoBad == {"syntax", "nosvc"}
HandlerSpec == HandlerInit /\ [][HandlerNext]_vars
HandlerQuickSpec == HandlerInit /\ [][HandlerQuickNext]_vars
FilesSpec == FilesInit /\ [][FilesNext]_vars
=============================================================================
