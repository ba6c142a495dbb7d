------------------------------- MODULE Pages -------------------------------
(* The abstract page protocol: any entitled step may happen, pages are      *)
(* merged in production order, stages leave when nothing is outstanding.    *)
EXTENDS PageRules
VARIABLES cfg, pg, gone       \* gone: runners that have finished
pvars == <<cfg, pg, gone>>

PInit(Configs) == cfg \in Configs /\ pg = Fresh(cfg) /\ gone = {}

Move == \E t \in 0 .. (cfg.W + 1) : t \notin gone /\ \E b \in Banks(cfg), new \in States :
          StepOK(cfg, pg, t, b, new) /\ pg' = Step(cfg, pg, t, b, new) /\ UNCHANGED <<cfg, gone>>
Leave == \E t \in 0 .. (cfg.W + 1) :
          t \notin gone /\ ExitOK(cfg, pg, t) /\ gone' = gone \cup {t} /\ UNCHANGED <<cfg, pg>>
PNext == Move \/ Leave

PInv == /\ TypeOK(cfg, pg) /\ OneHolder(cfg, pg) /\ OnePageEach(cfg, pg) /\ NoneLost(cfg, pg)
        /\ OnceEach(cfg, pg) /\ DoneLate(cfg, pg) /\ DryQuiet(cfg, pg)
Nondry == {[B |-> b, W |-> w, N |-> n, dry |-> FALSE] : b \in 1..3, w \in 1..3, n \in 1..4}
DryCfg == {[B |-> b, W |-> 0, N |-> n, dry |-> TRUE] : b \in 1..3, n \in 1..3}
MCConfigs == Nondry \cup DryCfg
PSpec == PInit(MCConfigs) /\ [][PNext]_pvars
=============================================================================
