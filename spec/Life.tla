-------------------------------- MODULE Life --------------------------------
(***************************************************************************)
(* Life of runs: runner <<g, k>> is the k-th of run g (0 the parser, 1..W  *)
(* the reducers, W+1 the final reducer).  A user constructs, starts, waits *)
(* for and destroys them; the parser creates the named shared memory and   *)
(* the named semaphore, which the others attach to, and removes the names  *)
(* when destroyed.  Runs of one process share the names (they contain its  *)
(* number), so that a run begins when the parser of the one before it is   *)
(* gone; its other runners may still be there.                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS W, Runs, Dry

Parser == 0
Final == W + 1
Roles(g) == IF g \in Dry THEN {Parser} ELSE 0 .. Final
All == {<<g, k>> : g \in 1 .. Runs, k \in 0 .. Final}
Of(g) == {<<g, k>> : k \in Roles(g)}

VARIABLES at,      \* per runner: none, made, running, over, gone
          names,   \* what the names of the shared memory and the semaphore designate: a run, 0: nothing
          holds,   \* per runner: what it has mapped, [mem, sem] (0: nothing) and whether the input
          taken    \* runs whose names could not be created: somebody left them behind
lvars == <<at, names, holds, taken>>

Nothing == [mem |-> 0, sem |-> 0, input |-> FALSE]
LInit == /\ at = [r \in All |-> "none"]
         /\ names = [mem |-> 0, sem |-> 0]
         /\ holds = [r \in All |-> Nothing]
         /\ taken = {}

Begun(g) == \E r \in Of(g) : at[r] # "none"
Present(r) == at[r] \in {"made", "running", "over"}
(* ---- what a user may do ---- *)
MayMake(r) == /\ at[r] = "none" /\ r \in Of(r[1])
              /\ IF r[2] = Parser THEN \A h \in 1 .. (r[1] - 1) : at[<<h, Parser>>] = "gone"
                 ELSE at[<<r[1], Parser>>] \in {"made", "running"} /\ \A q \in Of(r[1]) : at[q] # "gone"
MayStart(r) == at[r] = "made" /\ \A q \in Of(r[1]) : at[q] # "gone"
MayWait(r) == at[r] = "running" /\ \A q \in Of(r[1]) : at[q] \in {"running", "over", "gone"}
MayDestroy(r) == \/ at[r] = "over"
                 \/ at[r] = "made" /\ \A q \in Of(r[1]) : at[q] \in {"none", "made", "gone"}     \* a run given up
(* ---- what happens ---- *)
Make(r) == /\ MayMake(r)
           /\ at' = [at EXCEPT ![r] = "made"]
           /\ IF r[2] = Parser
              THEN /\ names' = [mem |-> r[1], sem |-> r[1]]
                   /\ taken' = IF names.mem # 0 \/ names.sem # 0 THEN taken \cup {r[1]} ELSE taken
              ELSE UNCHANGED <<names, taken>>
           /\ holds' = [holds EXCEPT ![r] = [mem |-> names'.mem, sem |-> IF r[2] = Final THEN 0 ELSE names'.sem, input |-> TRUE]]
Start(r) == MayStart(r) /\ at' = [at EXCEPT ![r] = "running"] /\ UNCHANGED <<names, holds, taken>>
Wait(r) == MayWait(r) /\ at' = [at EXCEPT ![r] = "over"] /\ UNCHANGED <<names, holds, taken>>
Destroy(r) == /\ MayDestroy(r)
              /\ at' = [at EXCEPT ![r] = "gone"]
              /\ holds' = [holds EXCEPT ![r] = Nothing]
              /\ names' = IF r[2] = Parser THEN [mem |-> 0, sem |-> 0] ELSE names
              /\ UNCHANGED taken
LNext == \E r \in All : Make(r) \/ Start(r) \/ Wait(r) \/ Destroy(r)

(* ---- promises ---- *)
Quiet == \A r \in All : ~Present(r)
Clean == Quiet => names = [mem |-> 0, sem |-> 0] /\ \A r \in All : holds[r] = Nothing
Apart == \A r \in All : Present(r) => holds[r].mem = r[1] /\ holds[r].sem \in {0, r[1]}     \* nobody works on another run's pages
Repeatable == taken = {}
Threads_ == Cardinality({r \in All : at[r] = "running"})
=============================================================================
