----------------------------- MODULE Pipeline ------------------------------
(***************************************************************************)
(* The three stages as the code runs them: one action per atomic access to *)
(* the shared window (BaseRunner.hpp, Stage1Runner.hpp, Stage2Runner*.hpp, *)
(* Stage3Runner*.hpp).  Refines Pages: every step is an allowed step of    *)
(* the abstract protocol or leaves it alone.                               *)
(***************************************************************************)
EXTENDS Pages
CONSTANTS MaxB, MaxW, MaxN, Spurious     \* Spurious: may compare_exchange_weak fail for no reason?

VARIABLES num,        \* number stamped into the page's entry
          sem,        \* semaphore the reducers wait on
          ppc, pi, pcount,            \* parser: control, scan index, non-free pages seen
          wpc, wi,                    \* reducers
          fpc, fi, fcount,            \* final reducer: control, scan index, next number
          fseq                        \* numbers of the pages it merged
vars == <<cfg, pg, gone, num, sem, ppc, pi, pcount, wpc, wi, fpc, fi, fcount, fseq>>

B == cfg.B
Inc(i) == (i + 1) % B
Do(t, b, new) == pg' = Step(cfg, pg, t, b, new)
Cur == CHOOSE b \in Banks(cfg) : pg.own[b] = Parser   \* the parser's current page

Configs == {c \in [B : 1..MaxB, W : 1..MaxW, N : 1..MaxN, dry : {FALSE}] : c.W <= c.B}
           \cup [B : 1..MaxB, W : {0}, N : 1..MaxN, dry : {TRUE}]

Init == /\ PInit(Configs)
        /\ num = [b \in Banks(cfg) |-> -1] /\ sem = 0
        /\ ppc = "reset" /\ pi = 0 /\ pcount = 0
        /\ wpc = [w \in Workers(cfg) |-> "wait"] /\ wi = [w \in Workers(cfg) |-> 0]
        /\ fpc = (IF cfg.dry THEN "end" ELSE "scan") /\ fi = 0 /\ fcount = 0 /\ fseq = <<>>

(* ------------------------------ parser ------------------------------ *)
PU == UNCHANGED <<cfg, wpc, wi, fpc, fi, fcount, fseq>>
PReset ==   \* marks every page free
  /\ ppc = "reset" /\ (IF pi = B - 1 THEN ppc' = "scan" /\ pi' = 0 ELSE ppc' = ppc /\ pi' = pi + 1)
  /\ pg.st[pi] = "free" /\ UNCHANGED <<pg, num, sem, gone, pcount>> /\ PU
PTakeOK ==
  /\ ppc = "scan" /\ pg.st[pi] = "free" /\ Do(Parser, pi, "filling") /\ ppc' = "fill"
  /\ UNCHANGED <<num, sem, gone, pcount, pi>> /\ PU
PTakeFail ==
  /\ ppc = "scan" /\ (pg.st[pi] # "free" \/ Spurious) /\ pi' = Inc(pi)
  /\ UNCHANGED <<pg, num, sem, gone, pcount, ppc>> /\ PU
PStamp ==   \* contents written, number stamped
  /\ ppc = "fill" /\ num' = [num EXCEPT ![Cur] = pg.made] /\ ppc' = "offer"
  /\ UNCHANGED <<pg, sem, gone, pcount, pi>> /\ PU
POffer ==
  /\ ppc = "offer" /\ Do(Parser, Cur, IF cfg.dry THEN "free" ELSE "filled") /\ ppc' = "post"
  /\ UNCHANGED <<num, sem, gone, pcount, pi>> /\ PU
PPost ==
  /\ ppc = "post" /\ sem' = sem + 1 /\ pi' = 0
  /\ IF pg.fed < cfg.N THEN ppc' = "scan" /\ UNCHANGED pcount ELSE ppc' = "drain" /\ pcount' = 0
  /\ UNCHANGED <<pg, num, gone>> /\ PU
PDrain ==   \* waits until all pages are free
  /\ ppc = "drain"
  /\ LET n == pcount + (IF pg.st[pi] # "free" THEN 1 ELSE 0) IN
     IF pi < B - 1 THEN pi' = pi + 1 /\ pcount' = n /\ ppc' = ppc
     ELSE pi' = 0 /\ pcount' = 0 /\ ppc' = IF n = 0 THEN "mark" ELSE "drain"
  /\ UNCHANGED <<pg, num, sem, gone>> /\ PU
PMark ==
  /\ ppc = "mark" /\ Do(Parser, pi, "done") /\ ppc' = "markpost" /\ UNCHANGED <<num, sem, gone, pcount, pi>> /\ PU
PMarkPost ==
  /\ ppc = "markpost" /\ sem' = sem + 1
  /\ IF pi < B - 1 THEN pi' = pi + 1 /\ ppc' = "mark" ELSE pi' = pi /\ ppc' = "end"
  /\ UNCHANGED <<pg, num, gone, pcount>> /\ PU
PEnd == /\ ppc = "end" /\ Parser \notin gone /\ gone' = gone \cup {Parser}
        /\ UNCHANGED <<pg, num, sem, ppc, pi, pcount>> /\ PU
PStep == PReset \/ PTakeOK \/ PTakeFail \/ PStamp \/ POffer \/ PPost \/ PDrain \/ PMark \/ PMarkPost \/ PEnd

(* ------------------------------ reducers ---------------------------- *)
WU == UNCHANGED <<cfg, num, ppc, pi, pcount, fpc, fi, fcount, fseq>>
WWait(w) == /\ wpc[w] = "wait" /\ sem > 0 /\ sem' = sem - 1 /\ wpc' = [wpc EXCEPT ![w] = "scan"]
            /\ wi' = [wi EXCEPT ![w] = 0] /\ UNCHANGED <<pg, gone>> /\ WU
WTakeOK(w) == /\ wpc[w] = "scan" /\ pg.st[wi[w]] = "filled" /\ Do(w, wi[w], "reducing")
              /\ wpc' = [wpc EXCEPT ![w] = "reduce"] /\ UNCHANGED <<sem, gone, wi>> /\ WU
WTakeFail(w) == /\ wpc[w] = "scan" /\ (pg.st[wi[w]] # "filled" \/ Spurious) /\ pg.st[wi[w]] # "done"
                /\ wi' = [wi EXCEPT ![w] = Inc(@)] /\ UNCHANGED <<pg, sem, gone, wpc>> /\ WU
WSeeDone(w) == /\ wpc[w] = "scan" /\ pg.st[wi[w]] = "done" /\ wpc' = [wpc EXCEPT ![w] = "end"]
               /\ gone' = gone \cup {w} /\ UNCHANGED <<pg, sem, wi>> /\ WU
WGive(w) == /\ wpc[w] = "reduce" /\ \E b \in Held(cfg, pg, w) : Do(w, b, "reduced")
            /\ wpc' = [wpc EXCEPT ![w] = "wait"] /\ UNCHANGED <<sem, gone, wi>> /\ WU
WStep(w) == WWait(w) \/ WTakeOK(w) \/ WTakeFail(w) \/ WSeeDone(w) \/ WGive(w)

(* --------------------------- final reducer -------------------------- *)
FU == UNCHANGED <<cfg, num, sem, ppc, pi, pcount, wpc, wi>>
FLook == /\ fpc = "scan"
         /\ CASE pg.st[fi] = "reduced" -> fpc' = "number" /\ fi' = fi
              [] OTHER -> fpc' = "again" /\ fi' = fi
         /\ UNCHANGED <<pg, gone, fcount, fseq>> /\ FU
FAgain == /\ fpc = "again"         \* second load of the state: the exit mark?
          /\ IF pg.st[fi] = "done" THEN fpc' = "end" /\ gone' = gone \cup {Final(cfg)} /\ fi' = fi
             ELSE fpc' = "scan" /\ fi' = Inc(fi) /\ gone' = gone
          /\ UNCHANGED <<pg, fcount, fseq>> /\ FU
FNumber == /\ fpc = "number"
           /\ IF num[fi] = fcount THEN fpc' = "take" /\ fi' = fi ELSE fpc' = "scan" /\ fi' = Inc(fi)
           /\ UNCHANGED <<pg, gone, fcount, fseq>> /\ FU
FTake == /\ fpc = "take" /\ Do(Final(cfg), fi, "merging") /\ fpc' = "merge"
         /\ fcount' = fcount + 1 /\ fseq' = Append(fseq, pg.page[fi]) /\ UNCHANGED <<gone, fi>> /\ FU
FGive == /\ fpc = "merge" /\ Do(Final(cfg), fi, "free") /\ fpc' = "scan" /\ fi' = 0
         /\ UNCHANGED <<gone, fcount, fseq>> /\ FU
FStep == FLook \/ FAgain \/ FNumber \/ FTake \/ FGive

Next == PStep \/ (\E w \in Workers(cfg) : WStep(w)) \/ FStep
(* fairness: every runner keeps running; a failing compare_exchange_weak does not fail forever *)
Fair == /\ WF_vars(PStep) /\ SF_vars(PTakeOK)
        /\ \A w \in 1 .. MaxW : WF_vars(w \in Workers(cfg) /\ WStep(w)) /\ SF_vars(w \in Workers(cfg) /\ WTakeOK(w))
        /\ WF_vars(FStep)
Spec == Init /\ [][Next]_vars /\ Fair

(* ----------------------------- properties --------------------------- *)
Refines      == PInit(Configs) /\ [][PNext]_pvars
InOrder      == fseq = [i \in 1 .. Len(fseq) |-> i - 1]
StampRight   == \A b \in Banks(cfg) : pg.st[b] \in {"filled", "reducing", "reduced", "merging"} => num[b] = pg.page[b]
SemBounded   == sem <= cfg.N + cfg.B
AllGone      == gone = {Parser} \cup Workers(cfg) \cup (IF cfg.dry THEN {} ELSE {Final(cfg)})
Termination  == <>AllGone
AllMerged    == AllGone => (cfg.dry \/ Len(fseq) = cfg.N)
NoDeadlock   == AllGone \/ ENABLED Next
Vw == <<cfg, pg, gone, num, sem, ppc, pi, pcount, wpc, wi, fpc, fi, fcount>>
=============================================================================
