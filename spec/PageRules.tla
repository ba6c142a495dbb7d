----------------------------- MODULE PageRules -----------------------------
(***************************************************************************)
(* The life of a page of the shared window, as rules over a record.        *)
(* This module has no variables: the abstract protocol (Pages), the model  *)
(* of the implementation (Pipeline) and the monitor of recorded executions *)
(* (RunnerTrace) all use the same rules.                                   *)
(*                                                                         *)
(* c  : configuration  [B, W, N, dry]   (pages in the window, reducers,    *)
(*      pages the parser will produce, dry run?)                           *)
(* Runner 0 is the parser, 1..W are the reducers, W+1 is the final reducer.*)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

Banks(c)   == 0 .. (c.B - 1)
Workers(c) == 1 .. c.W
Parser     == 0
Final(c)   == c.W + 1
Nobody     == -1

States == {"free", "filling", "filled", "reducing", "reduced", "merging", "done"}

Role(c, t) == IF t = Parser THEN "parser"
              ELSE IF t \in Workers(c) THEN "reducer"
              ELSE IF t = Final(c) THEN "final" ELSE "unknown"

(* who may make which change of a page's state *)
Entitled == { <<"parser",  "free",     "filling">>,
              <<"parser",  "filling",  "filled">>,
              <<"reducer", "filled",   "reducing">>,
              <<"reducer", "reducing", "reduced">>,
              <<"final",   "reduced",  "merging">>,
              <<"final",   "merging",  "free">>,
              <<"parser",  "free",     "done">> }
EntitledDry == { <<"parser", "free",    "filling">>,
                 <<"parser", "filling", "free">>,
                 <<"parser", "free",    "done">> }

Holding == {"filling", "reducing", "merging"}

Fresh(c) == [ st     |-> [b \in Banks(c) |-> "free"],
              own    |-> [b \in Banks(c) |-> Nobody],     \* who holds the page
              page   |-> [b \in Banks(c) |-> -1],         \* production number of its contents
              fed    |-> 0,                               \* pages the parser has taken
              made   |-> 0,                               \* pages the parser has finished
              reds   |-> [p \in 0 .. (c.N - 1) |-> 0],    \* times page p was reduced
              merged |-> 0 ]                              \* pages merged so far

Held(c, pg, t) == {b \in Banks(c) : pg.own[b] = t}

(* ----- what each step owes, by aspect ----- *)
CycleOK(c, pg, t, b, new) ==
  /\ <<Role(c, t), pg.st[b], new>> \in (IF c.dry THEN EntitledDry ELSE Entitled)
  /\ pg.st[b] \in Holding => pg.own[b] = t          \* only its holder gives a page up
  /\ new \in Holding => Held(c, pg, t) = {}          \* a stage works on one page at a time
OrderOK(c, pg, t, b, new) ==
  /\ new = "merging" => pg.page[b] = pg.merged + Cardinality({x \in Banks(c) : pg.st[x] = "merging"})
  /\ new = "reduced" => (pg.page[b] \in DOMAIN pg.reds => pg.reds[pg.page[b]] = 0)
  /\ new = "filled"  => pg.made < c.N
  /\ new = "filling" => pg.fed < c.N
EndOK(c, pg, t, b, new) ==
  new = "done" => /\ pg.fed = c.N /\ pg.made = c.N
                  /\ c.dry \/ pg.merged = c.N
DryOK(c, pg, t, b, new) == c.dry => new \in {"filling", "free", "done"}

StepOK(c, pg, t, b, new) ==
  /\ CycleOK(c, pg, t, b, new) /\ OrderOK(c, pg, t, b, new)
  /\ EndOK(c, pg, t, b, new) /\ DryOK(c, pg, t, b, new)

(* ----- what each step does, whether or not it was allowed ----- *)
Step(c, pg, t, b, new) ==
  LET old == pg.st[b]
      p1 == [pg EXCEPT !.st[b] = new, !.own[b] = IF new \in Holding THEN t ELSE Nobody]
  IN CASE new = "filling" -> [p1 EXCEPT !.fed = @ + 1]
       [] new = "filled"  -> [p1 EXCEPT !.page[b] = pg.made, !.made = @ + 1]
       [] new = "reduced" -> IF pg.page[b] \in DOMAIN pg.reds
                             THEN [p1 EXCEPT !.reds[pg.page[b]] = @ + 1] ELSE p1
       [] new = "free" /\ old = "merging" -> [p1 EXCEPT !.merged = @ + 1, !.page[b] = -1]
       [] new = "free" /\ old = "filling" -> [p1 EXCEPT !.made = @ + 1]
       [] OTHER -> p1

(* a stage may leave only when nothing is outstanding *)
ExitOK(c, pg, t) == /\ pg.fed = c.N /\ pg.made = c.N
                    /\ c.dry \/ pg.merged = c.N
                    /\ Held(c, pg, t) = {}

(* ----- the promises of the protocol ----- *)
TypeOK(c, pg) == /\ pg.st  \in [Banks(c) -> States]
                 /\ pg.own \in [Banks(c) -> (0 .. (c.W + 1)) \cup {Nobody}]
                 /\ pg.fed \in 0 .. c.N /\ pg.made \in 0 .. c.N /\ pg.merged \in 0 .. c.N
OneHolder(c, pg) ==
  \A b \in Banks(c) : /\ pg.st[b] \in Holding <=> pg.own[b] # Nobody
                      /\ pg.st[b] = "filling"  => pg.own[b] = Parser
                      /\ pg.st[b] = "reducing" => pg.own[b] \in Workers(c)
                      /\ pg.st[b] = "merging"  => pg.own[b] = Final(c)
OnePageEach(c, pg) == \A t \in 0 .. (c.W + 1) : Cardinality(Held(c, pg, t)) <= 1
(* every page that was produced and not yet merged is in exactly one slot *)
NoneLost(c, pg) ==
  ~c.dry => \A p \in 0 .. (pg.made - 1) :
    Cardinality({b \in Banks(c) : pg.page[b] = p /\ pg.st[b] \in {"filled", "reducing", "reduced", "merging"}})
      = IF p < pg.merged THEN 0 ELSE 1
OnceEach(c, pg) ==
  \A p \in DOMAIN pg.reds : /\ pg.reds[p] <= 1
                            /\ p < pg.merged => pg.reds[p] = 1
DoneLate(c, pg) == (\E b \in Banks(c) : pg.st[b] = "done") => pg.made = c.N /\ (c.dry \/ pg.merged = c.N)
DryQuiet(c, pg) == c.dry => \A b \in Banks(c) : pg.st[b] \in {"free", "filling", "done"}
=============================================================================
