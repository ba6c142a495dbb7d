---------------------------- MODULE RunnerTrace ----------------------------
(***************************************************************************)
(* Monitor of recorded executions of the real stage runners.  Reads an     *)
(* ndjson trace (many runs of many scenarios), replays every event through *)
(* the rules of PageRules and through the reduction rules below, and       *)
(* prints one line  <<"VIOL", aspect, run, line>>  per broken obligation.  *)
(* An event always has its effect, so that one broken obligation does not  *)
(* hide the rest.                                                          *)
(*                                                                         *)
(* Reduction rules: the marker stream of the scenario spells a forest of   *)
(* occurrences; each must be reduced once, after its children, with their  *)
(* values in input order (non-zero ones only unless the runners keep       *)
(* zeros), by the reducer holding its page if both its markers are on that *)
(* page and by the final reducer otherwise.                                *)
(***************************************************************************)
EXTENDS PageRules, TLC, Json, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Len_  == Len(Trace)

(* ----- occurrences spelled by a scenario's pages ----- *)
Flat(pages) == FoldLeft(LAMBDA acc, k : acc \o [i \in 1 .. Len(pages[k]) |-> <<pages[k][i], k - 1>>],
                        <<>>, [k \in 1 .. Len(pages) |-> k])
Occ(pages) ==
  LET step(acc, m) ==
        IF m[1][1] = "S"
        THEN [stk |-> Append(acc.stk, [id |-> m[1][2], s |-> m[1][3], p |-> m[2], kids |-> <<>>]), occ |-> acc.occ]
        ELSE LET n == Len(acc.stk)  top == acc.stk[n]
                 o == [id |-> top.id, s |-> top.s, x |-> m[1][3], ps |-> top.p, pe |-> m[2], kids |-> top.kids]
                 me == Len(acc.occ) + 1
                 rest == SubSeq(acc.stk, 1, n - 1)
             IN [stk |-> IF n = 1 THEN rest ELSE [rest EXCEPT ![n - 1].kids = Append(@, me)],
                 occ |-> Append(acc.occ, o)]
  IN FoldLeft(step, [stk |-> <<>>, occ |-> <<>>], Flat(pages)).occ
ScenLines == {i \in 1 .. Len_ : Trace[i].e = "scenario"}
OccOf == [i \in ScenLines |-> Occ(Trace[i].pages)]
KeyOf == [i \in ScenLines |-> [k \in {<<o.id, o.s, o.x>> : o \in Range(OccOf[i])} |->
            CHOOSE n \in 1 .. Len(OccOf[i]) : LET o == OccOf[i][n] IN <<o.id, o.s, o.x>> = k]]
CfgOf == [i \in ScenLines |-> [B |-> Trace[i].B, W |-> Trace[i].W, N |-> Len(Trace[i].pages), dry |-> Trace[i].dry]]

VARIABLES l,       \* next line
          sc,      \* line of the current scenario
          run,     \* number of the current run
          pg,      \* page state, as in PageRules
          ann,     \* per runner: what it has announced for the page it holds
          val,     \* per occurrence: result of its reduction, "" before
          gone     \* runners that have finished
vars == <<l, sc, run, pg, ann, val, gone>>

c == CfgOf[sc]
occ == OccOf[sc]
E == Trace[l]
Say(aspect, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", aspect, run, l>>)

Init == l = 1 /\ sc = 0 /\ run = -1 /\ pg = <<>> /\ ann = <<>> /\ val = <<>> /\ gone = {}

Scenario == E.e = "scenario" /\ sc' = l /\ UNCHANGED <<run, pg, ann, val, gone>>
Run == /\ E.e = "run" /\ run' = E.n /\ pg' = Fresh(c) /\ ann' = [t \in 0 .. (c.W + 1) |-> "none"]
       /\ val' = [i \in 1 .. Len(occ) |-> ""] /\ gone' = {} /\ UNCHANGED sc

(* a page's state was written *)
State ==
  /\ E.e = "st"
  /\ IF E.n = E.o THEN UNCHANGED <<pg, ann>>
     ELSE /\ Say("cycle", CycleOK(c, pg, E.t, E.b, E.n) /\ pg.st[E.b] = E.o)
          /\ Say("order", OrderOK(c, pg, E.t, E.b, E.n))
          /\ Say("early", EndOK(c, pg, E.t, E.b, E.n))
          /\ Say("dry", DryOK(c, pg, E.t, E.b, E.n))
          /\ Say("announce", (Trace[sc].xfer /\ E.o = "reducing" /\ E.n = "reduced") => ann[E.t] = "ended")
          /\ pg' = Step(c, pg, E.t, E.b, E.n)
          /\ ann' = IF E.n \in Holding THEN [ann EXCEPT ![E.t] = "none"] ELSE ann
  /\ UNCHANGED <<sc, run, val, gone>>

(* a page's memory was read or written (m: whose mapping) *)
Touch == /\ E.e = "touch" /\ Say("hold", pg.own[E.p] = E.t)
         /\ Say("announce", (Trace[sc].xfer /\ E.t = Final(c) /\ pg.own[E.p] = E.t) => ann[E.t] = "begun")
         /\ UNCHANGED <<sc, run, pg, ann, val, gone>>

(* the parser was given a page to fill *)
Feed == /\ E.e = "feed" /\ Say("hold", E.aligned /\ pg.own[E.p] = E.t /\ pg.st[E.p] = "filling")
        /\ UNCHANGED <<sc, run, pg, ann, val, gone>>

(* hand-over announcements *)
Mine(t) == Held(c, pg, t)
Xfer ==
  /\ E.e = "xfer"
  /\ IF Role(c, E.t) = "reducer"
     THEN IF E.i = -1
          THEN /\ Say("announce", Mine(E.t) # {} /\ ann[E.t] = "none")
               /\ Say("number", \E b \in Mine(E.t) : pg.page[b] = E.n)
               /\ ann' = [ann EXCEPT ![E.t] = "begun"]
          ELSE /\ Say("announce", Mine(E.t) = {E.i} /\ E.n = -1 /\ ann[E.t] = "begun")
               /\ ann' = [ann EXCEPT ![E.t] = "ended"]
     ELSE /\ Say("announce", Role(c, E.t) = "final" /\ Mine(E.t) = {E.i} /\ ann[E.t] = "none")
          /\ Say("number", \E b \in Mine(E.t) : pg.page[b] = E.n)
          /\ ann' = [ann EXCEPT ![E.t] = "begun"]
  /\ UNCHANGED <<sc, run, pg, val, gone>>

(* a reduction: symbol E.id over E.s..E.x with values E.v, giving E.r *)
Args(o) == LET vs == [i \in 1 .. Len(o.kids) |-> val[o.kids[i]]]
           IN IF Trace[sc].zeros THEN vs ELSE SelectSeq(vs, LAMBDA v : v # "0")
Reduce ==
  /\ E.e = "red"
  /\ LET k == <<E.id, E.s, E.x>> IN
     IF k \notin DOMAIN KeyOf[sc]
     THEN Say("reduce", FALSE) /\ UNCHANGED val
     ELSE LET n == KeyOf[sc][k]  o == occ[n] IN
          /\ Say("reduce", /\ val[n] = ""
                           /\ \A i \in 1 .. Len(o.kids) : val[o.kids[i]] # ""
                           /\ E.v = Args(o))
          /\ Say("place", IF o.ps = o.pe
                          THEN Role(c, E.t) = "reducer" /\ \E b \in Mine(E.t) : pg.page[b] = o.ps
                          ELSE Role(c, E.t) = "final")
          /\ val' = [val EXCEPT ![n] = E.r]
  /\ Say("announce", (Trace[sc].xfer /\ (Role(c, E.t) = "reducer" \/ Mine(E.t) # {})) => ann[E.t] = "begun")
  /\ UNCHANGED <<sc, run, pg, ann, gone>>

Exit == /\ E.e = "exit" /\ Say("exit", ExitOK(c, pg, E.t)) /\ gone' = gone \cup {E.t}
        /\ UNCHANGED <<sc, run, pg, ann, val>>

(* what was recorded of a captured run *)
Chunks == /\ E.e = "chunks" /\ Say("capture", E.n = c.N) /\ UNCHANGED <<sc, run, pg, ann, val, gone>>
Chunk  == /\ E.e = "chunk"
          /\ Say("capture", /\ E.k + 1 \in DOMAIN Trace[sc].pages
                            /\ E.w = Trace[sc].pages[E.k + 1] /\ E.size = Trace[sc].words)
          /\ UNCHANGED <<sc, run, pg, ann, val, gone>>
Counter == /\ E.e = "counter" /\ Say("counter", E.n \in {-1, Len(occ)}) /\ UNCHANGED <<sc, run, pg, ann, val, gone>>

End == /\ E.e = "end"
       /\ Say("exit", gone = {Parser} \cup (IF c.dry THEN {} ELSE Workers(c) \cup {Final(c)}))
       /\ Say("order", c.dry \/ pg.merged = c.N)
       /\ Say("order", c.dry \/ \A p \in DOMAIN pg.reds : pg.reds[p] = 1)
       /\ Say("reduce", \A i \in 1 .. Len(occ) : (val[i] # "") = ~c.dry)
       /\ UNCHANGED <<sc, run, pg, ann, val, gone>>
Stuck == /\ E.e = "stuck" /\ Say("stuck", FALSE) /\ UNCHANGED <<sc, run, pg, ann, val, gone>>
Crash == /\ E.e = "crash" /\ Say("crash", FALSE) /\ UNCHANGED <<sc, run, pg, ann, val, gone>>

Next == /\ l <= Len_ /\ l' = l + 1
        /\ (Scenario \/ Run \/ State \/ Touch \/ Feed \/ Xfer \/ Reduce \/ Exit \/ Chunks \/ Chunk
            \/ Counter \/ End \/ Stuck \/ Crash)
        /\ (l' > Len_ => PrintT(<<"TRACE-END", l>>))
Spec == Init /\ [][Next]_vars
(* every promise of the protocol, in every state of every run that had no violation so far *)
Accepted == TLCGet("stats").diameter - 1 = Len_
=============================================================================
