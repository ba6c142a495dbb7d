------------------------------ MODULE LifeTrace ------------------------------
(***************************************************************************)
(* Histories carried out with the real runners, replayed through Life; one *)
(* line per history.  Whenever nothing of any run is left, nothing may     *)
(* exist that was not there at the beginning; every complete run must have *)
(* reduced its input as a sequential reduction does, whatever went before. *)
(***************************************************************************)
EXTENDS Life, Sequences, SequencesExt, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, p       \* history, next call
vars == <<lvars, i, p>>
C == Cases[i]
Say(aspect, ok) == IF ok THEN TRUE ELSE PrintT(<<"VIOL", aspect, i, p>>)

Begin(k) == /\ i' = k /\ p' = 1
            /\ at' = [r \in All |-> "none"] /\ names' = [mem |-> 0, sem |-> 0] /\ holds' = [r \in All |-> Nothing] /\ taken' = {}
Init == LInit /\ i = 1 /\ p = 1

Exists == {"shm", "sem", "win", "smap", "inp", "ro", "fds", "thr", "mem"}
Kind(f) == CASE f \in {"shm", "sem"} -> "name" [] f \in {"win", "smap", "inp", "ro"} -> "mapping" [] f = "fds" -> "descriptor" [] f = "thr" -> "thread" [] OTHER -> "memory"
Get(o, f) == CASE f = "shm" -> o.shm [] f = "sem" -> o.sem [] f = "win" -> o.win [] f = "smap" -> o.smap [] f = "inp" -> o.inp [] f = "ro" -> o.ro [] f = "fds" -> o.fds [] f = "thr" -> o.thr [] OTHER -> o.mem

Act(o, r) == CASE o = "c" -> Make(r) [] o = "s" -> Start(r) [] o = "w" -> Wait(r) [] o = "d" -> Destroy(r)
Call == /\ C.k = "life" /\ p < Len(C.ops)
        /\ LET o == C.ops[p + 1] IN
           /\ IF ENABLED Act(o.o, <<o.g, o.k>>) THEN Act(o.o, <<o.g, o.k>>) ELSE Assert(FALSE, <<"history not of the specification", i, p>>)
           /\ LET quiet == \A r \in All : at'[r] \notin {"made", "running", "over"} IN
              \A f \in Exists : Say(Kind(f), quiet => Get(o, f) <= Get(C.ops[1], f))
        /\ p' = p + 1 /\ UNCHANGED i

(* ---- the outcome of a complete run ---- *)
Occ(marks) ==
  LET step(acc, m) ==
        IF m[1] = "S" THEN [stk |-> Append(acc.stk, [id |-> m[2], s |-> m[3], kids |-> <<>>]), occ |-> acc.occ]
        ELSE LET n == Len(acc.stk)  o == [id |-> acc.stk[n].id, s |-> acc.stk[n].s, x |-> m[3], kids |-> acc.stk[n].kids]
                 rest == SubSeq(acc.stk, 1, n - 1)
             IN [stk |-> IF n = 1 THEN rest ELSE [rest EXCEPT ![n - 1].kids = Append(@, Len(acc.occ) + 1)], occ |-> Append(acc.occ, o)]
  IN FoldLeft(step, [stk |-> <<>>, occ |-> <<>>], marks).occ
Complete(g) == \A r \in Of(g) : at[r] = "gone"
Outcome(g) ==
  LET R == C.runs[g]
      occ == Occ(R.marks)
      nr(o) == {n \in 1 .. Len(R.log) : R.log[n].id = o.id /\ R.log[n].s = o.s /\ R.log[n].x = o.x}
      the(o) == CHOOSE n \in nr(o) : TRUE
      args(o) == LET vs == [k \in 1 .. Len(o.kids) |-> R.log[the(occ[o.kids[k]])].r] IN IF R.zeros THEN vs ELSE SelectSeq(vs, LAMBDA v : v # 0)
  IN /\ Say("input", R.wrong \notin {"input", "tail", "size", "window", "windowinput", "windowtail", "sizetail", "sizeinput"})
     /\ Say("captured", R.wrong # "captured")
     /\ Say("result", R.end = R.size)
     /\ IF R.dry THEN Say("outcome", R.log = <<>>)
        ELSE Say("outcome", /\ Len(R.log) = Len(occ) /\ R.counter = Len(occ)
                            /\ \A k \in 1 .. Len(occ) : Cardinality(nr(occ[k])) = 1
                            /\ \A k \in 1 .. Len(occ) : /\ R.log[the(occ[k])].v = args(occ[k])
                                                        /\ \A j \in 1 .. Len(occ[k].kids) : the(occ[occ[k].kids[j]]) < the(occ[k]))
(* a run that was started has been started as a whole (see MayDestroy) *)
Started(g) == \E n \in 1 .. Len(C.ops) : C.ops[n].o = "w" /\ C.ops[n].g = g
Finish == /\ IF C.k # "life" THEN Say("stuck", FALSE)
             ELSE /\ p = Len(C.ops)
                  /\ Clean /\ Apart /\ Repeatable
                  /\ \A g \in 1 .. Len(C.runs) : (Complete(g) /\ Started(g)) => Outcome(g)
          /\ IF i = Len(Cases) THEN PrintT(<<"CASES-END">>) /\ i' = i + 1 /\ p' = 0 /\ UNCHANGED lvars ELSE Begin(i + 1)
Next == i <= Len(Cases) /\ (Call \/ Finish)
Spec == Init /\ [][Next]_vars
Judged == TRUE
=============================================================================
